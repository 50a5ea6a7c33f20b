#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 1200, 40000, __VA_ARGS__)
// the zoo of element classes
S("fault-fixed-final-5", fixedCase<Fix<ZFinal, 5>, true>);
S("fault-hybrid-final-3", fixedCase<Hyb<ZFinal, 3>, true>);
S("fault-fixed-polymorphic-4", fixedCase<Fix<ZPoly, 4>, true>);
S("fault-hybrid-polymorphic-3", fixedCase<Hyb<ZPoly, 3>, true>);
S("fault-hybrid-big-2", fixedCase<Hyb<ZBig, 2>, true>);
S("fault-fixed-stateless-5", fixedCase<Fix<ZEmpty, 5>, true>);
S("fault-hybrid-stateless-3", fixedCase<Hyb<ZEmpty, 3>, true>);
S("fault-hybrid-explicit-3", fixedCase<Hyb<ZExplicit, 3>, true>);
S("fault-hybrid-operators-3", fixedCase<Hyb<ZOps, 3>, true>);
S("memory-hybrid-self-3", fixedCase<Hyb<ZSelf, 3>, true>);
