#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 1200, 40000, __VA_ARGS__)
// the zoo of element classes
S("fixed-final-5", fixedCase<Fix<ZFinal, 5>, false>);
S("hybrid-polymorphic-3", fixedCase<Hyb<ZPoly, 3>, false>);
S("fixed-big-4", fixedCase<Fix<ZBig, 4>, false>);
S("hybrid-big-2", fixedCase<Hyb<ZBig, 2>, false>);
S("hybrid-stateless-3", fixedCase<Hyb<ZEmpty, 3>, false>);
S("fixed-explicit-5", fixedCase<Fix<ZExplicit, 5>, false>);
S("hybrid-explicit-3", fixedCase<Hyb<ZExplicit, 3>, false>);
S("hybrid-self-3", fixedCase<Hyb<ZSelf, 3>, false>);
S("fixed-plain-6", fixedCase<Fix<ZTriv, 6>, false>);
S("hybrid-plain-3", fixedCase<Hyb<ZTriv, 3>, false>);
S("fixed-operators-5", fixedCase<Fix<ZOps, 5>, false>);
S("hybrid-operators-3", fixedCase<Hyb<ZOps, 3>, false>);
