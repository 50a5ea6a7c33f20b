#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
S("fault-fixed-copyonly-5", fixedCase<Fix<Tracked<2>, 5>, true>);
S("fault-hybrid-copyonly-3", fixedCase<Hyb<Tracked<2>, 3>, true>);
S("fault-fixed-throwmove-5", fixedCase<Fix<Tracked<3>, 5>, true>);
S("fault-hybrid-throwmove-3", fixedCase<Hyb<Tracked<3>, 3>, true>);
S("fault-fixed-nodefault-4", fixedCase<Fix<NoDefault, 4>, true>);
