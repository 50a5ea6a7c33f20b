#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
S("fixed-int-7", fixedCase<Fix<int, 7>, false>);
S("hybrid-int-5", fixedCase<Hyb<int, 5>, false>);
S("fixed-full-6", fixedCase<Fix<Tracked<0>, 6>, false>);
S("hybrid-full-4", fixedCase<Hyb<Tracked<0>, 4>, false>);
VX_FN("fixed-large", 20, 200, fixedCase<Fix<int, 66500>, false>)
VX_FN("hybrid-large", 20, 200, fixedCase<Hyb<int, 22100>, false>)
