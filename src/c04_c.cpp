#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
S("fixed-moveonly-5", fixedCase<Fix<Tracked<1>, 5>, false>);
S("hybrid-moveonly-3", fixedCase<Hyb<Tracked<1>, 3>, false>);
S("hybrid-copyonly-3", fixedCase<Hyb<Tracked<2>, 3>, false>);
S("fixed-nodefault-5", fixedCase<Fix<NoDefault, 5>, false>);
