#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
S("fixed-string-8", fixedCase<Fix<Str, 8>, false>);
S("hybrid-string-3", fixedCase<Hyb<Str, 3>, false>);
S("hybrid-pod-1", fixedCase<Hyb<Pod, 1>, false>);
S("fixed-wide-4", fixedCase<Fix<Wide, 4>, false>);
S("hybrid-wide-2", fixedCase<Hyb<Wide, 2>, false>);
