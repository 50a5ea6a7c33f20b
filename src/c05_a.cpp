#include "seq_model.hpp"
using namespace sq;
template<class T, std::size_t N> using Fix = FixedA<T, N, false>;
template<class T, std::size_t N> using Hyb = FixedA<T, N, true>;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
S("fault-fixed-full-6", fixedCase<Fix<Tracked<0>, 6>, true>);
S("fault-hybrid-full-3", fixedCase<Hyb<Tracked<0>, 3>, true>);
S("fault-hybrid-moveonly-3", fixedCase<Hyb<Tracked<1>, 3>, true>);
S("fault-fixed-moveonly-5", fixedCase<Fix<Tracked<1>, 5>, true>);
S("memory-hybrid-int-3", fixedCase<Hyb<int, 3>, true>);
S("memory-hybrid-string-3", fixedCase<Hyb<Str, 3>, true>);
S("memory-fixed-string-5", fixedCase<Fix<Str, 5>, true>);
