// platforms where fused multiply-add is fast: the library uses it
#define Nz NzFma
#include <cmath>
#undef FP_FAST_FMA
#undef FP_FAST_FMAF
#undef FP_FAST_FMAL
#define FP_FAST_FMA 1
#define FP_FAST_FMAF 1
#define FP_FAST_FMAL 1
#include <NazaraUtils/MathUtils.hpp>
#include "vx.hpp"
#include <limits>
using namespace vx;
namespace
{
	template<class T> T any(Rng& r) { T m = (T) r.bits() / (T) ((u64) 1 << 63) - 1; if (r.chance(1, 8)) return (T) (int) r.below(5) - 2; return std::ldexp(m, (int) r.range(-40, 40)); }
	template<class T> void run(Ctx& cx)
	{
		Rng& r = cx.rng;
		for (int k = 0; k < 50; ++k)
		{
			T x = any<T>(r), y = any<T>(r), z = any<T>(r); if (r.chance(1, 3)) z = -x * y; // cancellation: what fusing is for
			volatile T vx_ = x, vy = y, vz = z; volatile T prod = vx_ * vy, sum = prod + vz; T want = std::fma(x, y, z), two = sum, got = Nz::MultiplyAdd(x, y, z);
			cx.log("MultiplyAdd(%La, %La, %La)", (long double) x, (long double) y, (long double) z); VX_TRUE("multiply-add", got == want || got == two); cx.count("fused multiply-adds"); cx.mix(k);
		}
	}
}
VX_FN("fused-float", 40, 800, run<float>)
VX_FN("fused-double", 40, 800, run<double>)
VX_FN("fused-long-double", 40, 800, run<long double>)
VX_SUITE("fused-integers", 40, 400) { int x = (int) cx.rng.below(40000), y = (int) cx.rng.below(40000), z = (int) cx.rng.below(1000000); cx.log("%d %d %d", x, y, z); VX_EQ("multiply-add", Nz::MultiplyAdd<i64>(x, y, z), (i64) x * y + z); VX_EQ("multiply-add", Nz::MultiplyAdd(x / 40, y / 40, z), x / 40 * (y / 40) + z); }
