#include "vx.hpp"
#include <NazaraUtils/Constants.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <cmath>
#include <limits>
using namespace vx;
// floating-point helpers and constants
namespace
{
	template<class T> using L = std::numeric_limits<T>;
	template<class T> bool same(T a, T b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)); }
	template<class T> T pick(Rng& r)
	{
		switch (r.below(10))
		{
			case 0: return T(0) * (r.coin() ? 1 : -1);
			case 1: return L<T>::max() * (r.coin() ? 1 : -1);
			case 2: return L<T>::denorm_min() * T(r.below(5)) * (r.coin() ? 1 : -1);
			case 3: return L<T>::min() * (r.coin() ? 1 : -1);
			case 4: return T(r.range(-1000, 1000));
			case 5: return T(r.range(-1000, 1000)) / 8;
			case 6: { T v = T((i64) r.next()) * L<T>::epsilon(); return v; }
			case 7: return std::ldexp(T(1) + T(r.below(1000)) / 1000, (int) r.range(-40, 40)) * (r.coin() ? 1 : -1);
			default: { if constexpr (sizeof(T) == 4) { u32 b = (u32) r.next(); T v; std::memcpy(&v, &b, 4); return v; } else if constexpr (sizeof(T) == 8) { u64 b = r.next(); T v; std::memcpy(&v, &b, 8); return v; } else return std::ldexp(T((i64) r.next()), (int) r.range(-16000, 16000)); }
		}
	}
	template<class T> T finite(Rng& r) { for (;;) { T v = pick<T>(r); if (std::isfinite(v)) return v; } }
	template<class T> void constant(const char* name, T got, const char* digits) { T want = sizeof(T) == 4 ? (T) std::strtof(digits, nullptr) : sizeof(T) == 8 ? (T) std::strtod(digits, nullptr) : (T) std::strtold(digits, nullptr); ++cur->checks; if (got != want) fail(name, "%s is %.20Lg, expected %.20Lg", name, (long double) got, (long double) want); }
	template<class T> void constants()
	{
		#define K(N, D) constant<T>(#N, Nz::N<T>(), D); { T v = Nz::N(); constant<T>(#N "<void>", v, D); } constant<T>(#N " (MathConstants)", Nz::MathConstants<T>::N(), D);
		K(Pi, "3.14159265358979323846264338327950288") K(HalfPi, "1.57079632679489661923132169163975144") K(Tau, "6.28318530717958647692528676655900577")
		K(Sqrt2, "1.41421356237309504880168872420969808") K(Sqrt3, "1.73205080756887729352744634150587237") K(Sqrt5, "2.23606797749978969640917366873127624")
		#undef K
	}
	template<class T> void limits()
	{
		T a = Nz::MaxValue(), b = Nz::MinValue();
		VX_TRUE("MaxValue", Nz::MaxValue<T>() == L<T>::max() && a == L<T>::max()); VX_TRUE("MinValue", Nz::MinValue<T>() == L<T>::min() && b == L<T>::min());
		VX_TRUE("BitCount", Nz::BitCount<T> == sizeof(T) * 8);
		if constexpr (std::is_floating_point_v<T>)
		{
			T i = Nz::Infinity(), n = Nz::NaN();
			VX_TRUE("Infinity", Nz::Infinity<T>() == L<T>::infinity() && i == L<T>::infinity()); VX_TRUE("NaN", Nz::NaN<T>() != Nz::NaN<T>() && n != n);
		}
	}
	template<class T> void run(Ctx& cx)
	{
		Rng& r = cx.rng;
		cx.log("100 operand tuples");
		for (int k = 0; k < 100; ++k)
		{
			T any = r.chance(1, 4) ? (r.coin() ? L<T>::infinity() : r.coin() ? -L<T>::infinity() : r.coin() ? L<T>::quiet_NaN() : -L<T>::quiet_NaN()) : pick<T>(r);
			bool inf = any == L<T>::infinity() || any == -L<T>::infinity(), nan = !(any == any);
			VX_EQ("IsNaN", Nz::IsNaN(any), nan); VX_EQ("IsInfinity", Nz::IsInfinity(any), inf); VX_EQ("IsFinite", Nz::IsFinite(any), !nan && !inf);
			T a = finite<T>(r), b = r.chance(1, 4) ? std::nextafter(a, T(r.range(-1, 1))) : r.chance(1, 4) ? a : finite<T>(r), c = finite<T>(r);
			if (k < 3) { cx.log("%.20Lg %.20Lg %.20Lg", (long double) a, (long double) b, (long double) c); double da = (double) a, db = (double) b; u64 ua, ub; std::memcpy(&ua, &da, 8); std::memcpy(&ub, &db, 8); cx.mix(ua); cx.mix(ub); }
			// clamp, approach
			{ T lo = std::min(a, b), hi = std::max(a, b); T want = c < lo ? lo : c > hi ? hi : c; VX_TRUE("Clamp", Nz::Clamp(c, lo, hi) == want); }
			{
				T inc = std::fabs(c), g = Nz::Approach(a, b, inc);
				if (a == b) VX_TRUE("Approach", g == b);
				else if (a < b) { T s = a + inc; VX_TRUE("Approach", g == (s < b ? s : b)); VX_TRUE("Approach", g >= a && g <= b); }
				else { T s = a - inc; VX_TRUE("Approach", g == (s > b ? s : b)); VX_TRUE("Approach", g <= a && g >= b); }
				if (inc > 0 && inc < 1e6 && std::fabs(a - b) / inc < 300 && std::fabs(a) < std::fabs(a - b) * 1e3)
				{
					T v = a; int steps = 0; while (v != b && steps < 2000) { T n = Nz::Approach(v, b, inc); if (n == v) break; v = n; ++steps; }
					if (std::fabs(a) + inc != std::fabs(a) && std::fabs(b) + inc != std::fabs(b)) VX_TRUE("Approach", v == b); // repeated steps reach the objective
					cx.count("approach walks");
				}
			}
			// equality within a difference: rounding may only matter when the rounded difference is the limit itself
			{
				T d = r.coin() ? std::fabs(c) : std::fabs(a - b); if (std::isfinite(d))
				{
					T diff = std::fabs(a - b); bool g = Nz::NumberEquals(a, b, d);
					if (diff < d || a == b) VX_TRUE("NumberEquals", g); else if (diff > d) VX_TRUE("NumberEquals", !g);
					VX_EQ("NumberEquals", Nz::NumberEquals(b, a, d), g);
				}
				T e = L<T>::epsilon(); T diff = std::fabs(a - b); if (diff != e) VX_EQ("NumberEquals", Nz::NumberEquals(a, b), diff < e);
				T one = 1 + T(r.range(-3, 3)) * e; VX_EQ("NumberEquals", Nz::NumberEquals(T(1), one), std::fabs(one - 1) <= e);
			}
			// modulus: exact, sign of the dividend
			if (b != 0) { T g = Nz::Mod(a, b), w = std::fmod(a, b); if (!same(g, w)) fail("Mod", "Mod(%.20Lg, %.20Lg) is %.20Lg, expected %.20Lg", (long double) a, (long double) b, (long double) g, (long double) w); ++cur->checks; }
			// interpolation
			{
				T x = std::ldexp(T(r.range(-100000, 100000)), (int) r.range(-20, 10)), y = r.chance(1, 6) ? x : std::ldexp(T(r.range(-100000, 100000)), (int) r.range(-20, 10)), t = T(r.below(1025)) / 1024;
				T g = Nz::Lerp(x, y, t), tol = 4 * L<T>::epsilon() * (std::fabs(x) + std::fabs(y)); long double w = (long double) x + (long double) t * ((long double) y - (long double) x);
				if (!(std::fabs((long double) g - w) <= tol)) fail("Lerp", "Lerp(%.20Lg, %.20Lg, %Lg) is %.20Lg, expected about %.20Lg", (long double) x, (long double) y, (long double) t, (long double) g, w);
				VX_TRUE("Lerp", Nz::Lerp(x, y, T(0)) == x); VX_TRUE("Lerp", std::fabs(Nz::Lerp(x, y, T(1)) - y) <= tol); cur->checks++;
				double td = (double) t; T g2 = Nz::Lerp(x, y, td); VX_TRUE("Lerp", std::fabs((long double) g2 - w) <= tol);
			}
			// multiply-add, rounded once or twice
			{ T p = a * b, two = p + c, fused = std::fma(a, b, c), g = Nz::MultiplyAdd(a, b, c); ++cur->checks; if (!same(g, two) && !same(g, fused) && !(g == two)) fail("MultiplyAdd", "MultiplyAdd(%.20Lg, %.20Lg, %.20Lg) is %.20Lg", (long double) a, (long double) b, (long double) c, (long double) g); }
			// angles
			{
				T deg = std::ldexp(T(r.range(-100000, 100000)), (int) r.range(-20, 8)); if (r.chance(1, 3)) deg = std::ldexp(T(r.range(-1000000, 1000000)) / T(1000000), (int) r.range(L<T>::min_exponent + 10, L<T>::max_exponent)); const bool noOver = std::fabs(deg) < L<T>::max() / 60; constexpr long double pi = 3.14159265358979323846264338327950288L;
				const T e = L<T>::epsilon();
				T rad = Nz::DegreeToRadian(deg); VX_TRUE("DegreeToRadian", std::fabs((long double) rad - (long double) deg * (pi / 180)) <= 4 * e * std::fabs((long double) rad) + L<T>::min());
				T back = Nz::RadianToDegree(rad); VX_TRUE("RadianToDegree", std::fabs((long double) back - (long double) deg) <= 8 * e * std::fabs((long double) deg) + 100 * L<T>::min());
				if (noOver) { T dd = Nz::RadianToDegree(deg); VX_TRUE("RadianToDegree", std::fabs((long double) dd - (long double) deg * (180 / pi)) <= 4 * e * std::fabs((long double) dd) + L<T>::min()); }
			}
			cx.count("operand tuples");
		}
	}
}
using ldouble = long double;
VX_FN("float", 400, 30000, run<float>)
VX_FN("double", 400, 30000, run<double>)
VX_FN("long double", 200, 10000, run<ldouble>)
VX_SUITE("constants", 1, 1)
{
	cx.log("constants of float, double and long double, limits of every arithmetic type");
	constants<float>(); constants<double>(); constants<long double>();
	limits<char>(); limits<signed char>(); limits<unsigned char>(); limits<short>(); limits<unsigned short>(); limits<int>(); limits<unsigned>(); limits<long>(); limits<unsigned long>(); limits<long long>(); limits<unsigned long long>();
	limits<float>(); limits<double>(); limits<long double>();
	static_assert(std::is_same_v<Nz::FloatType_t<32>, float> && std::is_same_v<Nz::FloatType_t<64>, double>);
}
