#include "vx.hpp"
#include <NazaraUtils/MathUtils.hpp>
#include <limits>
#include <type_traits>
using namespace vx;
#ifndef PART
#define PART 0
#endif
// integer helpers against 128-bit arithmetic
namespace
{
	using I = __int128;
	template<class T> constexpr I Lo = (I) std::numeric_limits<T>::min();
	template<class T> constexpr I Hi = (I) std::numeric_limits<T>::max();
	template<class T> bool fits(I v) { return v >= Lo<T> && v <= Hi<T>; }
	std::string s128(I v) { if (v < 0) return "-" + s128(-v); std::string r; do { r.insert(r.begin(), char('0' + (int) (v % 10))); v /= 10; } while (v); return r; }
	template<class T> void eq(const char* key, T got, I want, I a, I b = 0, I c = 0)
	{
		++cur->checks;
		if ((I) got != want) fail(key, "%s(%s, %s, %s) with %zu-byte %s operands is %s, expected %s", key, s128(a).c_str(), s128(b).c_str(), s128(c).c_str(), sizeof(T), std::is_signed_v<T> ? "signed" : "unsigned", s128((I) got).c_str(), s128(want).c_str());
	}
	// values near the places where such code goes wrong: zero, the limits, powers of two, other operands
	template<class T> T pick(Rng& r, I near = 0)
	{
		I v;
		switch (r.below(6))
		{
			case 0: v = Hi<T> - (I) r.below(4); break;
			case 1: v = Lo<T> + (I) r.below(4); break;
			case 2: v = near + (I) r.below(9) - 4; break;
			case 3: v = (I) r.below(100); break;
			default: return r.value<T>();
		}
		return fits<T>(v) ? (T) v : r.value<T>();
	}
	template<class T> I ceilPow2(I v) { I p = 1; while (p < v) p *= 2; return p; }
	template<class T> void align(T o, T a)
	{
		if (o < 0 || a <= 0 || !fits<T>((I) o + (I) a)) return;
		I want = ((I) o + a - 1) / (I) a * a;
		eq<T>("Align", Nz::Align(o, a), want, o, a);
		if (((I) a & ((I) a - 1)) == 0) eq<T>("AlignPow2", Nz::AlignPow2(o, a), want, o, a);
		cur->count("alignments");
	}
	template<class T> void unary(T v)
	{
		if (v <= 0) { if (v == 0) { eq<unsigned>("IntegralLog2", Nz::IntegralLog2(v), 0, v); eq<unsigned>("IntegralLog2Pot", Nz::IntegralLog2Pot(v), 0, v); } return; }
		unsigned l = 0; while (((I) v >> (l + 1)) != 0) ++l;
		bool p2 = ((I) 1 << l) == (I) v;
		eq<unsigned>("IntegralLog2", Nz::IntegralLog2(v), l, v);
		if (p2) eq<unsigned>("IntegralLog2Pot", Nz::IntegralLog2Pot(v), l, v);
		if (Nz::IsPow2(v) != p2) fail("IsPow2", "IsPow2(%s) is wrong", s128(v).c_str());
		I c = ceilPow2<T>(v);
		if (fits<T>(c)) { eq<T>("GetNearestPowerOfTwo", Nz::GetNearestPowerOfTwo(v), c, v); eq<T>("RoundToPow2", Nz::RoundToPow2(v), c, v); }
		cur->count("unary values");
	}
	template<class T> void approach(T v, T o, T inc)
	{
		if (inc < 0) return;
		I want = v < o ? ((I) v + inc < (I) o ? (I) v + inc : (I) o) : ((I) v - inc > (I) o ? (I) v - inc : (I) o);
		eq<T>("Approach", Nz::Approach(v, o, inc), want, v, o, inc);
		cur->count("approaches");
	}
	template<class T> void equals(T a, T b, T d)
	{
		if (d < 0) return;
		I x = (I) a - (I) b; if (x < 0) x = -x;
		if (Nz::NumberEquals(a, b, d) != (x <= (I) d)) fail("NumberEquals", "NumberEquals(%s, %s, %s) is %d", s128(a).c_str(), s128(b).c_str(), s128(d).c_str(), Nz::NumberEquals(a, b, d));
		if (Nz::NumberEquals(a, b) != (a == b)) fail("NumberEquals", "NumberEquals(%s, %s) is %d", s128(a).c_str(), s128(b).c_str(), Nz::NumberEquals(a, b));
		cur->checks += 2; cur->count("comparisons");
	}
	template<class T> void clamp(T v, T a, T b) { T lo = a < b ? a : b, hi = a < b ? b : a; eq<T>("Clamp", Nz::Clamp(v, lo, hi), v < lo ? lo : v > hi ? hi : v, v, lo, hi); }
	template<class T> void mod(T x, T y) { if (y == 0 || (std::is_signed_v<T> && y == (T) -1)) return; I m = (I) x - ((I) x / (I) y) * (I) y; eq<T>("Mod", Nz::Mod(x, y), m, x, y); }
	template<class T> void pow(T b, unsigned e)
	{
		I r = 1; for (unsigned i = 0; i < e; ++i) { if (!fits<T>(r) || __builtin_mul_overflow(r, (I) b, &r)) return; }
		if (fits<T>(r)) { eq<T>("IntegralPow", Nz::IntegralPow(b, e), r, b, e); cur->count("powers"); }
	}
	template<class T> void madd(T x, T y, T z) { I p; if (!__builtin_mul_overflow((I) x, (I) y, &p) && fits<T>(p) && fits<T>(p + (I) z)) eq<T>("MultiplyAdd", Nz::MultiplyAdd(x, y, z), p + (I) z, x, y, z); }
	template<class T, class F> void lerp(T a, T b, F t)
	{
		// exact at both ends, within one unit (plus rounding) of the real interpolation between them
		if (!fits<T>((I) b - (I) a) && std::is_signed_v<T>) return;
		constexpr int mant = std::numeric_limits<F>::digits;
		I big = (I) 1 << (mant < 50 ? mant : 50); I A = a, B = b; if ((A < 0 ? -A : A) + (B < 0 ? -B : B) > big) return;
		if (sizeof(T) >= 4 && (A > Hi<T> / 4 || B > Hi<T> / 4)) return;
		if constexpr (std::is_floating_point_v<F>)
		{
			long double w = (long double) A + (long double) t * (long double) (B - A), g = (long double) Nz::Lerp(a, b, t);
			long double mag = (A < 0 ? -A : A) + (B < 0 ? -B : B), tol = 1 + 4 * (long double) std::numeric_limits<F>::epsilon() * mag;
			++cur->checks;
			if (!(g - w <= tol && w - g <= tol)) fail("Lerp", "Lerp(%s, %s, %Lg) is %Lg, expected about %Lg", s128(a).c_str(), s128(b).c_str(), (long double) t, g, w);
		}
		eq<T>("Lerp", Nz::Lerp(a, b, F(0)), A, a, b, 0); eq<T>("Lerp", Nz::Lerp(a, b, F(1)), B, a, b, 1);
		cur->count("interpolations");
	}
	template<class T> void run(Ctx& cx)
	{
		Rng& r = cx.rng;
		if constexpr (sizeof(T) == 1)
		{
			// one first operand, every second one
			T a = (T) (u8) cx.index; cx.log("first operand %lld with every second operand", (long long) a); unary<T>(a);
			for (unsigned j = 0; j < 256; ++j)
			{
				T b = (T) (u8) j; align<T>(a, b); mod<T>(a, b); pow<T>(a, j % 12);
				for (unsigned k = 0; k < 256; k += 1 + (j % 5)) { T c = (T) (u8) k; approach<T>(a, b, c); equals<T>(a, b, c); if (k % 7 == 0) { clamp<T>(c, a, b); madd<T>(a, b, c); } }
				for (float t : {0.25f, 0.5f, 0.9f, 1.f / 3}) lerp<T>(a, b, t);
				lerp<T>(a, b, (double) j / 255);
			}
			cx.mix(cx.index);
			return;
		}
		cx.log("200 operand tuples");
		for (int n = 0; n < 200; ++n)
		{
			T a = pick<T>(r), b = pick<T>(r, a), c = pick<T>(r, (I) (a < b ? (I) b - a : (I) a - b));
			if (n < 4) { cx.mix((u64) a); cx.mix((u64) b); cx.mix((u64) c); cx.log("%lld %lld %lld", (long long) a, (long long) b, (long long) c); }
			unary<T>(a); unary<T>((T) ((I) 1 << r.below(sizeof(T) * 8 - 1))); unary<T>((T) (((I) 1 << r.below(sizeof(T) * 8 - 1)) + 1));
			if constexpr (sizeof(T) == 2) for (unsigned k = 0; k < 64; ++k) unary<T>((T) (u16) ((cx.index * 200 + n) * 64 + k));
			align<T>(a, b); align<T>(a, c); align<T>((T) (r.below(1u << 15)), (T) (1 + r.below(1000)));
			{ unsigned sh = (unsigned) r.below(sizeof(T) * 8 - 1); align<T>(a, (T) ((I) 1 << sh)); align<T>((T) (r.value<T>() >> 1 & Hi<T>), (T) ((I) 1 << sh)); }
			approach<T>(a, b, c); approach<T>(a, b, (T) r.below(100)); equals<T>(a, b, c); equals<T>(a, b, (T) r.below(100));
			clamp<T>(a, b, c); mod<T>(a, b); mod<T>(a, (T) (1 + r.below(1000)));
			pow<T>(a, (unsigned) r.below(4)); pow<T>((T) ((i64) r.below(21) - (std::is_signed_v<T> ? 10 : 0)), (unsigned) r.below(40));
			madd<T>(a, b, c); madd<T>((T) r.below(100), (T) r.below(300), a);
			{ T x = (T) (r.value<u16>() >> 1), y = (T) (r.value<u16>() >> 1); float t = (float) r.below(1025) / 1024; lerp<T>(x, y, t); lerp<T>(a, b, (double) t); lerp<T>(a, b, t); lerp<T>(x, y, (double) r.below(1000001) / 1000000); lerp<T>(x, y, (int) 1); }
		}
	}
}
#define S8(T) VX_FN(#T, 22, 171, run<T>)
#define SN(T) VX_FN(#T, 400, 20000, run<T>)
using uchar = unsigned char; using schar = signed char; using ushort_ = unsigned short; using uint_ = unsigned; using ulong_ = unsigned long; using llong = long long; using ullong = unsigned long long;
#if PART == 0
S8(uchar) S8(schar) SN(short) SN(ushort_)
#else
SN(int) SN(uint_) SN(long) SN(ulong_) SN(llong) SN(ullong)
#endif
