#include "vx.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/ConstantEvaluated.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/Result.hpp>
#include <array>
#include <limits>
#include <string_view>
using namespace vx;
// the compiler's evaluator as the oracle: tables computed at compile time (where any undefined behaviour is an error)
// against the same computations redone while running
namespace ct { enum class E5 { A, B, C, D, E, Max = E }; constexpr bool EnableEnumAsNzFlags(E5) { return true; } enum class U16 : u16 { A = 3, B = 60000 }; }
namespace
{
	struct CRng
	{
		u64 s;
		constexpr u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
		constexpr u64 below(u64 n) { return next() % n; }
		template<class T> constexpr T value()
		{
			constexpr unsigned W = sizeof(T) * 8; u64 v = 0;
			switch (below(6)) { case 0: v = next(); break; case 1: v = u64(1) << below(W); break; case 2: v = (u64(1) << below(W)) - 1; break; case 3: v = ~u64(0) << below(W); break; case 4: v = below(300); break; default: v = next() >> below(64); break; }
			return (T) v;
		}
		template<class T> constexpr T real() // finite, of moderate magnitude
		{
			T m = T((i64) below(2000001) - 1000000); for (u64 k = below(24); k--;) m /= 2; if (below(4) == 0) m *= T(0.1); if (below(16) == 0) m = 0; return m;
		}
	};
	struct Dig
	{
		u64 v = 0xcbf29ce484222325ull; 
		template<class T> constexpr void operator()(T x)
		{
			u64 b = 0;
			if constexpr (std::is_same_v<T, float>) b = __builtin_bit_cast(u32, x);
			else if constexpr (std::is_same_v<T, double>) b = __builtin_bit_cast(u64, x);
			else b = (u64) x;
			v = (v ^ b) * 0x100000001B3ull; v ^= v >> 29;
		}
	};
	template<class T> struct Bits
	{
		static constexpr const char* name = "bit primitives";
		static constexpr u64 at(u64 i)
		{
			using U = std::make_unsigned_t<T>;
			CRng r{i * 77 + sizeof(T)}; Dig d; T v = r.value<T>(); constexpr unsigned W = sizeof(T) * 8; T b = T(r.below(std::is_signed_v<T> ? W - 1 : W));
			d(Nz::CountBits(v)); d(Nz::FindFirstBit(v)); d(Nz::FindLastBit(v)); d(Nz::ReverseBits(v)); d(Nz::ByteSwap(v)); d(Nz::ArithmeticRightShift(v, (unsigned) r.below(W)));
			if constexpr (!std::is_signed_v<T>) { d(Nz::ClearBit(v, b)); d(Nz::SetBit(v, b)); d(Nz::TestBit(v, b)); d(Nz::ToggleBit(v, b)); }
			d(Nz::HostToBigEndian(v)); d(Nz::HostToLittleEndian(v)); d(Nz::BigEndianToHost(v)); d(Nz::LittleEndianToHost(v)); d(Nz::BitCount<T>); d(U(v));
			return d.v;
		}
	};
	// every value with a single bit set or cleared, every run of bits reaching an end, every pair of bits in the upper half and the lower half
	template<class T> struct Patterns
	{
		static constexpr const char* name = "bit primitives on bit patterns";
		static constexpr u64 at(u64 i)
		{
			using U = std::make_unsigned_t<T>; constexpr unsigned W = sizeof(T) * 8; Dig d; const U one = U(U(1) << (i % W)), low = U(one - 1);
			const U other = U(U(1) << ((i * 7 + 3) % W));
			for (U u : { one, U(~one), low, U(~low), U(one | other), U(one ^ U(U(0xFF) << (i % W / 8 * 8))), U(U(0xFF) << (i % W / 8 * 8)) })
			{
				T v = T(u); d(Nz::CountBits(v)); d(Nz::FindFirstBit(v)); d(Nz::FindLastBit(v)); d(Nz::ReverseBits(v)); d(Nz::ByteSwap(v)); d(Nz::HostToBigEndian(v)); d(Nz::ArithmeticRightShift(v, unsigned(i % W)));
				if constexpr (!std::is_signed_v<T>) { if (v) { d(Nz::IsPow2(v)); d(Nz::IntegralLog2(v)); } d(Nz::ToggleBit(v, T(i % W))); d(Nz::TestBit(v, T(i % W))); d(Nz::SetBit(v, T(i % W))); d(Nz::ClearBit(v, T(i % W))); }
			}
			return d.v;
		}
	};
	template<class T> struct Ints
	{
		static constexpr const char* name = "integer helpers";
		static constexpr u64 at(u64 i)
		{
			CRng r{i * 131 + sizeof(T)}; Dig d; T v = r.value<T>(), w = r.value<T>(); constexpr unsigned W = sizeof(T) * 8;
			T s = T(r.below(100)), t = T(1 + r.below(27));
			d(Nz::Align(s, t)); d(Nz::AlignPow2(s, T(1u << r.below(5)))); T inc = T(r.below(20));
			d(Nz::Approach(s, t, inc)); d(Nz::Approach(t, s, inc));
			d(v < w ? Nz::Clamp(T(r.next()), v, w) : Nz::Clamp(T(r.next()), w, v));
			d(Nz::GetNearestPowerOfTwo(s < 0 || s > 64 ? T(5) : s)); d(Nz::IntegralLog2(v > 0 ? v : T(3))); d(Nz::IntegralLog2Pot(T(T(1) << r.below(W - 1)))); T base = T(1 + r.below(3)); d(Nz::IntegralPow(base, (unsigned) r.below(4)));
			if (v != 0 && !(std::is_signed_v<T> && v == std::numeric_limits<T>::min())) d(Nz::IsPow2(v));
			d(Nz::Lerp(s, t, 0.25f * (float) r.below(5))); d(Nz::Lerp(t, s, 0.25 * (double) r.below(5)));
			if (w != 0 && w != T(-1)) d(Nz::Mod(v, w));
			T m1 = T(r.below(5)), m2 = T(r.below(10)), m3 = T(r.below(50)); d(Nz::MultiplyAdd(m1, m2, m3)); d(Nz::NumberEquals(s, t)); d(Nz::NumberEquals(s, t, T(r.below(30)))); d(Nz::NumberEquals(v, w, T(r.below(90))));
			d(Nz::RoundToPow2(T(1 + r.below(60)))); d(Nz::MaxValue<T>()); d(Nz::MinValue<T>());
			d(Nz::SafeCast<i64>(s)); d(Nz::SafeCast<float>(s)); d(Nz::SafeCast<T>((double) s)); d((u64) (i16) Nz::SafeCaster(s));
			return d.v;
		}
	};
	template<class T> struct Reals
	{
		static constexpr const char* name = "floating-point helpers";
		static constexpr u64 at(u64 i)
		{
			CRng r{i * 257 + sizeof(T)}; Dig d; T a = r.real<T>(), b = r.real<T>(), c = r.real<T>(), n = c < 0 ? -c : c;
			d(Nz::Approach(a, b, n)); d(a < b ? Nz::Clamp(c, a, b) : Nz::Clamp(c, b, a)); d(Nz::DegreeToRadian(a)); d(Nz::RadianToDegree(a)); d(Nz::Lerp(a, b, c)); d(Nz::MultiplyAdd(a, b, c));
			d(Nz::NumberEquals(a, b)); d(Nz::NumberEquals(a, b, n)); d(Nz::NumberEquals(b, a, n)); d(Nz::NumberEquals(a, a)); d(Nz::ByteSwap(a));
			d(Nz::IsFinite(a)); d(Nz::IsInfinity(a)); d(Nz::IsNaN(a)); d(Nz::IsNaN(Nz::NaN<T>())); d(Nz::IsFinite(Nz::NaN<T>())); d(Nz::IsInfinity(Nz::NaN<T>())); d(Nz::IsInfinity(-Nz::Infinity<T>())); d(Nz::IsFinite(Nz::Infinity<T>())); d(Nz::IsNaN(Nz::Infinity<T>())); d(Nz::IsInfinity(Nz::Infinity<T>())); d(Nz::IsFinite(Nz::MaxValue<T>())); d(Nz::IsInfinity(Nz::MaxValue<T>()));
			d(Nz::Pi<T>()); d(Nz::HalfPi<T>()); d(Nz::Tau<T>()); d(Nz::Sqrt2<T>()); d(Nz::Sqrt3<T>()); d(Nz::Sqrt5<T>());
			d(Nz::BitCast<std::conditional_t<sizeof(T) == 4, u32, u64>>(a));
			return d.v;
		}
	};
	template<class T> struct Modulo
	{
		static constexpr const char* name = "floating-point modulo";
		static constexpr u64 at(u64 i)
		{
			CRng r{i * 31 + sizeof(T)}; Dig d;
			for (int k = 0; k < 6; ++k) { T a = r.real<T>(), b = r.real<T>(); for (u64 e = r.below(40) * (k & 1); e--;) a *= 2; if (b != 0) { d(Nz::Mod(a, b)); } }
			d(Nz::Mod(T(1), T(0.1))); d(Nz::Mod(T(-1), T(0.1))); d(Nz::Mod(T(-3), T(1.5))); d(Nz::Mod(T(1e30), T(7))); d(Nz::Mod(T(3), T(5))); d(Nz::Mod(std::numeric_limits<T>::denorm_min() * 5, std::numeric_limits<T>::denorm_min() * 3));
			return d.v;
		}
	};
	struct Hashes
	{
		static constexpr const char* name = "hashes";
		static constexpr u64 at(u64 i)
		{
			CRng r{i * 41 + 5}; Dig d; std::array<char, 40> s{}; std::array<u8, 40> b{}; std::size_t n = (std::size_t) r.below(39); bool z = r.below(3) == 0;
			for (std::size_t k = 0; k < n; ++k) { b[k] = (u8) r.next(); if (!z && !b[k]) b[k] = 1; s[k] = (char) b[k]; }
			std::string_view v(s.data(), n); const char* p = s.data();
			d(Nz::CRC32(v)); d(Nz::CRC32(p)); d(Nz::CRC32(b.data(), n)); d(Nz::FNV1a32(v)); d(Nz::FNV1a32(p)); d(Nz::FNV1a32(b.data(), n)); d(Nz::FNV1a64(v)); d(Nz::FNV1a64(p)); d(Nz::FNV1a64(b.data(), n));
			return d.v;
		}
	};
	struct Values
	{
		static constexpr const char* name = "flags, arrays and movable values";
		static constexpr u64 at(u64 i)
		{
			CRng r{i * 43 + 9}; Dig d; using ct::E5;
			Nz::Flags<E5> f(static_cast<typename Nz::Flags<E5>::BitField>(r.below(32))), g = (E5) r.below(5);
			for (int k = 0; k < 8; ++k)
			{
				switch (r.below(7)) { case 0: f |= g; break; case 1: f &= ~g; break; case 2: f ^= Nz::Flags<E5>((E5) r.below(5)); break; case 3: f.Set(g); break; case 4: f.Clear(g); break; case 5: g = f | (E5) r.below(5); break; default: f = ~f; }
				d(u64(f)); d(u64(g)); d(f == g); d(f != g); d(f.Test(g)); d(bool(f)); d(f.Test((E5) r.below(5))); d(u64(f & g)); d(u64(f ^ g)); d(u64((E5) r.below(5) | g));
			}
			Nz::EnumArray<E5, int> a{}; for (int k = 0; k < 5; ++k) a[(E5) k] = (int) r.below(100); const auto& c = a; int sum = 0; for (int k = 0; k < 5; ++k) sum = sum * 3 + c[(E5) k]; d(sum); d(a.size());
#if __cplusplus >= 202002L // the standard library's reference wrapper is not literal before
			for (auto it = a.iter_kv().begin(); it != a.iter_kv().end(); ++it) { auto kv = *it; d((int) kv.first); d(kv.second); } d((a.iter_kv().begin() + 3)[1].second); d(a.iter_kv().end() - a.iter_kv().begin());
#endif
			Nz::MovableLiteral<int, 0> m = (int) r.below(9), o = std::move(m); d(m.Get()); d(o.Get()); 
#if __cplusplus >= 202002L // std::swap is not constexpr before
			m = std::move(o); d(m.Get());
#endif
			o = 4; d(o.Get()); Nz::MovableValue<int> w = (int) r.below(50), x(w); d(x.Get()); x = 6; d(x.Get()); Nz::MovableValue<int> y(std::move(x)); d(y.Get());
			d(Nz::UnderlyingCast(ct::U16::B)); d((u64) Nz::SafeCast<E5>(3)); d(Nz::SafeCast<u8>(E5::D)); int arr[7] = {}; d(Nz::CountOf(arr)); std::array<int, 3> sa{}; d(Nz::CountOf(sa));
			Nz::Result<int, char> ok = Nz::Ok((int) r.below(77)), bad = Nz::Err('x'); d(ok.IsOk()); d(bad.IsErr()); d(ok.GetValue()); d(bad.GetError()); d(*ok); d(bad.GetValueOr(5)); d(ok.GetValueOr(5)); d(bool(bad)); 
#if __cplusplus >= 202002L // std::invoke is not constexpr before
			d(ok.Map([](int q) { return q * 2; }).GetValue()); d(bad.Map([](int q) { return q * 2; }).GetError());
#endif
			return d.v;
		}
	};
#if defined(__cpp_lib_constexpr_vector)
#define VX_BITSET_CT
	template<class Block> struct Sets
	{
		static constexpr const char* name = "bitsets";
		static constexpr u64 at(u64 i)
		{
			using B = Nz::Bitset<Block>; CRng r{i * 61 + sizeof(Block)}; Dig d; std::size_t len = (std::size_t) r.below(70); bool fill = r.below(2) != 0; B a(len, fill), b(std::string_view("1011001110001"));
			auto look = [&](const B& x) { d(x.GetSize()); d(x.GetBlockCount()); for (std::size_t k = 0; k < x.GetBlockCount(); ++k) d(x.GetBlock(k)); d(x.Count()); d(x.FindFirst()); d(x.TestAll()); d(x.TestAny()); d(x.TestNone()); };
			for (int k = 0; k < 14; ++k)
			{
				switch (r.below(20))
				{
					case 0: len = (std::size_t) r.below(80); fill = r.below(2) != 0; a.Resize(len, fill); break; case 1: if (a.GetSize()) { len = (std::size_t) r.below(a.GetSize()); fill = r.below(2) != 0; a.Set(len, fill); } break;
					case 2: a.Flip(); break; case 3: a.Reverse(); break; case 4: a <<= (std::size_t) r.below(20); break; case 5: a >>= (std::size_t) r.below(20); break;
					case 6: a &= b; break; case 7: a |= b; break; case 8: a ^= b; break; case 9: { u16 bits = (u16) r.next(); a.AppendBits(bits, (std::size_t) r.below(17)); break; }
					case 10: a.UnboundedSet((std::size_t) r.below(70)); break; case 11: a.PerformsNOT(b); break; case 12: a.PerformsAND(a, b); break; case 13: a.PerformsXOR(b, a); break;
					case 14: a.Swap(b); break; case 15: b = a; break; case 16: a = ~b; break; case 17: a = (a | b); break; case 18: if (a.GetBlockCount()) { len = (std::size_t) r.below(a.GetBlockCount()); a.SetBlock(len, (Block) r.next()); } break;
					default: { B m(std::move(a)); a = std::move(m); }
				}
				look(a); d(a == b); d(a < b); d(a >= b); d(a.Intersects(b)); d(a.UnboundedTest((std::size_t) r.below(90))); for (std::size_t q : b.IterBits()) d(q);
			}
			if (a.GetSize() <= 64) d(a.template To<u64>());
			return d.v;
		}
	};
#endif
	template<class G, std::size_t N> constexpr std::array<u64, N> table() { std::array<u64, N> t{}; for (std::size_t i = 0; i < N; ++i) t[i] = G::at(i); return t; }
	template<class G, std::size_t N> struct Table { static constexpr std::array<u64, N> t = table<G, N>(); };
	template<class G> __attribute__((noinline)) u64 running(u64 i) { return G::at(i); }
	template<class G, std::size_t N> void compare(Ctx& cx)
	{
		u64 at = cx.rng.below(N); cx.log("%s #%d", G::name, (int) at);
		for (std::size_t k = 0; k < N; ++k)
		{
			volatile u64 i = k; u64 got = running<G>(i); ++cx.checks; cx.count("evaluations compared"); cx.mix(got);
			if (got != Table<G, N>::t[k]) fail("differs", "%s: case %zu gives one result at compile time and another while running", G::name, k);
		}
	}
}
#define TAB(G, N) VX_FN("compile time against run time: " #G, 1, 1, compare<G VX_COMMA N>)
TAB(Bits<u8>, 100) TAB(Bits<i8>, 100) TAB(Bits<u16>, 100) TAB(Bits<i16>, 100) TAB(Bits<u32>, 100) TAB(Bits<i32>, 100) TAB(Bits<u64>, 100) TAB(Bits<i64>, 100)
TAB(Patterns<u8>, 8) TAB(Patterns<i8>, 8) TAB(Patterns<u16>, 16) TAB(Patterns<i16>, 16) TAB(Patterns<u32>, 32) TAB(Patterns<i32>, 32) TAB(Patterns<u64>, 64) TAB(Patterns<i64>, 64)
TAB(Ints<u8>, 80) TAB(Ints<i8>, 80) TAB(Ints<u16>, 80) TAB(Ints<i16>, 80) TAB(Ints<u32>, 80) TAB(Ints<i32>, 80) TAB(Ints<u64>, 80) TAB(Ints<i64>, 80)
TAB(Reals<float>, 150) TAB(Reals<double>, 150) TAB(Modulo<float>, 100) TAB(Modulo<double>, 100)
TAB(Hashes, 60) TAB(Values, 60)
#ifdef VX_BITSET_CT
TAB(Sets<u8>, 40) TAB(Sets<u16>, 40) TAB(Sets<u32>, 40) TAB(Sets<u64>, 40)
#endif
// which kind of evaluation is going on
namespace
{
	constexpr int kind() { if NAZARA_IS_CONSTEVAL() { return 1; } else { return 2; } }
	constexpr int other() { if NAZARA_IS_RUNTIME_EVAL() { return 2; } return 1; }
	constexpr int nested(int v) { if (v > 2) if NAZARA_IS_RUNTIME_EVAL() { v += 100; } else { v += 200; } return v; }
	NAZARA_CONSTEXPR20 int later(int v) { int w = v; w += kind(); return w; }
	struct AtStart { int k = 0, o = 0; constexpr AtStart() : k(kind()), o(other()) {} };
	constexpr AtStart constant;
#ifdef NAZARA_HAS_CONSTEVAL
	constexpr int later3 = later(3); template<int N> struct Fixed { static constexpr int value = N; };
#endif
}
VX_SUITE("kind of evaluation", 1, 1)
{
	volatile int three = 3, one = 1; int v = three; AtStart* running = new AtStart(); int k = running->k, o = running->o; delete running; // (an object with automatic storage may be initialised by the compiler)
	int w = later(v); (void) o;
	VX_EQ("running", other(), 2); VX_EQ("running", k, 2); VX_EQ("running", nested(v), 103); VX_EQ("running", nested(one), 1); VX_EQ("running", w, 5);
#ifdef NAZARA_HAS_CONSTEVAL
	VX_EQ("constant", constant.k, 1); VX_EQ("constant", constant.o, 1); VX_EQ("constant", (Fixed<kind()>::value), 1); VX_EQ("constant", (Fixed<other()>::value), 1); VX_EQ("constant", (Fixed<nested(3)>::value), 203); VX_EQ("constant", (Fixed<nested(2)>::value), 2); VX_EQ("constant", later3, 4);
#else
	VX_TRUE("constant", false);
#endif
	cx.log("kinds"); cx.count("kinds of evaluation told", 12);
}
