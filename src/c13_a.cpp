#include "vx.hpp"
#include <NazaraUtils/Flags.hpp>
#include <set>
#include <unordered_set>
#include <vector>
using namespace vx;
// enumerations of every storage width, dense and sparse, with automatic and explicit bit values
namespace e
{
	enum class A3 { a, b, c, Max = c };
	enum class A8 { a, Max = 7 };
	enum class A9 { a, Max = 8 };
	enum class A16 { a, Max = 15 };
	enum class A17 { a, Max = 16 };
	enum class A32 { a, Max = 31 };
	enum class A33 : short { a, Max = 32 };
	enum class A40 : unsigned char { a, Max = 39 };
	enum class A63 { a, Max = 62 };
	enum class A64 { a, Count = 64 };
	enum class C5 { a, b, c, d, f, Count };
	enum Plain { P0, P1, P2, P3, P4, P5, P6 };
	enum class M1 : unsigned char { a = 1, Max = a };
	enum class M8 : unsigned char { a = 1, Max = 128 };
	enum class M9 : unsigned short { a = 1, Max = 256 };
	enum class M20 : unsigned { a = 1, Max = 1u << 19 };
	enum class M32 : unsigned { a = 1, Max = 1u << 31 };
	enum class M33 : unsigned long long { a = 1, Max = 1ull << 32 };
	enum class M64 : unsigned long long { a = 1, Max = 1ull << 63 };
	enum class N4 { a = 1, b = 2, c = 4, d = 8, Max = d };
	constexpr bool EnableEnumAsNzFlags(A3) { return true; } constexpr bool EnableEnumAsNzFlags(A8) { return true; } constexpr bool EnableEnumAsNzFlags(A9) { return true; } constexpr bool EnableEnumAsNzFlags(A16) { return true; } constexpr bool EnableEnumAsNzFlags(A17) { return true; } constexpr bool EnableEnumAsNzFlags(A32) { return true; } constexpr bool EnableEnumAsNzFlags(A33) { return true; } constexpr bool EnableEnumAsNzFlags(A40) { return true; } constexpr bool EnableEnumAsNzFlags(A63) { return true; } constexpr bool EnableEnumAsNzFlags(A64) { return true; } constexpr bool EnableEnumAsNzFlags(C5) { return true; }
#define MANUAL(E) constexpr bool EnableEnumAsNzFlags(E) { return true; } constexpr bool EnableAutoFlagForNzFlags(E) { return false; }
	enum class S20 : unsigned { a = 1, Last = 1u << 19 };
	enum class T12 { a, Last = 11 };
	enum class U40 : unsigned long long { a = 1, Last = 1ull << 39 };
	MANUAL(M1) MANUAL(M8) MANUAL(M9) MANUAL(M20) MANUAL(M32) MANUAL(M33) MANUAL(M64) MANUAL(N4)
}
namespace Nz { template<> struct EnumAsFlags<e::Plain> { static constexpr e::Plain max = e::P6; };
	template<> struct EnumAsFlags<e::S20> { static constexpr e::S20 max = e::S20::Last; static constexpr bool AutoFlag = false; };
	template<> struct EnumAsFlags<e::T12> { static constexpr bool AutoFlag = true; static constexpr e::T12 max = e::T12::Last; };
	template<> struct EnumAsFlags<e::U40> { static constexpr e::U40 max = e::U40::Last; static constexpr auto AutoFlag = false; }; }
namespace
{
	template<class E, unsigned Bits, bool Auto> struct Kind
	{
		using F = Nz::Flags<E>; using BF = typename F::BitField;
		static constexpr u64 mask = Bits >= 64 ? ~u64(0) : (u64(1) << Bits) - 1;
		static E flag(unsigned i) { return Auto ? (E) i : (E) (u64(1) << i); }
		static F mk(u64 m, Rng& r)
		{
			switch (r.below(3))
			{
				case 0: return F((BF) m);
				case 1: { F f; for (unsigned i = 0; i < Bits; ++i) if (m >> i & 1) f |= flag(i); return f; }
				default: { F f(0); for (unsigned i = Bits; i-- > 0;) if (m >> i & 1) f.Set(flag(i)); return f; }
			}
		}
		static void check(const F& f, u64 m, const char* who)
		{
			++cur->checks;
			if ((u64) (BF) f != m) fail("value", "%s: field is %llx, expected %llx", who, (unsigned long long) (BF) f, (unsigned long long) m);
			if ((u64) f != m || (bool) f != (m != 0)) fail("convert", "%s: conversion", who);
			if (f.Count() != (std::size_t) __builtin_popcountll(m) || f.size() != f.Count()) fail("count", "%s: count is %zu", who, f.Count());
			unsigned prev = 0; std::size_t n = 0; u64 seen = 0; bool post = cur->rng.coin();
			for (auto it = f.begin(); it != f.end();)
			{
				E v = *it; unsigned i = 0; while (i < Bits && flag(i) != v) ++i;
				if (i >= Bits || !(m >> i & 1)) fail("iterate", "%s: iteration yields a flag that is not set", who);
				if (n && i <= prev) fail("iterate", "%s: iteration is not in increasing order", who);
				prev = i; seen |= u64(1) << i; if (++n > Bits) fail("iterate", "%s: iteration does not end", who);
				if (post) { auto old = it++; if (*old != v) fail("iterate", "%s: postfix increment", who); } else ++it;
			}
			if (seen != m) fail("iterate", "%s: iteration yields %llx of %llx", who, (unsigned long long) seen, (unsigned long long) m);
		}
		static void run(Ctx& cx)
		{
			Rng& r = cx.rng; static_assert(sizeof(BF) * 8 >= Bits);
			VX_EQ("mask", (u64) F::ValueMask, mask);
			u64 m = r.bits() & mask; F f = mk(m, r); check(f, m, "built"); cx.log("%llx", (unsigned long long) m);
			for (int k = 0; k < 16; ++k)
			{
				u64 o = r.coin() ? r.bits() & mask : (m & r.bits()); F g = mk(o, r); unsigned b = (unsigned) r.below(Bits); E fl = flag(b); u64 bm = u64(1) << b; int op = (int) r.below(16); cx.mix(o * 16 + (u64) op); cx.log("op %d with %llx, flag %u", op, (unsigned long long) o, b);
				switch (op)
				{
					case 0: f = f | g; m |= o; break;
					case 1: f = f & g; m &= o; break;
					case 2: f = f ^ g; m ^= o; break;
					case 3: f = ~f; m = ~m & mask; break;
					case 4: f |= g; m |= o; break;
					case 5: f &= g; m &= o; break;
					case 6: f ^= g; m ^= o; break;
					case 7: f.Set(g); m |= o; break;
					case 8: f.Clear(g); m &= ~o; break;
					case 9: if (r.chance(1, 3)) { f.Clear(); m = 0; } break;
					case 10: switch (r.below(8)) { case 0: f = fl | f; m |= bm; break; case 1: f = fl & f; m &= bm; break; case 2: f = fl ^ f; m ^= bm; break; case 3: f = f | fl; m |= bm; break; case 4: f = f & fl; m &= bm; break; case 5: f = f ^ fl; m ^= bm; break; case 6: f.Set(fl); m |= bm; break; default: f.Clear(fl); m &= ~bm; } break;
					case 11: { unsigned c = (unsigned) r.below(Bits); u64 cm = u64(1) << c; using namespace Nz::FlagsOperators; check(fl | flag(c), bm | cm, "flag | flag"); check(fl & flag(c), bm & cm, "flag & flag"); check(fl ^ flag(c), bm ^ cm, "flag ^ flag"); check(~fl, mask & ~bm, "~flag"); VX_EQ("flag value", (u64) F::GetFlagValue(fl), bm); break; }
					case 12: { bool all = (m & o) == o; VX_EQ("test", f.Test(g), all); VX_EQ("test", f.Test(fl), (m & bm) != 0); VX_TRUE("test empty", f.Test(F())); VX_TRUE("test itself", f.Test(f)); break; }
					case 13: VX_EQ("equal", f == g, m == o); VX_EQ("equal", f != g, m != o); VX_TRUE("equal itself", f == f && !(f != f) && f == mk(m, r)); if (std::hash<F>{}(f) != std::hash<F>{}(mk(m, r))) fail("hash", "equal flags hash differently"); { F h(f); h = ~h; VX_TRUE("complement", h != f && ~h == f && (h & f) == F() && (h | f) == ~F()); } break;
					case 14: { u64 before = m; F h = f; VX_TRUE("copy", h == f); h ^= h; check(h, 0, "x ^= x"); h = f; h |= h; check(h, m, "x |= x"); h &= h; check(h, m, "x &= x"); h.Clear(h); check(h, 0, "x.Clear(x)"); check(f, before, "untouched"); break; }
					default: { std::unordered_set<F> s; std::set<u64> w; for (int i = 0; i < 12; ++i) { u64 x = r.bits() & mask; s.insert(F((BF) x)); w.insert(x); } VX_EQ("hash set", s.size(), w.size()); for (u64 x : w) VX_TRUE("hash set", s.count(mk(x, r)) == 1); break; }
				}
				check(f, m, "after operation");
			}
			cx.count("flag history");
		}
	};
}
#define A(E, N) VX_FN("auto-" #E, 300, 8000, Kind<e::E, N, true>::run)
#define B(E, N) VX_FN("manual-" #E, 300, 8000, Kind<e::E, N, false>::run)
A(A3, 3) A(A8, 8) A(A9, 9) A(A16, 16) A(A17, 17) A(A32, 32)
A(A33, 33) A(A40, 40) A(A63, 63) A(A64, 64) A(C5, 5) A(Plain, 7) A(T12, 12)
B(M1, 1) B(M8, 8) B(M9, 9) B(M20, 20)
B(M32, 32) B(M33, 33) B(M64, 64) B(N4, 4) B(S20, 20) B(U40, 40)
