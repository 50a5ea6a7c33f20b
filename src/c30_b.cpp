// the macros of a compiler without the attributes and built-ins they stand for
#define Nz NzPlain
#define NAZARA_NO_LIKELY_ATTRIBUTE
#define NAZARA_NO_UNREACHABLE_MACRO
#define NAZARA_NO_ASSUME_ATTRIBUTE
#define NAZARA_NO_FORCEINLINE_ATTRIBUTE
#include <NazaraUtils/Prerequisites.hpp>
#include "vx.hpp"
using namespace vx;
namespace
{
	NAZARA_FORCEINLINE int plain(int x) { NAZARA_ASSUME(x >= 0); return x + 1; }
	int never(int x) { if NAZARA_LIKELY(x < 5) return x; NAZARA_UNREACHABLE(); }
	template<class T> int likely(T x, int& evals) { auto e = [&]() -> T { ++evals; return x; }; int r = 0; if NAZARA_LIKELY(e()) r |= 1; else r |= 2; if NAZARA_UNLIKELY(e()) r |= 4; else r |= 8; if NAZARA_LIKELY(!e() || !e()) r |= 16; return r; }
}
VX_SUITE("plain macros", 40, 400)
{
	u64 v = cx.rng.bits(); cx.log("%llx", (unsigned long long) v); cx.mix(v);
	auto both = [&](auto x) { int n = 0; int r = likely(x, n); VX_EQ("branch", r, x ? 1 | 4 : 2 | 8 | 16); VX_EQ("evaluations", n, x ? 4 : 3); cx.count("branches", 3); };
	both(v); both((void*) v); both((u8) v); both((double) (v & 3) / 2); both(v << 32); both((bool) (v & 1)); both((const char*) nullptr); both(u64(0)); both(0.5f);
	int x = (int) (v % 10), caught = 0; VX_EQ("inline", plain(x), x + 1);
	try { VX_EQ("reachable", never(x), x); } catch (const Nz::UnreachableError&) { caught = 1; } VX_EQ("unreachable code", caught, (int) (x >= 5)); cx.count("reached unreachable code", (u64) caught);
}
