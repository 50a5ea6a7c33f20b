// included once per set of features, after <NazaraUtils/Prerequisites.hpp>
namespace { NAZARA_FORCEINLINE int forced(int x) { return x + 1; } }
NAZARA_FORCEINLINE int forced2(int x) { return x + 2; }
struct C33_STRUCT { NAZARA_FORCEINLINE int m(int x) const { return x + 3; } static NAZARA_FORCEINLINE constexpr int s(int x) { return x + 4; } };
namespace NAZARA_ANONYMOUS_NAMESPACE { int C33_LOCAL(int x) { return 7 * x; } }
namespace
{
	NAZARA_DEPRECATED("use the other one") int old(int x) { return x - 1; }
	struct NAZARA_DEPRECATED("old") Old { int v = 3; };
	int sure(int x) { if (x >= 0) NAZARA_UNREACHABLE(); else return -x; }
	int sign(int x) { if (x > 0) return 1; else if (x < 0) return -1; else if (x == 0) return 0; else NAZARA_UNREACHABLE(); }
	int either(int x) { switch (x & 1) { case 0: return 5; case 1: return 6; default: NAZARA_UNREACHABLE(); } }
	template<class T> const char* branches(T x, bool truth)
	{
		int n = 0, r = 0; auto e = [&]() -> T& { ++n; return x; };
		if NAZARA_LIKELY(e()) r |= 1; else r |= 2;
		if NAZARA_UNLIKELY(e()) r |= 4; else r |= 8;
		if NAZARA_LIKELY(!e()) { r |= 16; } else { r |= 32; }
		int k = 0; while NAZARA_LIKELY(k < 3) ++k;
		return r == (truth ? 1 | 4 | 32 : 2 | 8 | 16) && n == 3 && k == 3 ? nullptr : "branch";
	}
	const char* pretty(int) { const char* p = NAZARA_PRETTY_FUNCTION; for (; *p; ++p) if (p[0] == 'p' && p[1] == 'r' && p[2] == 'e' && p[3] == 't' && p[4] == 't' && p[5] == 'y') return nullptr; return "name of the function"; }
	const char* run(int x)
	{
		NAZARA_WARNING_PUSH()
		NAZARA_WARNING_CLANG_GCC_DISABLE("-Wdeprecated-declarations")
		NAZARA_WARNING_CLANG_DISABLE("-Wunused")
		NAZARA_WARNING_GCC_DISABLE("-Wunused")
		NAZARA_WARNING_ICC_DISABLE(1, 2)
		NAZARA_WARNING_MSVC_DISABLE(4996, 4127)
		C33_STRUCT o; Old p; if (forced(x) != x + 1 || forced2(x) != x + 2 || o.m(x) != x + 3 || o.s(x) != x + 4 || old(x) != x - 1 || p.v != 3) return "inline functions";
		NAZARA_WARNING_POP()
		NAZARA_ASSUME(x == x); int y = x & 15; NAZARA_ASSUME(y < 16); if (y != (x & 15)) return "assumption";
		if (sign(x) != (x > 0) - (x < 0) || either(x) != (x & 1 ? 6 : 5)) return "unreachable branch";
		if (sure(-(x & 15) - 1) != (x & 15) + 1) return "unreachable branch";
#ifdef C33_THROWS
		try { sure(x & 15); return "unreachable branch reached"; } catch (const Nz::UnreachableError&) {}
#endif
		const void* q = &x; if (auto f = branches(x, x != 0)) return f; if (auto f = branches(x > 5, x > 5)) return f; if (auto f = branches(double(x) / 2, x != 0)) return f; if (auto f = branches(q, true)) return f; if (auto f = branches((std::uint64_t) (unsigned) x << 32, x != 0)) return f;
		{ NAZARA_USE_ANONYMOUS_NAMESPACE if (C33_LOCAL(x & 15) != 7 * (x & 15) || NAZARA_ANONYMOUS_NAMESPACE_PREFIX(C33_LOCAL(x & 15)) != 7 * (x & 15)) return "anonymous namespace"; }
		static_assert(NAZARA_CHECK_CPP_VER(NAZARA_CPP17) && NAZARA_CPP98 < NAZARA_CPP11 && NAZARA_CPP11 < NAZARA_CPP14 && NAZARA_CPP14 < NAZARA_CPP17 && NAZARA_CPP17 < NAZARA_CPP20 && NAZARA_CPP20 < NAZARA_CPP23, "language versions");
		return pretty(x);
	}
	c33::Feature feature { C33_NAME, run, nullptr };
	c33::Reg regFeature(feature);
}
