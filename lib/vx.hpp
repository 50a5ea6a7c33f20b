// vx: runtime-monitoring harness shared by every driver in /verif/src.
// A driver is a set of suites; a suite is a function run on many seeded cases, each in a forked
// worker that is watched (sanitizer reports, aborts, hangs, monitor verdicts all become failures).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string>
#include <type_traits>
#include <utility>

// VX_THREADED: several cases run at once, each in its own thread with monitors of its own
#ifdef VX_THREADED
#define VX_TLS thread_local
#else
#define VX_TLS
#endif
namespace vx
{
	using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;
	using i8 = std::int8_t; using i16 = std::int16_t; using i32 = std::int32_t; using i64 = std::int64_t;

	inline u64 splitmix(u64& s) { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

	struct Rng
	{
		u64 s = 1;
		// optional byte source (coverage-guided mode): when set, choices come from it until exhausted
		const u8* bytes = nullptr; std::size_t nbytes = 0;
		u64 next()
		{
			if (bytes)
			{
				if (nbytes == 0)
					return 0;
				u64 v = 0; std::size_t n = nbytes < 8 ? nbytes : 8;
				std::memcpy(&v, bytes, n); bytes += n; nbytes -= n;
				return v;
			}
			return splitmix(s);
		}
		u64 below(u64 n)
		{
			if (n <= 1) return 0;
			if (bytes)
			{
				std::size_t w = n <= 0x100 ? 1 : n <= 0x10000 ? 2 : 8;
				if (nbytes == 0) return 0;
				u64 v = 0; w = nbytes < w ? nbytes : w;
				std::memcpy(&v, bytes, w); bytes += w; nbytes -= w;
				return v % n;
			}
			return next() % n;
		}
		i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a) + 1); }
		bool chance(u64 num, u64 den) { return below(den) < num; }
		bool coin() { return below(2) != 0; }
		// values biased to bit-pattern corner cases
		u64 bits(unsigned width = 64)
		{
			u64 v;
			switch (below(8))
			{
				case 0: v = next(); break;
				case 1: v = u64(1) << below(width); break;
				case 2: v = (u64(1) << below(width)) - 1; break;
				case 3: v = ~u64(0) << below(width); break;
				case 4: v = below(256); break;
				case 5: v = ~(u64) below(256); break;
				case 6: v = (u64(1) << below(width)) + below(5) - 2; break;
				default: v = next() >> below(64); break;
			}
			return width >= 64 ? v : v & ((u64(1) << width) - 1);
		}
		template<class T> T value() { return (T) bits(sizeof(T) * 8); }
	};

	struct Ctx
	{
		Rng rng;
		u64 index = 0;          // case number within the suite
		u64 total = 0;          // number of cases in the suite at this tier
		const char* suite = "";
		u64 ops = 0, checks = 0;
		void log(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // one traced operation
		void count(const char* counter, u64 n = 1);                          // event statistics
		void mix(u64 v) { sig = (sig ^ v) * 0x100000001B3ull; sig ^= sig >> 29; }
		u64 sig = 0xcbf29ce484222325ull;
	};
	extern VX_TLS Ctx* cur;
	[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

	// --- heap monitor (global operator new/delete are replaced by vx_main.cpp)
	struct Heap { u64 live = 0, bytes = 0, total = 0; i64 failIn = -1; u64 failed = 0; u64 most = u64(3) << 29; };
	extern VX_TLS Heap heap;

	// --- suite registration
	using CaseFn = void (*)(Ctx&);
	struct Suite { const char* name; CaseFn fn; u64 quick; u64 thorough; unsigned flags; Suite* next; Suite(const char* n, CaseFn f, u64 q, u64 t, unsigned fl = 0); };
	enum : unsigned { NoHeapBalance = 1, Enumerates = 2 };

	// runs f in a forked child with stderr captured; returns how it ended (contract / death tests)
	struct Death { bool signaled = false; int sig = 0; bool exited = false; int code = 0; bool timedOut = false; std::string err; };
	Death run_isolated(void (*f)(void*), void* arg, unsigned cpuSeconds = 20);

	inline std::string str(const std::string& s) { return s; }
	inline std::string str(const char* s) { return s; }
	inline std::string str(bool b) { return b ? "true" : "false"; }
	template<class T> std::string str(const T& v)
	{
		char b[64];
		if constexpr (std::is_enum_v<T>) { std::snprintf(b, sizeof b, "%lld", (long long) v); return b; }
		else if constexpr (std::is_floating_point_v<T>) { std::snprintf(b, sizeof b, "%.21Lg", (long double) v); return b; }
		else if constexpr (std::is_pointer_v<T>) { std::snprintf(b, sizeof b, "%p", (const void*) v); return b; }
		else if constexpr (std::is_integral_v<T> && std::is_signed_v<T>) { std::snprintf(b, sizeof b, "%lld", (long long) v); return b; }
		else if constexpr (std::is_integral_v<T>) { std::snprintf(b, sizeof b, "%llu", (unsigned long long) v); return b; }
		else return "?";
	}
	template<class A, class B> void check_eq_(const char* key, const A& a, const B& b, const char* file, int line)
	{
		++cur->checks;
		bool same;
		if constexpr (std::is_integral_v<A> && std::is_integral_v<B> && std::is_signed_v<A> != std::is_signed_v<B> && !std::is_same_v<A, bool> && !std::is_same_v<B, bool>)
		{
			if constexpr (std::is_signed_v<A>) same = a >= 0 && (u64) a == (u64) b;
			else same = b >= 0 && (u64) a == (u64) b;
		}
		else same = a == b;
		if (!same)
		{
			std::string x = str(a), y = str(b);
			fail(key, "got %s, expected %s (%s:%d)", x.c_str(), y.c_str(), file, line);
		}
	}
}

#define VX_EQ(key, got, want) ::vx::check_eq_(key, got, want, __FILE__, __LINE__)
#define VX_TRUE(key, cond) do { ++::vx::cur->checks; if (!(cond)) ::vx::fail(key, "condition is false: %s (%s:%d)", #cond, __FILE__, __LINE__); } while (0)
#define VX_CAT2(a, b) a##b
#define VX_CAT(a, b) VX_CAT2(a, b)
#define VX_SUITE(name, quick, thorough) VX_SUITE_F(name, quick, thorough, 0)
#define VX_SUITE_F(name, quick, thorough, flags) \
	static void VX_CAT(vxcase_, __LINE__)(::vx::Ctx& cx); \
	static ::vx::Suite VX_CAT(vxsuite_, __COUNTER__)(name, &VX_CAT(vxcase_, __LINE__), quick, thorough, flags); \
	static void VX_CAT(vxcase_, __LINE__)([[maybe_unused]] ::vx::Ctx& cx)
// for template-instantiated suites
#define VX_SUITE_FN(name, fn, quick, thorough) static ::vx::Suite VX_CAT(vxsuite_, __COUNTER__)(name, &fn, quick, thorough, 0)
#define VX_COMMA ,
// VX_FN("name", quick, thorough, fn<with, commas>)
#define VX_FN(name, quick, thorough, ...) static ::vx::Suite VX_CAT(vxsuite_, __COUNTER__)(name, &__VA_ARGS__, quick, thorough, 0);
