#include "vx.hpp"
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/Algorithm.hpp>
#include <csignal>
#include <functional>
#include <map>
#include <vector>
using namespace vx;
// assertions: a broken precondition stops a checked build where it happens, a respected one never does
enum class E3 { A, B, C, Max = C };
namespace Nz { template<> struct EnumAsFlags<E3> { static constexpr E3 max = E3::C; }; }
namespace
{
#if !defined(NDEBUG)
	constexpr bool Checked = true;
#else
	constexpr bool Checked = false;
#endif
	void thunk(void* p) { (*(std::function<void()>*) p)(); }
	bool stoppedBySignal(const Death& d) { return d.signaled && (d.sig == SIGTRAP || d.sig == SIGABRT || d.sig == SIGILL); }
	// f must end in an assertion failure
	// (its own: what the standard library or a sanitizer may notice later comes too late)
	void stops(const char* what, std::function<void()> f, bool own = true)
	{
		if (!Checked) return;
		Death d = run_isolated(&thunk, &f);
		++cur->checks; cur->count("broken preconditions provoked"); cur->mix(std::hash<std::string>()(what));
		if (!stoppedBySignal(d) || d.err.find("ssertion") == std::string::npos || (own && d.err.find("NazaraUtils/") == std::string::npos))
			fail("not stopped", "%s was not stopped by an assertion (%s %d)\n%s", what, d.signaled ? "signal" : "exit code", d.signaled ? d.sig : d.code, d.err.c_str());
	}
	template<class T> void use(const T& v) { volatile const void* p = &v; (void) p; }

	// --- positions in containers; n elements, the last valid position and the first invalid one
	template<class V, class Make> void vectorCase(Rng& r, const char* kind, Make make, std::size_t cap, bool bounded)
	{
		std::size_t n = (std::size_t) r.below(cap + 1);
		char w[120]; auto name = [&](const char* op) { std::snprintf(w, sizeof w, "%s of %s with %zu of %zu elements", op, kind, n, cap); return w; };
		cur->log("%s %zu/%zu", kind, n, cap);
		using T = typename V::value_type;
		auto with = [&](auto f) { make([&](V& v) { for (std::size_t i = 0; i < n; ++i) v.push_back(T{int(i)}); f(v); }); };
		std::size_t past = (std::size_t) (n + r.below(3));
		// respected: must not be stopped
		with([&](V& v)
		{
			const V& c = v;
			if (n) { std::size_t k = (std::size_t) r.below(n); use(v[n - 1]); use(c[n - 1]); use(v[k]); use(v.front()); use(c.front()); use(v.back()); use(c.back()); v.erase(v.begin() + k); v.push_back(T{9}); v.pop_back(); v.push_back(T{8}); }
			v.erase(v.begin(), v.begin()); v.erase(v.end(), v.end());
			if (n < cap) { v.insert(v.end(), T{1}); v.erase(v.end() - 1); T t{2}; v.insert(v.begin(), t); v.pop_back(); v.emplace(v.begin() + n, T{3}); v.erase(v.begin(), v.end()); }
			v.resize(cap); v.resize(0); v.resize(cap, T{4}); v.clear();
			cur->count("valid calls", 12);
		});
		const std::size_t count = n;
		for (unsigned op = 0; op < 20; ++op) switch (n = count, op)
		{
			case 0: stops(name("indexing past the end"), [&] { with([&](V& v) { use(v[past]); }); }); break;
			case 1: stops(name("indexing past the end of a constant vector"), [&] { with([&](V& v) { use(((const V&) v)[past]); }); }); break;
			case 2: stops(name("erasing the end"), [&] { with([&](V& v) { v.erase(v.end() + (past - n)); }); }); break;
			case 3: if (n) stops(name("erasing a reversed range"), [&] { with([&](V& v) { v.erase(v.end(), v.begin()); }); }); break;
			case 4: stops(name("erasing a range ending past the end"), [&] { with([&](V& v) { v.erase(v.begin(), v.end() + 1); }); }); break;
			case 5: n = 0; stops(name("front"), [&] { with([&](V& v) { use(v.front()); }); }); break;
			case 6: n = 0; stops(name("constant front"), [&] { with([&](V& v) { use(((const V&) v).front()); }); }); break;
			case 7: n = 0; stops(name("back"), [&] { with([&](V& v) { use(v.back()); }); }); break;
			case 8: n = 0; stops(name("constant back"), [&] { with([&](V& v) { use(((const V&) v).back()); }); }); break;
			case 9: n = 0; stops(name("pop_back"), [&] { with([&](V& v) { v.pop_back(); }); }); break;
			case 10: if (bounded) { n = cap; stops(name("push_back(const&)"), [&] { with([&](V& v) { T t{1}; v.push_back(t); }); }); } break;
			case 17: if (n) stops(name("erasing the last elements and one past the end"), [&] { with([&](V& v) { v.erase(v.begin() + 1 + r.below(n), v.end() + 1); }); }); break;
			case 18: stops(name("erasing a range starting past the end"), [&] { with([&](V& v) { v.erase(v.end() + 1, v.end() + 2); }); }); break;
			case 13: if (bounded) { n = cap; stops(name("push_back(&&)"), [&] { with([&](V& v) { v.push_back(T{1}); }); }); } break;
			case 14: if (bounded) { n = cap; stops(name("emplace_back"), [&] { with([&](V& v) { v.emplace_back(T{1}); }); }); } break;
			case 15: if (bounded) { n = cap; stops(name("insert"), [&] { with([&](V& v) { v.insert(v.begin(), T{1}); }); }); } break;
			case 16: if (bounded) { n = cap; stops(name("emplace"), [&] { with([&](V& v) { v.emplace(v.end(), T{1}); }); }); } break;
			case 11: if (bounded) stops(name("resizing over capacity"), [&] { with([&](V& v) { v.resize(cap + 1 + r.below(3)); }); }); break;
			case 12: if (bounded) stops(name("resizing over capacity with a value"), [&] { with([&](V& v) { v.resize(cap + 1 + r.below(3), T{5}); }); }); break;
			default: if (n < cap) stops(name("inserting past the end"), [&] { with([&](V& v) { v.emplace(v.end() + 1, T{5}); }); }); break;
		}
	}
	struct Wide { int a; int b = 0; Wide(int x = 0) : a(x) {} };
}

VX_SUITE("preconditions of fixed vectors", 3, 20)
{
	auto make = [&](auto f) { Nz::FixedVector<int, 4> v; f(v); };
	auto make7 = [&](auto f) { Nz::FixedVector<Wide, 7> v; f(v); };
	auto make1 = [&](auto f) { Nz::FixedVector<int, 1> v; f(v); };
	{ Nz::FixedVector<int, 4> v; v.reserve(4); std::size_t n = 5 + (std::size_t) cx.rng.below(3); stops("reserving over a fixed capacity", [&] { Nz::FixedVector<int, 4> w; w.reserve(n); }); }
	switch (cx.rng.below(3)) { case 0: vectorCase<Nz::FixedVector<int, 4>>(cx.rng, "a fixed vector", make, 4, true); break; case 1: vectorCase<Nz::FixedVector<Wide, 7>>(cx.rng, "a fixed vector", make7, 7, true); break; default: vectorCase<Nz::FixedVector<int, 1>>(cx.rng, "a fixed vector", make1, 1, true); }
}
VX_SUITE("preconditions of stack vectors", 3, 20)
{
	alignas(Wide) unsigned char mem[sizeof(Wide) * 8];
	auto make = [&](auto f) { Nz::StackVector<Wide> v((Wide*) mem, 8); f(v); };
	auto make3 = [&](auto f) { Nz::StackVector<int> v((int*) mem, 3); f(v); };
	if (cx.rng.coin()) vectorCase<Nz::StackVector<Wide>>(cx.rng, "a stack vector", make, 8, true); else vectorCase<Nz::StackVector<int>>(cx.rng, "a stack vector", make3, 3, true);
}
VX_SUITE("preconditions of stack arrays", 4, 30)
{
	std::size_t n = (std::size_t) cx.rng.below(9), past = (std::size_t) (n + cx.rng.below(4));
	std::vector<int> mem(n + 1);
	auto with = [&](auto f) { Nz::StackArray<int> a(mem.data(), n); f(a); };
	with([&](Nz::StackArray<int>& a) { const auto& c = a; if (n) { use(a[n - 1]); use(c[0]); use(a.front()); use(c.back()); use(c.front()); use(a.back()); } cx.count("valid calls", 6); });
	using A = Nz::StackArray<int>;
	for (unsigned op = 0; op < 6; ++op) switch (op)
	{
		case 4: n = 0; stops("front of an empty stack array", [&] { with([&](A& a) { use(a.front()); }); }); break;
		case 5: n = 0; stops("front of a constant empty stack array", [&] { with([&](A& a) { use(((const A&) a).front()); }); }); break;
		case 0: stops("indexing past the end of a stack array", [&] { with([&](A& a) { use(a[past]); }); }); break;
		case 1: stops("indexing past the end of a constant stack array", [&] { with([&](A& a) { use(((const A&) a)[past]); }); }); break;
		case 2: n = 0; stops("back of an empty stack array", [&] { with([&](A& a) { use(a.back()); }); }); break;
		default: n = 0; stops("back of a constant empty stack array", [&] { with([&](A& a) { use(((const A&) a).back()); }); }); break;
	}
}
template<class Block> static void bitsetPre(Ctx& cx)
{
	using B = Nz::Bitset<Block>; auto& r = cx.rng;
	std::size_t n = (std::size_t) r.below(140); B b(n, r.coin()); const B& c = b; constexpr std::size_t W = sizeof(Block) * 8;
	if (n) { b.Set(n - 1); b.Reset(n - 1); use(c.Test(n - 1)); use(c[0]); b[n - 1] = true; (void) c.FindNext(n - 1); b.SetBlock(b.GetBlockCount() - 1, 0); (void) c.GetBlock(b.GetBlockCount() - 1); cx.count("valid calls", 8); }
	if (n <= 64) use(c.template To<u64>());
	if (n <= 8) use(c.template To<u8>());
	std::size_t past = (std::size_t) (n + r.below(W + 2)), blk = (std::size_t) (b.GetBlockCount() + r.below(2));
	u8 bytes[32] = {};
	for (unsigned op = 0; op < 10; ++op) switch (op)
	{
		case 0: stops("setting a bit past the end", [&] { b.Set(past); }); break;
		case 1: stops("resetting a bit past the end", [&] { b.Reset(past); }); break;
		case 2: stops("testing a bit past the end", [&] { use(c.Test(past)); }); break;
		case 3: stops("reading a bit of a constant bitset past the end", [&] { bool x = c[past]; use(x); }); break;
		case 4: stops("searching after a bit past the end", [&] { volatile auto x = c.FindNext(past); (void) x; }); break;
		case 5: stops("setting a block past the end", [&] { b.SetBlock(blk, 1); }); break;
		case 6: stops("reading a block past the end", [&] { volatile auto x = c.GetBlock(blk); (void) x; }); break;
		case 7: { B big(9 + r.below(60), true); stops("converting too many bits to an integer", [&] { volatile auto x = ((const B&) big).template To<u8>(); (void) x; }); break; }
		case 8: stops("reading bits from a null pointer", [&] { b.Write(typename B::PointerSequence(nullptr, 0), 3); }); break;
		default: stops("reading bits from a bit index over seven", [&] { b.Write(typename B::PointerSequence(bytes, 8 + r.below(3)), 3); }); break;
	}
	if (b.GetSize() != n) fail("state", "size changed");
}
VX_FN("preconditions of bitsets (8-bit blocks)", 4, 40, bitsetPre<u8>)
VX_FN("preconditions of bitsets (64-bit blocks)", 4, 40, bitsetPre<u64>)
template<class T> static void mathPre(Ctx& cx)
{
	auto& r = cx.rng; constexpr int W = sizeof(T) * 8;
	T v = r.value<T>();
	if constexpr (!std::is_signed_v<T>) { T last = T(W - 1); use(Nz::SetBit(v, last)); use(Nz::ClearBit(v, last)); use(Nz::ToggleBit(v, last)); use(Nz::TestBit(v, last)); use(Nz::SetBit(v, T(0))); }
	T small = T(r.below(50)); use(Nz::Align(small, T(1 + r.below(50)))); use(Nz::AlignPow2(small, T(1u << r.below(6)))); if (v) use(Nz::IsPow2(v)); use(Nz::IsPow2(T(1)));
	cx.count("valid calls", 8);
	T over = T(W + r.below(40)); T notPow2 = T(3 + 4 * r.below(10)); bool neg = std::is_signed_v<T> && r.coin(); T bad = neg ? T(-1 - (int) r.below(40)) : over;
	for (unsigned op = 0; op < 8; ++op) switch (op)
	{
		case 0: stops("setting a bit out of range", [&] { volatile T x = Nz::SetBit(v, bad); (void) x; }); break;
		case 1: stops("clearing a bit out of range", [&] { volatile T x = Nz::ClearBit(v, bad); (void) x; }); break;
		case 2: stops("toggling a bit out of range", [&] { volatile T x = Nz::ToggleBit(v, bad); (void) x; }); break;
		case 3: stops("testing a bit out of range", [&] { volatile bool x = Nz::TestBit(v, bad); (void) x; }); break;
		case 4: stops("aligning to zero", [&] { volatile T x = Nz::Align(small, T(neg ? -3 : 0)); (void) x; }); break;
		case 5: stops("aligning to a power of two given as zero", [&] { volatile T x = Nz::AlignPow2(small, T(0)); (void) x; }); break;
		case 6: stops("aligning to a power of two which is not one", [&] { volatile T x = Nz::AlignPow2(small, notPow2); (void) x; }); break;
		default: stops("asking whether zero is a power of two", [&] { volatile bool x = Nz::IsPow2(T(0)); (void) x; }); break;
	}
}
VX_FN("preconditions of bit and alignment helpers (u8)", 2, 20, mathPre<u8>)
VX_FN("preconditions of bit and alignment helpers (i32)", 2, 20, mathPre<i32>)
VX_FN("preconditions of bit and alignment helpers (u64)", 2, 20, mathPre<u64>)
VX_FN("preconditions of bit and alignment helpers (i64)", 2, 20, mathPre<i64>)
namespace
{
	struct Impl { int a = 3; };
	struct Holder { Nz::PrivateImpl<Impl, 0> impl{nullptr}; };
	template<class P> std::vector<std::size_t> fill(P& p, Rng& r, std::size_t n)
	{
		std::vector<std::size_t> ids; for (std::size_t i = 0; i < n; ++i) { std::size_t id; p.Allocate(id, (int) i); ids.push_back(id); }
		(void) r; return ids;
	}
}
VX_SUITE("preconditions of the other types", 24, 160)
{
	auto& r = cx.rng;
	switch (r.below(9))
	{
		case 0:
		{
			Nz::EnumArray<E3, int> a{}, b{}; auto k = a.iter_kv(), l = b.iter_kv(); VX_TRUE("same array", k.begin() == k.begin() && k.begin() != k.end() && k.begin() < k.end());
			int op = (int) r.below(7);
			stops("comparing key-value iterators of two arrays", [&] { auto x = k.begin(); auto y = l.begin(); volatile bool z = false; switch (op) { case 0: z = x == y; break; case 1: z = x != y; break; case 2: z = x < y; break; case 3: z = x <= y; break; case 4: z = x > y; break; case 5: z = x >= y; break; default: z = (x - y) != 0; } (void) z; });
			break;
		}
		case 1:
		{
			Nz::Flags<E3> f = E3::A; f |= E3::C; int n = 0; for (E3 e : f) { use(e); ++n; } VX_EQ("count", n, 2);
			bool deref = r.coin();
			stops("stepping or reading a flag iterator at its end", [&] { auto it = f.end(); if (deref) { E3 e = *it; use(e); } else ++it; });
			break;
		}
		case 2:
		{
			Nz::MemoryPool<int> p(2 + r.below(4)), q(3); std::size_t n = 1 + r.below(9); auto ids = fill(p, r, n); fill(q, r, 2);
			std::size_t id = ids[r.below(n)]; if (id != ids[0]) { p.Free(id); }
			VX_TRUE("iterators", p.begin() == p.begin() && p.begin() != p.end()); use(p.begin().GetIndex());
			for (unsigned op = 0; op < 11; ++op) switch (op)
			{
				case 0: stops("comparing iterators of two pools", [&] { volatile bool x = p.begin() == q.begin(); (void) x; }); break;
				case 1: stops("index of an end iterator", [&] { volatile auto x = p.end().GetIndex(); (void) x; }); break;
				case 2: stops("retrieving an entry of a missing block", [&] { use(*p.RetrieveFromIndex(p.GetBlockCount() * p.GetBlockSize() + r.below(5))); }); break;
				case 5: stops("retrieving an entry of a missing block of a constant pool", [&] { use(*std::as_const(p).RetrieveFromIndex(p.GetBlockCount() * p.GetBlockSize() + r.below(5))); }); break;
				case 6: if (id != ids[0]) stops("retrieving a free entry of a constant pool", [&] { use(*std::as_const(p).RetrieveFromIndex(id)); }); break;
				case 9: stops("advancing an end iterator", [&] { auto it = p.end(); ++it; }); break;
				case 7: if (id != ids[0]) stops("freeing twice without destruction", [&] { p.Free(id, p.NoDestruction); }); break;
				case 8: stops("freeing without destruction an entry of a missing block", [&] { p.Free(p.GetBlockCount() * p.GetBlockSize() + r.below(5), p.NoDestruction); }); break;
				case 3: if (id != ids[0]) stops("retrieving a free entry", [&] { use(*p.RetrieveFromIndex(id)); }); break;
				case 4: if (id != ids[0]) stops("freeing an entry twice", [&] { p.Free(id); }); break;
				default: stops("freeing an entry of a missing block", [&] { p.Free(p.GetBlockCount() * p.GetBlockSize() + r.below(5)); }); break;
			}
			break;
		}
		case 3: { Nz::Signal<> s; auto c = s.Connect([] {}); s(); stops("connecting a null callback", [&] { s.Connect(std::function<void()>()); }); break; }
		case 4: { int a[4]; Nz::SparsePtr<int> p((void*) a, sizeof(int)); use(p[3]); u64 st = (u64) 0x7fffffff + 1 + r.below(1000); stops("a stride over the signed range", [&] { Nz::SparsePtr<int> q((void*) a, (std::size_t) st); use(q); }); break; }
		case 5: { Holder h; h.impl.Emplace(); VX_EQ("value", h.impl->a, 3); stops("constructing an implementation twice", [&] { h.impl.Emplace(); }); break; }
		case 6: { std::map<int, int> m; for (int i = 0; i < 5; ++i) m[2 * i] = i; int k = (int) r.below(5); VX_EQ("retrieved", Nz::Retrieve(m, 2 * k), k); stops("retrieving a missing key", [&] { volatile int x = Nz::Retrieve(m, 2 * k + 1); (void) x; }); break; }
		case 7: { const std::map<std::string, int> m{{"a", 1}, {"b", 2}}; VX_EQ("retrieved", Nz::Retrieve(m, std::string("b")), 2); stops("retrieving a missing key of a constant map", [&] { volatile int x = Nz::Retrieve(m, std::string("c")); (void) x; }); break; }
		default:
		{
			Nz::HybridVector<int, 2> v; std::size_t n = (std::size_t) r.below(7); for (std::size_t i = 0; i < n; ++i) v.push_back((int) i); const auto& c = v;
			if (n) { use(v[n - 1]); use(c[n - 1]); use(v.front()); use(v.back()); }
			switch (r.below(4))
			{
				case 0: stops("indexing a hybrid vector past the end", [&] { use(v[n + r.below(3)]); }, n <= 2); break;
				case 1: v.clear(); stops("front of an empty hybrid vector", [&] { use(v.front()); }, false); break;
				case 2: v.clear(); stops("pop_back of an empty hybrid vector", [&] { v.pop_back(); }, false); break;
				default: stops("erasing the end of a hybrid vector", [&] { v.erase(v.end()); }, n <= 2); break;
			}
		}
	}
}
#define VXNAME "build's own setting"
#if !defined(NDEBUG)
#define VXACTIVE true
#else
#define VXACTIVE false
#endif
#include "../src/c26_macros.inc"
