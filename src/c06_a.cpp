#include "seq_model.hpp"
#include <NazaraUtils/StackArray.hpp>
using namespace sq;
#define S(name, ...) VX_FN(name, 2500, 60000, __VA_ARGS__)
#ifndef PART
S("vector-final-5", stackCase<StackA<ZFinal, 5>, false>)
S("vector-big-4", stackCase<StackA<ZBig, 4>, false>)
S("vector-plain-6", stackCase<StackA<ZTriv, 6>, false>)
S("vector-self-5", stackCase<StackA<ZSelf, 5>, false>)
S("vector-int-9", stackCase<StackA<int, 9>, false>)
VX_FN("vector-large", 20, 200, stackCase<StackA<int, 66500>, false>)
S("vector-full-7", stackCase<StackA<Tracked<0>, 7>, false>)
S("vector-moveonly-5", stackCase<StackA<Tracked<1>, 5>, false>)
S("vector-nodefault-5", stackCase<StackA<NoDefault, 5>, false>)
S("vector-string-6", stackCase<StackA<Str, 6>, false>)
#elif PART == 2
S("fault-vector-final-5", stackCase<StackA<ZFinal, 5>, true>)
S("fault-vector-polymorphic-4", stackCase<StackA<ZPoly, 4>, true>)
S("fault-vector-stateless-5", stackCase<StackA<ZEmpty, 5>, true>)
S("fault-vector-explicit-5", stackCase<StackA<ZExplicit, 5>, true>)
S("fault-vector-operators-5", stackCase<StackA<ZOps, 5>, true>)
#else
#if PART == 3
S("heap-vector-full-7", stackCase<StackA<Tracked<0>, 7>, false>)
S("heap-vector-self-5", stackCase<StackA<ZSelf, 5>, false>)
S("heap-fault-vector-full-6", stackCase<StackA<Tracked<0>, 6>, true>)
S("heap-fault-vector-moveonly-5", stackCase<StackA<Tracked<1>, 5>, true>)
S("heap-fault-vector-polymorphic-4", stackCase<StackA<ZPoly, 4>, true>)
#else
S("fault-vector-full-6", stackCase<StackA<Tracked<0>, 6>, true>)
S("fault-vector-copyonly-5", stackCase<StackA<Tracked<2>, 5>, true>)
S("fault-vector-throwmove-5", stackCase<StackA<Tracked<3>, 5>, true>)
S("fault-vector-moveonly-5", stackCase<StackA<Tracked<1>, 5>, true>)
#endif

template<class T> static void checkArr(Nz::StackArray<T>& v, const Model& m, const char* who)
{
	const Nz::StackArray<T>& c = v;
	++cur->checks;
	if (c.size() != m.size() || c.max_size() != m.size() || c.empty() != m.empty()) fail("size", "%s: size is %zu, expected %zu", who, c.size(), m.size());
	if ((std::size_t) (v.end() - v.begin()) != m.size() || (std::size_t) (c.end() - c.begin()) != m.size() || (std::size_t) (c.cend() - c.cbegin()) != m.size()) fail("range", "%s: end() - begin() is wrong", who);
	for (std::size_t i = 0; i < m.size(); ++i)
	{
		if (std::addressof(v[i]) != v.data() + i || std::addressof(c[i]) != c.data() + i || std::addressof(v.begin()[i]) != std::addressof(c[i]) || std::addressof(c.begin()[i]) != std::addressof(c[i]) || std::addressof(c.cbegin()[i]) != std::addressof(c[i])) fail("access", "%s: element %zu is addressed inconsistently", who, i);
		if (std::addressof(v.rbegin()[i]) != std::addressof(v[m.size() - 1 - i]) || std::addressof(c.rbegin()[i]) != std::addressof(v[m.size() - 1 - i]) || std::addressof(c.crbegin()[i]) != std::addressof(v[m.size() - 1 - i])) fail("reverse", "%s: reverse access %zu", who, i);
		if (val(c[i]) != m[i]) fail("element", "%s: element %zu is %d, expected %d", who, i, val(c[i]), m[i]);
	}
	if ((std::size_t) (v.rend() - v.rbegin()) != m.size() || (std::size_t) (c.rend() - c.rbegin()) != m.size() || (std::size_t) (c.crend() - c.crbegin()) != m.size()) fail("reverse", "%s: reverse range has the wrong length", who);
	if (!m.empty() && (std::addressof(v.front()) != v.data() || std::addressof(c.front()) != v.data() || std::addressof(v.back()) != v.data() + m.size() - 1 || std::addressof(c.back()) != std::addressof(v.back()))) fail("access", "%s: front/back", who);
}
template<class T> static void arrOps(Ctx& cx, Nz::StackArray<T>& v, Model& m)
{
	Rng& r = cx.rng;
	checkArr(v, m, "constructed");
	for (int k = 0; k < 6; ++k)
	{
		switch (r.below(4))
		{
			case 0: if constexpr (copyable<T>) { int x = (int) r.below(1000); cx.log("fill(%d)", x); T t = mk<T>(x); v.fill(t); std::fill(m.begin(), m.end(), x); } break;
			case 1: if (!m.empty()) { std::size_t i = r.below(m.size()); int x = (int) r.below(1000); cx.log("[%zu]=%d", i, x); v[i] = mk<T>(x); m[i] = x; } break;
			case 2: { cx.log("move construct and back"); Model none; Nz::StackArray<T> w(std::move(v)); checkArr(v, none, "moved from"); checkArr(w, m, "move-constructed"); v = std::move(w); checkArr(w, none, "moved back from"); break; }
			default: { cx.log("move over another array"); std::size_t n = r.below(6); Mem<T> mem(n); { Nz::StackArray<T> w(mem.p, n); Model wm(n, 0); checkArr(w, wm, "other"); Model none; w = std::move(v); checkArr(v, none, "moved from by an assignment"); checkArr(w, m, "move-assigned"); v = std::move(w); checkArr(w, none, "moved back from by an assignment"); } break; }
		}
		checkArr(v, m, "after operation"); cx.count("array operation");
	}
}
template<class T> static void arrayCase(Ctx& cx)
{
	LifeScope scope; Rng& r = cx.rng;
	std::size_t n = isInt<T> && r.chance(1, 200) ? 65500 + r.below(200) : r.below(12);
	{
		Mem<T> mem(n); cx.log("array of %zu", n);
		if constexpr (IsTracked<T>::value) if (r.chance(1, 3))
		{
			// element construction fails part-way: what was built is destroyed
			life.arm((i64) r.below(12));
			try { Nz::StackArray<T> v(mem.p, n); life.disarm(); Model m(n, 0); checkArr(v, m, "constructed"); }
			catch (const Boom&) { life.disarm(); cx.log("constructor threw"); cx.count("injected exception"); }
			life.disarm(); VX_TRUE("live", life.live == scope.before);
			return;
		}
		Nz::StackArray<T> v(mem.p, n); Model m(n, 0);
		arrOps(cx, v, m);
	}
	{
		Mem<T> mem(n); cx.log("array without initialisation");
		Nz::StackArray<T> v(mem.p, n, typename Nz::StackArray<T>::NoInitTag()); Model m;
		for (std::size_t i = 0; i < n; ++i) { int x = (int) r.below(1000); Nz::PlacementNew(v.data() + i, x); m.push_back(x); }
		arrOps(cx, v, m);
	}
	{ Nz::StackArray<T> e; Model em; checkArr(e, em, "default-constructed"); }
}
#if PART == 3
VX_FN("heap-array-full", 3000, 60000, arrayCase<Tracked<0>>)
VX_FN("heap-array-moveonly", 1500, 30000, arrayCase<Tracked<1>>)
VX_FN("heap-array-polymorphic", 1500, 30000, arrayCase<ZPoly>)
VX_FN("heap-array-int", 1500, 30000, arrayCase<int>)
#else
VX_FN("array-full", 3000, 60000, arrayCase<Tracked<0>>)
VX_FN("array-moveonly", 3000, 60000, arrayCase<Tracked<1>>)
VX_FN("array-polymorphic", 1500, 30000, arrayCase<ZPoly>)
VX_FN("array-operators", 1500, 30000, arrayCase<ZOps>)
VX_FN("array-big", 800, 15000, arrayCase<ZBig>)
VX_FN("array-self", 1500, 30000, arrayCase<ZSelf>)
VX_FN("array-plain", 1500, 30000, arrayCase<ZTriv>)
VX_FN("array-int", 1500, 30000, arrayCase<int>)
VX_FN("array-string", 1500, 30000, arrayCase<Str>)
#endif

// the macros, on real stack memory
__attribute__((noinline)) static void onStack(Ctx& cx, std::size_t n)
{
	volatile unsigned guard1[4] = {0xA5A5A5A5u, 1, 2, 3};
	auto a = NazaraStackArray(Tracked<0>, n);
	auto b = NazaraStackVector(Tracked<0>, n);
	auto c = NazaraStackArrayNoInit(int, n);
	volatile unsigned guard2[4] = {0x5A5A5A5Au, 1, 2, 3};
	VX_EQ("size", a.size(), n); VX_EQ("capacity", b.capacity(), n); VX_EQ("size", b.size(), std::size_t(0)); VX_EQ("size", c.size(), n);
	auto lo = [](const void* p) { return (std::uintptr_t) p; };
	if (n) VX_TRUE("overlap", (lo(a.data()) + n * sizeof(Tracked<0>) <= lo(b.data()) || lo(b.data()) + n * sizeof(Tracked<0>) <= lo(a.data())) && (lo(c.data()) + n * sizeof(int) <= lo(b.data()) || lo(b.data()) + n * sizeof(Tracked<0>) <= lo(c.data())));
	for (std::size_t i = 0; i < n; ++i) { a[i] = Tracked<0>((int) i); b.emplace_back((int) i + 100); c[i] = (int) i + 200; }
	for (std::size_t i = 0; i < n; ++i) { VX_EQ("element", a[i].get(), (int) i); VX_EQ("element", b[i].get(), (int) i + 100); VX_EQ("element", c[i], (int) i + 200); }
	VX_TRUE("guard", guard1[0] == 0xA5A5A5A5u && guard2[0] == 0x5A5A5A5Au && guard1[3] == 3 && guard2[3] == 3);
	cx.count("stack frames");
}
#if PART == 3
VX_SUITE("heap-macros", 400, 4000)
#else
VX_SUITE("macros", 400, 4000)
#endif
{
	LifeScope scope;
	std::size_t n = cx.rng.below(40); cx.log("stack frame of %zu", n);
	onStack(cx, n);
}
#endif
