#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/Prerequisites.hpp>
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/MemoryHelper.hpp>
#include <NazaraUtils/OffsetOf.hpp>
#include <array>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
using namespace vx;
namespace
{
	// --- layouts generated from seeds
	struct Empty {}; struct Big { u8 b[37]; }; struct alignas(32) Over { u8 x; }; struct Poly { virtual ~Poly() = default; int p = 0; }; enum class En16 : u16 { A };
	using Alphabet = std::tuple<u8, u16, u32, u64, float, double, bool, char*, Big, Over, Poly, En16, std::string, int (*)(int), int Big::*, std::array<u16, 3>, Empty, i8>;
	constexpr u64 mixc(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	template<int S, int K> using Mem = std::tuple_element_t<(std::size_t) (mixc((u64) S * 16 + K) % std::tuple_size_v<Alphabet>), Alphabet>;
	template<int S> struct Plain { Mem<S, 0> a; Mem<S, 1> b; Mem<S, 2> c; Mem<S, 3> d; const Mem<S, 4> e{}; Mem<S, 5> f[3]; };
	template<int S> struct Left { Mem<S, 6> l; Mem<S, 7> m; }; template<int S> struct Right { Mem<S, 8> r; Mem<S, 9> s; };
	template<int S> struct Kid : Left<S>, Right<S> { Mem<S, 10> k; };
	template<int S> struct Virt : Left<S>, Right<S> { virtual ~Virt() = default; Mem<S, 10> k; };
	template<int S> struct Front { Mem<S, 12> u; Mem<S, 13> v; };
	template<int S> struct alignas(64) Deep : Front<S>, Kid<S> { Mem<S, 11> z; };
	template<class T> struct Object { T* p; Object() : p(new T()) {} ~Object() { delete p; } };
	template<class O, class M> std::size_t real(const O& o, const M& m) { return (std::size_t) (reinterpret_cast<const char*>(&m) - reinterpret_cast<const char*>(&o)); }
	// the member reached through its offset is the member itself
	template<class M, class O> void reach(O& o, M& m, std::size_t got, const char* what, int seed)
	{
		cur->checks += 5; cur->count("members reached by offset");
		std::size_t want = real(o, m);
		if (got != want) fail("offset", "%s of layout %d is at %zu, said to be at %zu", what, seed, want, got);
		void* base = &o; const void* cbase = &o;
		if (&Nz::AccessByOffset<M&>(base, got) != &m || Nz::AccessByOffset<M*>(base, got) != &m || &Nz::AccessByOffset<const M&>(cbase, got) != &m || Nz::AccessByOffset<const M*>(cbase, got) != &m || &Nz::AccessByOffset<const M&>(base, got) != &m || &Nz::AccessByOffset<const volatile M&>(base, got) != &m) fail("access", "another place is reached for %s of layout %d", what, seed);
		static_assert(std::is_same_v<decltype(Nz::AccessByOffset<M&>(base, got)), M&> && std::is_same_v<decltype(Nz::AccessByOffset<M*>(base, got)), M*> && std::is_same_v<decltype(Nz::AccessByOffset<const M&>(cbase, got)), const M&>);
	}
#define R(T, member) { using MT = std::remove_reference_t<decltype((o.member))>; reach<MT>(o, o.member, NazaraOffsetOf(T, member), #T "::" #member, S); }
	template<int S> void layout()
	{
		{ using T = Plain<S>; Object<T> h; T& o = *h.p; R(T, a) R(T, b) R(T, c) R(T, d) R(T, e) R(T, f) }
		{ using T = Kid<S>; Object<T> h; T& o = *h.p; R(T, l) R(T, m) R(T, r) R(T, s) R(T, k) }
		{ using T = Virt<S>; Object<T> h; T& o = *h.p; R(T, l) R(T, m) R(T, r) R(T, s) R(T, k) }
		{ using T = Deep<S>; Object<T> h; T& o = *h.p; R(T, z) R(T, k) R(T, l) R(T, s) R(T, m) R(T, r) R(T, u) R(T, v) }
	}
#undef R
	template<int... I> void layouts(std::integer_sequence<int, I...>) { (layout<I>(), ...); }
}
VX_SUITE("offsets of members", 1, 1) { layouts(std::make_integer_sequence<int, 40>()); cx.log("40 layouts"); cx.mix(3); }
// offsets of any width
VX_SUITE("access by offset far away", 40, 400)
{
	static const std::size_t spans[] = {200, 300, 40000, 70000, 1u << 20, 3u << 20};
	std::size_t span = spans[cx.index % 6]; std::vector<u8> store(span + 8, 0); u8* base = store.data();
	for (int k = 0; k < 40; ++k)
	{
		std::size_t off = cx.rng.coin() ? span - (std::size_t) cx.rng.below(64) : (std::size_t) cx.rng.below(span); cx.log("offset %zu", off);
		++cx.checks; cx.count("far accesses");
		if (&Nz::AccessByOffset<u8&>((void*) base, off) != base + off || Nz::AccessByOffset<u8*>((void*) base, off) != base + off || &Nz::AccessByOffset<const u8&>((const void*) base, off) != base + off || Nz::AccessByOffset<const u8*>((const void*) base, off) != base + off) fail("far access", "offset %zu reaches another place", off);
		Nz::AccessByOffset<u8&>((void*) base, off) = 1; if (store[off] != 1) fail("far access", "writing at offset %zu went elsewhere", off);
	}
}
VX_SUITE("access by offset in byte buffers", 40, 400)
{
	std::size_t n = 16 + (std::size_t) cx.rng.below(200); std::vector<u64> store(n / 8 + 1), mirror(n / 8 + 1); u8* base = (u8*) store.data(); u8* m = (u8*) mirror.data();
	for (int k = 0; k < 60; ++k)
	{
		auto step = [&](auto tag) { using T = decltype(tag); std::size_t off = (std::size_t) cx.rng.below((n - sizeof(T)) / sizeof(T) + 1) * sizeof(T); T v = cx.rng.value<T>(); u64 w = cx.rng.below(3); cx.log("%zu bytes at %zu form %d", sizeof(T), off, (int) w); if (w == 0) Nz::AccessByOffset<T&>((void*) base, off) = v; else if (w == 1) *Nz::AccessByOffset<T*>((void*) base, off) = v; else { T x; std::memcpy(&x, m + off, sizeof(T)); VX_EQ("read", Nz::AccessByOffset<const T&>((const void*) base, off), x); VX_EQ("read", *Nz::AccessByOffset<const T*>((const void*) base, off), x); return; } std::memcpy(m + off, &v, sizeof v); };
		switch (cx.rng.below(4)) { case 0: step(u8()); break; case 1: step(u16()); break; case 2: step(u32()); break; default: step(u64()); }
		VX_TRUE("the other bytes are untouched", store == mirror);
	}
}
namespace { int fn(int x) { return x + 1; } struct Pod { u32 a, b; }; struct Pod3 { u8 v[3]; }; }
// pointers to anything, whatever the address
template<class... P> static void anyPointer(u64 v) { auto one = [v](auto* p0) { using T = decltype(p0); T p = Nz::IntegerToPointer<T>(v); VX_EQ("address of any type", (u64) (std::uintptr_t) p, v); VX_EQ("address of any type", Nz::PointerToInteger<u64>(p), v); VX_EQ("address of any type", (u64) Nz::PointerToInteger<std::uintptr_t>(p), v); }; (one((P*) nullptr), ...); }
VX_SUITE("pointers and integers", 100, 2000)
{
	for (int k = 0; k < 8; ++k)
	{
		u64 v = cx.rng.bits(cx.rng.coin() ? 47 : 64); cx.log("%llx", (unsigned long long) v);
		void* p = Nz::IntegerToPointer<void*>(v); VX_EQ("value", (u64) (std::uintptr_t) p, v); VX_EQ("round trip", Nz::PointerToInteger<u64>(p), v); VX_EQ("typed", (u64) (std::uintptr_t) Nz::IntegerToPointer<const char*>(v), v); VX_EQ("uintptr", Nz::PointerToInteger<std::uintptr_t>(static_cast<const volatile int*>(p)), (std::uintptr_t) v);
		if (v <= 0x7FFFFFFFFFFFFFFFull) { VX_TRUE("signed", (i64) v == Nz::PointerToInteger<i64>(p)); VX_TRUE("from signed", Nz::IntegerToPointer<void*>((i64) v) == p); }
		u32 w = cx.rng.value<u32>(); VX_EQ("32 bits", (u64) (std::uintptr_t) Nz::IntegerToPointer<void*>(w), (u64) w); VX_EQ("32 bits back", Nz::PointerToInteger<u32>(Nz::IntegerToPointer<int*>(w)), w); u8 b = cx.rng.value<u8>(); VX_EQ("8 bits", Nz::PointerToInteger<u8>(Nz::IntegerToPointer<void*>(b)), b); i32 sg = (i32) (w >> 1); VX_EQ("positive", Nz::PointerToInteger<i32>(Nz::IntegerToPointer<void*>(sg)), sg);
		anyPointer<u8, const u16, u32, volatile u64, u64, float, const double, std::string, int*, void, const void, std::unique_ptr<int>, char32_t>(v);
		auto o = std::make_unique<std::string>("x"); VX_TRUE("object", Nz::IntegerToPointer<std::string*>(Nz::PointerToInteger<std::size_t>(o.get())) == o.get()); VX_EQ("same object", *Nz::IntegerToPointer<const std::string*>(Nz::PointerToInteger<u64>(o.get())), std::string("x"));
	}
	VX_EQ("null", Nz::PointerToInteger<u32>((int*) nullptr), 0u); VX_TRUE("null back", Nz::IntegerToPointer<int*>(0) == nullptr); VX_EQ("function", Nz::IntegerToPointer<int (*)(int)>(Nz::PointerToInteger<u64>(&fn))(41), 42);
}
VX_SUITE("bit casts", 100, 2000)
{
	for (int k = 0; k < 8; ++k)
	{
		u32 a = cx.rng.value<u32>(); u64 b = cx.rng.value<u64>(); cx.log("%x %llx", a, (unsigned long long) b);
		float f = Nz::BitCast<float>(a); u32 fa; std::memcpy(&fa, &f, 4); VX_EQ("float bits", fa, a); VX_EQ("back", Nz::BitCast<u32>(f), a); double d = Nz::BitCast<double>(b); u64 db; std::memcpy(&db, &d, 8); VX_EQ("double bits", db, b); VX_EQ("back", Nz::BitCast<u64>(d), b); VX_EQ("signed", Nz::BitCast<i32>(a), (i32) a); VX_EQ("signed back", Nz::BitCast<u64>((i64) b), b);
		Pod p = Nz::BitCast<Pod>(b); VX_TRUE("struct", std::memcmp(&p, &b, 8) == 0); VX_EQ("struct back", Nz::BitCast<u64>(p), b); auto ar = Nz::BitCast<std::array<u8, 8>>(b); VX_TRUE("array", std::memcmp(ar.data(), &b, 8) == 0); const volatile u32 cv = 3; (void) cv; Pod3 t{{(u8) a, (u8) b, 3}}; auto t2 = Nz::BitCast<std::array<u8, 3>>(t); VX_TRUE("three bytes", t2[0] == (u8) a && t2[1] == (u8) b && t2[2] == 3);
		int* q = k % 2 ? (int*) &fa : nullptr; VX_TRUE("pointer", Nz::BitCast<int*>(Nz::BitCast<u64>(q)) == q);
	}
}
namespace
{
	struct Base { int b; Tracked<0> t; Base(int x) : b(x), t(x) {} virtual ~Base() = default; virtual int who() const { return 1; } };
	struct Side { int s = 77; virtual ~Side() = default; };
	struct Kid2 : Side, Base { Tracked<1> u; Kid2(int x) : Base(x), u(x + 1) {} int who() const override { return 2; } };
	struct Flat { int f = 0; Tracked<2> t{5}; }; struct FlatKid : Flat { u64 more[2] = {}; };
}
VX_SUITE("casts of owning pointers", 100, 2000)
{
	LifeScope ls; u64 h0 = heap.live;
	for (int k = 0; k < 10; ++k)
	{
		int x = (int) cx.rng.range(-1000, 1000); u64 w = cx.rng.below(6); cx.log("form %d value %d", (int) w, x);
		switch (w)
		{
			case 0: { auto p = std::make_unique<Kid2>(x); Kid2* raw = p.get(); u64 live = life.live; std::unique_ptr<Base> b = Nz::StaticUniquePointerCast<Base>(std::move(p)); VX_TRUE("source empty", !p); VX_TRUE("same object", b.get() == raw && life.live == live); VX_EQ("value", b->who() * 100000 + b->b, 200000 + x); auto d = Nz::StaticUniquePointerCast<Kid2>(std::move(b)); VX_TRUE("down", !b && d.get() == raw && d->u.get() == x + 1); break; }
			case 1: { std::unique_ptr<Base> p; auto d = Nz::StaticUniquePointerCast<Kid2>(std::move(p)); VX_TRUE("null", !p && !d); break; }
			case 2: { auto p = std::make_unique<Base>(x); Base* raw = p.get(); auto q = Nz::StaticUniquePointerCast<Base>(std::move(p)); VX_TRUE("same type", !p && q.get() == raw); auto c = Nz::StaticUniquePointerCast<const Base>(std::move(q)); VX_TRUE("constant", !q && c.get() == raw && c->b == x); break; }
			case 3: { auto p = std::make_unique<FlatKid>(); FlatKid* raw = p.get(); raw->f = x; Flat* mid = Nz::StaticUniquePointerCast<FlatKid>(std::move(p)).release(); std::unique_ptr<Flat> own(mid); auto d = Nz::StaticUniquePointerCast<FlatKid>(std::move(own)); VX_TRUE("not polymorphic", !own && d.get() == raw && d->f == x); break; }
			case 4: { std::unique_ptr<Side> p = std::make_unique<Kid2>(x); auto d = Nz::StaticUniquePointerCast<Kid2>(std::move(p)); VX_TRUE("through the first base", !p && d->b == x && static_cast<Side*>(d.get())->s == 77); break; }
			default: { auto p = std::make_unique<Kid2>(x); u64 live = life.live; { auto tmp = Nz::StaticUniquePointerCast<Side>(std::move(p)); (void) tmp; } VX_EQ("destroyed", life.live, live - 2); VX_TRUE("gone", !p); break; }
		}
		cx.count("owning pointers cast"); VX_EQ("blocks", heap.live, h0);
	}
}
namespace
{
	struct Args { int how; Args(int&) : how(1) {} Args(const int&) : how(2) {} Args(int&&) : how(3) {} Args(std::unique_ptr<int> p, int& out) : how(4) { out = p ? *p : -1; } };
	struct Agg { int a, b; }; struct ListOrNot { int n; ListOrNot(std::initializer_list<int> l) : n((int) l.size() + 100) {} ListOrNot(int, int) : n(1) {} };
	template<class T> void place(Ctx& cx)
	{
		LifeScope ls; alignas(64) u8 raw[sizeof(T) * 4 + 64]; std::memset(raw, 0xA5, sizeof raw); T* at = reinterpret_cast<T*>(raw); bool live[4] = {}; int model[4] = {};
		for (int k = 0; k < 40; ++k)
		{
			std::size_t i = (std::size_t) cx.rng.below(4); int x = (int) cx.rng.range(-100, 100);
			if (live[i]) { VX_EQ("content", val(at[i]), model[i]); Nz::PlacementDestroy(at + i); live[i] = false; cx.log("destroy %zu", i); }
			else
			{
				u64 w = cx.rng.below(4); cx.log("construct %zu form %d value %d", i, (int) w, x);
				if (w == 3) { life.arm(0); bool threw = false; try { (void) Nz::PlacementNew(at + i, x); } catch (const Boom&) { threw = true; } life.disarm(); VX_TRUE("a throwing constructor leaves nothing", threw); cx.count("throwing constructors"); }
				else if (w == 2) { T src(x); u64 c = life.copy; T* r = Nz::PlacementNew(at + i, std::move(src)); VX_TRUE("address", r == at + i); live[i] = true; model[i] = x; if constexpr (!std::is_same_v<T, Tracked<2>>) { VX_EQ("moved", life.copy, c); VX_EQ("moved from", val(src), (int) MovedFrom); } }
				else { T* r = w ? Nz::PlacementNew(at + i, x) : Nz::PlacementNew(at + i); VX_TRUE("address", r == at + i); live[i] = true; model[i] = w ? x : 0; }
			}
			for (int j = 0; j < 4; ++j) if (live[j]) VX_EQ("others", val(at[j]), model[j]);
		}
		for (int j = 0; j < 4; ++j) if (live[j]) Nz::PlacementDestroy(at + j);
		Nz::PlacementDestroy((T*) nullptr);
	}
}
VX_SUITE("construction in place", 60, 1000)
{
	switch (cx.rng.below(4)) { case 3: place<ZOps>(cx); break; case 0: place<Tracked<0>>(cx); break; case 1: place<Tracked<1>>(cx); break; default: place<Tracked<2>>(cx); }
	alignas(16) u8 raw[256]; std::memset(raw, 0xA5, sizeof raw);
	VX_EQ("zeroed integer", *Nz::PlacementNew((u64*) raw), u64(0)); VX_TRUE("zeroed pointer", *Nz::PlacementNew((char**) (raw + 8)) == nullptr); Agg* g = Nz::PlacementNew((Agg*) (raw + 16)); VX_EQ("zeroed aggregate", g->a | g->b, 0); VX_EQ("neighbour", (int) raw[24], 0xA5); VX_EQ("parentheses", Nz::PlacementNew((ListOrNot*) (raw + 32), 1, 2)->n, 1);
	int v = 5; const int c = 6; VX_EQ("lvalue", Nz::PlacementNew((Args*) (raw + 40), v)->how, 1); VX_EQ("constant", Nz::PlacementNew((Args*) (raw + 40), c)->how, 2); VX_EQ("rvalue", Nz::PlacementNew((Args*) (raw + 40), std::move(v))->how, 3); int out = 0; VX_EQ("moved argument", Nz::PlacementNew((Args*) (raw + 40), std::make_unique<int>(9), out)->how, 4); VX_EQ("its content", out, 9);
	u64 live = life.live; Kid2* kid = Nz::PlacementNew((Kid2*) (raw + 64), 3); static_assert(sizeof(Kid2) < 192); Base* b = kid; Nz::PlacementDestroy(b); VX_EQ("destroyed through its base", life.live, live); Nz::PlacementDestroy((Kid2*) nullptr); Nz::PlacementDestroy((int*) (raw + 8));
}
VX_SUITE("counts and lookups", 60, 1000)
{
	int a1[1]; const u8 a300[300] = {}; std::string as[7]; int m2[3][9]; VX_EQ("array", Nz::CountOf(a1), std::size_t(1)); VX_EQ("array", Nz::CountOf(a300), std::size_t(300)); VX_EQ("array", Nz::CountOf(as), std::size_t(7)); VX_EQ("nested", Nz::CountOf(m2), std::size_t(3)); VX_EQ("nested", Nz::CountOf(m2[1]), std::size_t(9)); static_assert(Nz::CountOf(m2) == 3);
	std::size_t n = (std::size_t) cx.rng.below(50); std::vector<bool> vb(n); std::deque<int> dq(n); std::string s(n, 'x'); VX_EQ("vector", Nz::CountOf(vb), n); VX_EQ("deque", Nz::CountOf(dq), n); VX_EQ("string", Nz::CountOf(s), n); VX_EQ("std array", Nz::CountOf(std::array<int, 0>()), std::size_t(0));
	std::map<std::string, int, std::less<>> m; std::unordered_map<int, std::unique_ptr<int>> u; const auto& cm = m; const auto& cu = u; cx.log("%zu", n);
	for (std::size_t i = 0; i < 30; ++i) { int k = (int) cx.rng.below(40); m["k" + std::to_string(k)] = k; u[k] = std::make_unique<int>(k); }
	for (auto& [k, v] : m) { VX_TRUE("its own value", &Nz::Retrieve(m, k) == &v && &Nz::Retrieve(cm, k) == &v && &Nz::Retrieve(m, k.c_str()) == &v && &Nz::Retrieve(m, std::string_view(k)) == &v); Nz::Retrieve(m, k) += 100; VX_EQ("written", v % 100, std::stoi(k.substr(1))); cx.count("lookups"); }
	std::size_t un = u.size(); for (auto& [k, v] : u) VX_TRUE("its own value", &Nz::Retrieve(u, k) == &v && &Nz::Retrieve(cu, k) == &v && *Nz::Retrieve(u, (short) k) == k); VX_EQ("nothing inserted", u.size(), un);
	static_assert(std::is_same_v<decltype(Nz::Retrieve(cm, "")), const int&> && std::is_same_v<decltype(Nz::Retrieve(m, "")), int&>);
}
namespace
{
	__attribute__((noinline)) u64 frame(Ctx& cx, int depth)
	{
		std::size_t n = cx.rng.chance(1, 4) ? 0 : (std::size_t) cx.rng.below(300); int m = (int) cx.rng.below(3); u8* a = (u8*) NAZARA_ALLOCA(n); u16* b = (u16*) NAZARA_ALLOCA((std::size_t) m * sizeof(u16)); u8* z = (u8*) NAZARA_ALLOCA(m > 5 ? 3 : 0); cx.log("frame of %zu and %d at depth %d", n, m, depth);
		VX_TRUE("valid", a != nullptr && b != nullptr && z != nullptr && (void*) a != (void*) b && (void*) z != (void*) a && (void*) z != (void*) b); u8 tag = (u8) (depth * 37 + 1); std::memset(a, tag, n); for (int i = 0; i < m; ++i) b[i] = (u16) (0x5500 + depth);
		u64 r = depth ? frame(cx, depth - 1) : 0; for (std::size_t i = 0; i < n; ++i) VX_EQ("kept", a[i], tag); for (int i = 0; i < m; ++i) VX_EQ("kept", b[i], (u16) (0x5500 + depth)); cx.count("stack blocks", 3); return r + n;
	}
	template<class T> int likely(T x, int& evals) { auto e = [&]() -> T { ++evals; return x; }; int r = 0; if NAZARA_LIKELY(e()) r |= 1; else r |= 2; if NAZARA_UNLIKELY(e()) r |= 4; else r |= 8; if NAZARA_LIKELY(!e() || !e()) r |= 16; return r; }
	enum class U8 : u8 { A = 255 }; enum class I16 : i16 { A = -3 }; enum Un : u64 { UA = ~u64(0) }; enum class B : bool { F, T }; enum Plain2 { PA, PB }; enum class C : char { X = 'x' };
}
VX_SUITE("stack blocks", 60, 1000) { u64 t = frame(cx, (int) cx.rng.below(12)); cx.mix(t); }
VX_SUITE("underlying values and branch macros", 40, 400)
{
	u64 v = cx.rng.bits(); cx.log("%llx", (unsigned long long) v);
	VX_EQ("u8", Nz::UnderlyingCast((U8) (u8) v), (u8) v); VX_EQ("i16", Nz::UnderlyingCast((I16) (i16) v), (i16) v); VX_EQ("u64", Nz::UnderlyingCast((Un) v), v); VX_EQ("bool", Nz::UnderlyingCast((B) (v & 1)), (bool) (v & 1)); VX_EQ("char", Nz::UnderlyingCast((C) (char) v), (char) v); static_assert(std::is_same_v<decltype(Nz::UnderlyingCast(U8::A)), u8> && std::is_same_v<decltype(Nz::UnderlyingCast(UA)), u64> && std::is_same_v<decltype(Nz::UnderlyingCast(B::F)), bool> && std::is_same_v<decltype(Nz::UnderlyingCast(PA)), std::underlying_type_t<Plain2>>);
	auto both = [&](auto x) { int n = 0; int r = likely(x, n); VX_EQ("branch", r, x ? 1 | 4 : 2 | 8 | 16); VX_EQ("evaluations", n, x ? 4 : 3); cx.count("branches", 3); };
	both(v); both((void*) v); both((u8) v); both((double) (v & 3) / 2); both(v << 32); both((bool) (v & 1)); both((const char*) nullptr); both(u64(0)); both(0.5f);
#define FOO bar
	VX_EQ("stringify", std::string(NazaraStringify(FOO)), std::string("FOO")); VX_EQ("stringify macro", std::string(NazaraStringifyMacro(FOO)), std::string("bar")); int xbar = 3, barx = 4, xFOO = 5, FOOx = 6; VX_EQ("prefix", NazaraPrefixMacro(FOO, x), xbar); VX_EQ("suffix", NazaraSuffixMacro(FOO, x), barx); VX_EQ("prefix", NazaraPrefix(FOO, x), xFOO); VX_EQ("suffix", NazaraSuffix(FOO, x), FOOx); int once = 0; NazaraUnused(++once); VX_EQ("unused", once, 1);
}
