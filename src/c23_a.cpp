#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <string>
#include <vector>
#include <any>
#include <memory>
#include <optional>
using namespace vx;
// members that make a defaulted move leave a recognisable source
namespace
{
	struct Obj { int n = 0; };
	Obj pool[5];
	struct UserPtr { Nz::MovablePtr<Obj> p; int tag = 0; }; // implicit copy and move operations, as meant to be used
	// W: the wrapper (or a class holding it), V: what it holds
	template<class W, class V, class Get, class Set> void history(Ctx& cx, V def, Get get, Set fresh, bool swaps)
	{
		Rng& r = cx.rng; struct S { W w; V v; bool known = true; }; std::vector<S> s; s.reserve(16);
		unsigned steps = 5 + (unsigned) r.below(50);
		for (unsigned i = 0; i < steps; ++i)
		{
			unsigned op = (unsigned) r.below(7); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 101 + k * 11 + j);
			if (s.empty() || (op == 0 && s.size() < 8)) { if (r.chance(1, 4)) { s.push_back({W(), def}); cx.log("default"); } else { V v = fresh(r); s.push_back({W(v), v}); cx.log("from a value"); } }
			else if (op <= 1) { W c(s[j].w); V v = s[j].v; cx.log("copy %zu", j); if (s[j].known && s.size() < 9) s.push_back({c, v}); else if (s.size() < 9) s.push_back({c, get(s[j].w)}); }
			else if (op == 2) { cx.log("move out of %zu", j); bool known = s[j].known; V v = get(s[j].w); W m(std::move(s[j].w)); if (!(get(m) == v)) fail("moved value", "a moved value changed"); s[j].v = def; s[j].known = true; if (!(get(s[j].w) == def)) fail("moved-from source", "the source of a move does not hold the default"); (void) known; if (s.size() < 9) s.push_back({m, v}); }
			else if (op == 3) { cx.log("copy-assign %zu from %zu", k, j); s[k].w = std::as_const(s[j].w); s[k].v = s[j].v; }
			else if (op == 4)
			{
				cx.log("move-assign %zu from %zu", k, j); V old = get(s[k].w), v = get(s[j].w); s[k].w = std::move(s[j].w);
				if (k != j) { s[k].v = v; V now = get(s[j].w); if (!(now == def) && !(swaps && now == old)) fail("moved-from source", "the source of a move assignment holds neither the default nor the old target"); s[j].v = now; }
			}
			else if (op == 5) { V v = fresh(r); s[k].w = W(v); s[k].v = v; cx.log("assign a value"); }
			else { cx.log("destroy"); s.erase(s.begin() + k); }
			for (auto& x : s) { ++cur->checks; if (!(get(x.w) == x.v)) fail("value", "a holder lost or changed its value"); }
			cx.count("operations");
		}
	}
}
VX_SUITE("pointers", 1500, 60000) { history<Nz::MovablePtr<Obj>, Obj*>(cx, nullptr, [](const auto& w) { VX_TRUE("pointer access", w.Get() == (Obj*) w && w.operator->() == w.Get()); return w.Get(); }, [](Rng& r) { return &pool[r.below(5)]; }, true); }
VX_SUITE("pointer members", 1500, 60000)
{
	struct Hold : UserPtr { Hold() = default; Hold(Obj* o) { p = o; } };
	history<Hold, Obj*>(cx, nullptr, [](const Hold& w) { return w.p.Get(); }, [](Rng& r) { return &pool[r.below(5)]; }, true);
}
VX_SUITE("integer literals", 1500, 60000) { history<Nz::MovableLiteral<int, -1>, int>(cx, -1, [](const auto& w) { const int& v = w; VX_TRUE("access", &v == &w.Get()); return v; }, [](Rng& r) { return (int) r.range(-5, 100); }, true); }
namespace { enum class Color { None, Red, Green }; }
VX_SUITE("other literals", 1500, 60000)
{
	history<Nz::MovableLiteral<bool, true>, bool>(cx, true, [](const auto& w) { return w.Get(); }, [](Rng& r) { return r.coin(); }, true);
	history<Nz::MovableLiteral<Color, Color::None>, Color>(cx, Color::None, [](const auto& w) { return w.Get(); }, [](Rng& r) { return Color(r.below(3)); }, true);
	history<Nz::MovableLiteral<u64, ~u64(0)>, u64>(cx, ~u64(0), [](const auto& w) { return w.Get(); }, [](Rng& r) { return r.bits(); }, true);
	{ Nz::MovableLiteral<int, 3> l((int) cx.rng.below(50)); int v = l; int&& a = std::move(l).Get(); int&& b = static_cast<int&&>(std::move(l)); VX_TRUE("rvalue access", &a == &l.Get() && &b == &a && a == v); int taken = std::move(l); VX_EQ("rvalue conversion", taken, v); const auto& cl = l; const int& c = std::move(cl).Get(); VX_TRUE("const rvalue access", &c == &a); }
	static int target; history<Nz::MovableLiteral<int*, nullptr>, int*>(cx, nullptr, [](const auto& w) { return w.Get(); }, [](Rng& r) { return r.coin() ? &target : nullptr; }, true);
}
// values: the moved-to holder gets the value without a copy
namespace
{
template<class T> void values(Ctx& cx)
{
	LifeScope ls; Rng& r = cx.rng; using W = Nz::MovableValue<T>; struct S { W w; int v; }; std::vector<std::unique_ptr<S>> s;
	unsigned steps = 5 + (unsigned) r.below(40); int next = 1; constexpr bool none = std::is_empty_v<T>; const int left = none ? 0 : (int) MovedFrom; auto num = [](int v) { return none ? 0 : v; };
	for (unsigned i = 0; i < steps; ++i)
	{
		unsigned op = (unsigned) r.below(9); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 101 + k * 11 + j); u64 c0 = life.copy + life.copied;
		auto add = [&](W&& w, int v) { s.push_back(std::unique_ptr<S>(new S{std::move(w), num(v)})); };
		if (s.empty() || (op == 0 && s.size() < 7)) { cx.log("new"); if (std::is_constructible_v<W, int> && r.coin()) { if constexpr (std::is_constructible_v<W, int>) add(W(next), next); ++next; } else if (r.coin()) { T t(next); add(W(t), next); VX_EQ("copies", life.copy + life.copied - c0, 1u); ++next; } else if (r.coin()) { T t(next); add(W(std::move(t)), next); VX_EQ("copies of a moved value", life.copy + life.copied - c0, 0u); VX_EQ("a moved value", val(t), left); ++next; } else add(W(), 0); }
		else if (op == 1) { cx.log("copy %zu", j); W c(std::as_const(s[j]->w)); VX_EQ("copies", life.copy + life.copied - c0, 1u); if (s.size() < 8) add(std::move(c), s[j]->v); }
		else if (op == 2) { cx.log("copy non-const %zu", j); W c(s[j]->w); if (s.size() < 8) add(std::move(c), s[j]->v); }
		else if (op == 3) { cx.log("move out of %zu", j); W m(std::move(s[j]->w)); int v = s[j]->v; s[j]->v = left; VX_EQ("moved value", val(m.Get()), v); VX_EQ("copies in a move", life.copy + life.copied - c0, 0u); if (s.size() < 8) add(std::move(m), v); }
		else if (op == 4) { cx.log("copy-assign %zu = %zu", k, j); s[k]->w = std::as_const(s[j]->w); s[k]->v = s[j]->v; }
		else if (op == 5) { cx.log("move-assign %zu = %zu", k, j); if (k != j) { s[k]->w = std::move(s[j]->w); s[k]->v = s[j]->v; s[j]->v = left; VX_EQ("copies in a move", life.copy + life.copied - c0, 0u); } }
		else if (op == 6) { cx.log("assign a value to %zu", k); unsigned how = (unsigned) r.below(4); if (how == 0) s[k]->w = next; else if (how == 1) { T t(next); s[k]->w = std::move(t); VX_EQ("copies of a moved value", life.copy + life.copied - c0, 0u); VX_EQ("a moved value", val(t), left); } else if (how == 2) { s[k]->w = T(next); VX_EQ("copies of a temporary", life.copy + life.copied - c0, 0u); } else { T t(next); if (r.coin()) s[k]->w = t; else s[k]->w = std::as_const(t); VX_EQ("copies of an assigned value", life.copy + life.copied - c0, 1u); VX_EQ("the assigned value", val(t), num(next)); } s[k]->v = num(next++); }
		else if (op == 7) { cx.log("take the value of %zu", k); W& w = s[k]->w; bool conv = r.coin(); T&& rr = conv ? static_cast<T&&>(std::move(w)) : std::move(w).Get(); VX_TRUE("rvalue access", std::addressof(rr) == std::addressof(w.Get())); T t = std::move(rr); VX_EQ("value", val(t), s[k]->v); s[k]->v = left; VX_EQ("copies", life.copy + life.copied - c0, 0u); T& ref = s[k]->w; ref = T(next); s[k]->v = num(next++); VX_TRUE("access", std::addressof(ref) == std::addressof(s[k]->w.Get())); }
		else { cx.log("destroy %zu", k); s.erase(s.begin() + k); }
		for (auto& x : s) { const W& c = x->w; VX_EQ("value", val(x->w.Get()), x->v); VX_EQ("value", val(c.Get()), x->v); const T& cr = c; VX_TRUE("access", std::addressof(cr) == std::addressof(c.Get())); }
		VX_EQ("live values", life.live - ls.before, (u64) s.size()); cx.count("operations");
	}
	static_assert(std::is_nothrow_move_constructible_v<W> && std::is_nothrow_move_constructible_v<Nz::MovablePtr<int>> && std::is_nothrow_move_assignable_v<Nz::MovablePtr<int>>);
	static_assert(!std::is_constructible_v<Nz::MovableValue<int>, std::string>);
}
}
VX_FN("values", 1500, 60000, values<Tracked<0>>)
VX_FN("final values", 400, 20000, values<ZFinal>)
VX_FN("polymorphic values", 400, 20000, values<ZPoly>)
VX_FN("large values", 400, 20000, values<ZBig>)
VX_FN("stateless values", 400, 20000, values<ZEmpty>)
VX_FN("values with operators", 400, 20000, values<ZOps>)
// what can only be moved can be held
VX_SUITE("move-only values", 800, 30000)
{
	using U = std::unique_ptr<int>; using W = Nz::MovableValue<U>; Rng& r = cx.rng; std::vector<W> s; std::vector<int> want; // 0: nothing
	unsigned steps = 5 + (unsigned) r.below(40); int next = 1; s.reserve(16);
	for (unsigned i = 0; i < steps; ++i)
	{
		unsigned op = (unsigned) r.below(7); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 101 + k * 11 + j); cx.log("op %u on %zu, %zu", op, k, j);
		if (s.empty() || (op == 0 && s.size() < 9)) { s.emplace_back(std::make_unique<int>(next)); want.push_back(next++); }
		else if (op == 1) { s[k] = std::make_unique<int>(next); want[k] = next++; }
		else if (op == 2) { s[k] = nullptr; want[k] = 0; }
		else if (op == 3) { if (k != j) { s[k] = std::move(s[j]); want[k] = want[j]; want[j] = 0; } }
		else if (op == 4) { U u = std::move(s[k]).Get(); VX_TRUE("taken", u ? *u == want[k] : want[k] == 0); want[k] = 0; if (r.coin()) { want[j] = u ? *u : 0; s[j] = std::move(u); VX_TRUE("given", u == nullptr); } }
		else if (op == 5) { U u = static_cast<U&&>(std::move(s[k])); VX_TRUE("taken", u ? *u == want[k] : want[k] == 0); s[k].Get() = std::move(u); }
		else if (op == 6) { s.erase(s.begin() + (std::ptrdiff_t) k); want.erase(want.begin() + (std::ptrdiff_t) k); }
		for (std::size_t x = 0; x < s.size(); ++x) { const U& u = s[x]; VX_TRUE("value", u ? *u == want[x] : want[x] == 0); }
		cx.count("operations");
	}
}

namespace
{
	// contents which can be made from anything, even from what holds them
	struct Eager
	{
		int v = 0; int strangers = 0;
		Eager() = default;
		Eager(const Eager& o) : v(o.v), strangers(o.strangers) {} Eager(Eager&& o) noexcept : v(std::exchange(o.v, -1)), strangers(o.strangers) {}
		template<class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, Eager>>> Eager(U&& u) : v((int) sizeof(u)), strangers(1) { if constexpr (std::is_same_v<std::decay_t<U>, int>) { v = u; strangers = 0; } }
		Eager& operator=(const Eager& o) { v = o.v; strangers = o.strangers; return *this; } Eager& operator=(Eager&& o) noexcept { if (this != &o) { v = std::exchange(o.v, -1); strangers = o.strangers; } return *this; }
		template<class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, Eager>>> Eager& operator=(U&& u) { v = (int) sizeof(u); strangers = 1; if constexpr (std::is_same_v<std::decay_t<U>, int>) { v = u; strangers = 0; } return *this; }
	};
	int content(const Eager& e) { return e.strangers ? -1000 : e.v; }
	int content(const std::any& a) { if (!a.has_value()) return -1; const int* p = std::any_cast<int>(&a); return p ? *p : -1000; }
	template<class T> void fromAnything(Ctx& cx)
	{
		using W = Nz::MovableValue<T>; struct Member { W w; int other = 0; };
		Rng& r = cx.rng; int v = (int) r.range(0, 1000), x = (int) r.range(0, 1000); cx.mix((u64) v * 1001 + (u64) x); cx.log("content %d, assigned %d", v, x);
		W a(v); VX_EQ("value", content(a.Get()), v); W t(T{v}); VX_EQ("value", content(t.Get()), v);
		const W& ca = a; W b(a); W c(ca); W d(static_cast<const W&&>(ca)); W e = a; W f{a};
		VX_EQ("copied value", content(b.Get()), v); VX_EQ("copied value", content(c.Get()), v); VX_EQ("copied value", content(d.Get()), v); VX_EQ("copied value", content(e.Get()), v); VX_EQ("copied value", content(f.Get()), v); VX_EQ("source of copies", content(a.Get()), v);
		W g(x); g = a; VX_EQ("copied value", content(g.Get()), v); W h(x); h = ca; VX_EQ("copied value", content(h.Get()), v); W i(x); i = static_cast<const W&&>(ca); VX_EQ("copied value", content(i.Get()), v); VX_EQ("source of copies", content(a.Get()), v);
		b = x; VX_EQ("assigned value", content(b.Get()), x); T plain{x}; c = plain; VX_EQ("assigned value", content(c.Get()), x); d = std::move(plain); VX_EQ("assigned value", content(d.Get()), x);
		W m(std::move(e)); VX_EQ("moved value", content(m.Get()), v); VX_EQ("source of a move", content(e.Get()), -1); f = std::move(m); VX_EQ("moved value", content(f.Get()), v);
		Member s{W(v), 1}; Member s2(s); Member s3{W(x), 2}; s3 = s; Member s4(std::move(s)); VX_EQ("copied value", content(s2.w.Get()), v); VX_EQ("copied value", content(s3.w.Get()), v); VX_EQ("moved value", content(s4.w.Get()), v); VX_EQ("source of a move", content(s.w.Get()), -1);
		std::vector<W> many(3, a); many.push_back(many[0]); many.emplace_back(many[1]); for (auto& w : many) VX_EQ("copied value", content(w.Get()), v);
		cx.count("operations", 24);
	}
}
VX_FN("values made from anything", 200, 5000, fromAnything<Eager>)
VX_FN("erased values", 200, 5000, fromAnything<std::any>)
