#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/Assert.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <memory>
#include <optional>
#include <vector>
using namespace vx;
// an implementation holder behaves as the value it hides
namespace
{
	struct alignas(64) Wide { Tracked<0> t; Wide(int v = 0) : t(v) {} int get() const { if ((std::uintptr_t) this % 64) fail("alignment", "object is not aligned"); return t.get(); } };
	struct NoAssign { Tracked<0> t; const int k = 3; NoAssign(int v = 0) : t(v) {} int get() const { return t.get(); } };
	struct Two { Tracked<0> a, b; Two(int x = 0, int y = 5) : a(x), b(y) {} int get() const { if (b.get() != 5 && b.get() != MovedFrom) fail("value", "second member is wrong"); return a.get(); } };
	struct MoveOnly { Tracked<1> t; MoveOnly(int v = 0) : t(v) {} int get() const { return t.get(); } };
	template<class Z> struct Zoo { Z t; Zoo(int v = 0) : t(v) {} int get() const { return val(t); } };
	struct Virtual : Zoo<ZPoly> { using Zoo<ZPoly>::Zoo; Virtual(const Virtual&) = default; Virtual(Virtual&&) = default; Virtual& operator=(const Virtual&) = default; virtual ~Virtual() = default; };
	struct Final final : Zoo<ZFinal> { using Zoo<ZFinal>::Zoo; };
	struct Ops : Zoo<ZOps> { using Zoo<ZOps>::Zoo; void operator&() const = delete; template<class U> void operator,(U&&) const = delete; };
	template<class P, class T> void reads(P& p, int want)
	{
		const P& c = p; VX_EQ("value", p.Get()->get(), want); VX_EQ("value", c.Get()->get(), want); VX_EQ("value", (*p).get(), want); VX_EQ("value", (*c).get(), want); VX_EQ("value", p->get(), want); VX_EQ("value", c->get(), want);
		T* a = p; const T* b = c; VX_TRUE("pointer", a == p.Get() && b == a && std::addressof(*c) == a);
		static_assert(std::is_same_v<decltype(*c), const T&> && std::is_same_v<decltype(c.Get()), const T*> && std::is_same_v<decltype(c.operator->()), const T*>);
	}
	// storage inside the object
	template<class T, std::size_t Al> void inplace(Ctx& cx)
	{
		using P = Nz::PrivateImpl<T, sizeof(T), Al>;
		LifeScope ls; Rng& r = cx.rng; struct S { std::unique_ptr<P> p; int v; bool moved = false; }; std::vector<S> s; int next = 1;
		unsigned steps = 5 + (unsigned) r.below(40);
		for (unsigned i = 0; i < steps; ++i)
		{
			unsigned op = (unsigned) r.below(9); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 97 + k * 11 + j);
			bool arm = r.chance(1, 6); if (arm) life.arm((i64) r.below(2)); bool threw = false, assigning = false;
			try
			{
				if (s.empty() || (op == 0 && s.size() < 6)) { cx.log("new object %d", next); auto p = std::make_unique<P>(next); s.push_back({std::move(p), next}); ++next; }
				else if (op <= 1) { life.disarm(); cx.log("destroy %zu", k); s.erase(s.begin() + k); }
				else if (op == 2) { life.disarm(); cx.log("move-construct from %zu", j); auto p = std::make_unique<P>(std::move(*s[j].p)); int v = s[j].v; s[j].moved = true; s[j].v = MovedFrom; if (s.size() < 7) s.push_back({std::move(p), v}); }
				else if (op == 3) { life.disarm(); cx.log("move-assign %zu from %zu", k, j); *s[k].p = std::move(*s[j].p); if (k != j) { s[k].v = s[j].v; s[j].v = MovedFrom; } }
				else if constexpr (std::is_copy_constructible_v<T>)
				{
					if (op <= 5) { cx.log("copy-construct from %zu", j); auto p = std::make_unique<P>(*s[j].p); int v = s[j].v; if (s.size() < 7) s.push_back({std::move(p), v}); }
					else { assigning = true; cx.log("copy-assign %zu from %zu", k, j); *s[k].p = *s[j].p; s[k].v = s[j].v; }
				}
			}
			catch (Boom&) { threw = true; cx.log("  threw"); cx.count("constructor failures"); }
			life.disarm();
			if (threw && assigning) { for (std::size_t q = 0; q < s.size(); ++q) if (q != k) reads<P, T>(*s[q].p, s[q].v); if constexpr (std::is_same_v<T, Two>) { s.erase(s.begin() + k); continue; } } // an assignment that failed half way leaves its target valid
			for (auto& x : s) { reads<P, T>(*x.p, x.v); VX_TRUE("storage", (char*) x.p->Get() >= (char*) x.p.get() && (char*) (x.p->Get() + 1) <= (char*) (x.p.get() + 1)); }
			VX_EQ("live objects", life.live - ls.before, (u64) s.size() * (std::is_same_v<T, Two> ? 2 : 1));
			cx.count("operations");
		}
	}
	// storage on the heap
	template<class T> void heaped(Ctx& cx)
	{
		using P = Nz::PrivateImpl<T>;
		LifeScope ls; Rng& r = cx.rng; struct S { std::unique_ptr<P> p; std::optional<int> v; }; std::vector<S> s; s.reserve(8); int next = 1;
		unsigned steps = 5 + (unsigned) r.below(45);
		for (unsigned i = 0; i < steps; ++i)
		{
			unsigned op = (unsigned) r.below(12); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 97 + k * 11 + j);
			unsigned arm = (unsigned) r.below(10); bool threw = false, assigning = false; std::unique_ptr<P> p;
			auto faults = [&] { if (arm == 0) life.arm((i64) r.below(2)); else if (arm == 1) heap.failIn = (i64) r.below(2); };
			auto calm = [&] { life.disarm(); heap.failIn = -1; };
			try
			{
				if (s.empty() || (op == 0 && s.size() < 6)) { cx.log("new object %d", next); faults(); p = std::make_unique<P>(next); calm(); s.push_back({std::move(p), next++}); }
				else if (op == 1) { cx.log("destroy %zu", k); s.erase(s.begin() + k); }
				else if (op == 2) { cx.log("empty holder"); if (s.size() < 6) s.push_back({std::make_unique<P>(nullptr), {}}); }
				else if (op == 3) { cx.log("adopt a pointer"); if (s.size() < 6) { T* t = new T(next); s.push_back({std::make_unique<P>(t), next++}); VX_TRUE("adopted", s.back().p->Get() == t); } }
				else if (op == 4) { cx.log("move-construct from %zu", j); if (s.size() < 6) { T* o = s[j].p->Get(); p = std::make_unique<P>(std::move(*s[j].p)); VX_TRUE("the object does not move", p->Get() == o); auto v = s[j].v; s[j].v.reset(); s.push_back({std::move(p), v}); } }
				else if (op == 5) // the moved-from holder keeps at most the object the target had
				{
					cx.log("move-assign %zu from %zu", k, j); T* o = s[j].p->Get(); auto old = s[k].v; auto nv = s[j].v; *s[k].p = std::move(*s[j].p); s[k].v = nv; VX_TRUE("the object does not move", s[k].p->Get() == o);
					if (k != j) { if (s[j].p->HasValue()) { VX_TRUE("moved-from holder", old.has_value() && s[j].p->Get()->get() == *old); s[j].v = old; } else s[j].v.reset(); }
				}
				else if (op == 6) { cx.log("reset %zu", k); s[k].p->Reset(); s[k].v.reset(); }
				else if (op <= 8) { if (!s[k].v) { cx.log("emplace in %zu", k); faults(); T& t = s[k].p->Emplace(next); calm(); VX_TRUE("emplace", std::addressof(t) == s[k].p->Get()); s[k].v = next++; } }
				else if constexpr (std::is_copy_constructible_v<T>)
				{
					if (op == 9) { if (s.size() < 6) { cx.log("copy-construct from %zu", j); faults(); p = std::make_unique<P>(*s[j].p); calm(); auto v = s[j].v; s.push_back({std::move(p), v}); } }
					else { assigning = true; cx.log("copy-assign %zu from %zu", k, j); faults(); *s[k].p = *s[j].p; calm(); s[k].v = s[j].v; }
				}
			}
			catch (Boom&) { threw = true; } catch (std::bad_alloc&) { threw = true; }
			calm();
			if (threw) { cx.log("  threw"); cx.count("failures"); if (assigning && std::is_same_v<T, Two>) { s.erase(s.begin() + k); } }
			u64 n = 0;
			for (auto& x : s)
			{
				VX_EQ("HasValue", x.p->HasValue(), x.v.has_value()); VX_EQ("operator bool", (bool) *x.p, x.v.has_value()); VX_EQ("operator bool", (bool) std::as_const(*x.p), x.v.has_value()); VX_EQ("condition", std::as_const(*x.p) ? 1 : 0, x.v.has_value() ? 1 : 0); VX_TRUE("Get", (x.p->Get() != nullptr) == x.v.has_value());
				if (x.v) { ++n; reads<P, T>(*x.p, *x.v); }
			}
			VX_EQ("live objects", life.live - ls.before, n * (std::is_same_v<T, Two> ? 2 : 1));
			for (std::size_t a = 0; a < s.size(); ++a) for (std::size_t b = a + 1; b < s.size(); ++b) VX_TRUE("deep copies", !s[a].v || s[a].p->Get() != s[b].p->Get());
			cx.count("operations");
		}
	}
}
VX_FN("in place", 900, 40000, inplace<Tracked<0>, alignof(std::max_align_t)>)
VX_FN("in place, over-aligned", 900, 40000, inplace<Wide, 64>)
VX_FN("in place, without assignment", 900, 40000, inplace<NoAssign, alignof(std::max_align_t)>)
VX_FN("in place, several members", 600, 40000, inplace<Two, 16>)
// objects that can only be copy-constructed: an assignment replaces the object
namespace { struct Pinned { Tracked<0> t; const int k = 4; Pinned(int v = 0) : t(v) {} Pinned(const Pinned& o) : t(o.t) {} Pinned(Pinned&&) = delete; int get() const { if (k != 4) fail("value", "second member is wrong"); return t.get(); } }; }
VX_SUITE("in place, copy-constructible only", 600, 30000)
{
	using P = Nz::PrivateImpl<Pinned, sizeof(Pinned)>; LifeScope ls; Rng& r = cx.rng; std::vector<std::unique_ptr<P>> s; std::vector<int> v; int next = 1;
	for (unsigned i = 5 + (unsigned) r.below(30); i--;)
	{
		std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()), j = s.empty() ? 0 : (std::size_t) r.below(s.size()); unsigned op = (unsigned) r.below(5); cx.mix(op * 97 + k * 11 + j);
		if (s.empty() || (op == 0 && s.size() < 6)) { cx.log("new object %d", next); s.push_back(std::make_unique<P>(next)); v.push_back(next++); }
		else if (op == 1) { cx.log("destroy %zu", k); s.erase(s.begin() + k); v.erase(v.begin() + k); }
		else if (op == 2) { cx.log("copy-construct from %zu", k); if (s.size() < 6) { s.push_back(std::make_unique<P>(std::as_const(*s[k]))); v.push_back(int(v[k])); } }
		else { cx.log("copy-assign %zu from %zu", k, j); P& res = (*s[k] = std::as_const(*s[j])); VX_TRUE("result of the assignment", &res == s[k].get()); v[k] = v[j]; }
		for (std::size_t q = 0; q < s.size(); ++q) reads<P, Pinned>(*s[q], v[q]);
		VX_EQ("live objects", life.live - ls.before, (u64) s.size()); cx.count("operations");
	}
}
VX_FN("in place, move-only", 600, 30000, inplace<MoveOnly, alignof(std::max_align_t)>)
VX_FN("heap", 900, 40000, heaped<Tracked<0>>)
VX_FN("heap, over-aligned", 900, 40000, heaped<Wide>)
VX_FN("heap, without assignment", 900, 40000, heaped<NoAssign>)
VX_FN("heap, several members", 600, 40000, heaped<Two>)
VX_FN("heap, move-only", 600, 30000, heaped<MoveOnly>)
VX_FN("in place, large", 400, 20000, inplace<Zoo<ZBig>, 16>)
VX_FN("in place, final", 400, 20000, inplace<Final, 16>)
VX_FN("in place, polymorphic", 400, 20000, inplace<Virtual, 32>)
VX_FN("heap, large", 400, 20000, heaped<Zoo<ZBig>>)
VX_FN("heap, final", 400, 20000, heaped<Final>)
VX_FN("heap, operators", 400, 20000, heaped<Ops>)
VX_FN("in place, operators", 400, 20000, inplace<Ops, 16>)
VX_FN("heap, polymorphic", 400, 20000, heaped<Virtual>)
