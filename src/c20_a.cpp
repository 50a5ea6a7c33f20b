#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/CallOnExit.hpp>
#include <exception>
#include <functional>
#include <memory>
#include <vector>
using namespace vx;
// scope guards: each functor runs exactly once, when it should, or never once given up
namespace
{
	VX_TLS std::vector<int> ran; VX_TLS int throwFrom = -1;
	struct Fn { Tracked<0> id; void operator()() const { int i = id.get(); ran.push_back(i); if (i == throwFrom) throw Boom{}; } };
	struct FnMoveOnly { Tracked<1> id; void operator()() { ran.push_back(id.get()); if (id.get() == throwFrom) throw Boom{}; } };
	template<class F> void history(Ctx& cx)
	{
		LifeScope ls; ran.clear(); throwFrom = -1; Rng& r = cx.rng;
		struct Slot { std::unique_ptr<Nz::CallOnExit<F>> g; int id = -1; }; // id < 0: disarmed
		std::vector<Slot> s; std::vector<int> want; int next = 0;
		auto check = [&] { ++cur->checks; if (ran != want) { std::string a, b; for (int x : ran) a += std::to_string(x) + " "; for (int x : want) b += std::to_string(x) + " "; fail("calls", "functors called: %s, expected: %s", a.c_str(), b.c_str()); } };
		unsigned steps = 5 + (unsigned) r.below(40);
		for (unsigned i = 0; i < steps; ++i)
		{
			unsigned op = (unsigned) r.below(8); std::size_t k = s.empty() ? 0 : (std::size_t) r.below(s.size()); cx.mix(op * 31 + k);
			if (s.empty() || (op <= 1 && s.size() < 6)) { Slot n; if (r.chance(1, 8)) { n.g = std::make_unique<Nz::CallOnExit<F>>(); cx.log("new empty guard"); } else { n.id = next++; n.g = std::make_unique<Nz::CallOnExit<F>>(F{n.id}); cx.log("guard of functor %d", n.id); } s.push_back(std::move(n)); }
			else if (op == 2 || op <= 1) { cx.log("destroy guard %zu", k); if (s[k].id >= 0) want.push_back(s[k].id); s[k].g.reset(); s.erase(s.begin() + k); }
			else if (op == 3) { cx.log("reset guard %zu", k); s[k].g->Reset(); s[k].id = -1; }
			else if (op == 4 || op == 5)
			{
				bool t = s[k].id >= 0 && r.chance(1, 4); if (t) throwFrom = s[k].id;
				cx.log("call guard %zu%s", k, t ? ", throwing" : ""); if (s[k].id >= 0) want.push_back(s[k].id); s[k].id = -1;
				bool caught = false; try { s[k].g->CallAndReset(); } catch (Boom&) { caught = true; } throwFrom = -1; VX_EQ("exception reaches the caller", caught, t);
			}
			else
			{
				std::size_t j = (std::size_t) r.below(s.size()); bool t = k != j && s[k].id >= 0 && r.chance(1, 5);
				cx.log("assign guard %zu from %zu%s", k, j, t ? ", throwing" : "");
				if (k == j) { *s[k].g = std::move(*s[j].g); }
				else
				{
					if (t) throwFrom = s[k].id;
					if (s[k].id >= 0) want.push_back(s[k].id);
					bool caught = false; try { *s[k].g = std::move(*s[j].g); } catch (Boom&) { caught = true; } throwFrom = -1; VX_EQ("exception reaches the caller", caught, t);
					if (caught) { s[k].id = -1; /* the other guard still owes its call */ } else { s[k].id = s[j].id; s[j].id = -1; }
				}
			}
			check();
		}
		while (!s.empty()) { if (s.back().id >= 0) want.push_back(s.back().id); s.pop_back(); check(); }
		cx.count("functor calls", want.size()); std::vector<int>().swap(ran);
	}
}
namespace
{
	// functors of other shapes: large, final, without any state of their own, with an address of their own kind, function pointers
	struct FnBig { ZBig id; void operator()() { int i = val(id); ran.push_back(i); if (i == throwFrom) throw Boom{}; } };
	struct FnFinal final { ZFinal id; int operator()() && = delete; void operator()() & { int i = id.get(); ran.push_back(i); if (i == throwFrom) throw Boom{}; } };
	struct FnPoly { ZPoly id; virtual ~FnPoly() = default; virtual int operator()() { int i = val(id); ran.push_back(i); if (i == throwFrom) throw Boom{}; return i; } FnPoly(int x) : id(x) {} FnPoly(FnPoly&&) = default; };
	struct FnCopyOnly { Tracked<2> id; void operator()() noexcept(false) { int i = id.get(); ran.push_back(i); if (i == throwFrom) throw Boom{}; } };
}
VX_FN("guards of large functors", 400, 20000, history<FnBig>)
VX_FN("guards of final functors", 400, 20000, history<FnFinal>)
VX_FN("guards of polymorphic functors", 400, 20000, history<FnPoly>)
VX_FN("guards of copy-only functors", 400, 20000, history<FnCopyOnly>)
VX_FN("guards of copyable functors", 1200, 60000, history<Fn>)
VX_FN("guards of move-only functors", 1200, 60000, history<FnMoveOnly>)
namespace
{
	// nested scopes with deferred statements, left normally, by return, break or exception
	VX_TLS std::vector<int> order;
	int scope(Rng& r, int depth, int& id, std::vector<int>& want, bool& threw)
	{
		int a = id++, b = id++, c = id++; int way = (int) r.below(5); int local = 1, seen = -1;
		std::vector<int> inner;
		auto body = [&]() -> int
		{
			NAZARA_DEFER( order.push_back(a); seen = local; );
			NAZARA_DEFER( order.push_back(b); if (local) order.push_back(-b); );
			auto last = [&, c] { order.push_back(c); };
			Nz::CallOnExit guard(std::move(last));
			local = 7;
			if (depth < 4 && r.coin()) { scope(r, depth + 1, id, inner, threw); if (threw) { if (r.coin()) threw = false; else { throw Boom{}; } } }
			for (int i = 0; i < 3; ++i) { NAZARA_DEFER({ order.push_back(1000 + i); }); inner.push_back(1000 + i); if (way == 1 && i == 1) break; if (way == 4) continue; }
			if (way == 2) return 5;
			if (way == 3) { threw = true; throw Boom{}; }
			if (way == 4) { guard.Reset(); c = -1; return 6; }
			return 0;
		};
		int expect = way == 2 ? 5 : way == 4 ? 6 : 0; bool caught = false;
		try { int v = body(); VX_EQ("returned value", v, expect); } catch (Boom&) { caught = true; threw = true; }
		for (int x : inner) want.push_back(x);
		if (c >= 0) want.push_back(c); want.push_back(b); want.push_back(-b); want.push_back(a);
		VX_EQ("deferred statement sees the last value", seen, 7);
		return caught;
	}
}
VX_SUITE("deferred statements", 1500, 60000)
{
	order.clear(); std::vector<int> want; int id = 1; bool threw = false; cx.log("nested scopes"); scope(cx.rng, 0, id, want, threw);
	for (int x : order) cx.mix((u64) x);
	++cx.checks; if (order != want) { std::string a, b; for (int x : order) a += std::to_string(x) + " "; for (int x : want) b += std::to_string(x) + " "; fail("order", "deferred statements ran as %s, expected %s", a.c_str(), b.c_str()); }
	cx.count("deferred statements", want.size()); std::vector<int>().swap(order);
}
VX_SUITE("re-entrant guards", 200, 4000)
{
	// the functor operates on its own guard
	using G = Nz::CallOnExit<std::function<void()>>; int calls = 0; unsigned how = (unsigned) cx.index % 4; cx.log("functor uses its own guard, variant %u", how); cx.mix(how);
	{
		G g; G other(std::function<void()>([&] { ++calls; }));
		G self(std::function<void()>([&] { ++calls; if (how == 0) self.CallAndReset(); else if (how == 1) self.Reset(); else if (how == 2) self = std::move(g); }));
		if (how == 3) { G* p = &self; (void) p; self = std::move(other); VX_EQ("assignment calls the previous functor", calls, 1); }
		else { self.CallAndReset(); VX_EQ("called once", calls, 1); self.CallAndReset(); VX_EQ("called once", calls, 1); }
	}
	VX_EQ("calls at the end", calls, 2); cx.count("re-entrant uses");
	static_assert(!std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G> && !std::is_move_constructible_v<G>);
}

namespace
{
	// guards of stack frames which are left while other exceptions are already on their way
	VX_TLS std::vector<int> unwound; VX_TLS unsigned deepest;
	struct Push { int id; void operator()() const { unwound.push_back(id); } };
	struct PushBig { int id; unsigned char pad[200]; void operator()() { unwound.push_back(id); } };
	struct Plan { Rng& r; int id = 1; std::vector<int> want; };
	void frame(Plan& p, int depth);
	struct Nested { Plan& p; int depth; ~Nested() { deepest = std::max(deepest, (unsigned) std::uncaught_exceptions()); int before = std::uncaught_exceptions(); try { frame(p, depth); } catch (Boom&) {} if (std::uncaught_exceptions() != before) fail("exceptions", "an exception stayed behind"); } };
	void frame(Plan& p, int depth)
	{
		Rng& r = p.r; int a = p.id++, b = p.id++, c = p.id++, d = p.id++; unsigned how = (unsigned) r.below(5); bool leaves = r.coin(); std::vector<int> tail;
		struct Record { Plan& p; std::vector<int>& t; ~Record() { for (int x : t) p.want.push_back(x); } }; // the expected calls, recorded as the frame is left
		{
			Record record{p, tail}; std::vector<int> outer; Record before{p, outer};
			Nz::CallOnExit first(Push{a}); outer.push_back(a);
			{
				std::vector<int> inner; Record mine{p, inner};
				Nz::CallOnExit<PushBig> second(PushBig{b, {}});
				if (how == 0) second.Reset(); else if (how == 1) { second.CallAndReset(); p.want.push_back(b); } else if (how == 2) { Nz::CallOnExit<PushBig> other(PushBig{c, {}}); second = std::move(other); p.want.push_back(b); inner.push_back(c); } else inner.push_back(b);
				std::vector<int> last; Record those{p, last}; // recorded before the inner frames: nested frames run after the last guard
				if (depth > 0)
				{
					Nested nested{p, depth - 1};
					NAZARA_DEFER({ unwound.push_back(d); p.want.push_back(d); });
					if (leaves) throw Boom{};
				}
				else if (leaves) throw Boom{};
			}
		}
	}
}
VX_SUITE("guards during unwinding", 1500, 60000)
{
	unwound.clear(); deepest = 0; Plan p{cx.rng, 1, {}}; cx.log("nested unwinding"); try { frame(p, 2 + (int) cx.rng.below(4)); } catch (Boom&) {}
	++cx.checks; for (int x : unwound) cx.mix((u64) x);
	if (unwound != p.want) { std::string a, b; for (int x : unwound) a += std::to_string(x) + " "; for (int x : p.want) b += std::to_string(x) + " "; fail("calls", "functors called: %s, expected: %s", a.c_str(), b.c_str()); }
	cx.count("functor calls", unwound.size()); cx.count("frames left with several exceptions in flight", deepest >= 2); std::vector<int>().swap(unwound);
}
namespace { VX_TLS int plain; void bump() { ++plain; } }
VX_SUITE("guards of functions", 100, 2000)
{
	Rng& r = cx.rng; plain = 0; int want = 0; cx.mix(cx.index);
	{
		using P = void (*)(); Nz::CallOnExit<P> g(&bump), h; bool moved = r.coin(), reset = r.coin(), call = r.coin(); cx.log("function pointers %d%d%d", moved, reset, call); want = moved && reset ? 0 : 1;
		if (moved) h = std::move(g); if (reset) h.Reset(); VX_EQ("calls", plain, 0); if (call) { g.CallAndReset(); h.CallAndReset(); VX_EQ("calls", plain, want); }
	}
	VX_EQ("calls", plain, want);
	{ Nz::CallOnExit g(static_cast<void (*)()>(bump)); } VX_EQ("calls", plain, want + 1);
	{ std::function<void()> f = bump; Nz::CallOnExit g(std::move(f)); g.Reset(); } VX_EQ("calls", plain, want + 1);
	{ auto shared = std::make_shared<int>(3); std::weak_ptr<int> w = shared; { Nz::CallOnExit g([s = std::move(shared)] { plain += *s; }); VX_TRUE("kept", !w.expired()); } VX_EQ("calls", plain, want + 4); VX_TRUE("released", w.expired()); }
	cx.count("function guards", 4);
}
