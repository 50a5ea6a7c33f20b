#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/FunctionRef.hpp>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>
using namespace vx;
namespace
{
	using Ref = Nz::FunctionRef<int(int)>;
	int freeA(int x) { return x * 3 + 1; } int freeB(int x) { return x - 100; } long freeL(long x) noexcept { return x * 5; }
	struct Counter { int calls = 0, base = 0; int operator()(int x) { ++calls; return base + x; } };
	struct ConstFn { int base = 0; int operator()(int x) const { return base - x; } };
	struct Overloaded { int operator()(int x) { return x + 1; } int operator()(int x) const { return x + 2; } int operator()(double) { return -1; } };
	struct NoAddress { int b = 0; int operator()(int x) { return b + 2 * x; } void operator&() const = delete; };
	struct Short { short operator()(long x) { return (short) (x + 9); } };
}
// references to callables behave as pointers to them through copies and assignments
VX_SUITE("histories of references", 2500, 120000)
{
	Rng& r = cx.rng;
	Counter counters[3]; int model[3] = {0, 0, 0}; for (int i = 0; i < 3; ++i) counters[i].base = 1000 * (i + 1);
	const ConstFn cf{77}; Overloaded ov; const Overloaded cov; NoAddress na; na.b = 50; Short sh; std::function<int(int)> sf = [](int x) { return x * x % 1000; };
	int captured = 5; auto lam = [&captured, n = 0](int x) mutable { ++n; captured += x; return n * 10000 + x; }; int lamCalls = 0, capModel = 5;
	int (*fp)(int) = freeA; int fpModel = 0; int (*const cfp)(int) = freeB;
	Ref inner = counters[2]; // a reference to a reference of another signature
	Nz::FunctionRef<long(int)> wide = inner;
	struct R { Ref f; int target; }; std::vector<R> refs; refs.reserve(16); refs.push_back({nullptr, -1});
	auto fresh = [&]() -> R
	{
		unsigned t = (unsigned) r.below(15); cx.mix(t);
		switch (t)
		{
			case 0: case 1: case 2: return {counters[t], (int) t};
			case 3: return {cf, 3}; case 4: return {ov, 4}; case 5: return {cov, 5}; case 6: return {na, 6}; case 7: return {sh, 7}; case 8: return {sf, 8}; case 9: return {lam, 9};
			case 10: return {freeA, 10}; case 11: return {fp, fp == freeA ? 10 : 13}; case 12: return {cfp, 13}; case 13: return {freeL, 12}; default: return {nullptr, -1};
		}
	};
	auto expect = [&](int t, int x) -> int
	{
		switch (t)
		{
			case 0: case 1: case 2: ++model[t]; return counters[t].base + x;
			case 3: return 77 - x; case 4: return x + 1; case 5: return x + 2; case 6: return 50 + 2 * x; case 7: return x + 9; case 8: return x * x % 1000; case 9: ++lamCalls; capModel += x; return lamCalls * 10000 + x;
			case 10: return freeA(x); case 12: return (int) freeL(x); default: return freeB(x);
		}
	};
	unsigned steps = 10 + (unsigned) r.below(60);
	for (unsigned i = 0; i < steps; ++i)
	{
		std::size_t k = (std::size_t) r.below(refs.size()), j = (std::size_t) r.below(refs.size());
		switch (r.below(9))
		{
			case 0: if (refs.size() < 8) { refs.push_back(fresh()); cx.log("reference to callable %d", refs.back().target); } break;
			case 1: refs[k] = refs[j]; cx.log("assign %zu = %zu", k, j); break;
			case 2: { R n = fresh(); refs[k].f = n.f; refs[k].target = n.target; cx.log("assign %zu = callable %d", k, n.target); break; }
			case 3: { R m = std::move(refs[j]); refs.push_back(m); if (refs.size() > 9) refs.pop_back(); cx.log("move out of %zu", j); refs[j].f = nullptr; refs[j].target = -1; break; }
			case 5: case 6:
			{
				// copies made in every way are references of their own: what becomes of the reference they were made from doesn't matter
				R& from = refs[j]; const int target = from.target; const Ref& constant = from.f; auto byValue = [](Ref f) { return f; };
				std::optional<Ref> copy; unsigned how = (unsigned) r.below(8); cx.mix(how); cx.log("copy %u of %zu (callable %d)", how, j, target);
				switch (how)
				{
					case 0: { Ref c(from.f); copy = c; Ref d = from.f; from.f = nullptr; from.target = -1; if (target >= 0) { int want = expect(target, 3); VX_EQ("copy of a changed reference", c(3), want); want = expect(target, 4); VX_EQ("copy of a changed reference", d(4), want); } else VX_TRUE("null state", !c && !d); break; }
					case 1: { Ref c(constant); copy.emplace(constant); R n = fresh(); from = n; if (target >= 0) { int want = expect(target, 3); VX_EQ("copy of a changed reference", c(3), want); } break; }
					case 2: copy.emplace(from.f); { R n = fresh(); from = n; } break;
					case 3: { std::optional<Ref> dead(std::in_place, from.f); copy.emplace(*dead); dead.emplace(nullptr); dead.reset(); break; }
					case 4: copy.emplace(byValue(from.f)); { R n = fresh(); from = n; } break;
					case 5: { Ref c{from.f}; copy.emplace(std::move(c)); break; }
					case 6: copy.emplace(static_cast<const Ref&&>(constant)); { R n = fresh(); from = n; } break;
					default: { Ref list[2] = {from.f, nullptr}; list[1] = list[0]; Ref third(list[1]); list[0] = nullptr; list[1] = nullptr; copy.emplace(third); break; }
				}
				VX_EQ("null state", (bool) *copy, target >= 0);
				if (target >= 0) { int x = (int) r.range(0, 30); int want = expect(target, x); VX_EQ("copy of a changed reference", (*copy)(x), want); cx.count("copies called"); }
				if (refs.size() < 8) refs.push_back({*copy, target});
				break;
			}
			case 4: { fp = fp == freeA ? freeB : freeA; ++fpModel; cx.log("function pointer variable changed"); break; } // references to functions do not follow the variable
			default:
				VX_EQ("null state", (bool) refs[k].f, refs[k].target >= 0);
				if (refs[k].target >= 0) { int x = (int) r.range(0, 30); cx.log("call %zu (callable %d) with %d", k, refs[k].target, x); int want = expect(refs[k].target, x); const Ref& cr = refs[k].f; VX_EQ("result", r.coin() ? cr(x) : refs[k].f((short) x), want); cx.count("calls"); }
				break;
		}
		for (int c = 0; c < 3; ++c) VX_EQ("the original callable is invoked", counters[c].calls, model[c]);
		VX_EQ("captured variable", captured, capModel);
	}
	VX_EQ("reference to a reference", wide(4), 3004L); ++model[2]; VX_EQ("the original callable is invoked", counters[2].calls, model[2]);
	VX_EQ("the original closure is invoked", lam(0), (lamCalls + 1) * 10000);
}
namespace
{
	struct Base { int b = 1; virtual ~Base() = default; virtual int who() const { return 1; } }; struct Derived : Base { int who() const override { return 2; } int mem = 33; int method(int x) { return mem + x; } int cmethod() const { return mem; } };
	void addTo(int& a, const int& b) { a += b; }
	void dropTo(int& a, const int&) { a = 0; }
	Derived* makeDerived() { static Derived d; return &d; }
}
// arguments and results go through exactly
VX_SUITE("argument passing", 2000, 60000)
{
	LifeScope ls; Rng& r = cx.rng; int v = (int) r.range(-1000, 1000); cx.log("arguments built from %d", v); cx.mix((u64) v);
	{
		// lvalue reference: the very object
		int x = v; auto f = [&](int& y) -> int& { VX_TRUE("same object", &y == &x); ++y; return y; }; Nz::FunctionRef<int&(int&)> fr = f; int& res = fr(x); VX_TRUE("reference result", &res == &x); VX_EQ("modified", x, v + 1);
		const std::string s(40, 'q'); auto g = [&](const std::string& t) -> const std::string& { VX_TRUE("same object", &t == &s); return t; }; Nz::FunctionRef<const std::string&(const std::string&)> gr = g; VX_TRUE("reference result", &gr(s) == &s);
	}
	{
		// by value: one copy for an lvalue, none for an rvalue; the caller's object is intact
		Tracked<0> t(v); auto f = [&](Tracked<0> a) { return a.get(); }; Nz::FunctionRef<int(Tracked<0>)> fr = f;
		u64 c0 = life.copy; VX_EQ("by value", fr(t), v); VX_EQ("copies of an lvalue argument", life.copy - c0, 1u); VX_EQ("the caller's object", t.get(), v);
		c0 = life.copy; VX_EQ("by value", fr(Tracked<0>(v + 1)), v + 1); VX_EQ("copies of an rvalue argument", life.copy - c0, 0u);
		Tracked<0> u(v + 2); c0 = life.copy; VX_EQ("by value", fr(std::move(u)), v + 2); VX_EQ("copies of a moved argument", life.copy - c0, 0u); VX_EQ("moved from", u.get(), (int) MovedFrom);
	}
	{
		auto f = [](std::unique_ptr<int> p, std::unique_ptr<int>&& q) { auto z = std::make_unique<int>(*p + *q); return z; }; Nz::FunctionRef<std::unique_ptr<int>(std::unique_ptr<int>, std::unique_ptr<int>&&)> fr = f;
		auto q = std::make_unique<int>(10); auto res = fr(std::make_unique<int>(v), std::move(q)); VX_EQ("move-only", *res, v + 10); VX_TRUE("rvalue reference is not consumed by the call", q && *q == 10);
	}
	{
		int hits = 0; auto f = [&](int) { ++hits; return std::string("dropped"); }; Nz::FunctionRef<void(int)> fr = f; fr(1); VX_EQ("result dropped", hits, 1); static_assert(std::is_void_v<decltype(fr(1))>);
		Derived d; auto g = [&](Base& b) { return b.who(); }; Nz::FunctionRef<double(Derived&)> gr = g; VX_EQ("conversions", gr(d), 2.0);
		Nz::FunctionRef<Base*()> mk = makeDerived; VX_EQ("result conversion", mk()->who(), 2);
		auto ms = &Derived::method; Nz::FunctionRef<int(Derived&, int)> mr = ms; VX_EQ("member function", mr(d, v), 33 + v); auto cm = &Derived::cmethod; Nz::FunctionRef<int(const Derived*)> cr = cm; VX_EQ("member function", cr(&d), 33);
		auto dm = &Derived::mem; Nz::FunctionRef<int&(Derived&)> dr = dm; dr(d) = v; VX_EQ("data member", d.mem, v);
		Nz::FunctionRef<void(int&, const int&)> vf = addTo; int total = 5; vf(total, v); VX_EQ("void function", total, 5 + v); auto pf = &addTo; Nz::FunctionRef<void(int&, int)> vp(pf); pf = &dropTo; vp(total, 2); VX_EQ("void function", total, 7 + v); Nz::FunctionRef<void(int)> vd = freeA; vd(v); static_assert(std::is_void_v<decltype(vd(1))>);
		Nz::FunctionRef fd = &freeA; static_assert(std::is_same_v<decltype(fd), Nz::FunctionRef<int(int)>>); VX_EQ("deduced", fd(v), freeA(v));
	}
	{
		// exceptions and recursion
		auto f = [&](int n) -> int { if (n == v) throw Boom{v}; return n; }; Ref fr = f; bool caught = false; try { (void) fr(v); } catch (Boom& b) { caught = b.what == v; } VX_TRUE("exception", caught); VX_EQ("after the exception", fr(v + 1), v + 1);
		struct Rec { static int down(Ref self, int n, int acc) { return n == 0 ? acc : self(n); } }; int acc = 0; std::function<int(int)> step; Ref sr = step; step = [&](int n) { acc += n; return Rec::down(sr, n - 1, acc); }; int n = 1 + (int) r.below(30); VX_EQ("recursion", sr(n), n * (n + 1) / 2);
	}
	{
		// zero-size and many arguments; reference-like size
		auto f = [](int a, double b, const char* c, std::string d, long long e, char g, bool h) { return std::to_string(a) + std::to_string((int) b) + c + d + std::to_string(e) + g + (h ? "t" : "f"); };
		Nz::FunctionRef<std::string(int, double, const char*, std::string, long long, char, bool)> fr = f; VX_TRUE("many arguments", fr(v, 2.5, "c", "d", 1ll << 40, 'g', true) == std::to_string(v) + "2cd1099511627776gt");
		static_assert(!std::is_constructible_v<Ref, std::string> && !std::is_constructible_v<Ref, int> && std::is_nothrow_copy_constructible_v<Ref> && !std::is_convertible_v<Ref, bool>);
		static_assert(!std::is_constructible_v<Nz::FunctionRef<std::string(int)>, Counter&>);
	}
	cx.count("argument forms", 16);
}
namespace
{
	// the callable itself is called, never a copy of it, whatever it looks like
	template<std::size_t N> struct Sized { unsigned char c[N]; Sized() { for (auto& x : c) x = 0; } int operator()(int x) { c[0] = (unsigned char) (c[0] + x); c[N - 1] = (unsigned char) (c[N - 1] + (N > 1)); return c[0]; } int first() const { return c[0]; } };
	template<std::size_t N> struct Small { unsigned char c[N] = {}; int operator()(int x) { c[0] = (unsigned char) (c[0] + x); return c[0]; } int first() const { return c[0]; } };
	template<class T> struct Held { T c = 0; int operator()(int x) { c = T((unsigned char) ((int) c + x)); return (int) c; } int first() const { return (int) c; } };
	struct FinalFn final { int c = 0; ~FinalFn() { c = -1; } int operator()(int x) & { c = (c + x) & 255; return c; } int operator()(int) && { return -1; } int first() const { return c; } };
	struct PolyFn { virtual ~PolyFn() = default; virtual int operator()(int) { return -1; } virtual int first() const { return -1; } };
	struct PolyImpl final : Base, PolyFn { int c = 0; int operator()(int x) override { c = (c + x) & 255; return c; } int first() const override { return c; } };
	struct MutableFn { mutable unsigned char c = 0; int operator()(int x) const { c = (unsigned char) (c + x); return c; } int first() const { return c; } };
	struct PtrFn { int* c; int operator()(int x) const { *c = (*c + x) & 255; return *c; } int first() const { return *c; } };
	struct StringFn { std::string c = std::string(1, '\0'); int operator()(int x) { c[0] = (char) ((unsigned char) c[0] + x); c += 'x'; return (unsigned char) c[0]; } int first() const { return (unsigned char) c[0]; } };
	struct NoCopy { int c = 0; NoCopy() = default; NoCopy(const NoCopy&) = delete; int operator()(int x) { c = (c + x) & 255; return c; } int first() const { return c; } };
	struct Commas { unsigned char c = 0; Commas& operator,(int) { return *this; } Commas* operator&() { return nullptr; } Commas operator*() { return *this; } int operator()(int x) { c = (unsigned char) (c + x); return c; } int first() const { return c; } };
	template<class Sig, class F> void statefulAs(Ctx& cx, F& obj)
	{
		Rng& r = cx.rng; unsigned model = (unsigned) obj.first();
		Nz::FunctionRef<Sig> a = obj, b = a, c(nullptr); c = b; const auto d = c;
		for (unsigned i = 0; i < 8; ++i)
		{
			int x = (int) r.range(1, 100); unsigned how = (unsigned) r.below(5); cx.mix(how); model = (model + (unsigned) x) & 255;
			if (how == 4) { if (obj(x) != (int) model) fail("state", "a call of the object itself does not see the calls made through references"); }
			else
			{
				const auto& ref = how == 0 ? a : how == 1 ? b : how == 2 ? c : d;
				if constexpr (std::is_void_v<decltype(ref(x))>) ref(x); else if ((int) ref(x) != (int) model) fail("state", "a call through a reference does not see the state of the object");
			}
			if (obj.first() != (int) model) fail("state", "a call through a reference did not reach the object itself"); ++cx.checks; cx.count("calls");
			if (r.chance(1, 8)) { Nz::FunctionRef<Sig> e = std::move(a); a = e; }
		}
	}
	template<class F> void stateful(Ctx& cx, F&& obj) { statefulAs<int(int)>(cx, obj); statefulAs<void(int)>(cx, obj); statefulAs<void(int)>(cx, obj); statefulAs<int(short)>(cx, obj); statefulAs<unsigned char(const int&)>(cx, obj); }
}
VX_SUITE("state of the callable", 300, 12000)
{
	cx.log("callables of every shape");
	stateful(cx, Sized<1>()); stateful(cx, Sized<2>()); stateful(cx, Sized<8>()); stateful(cx, Sized<9>()); stateful(cx, Sized<16>()); stateful(cx, Sized<24>()); stateful(cx, Sized<64>()); stateful(cx, Sized<65>()); stateful(cx, Sized<300>());
	stateful(cx, Small<1>()); stateful(cx, Small<4>()); stateful(cx, Small<8>()); stateful(cx, Small<16>()); stateful(cx, Small<32>());
	stateful(cx, Held<unsigned char>()); stateful(cx, Held<int>()); stateful(cx, Held<long long>()); stateful(cx, Held<float>()); stateful(cx, Held<double>()); stateful(cx, Held<long double>());
	stateful(cx, FinalFn()); stateful(cx, MutableFn()); stateful(cx, StringFn()); stateful(cx, NoCopy());
	{ Commas c; statefulAs<int(int)>(cx, c); statefulAs<void(int)>(cx, c); }
	{ PolyImpl p; PolyFn& f = p; stateful(cx, f); } { int n = 0; PtrFn p{&n}; stateful(cx, p); const PtrFn cp{&n}; stateful(cx, cp); } { const MutableFn m; stateful(cx, m); }
	{ int n = 5; auto l = [n](int x) mutable { n = (n + x) & 255; return n; }; struct L { decltype(l)& f; int* p; int operator()(int x) { return f(x); } int first() const { auto t = f; return t(0); } }; L w{l, nullptr}; stateful(cx, w); Nz::FunctionRef<int(int)> a = l, b = a; int u = a(1); VX_EQ("closure", b(1), (u + 1) & 255); VX_EQ("closure", l(0), (u + 1) & 255); }
	{
		// another object in the same place
		std::optional<Held<int>> o(std::in_place); Ref f = *o; VX_EQ("before", f(4), 4); o->c = 50; VX_EQ("changed under the reference", f(4), 54); o.emplace(); VX_EQ("rebuilt under the reference", f(3), 3);
	}
}
