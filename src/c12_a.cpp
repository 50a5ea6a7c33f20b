#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/Result.hpp>
#include <any>
#include <functional>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
using namespace vx;
#ifndef PART
#define PART 0
#endif
namespace
{
	std::string text(int i) { return (i & 1 ? "a longer text that owns heap memory #" : "#") + std::to_string(i); }
	// conversions between the model (an int) and payloads
	template<class T> struct Pay { static T mk(int i) { return T(i); } static int of(const T& t) { return val(t); } };
	template<> struct Pay<std::string> { static std::string mk(int i) { return text(i); } static int of(const std::string& s) { auto p = s.find('#'); return p == s.npos ? -1 : std::atoi(s.c_str() + p + 1); } };
	template<> struct Pay<std::unique_ptr<int>> { static std::unique_ptr<int> mk(int i) { return std::make_unique<int>(i); } static int of(const std::unique_ptr<int>& p) { return p ? *p : -1; } };
	enum class Code { Zero, Last = 1 << 29 };
	template<> struct Pay<Code> { static Code mk(int i) { return (Code) i; } static int of(Code c) { return (int) c; } };
	template<class F> std::string thrown(F&& f) { try { f(); } catch (const std::runtime_error& e) { return e.what()[0] ? e.what() : "(empty)"; } return ""; }
	struct M { bool ok; int v; };
	// the text is the caller's: any text
	const std::string messages[] = { "expected", "", "x", "a message long enough to be stored on the heap of the program", "with\ttabs\nand %s %n" };

	template<class V, class E> void check(const Nz::Result<V, E>& cr, const M& m, const char* who)
	{
		auto& r = const_cast<Nz::Result<V, E>&>(cr); ++cur->checks;
		if (cr.IsOk() != m.ok || cr.IsErr() != !m.ok || (bool) cr != m.ok) fail("state", "%s: ok=%d err=%d bool=%d, expected ok=%d", who, (int) cr.IsOk(), (int) cr.IsErr(), (int) (bool) cr, (int) m.ok);
		bool probe = cur->rng.chance(1, 4); // exceptions are slow under ASan
		if (probe) {
		const std::string& w1 = messages[cur->rng.below(5)]; const std::string& w2 = messages[cur->rng.below(5)]; auto shown = [&](const std::string& w) { return m.ok ? std::string() : w.empty() ? std::string("(empty)") : w; };
		std::string e1 = thrown([&] { cr.Expect(w1.c_str()); }), e2 = thrown([&] { cr.Expect(w2); });
		if (e1 != shown(w1) || e2 != shown(w2)) fail("expect", "%s: Expect threw '%s'/'%s', given '%s'/'%s'", who, e1.c_str(), e2.c_str(), w1.c_str(), w2.c_str());
		}
		if (m.ok)
		{
			if constexpr (!std::is_void_v<V>)
			{
				if (Pay<V>::of(cr.GetValue()) != m.v || Pay<V>::of(*cr) != m.v || Pay<V>::of(*cr.operator->()) != m.v) fail("value", "%s: holds %d, expected %d", who, Pay<V>::of(cr.GetValue()), m.v);
				if (std::addressof(r.GetValue()) != std::addressof(cr.GetValue()) || std::addressof(*r) != std::addressof(cr.GetValue()) || r.operator->() != std::addressof(cr.GetValue()) || std::addressof(static_cast<const V&>(std::move(r).GetValue())) != std::addressof(cr.GetValue()) || std::addressof(static_cast<const V&>(*std::move(r))) != std::addressof(cr.GetValue())) fail("value", "%s: accessors designate different objects", who);
			}
			if (probe) if (thrown([&] { (void) cr.GetError(); }).empty() || thrown([&] { (void) r.GetError(); }).empty() || thrown([&] { (void) std::move(r).GetError(); }).empty()) fail("get-error", "%s: GetError of a success returned", who);
		}
		else
		{
			if (Pay<E>::of(cr.GetError()) != m.v) fail("error", "%s: error is %d, expected %d", who, Pay<E>::of(cr.GetError()), m.v);
			if (std::addressof(r.GetError()) != std::addressof(cr.GetError()) || std::addressof(static_cast<const E&>(std::move(r).GetError())) != std::addressof(cr.GetError())) fail("error", "%s: accessors designate different objects", who);
			if constexpr (!std::is_void_v<V>) if (probe) if (thrown([&] { (void) cr.GetValue(); }).empty() || thrown([&] { (void) r.GetValue(); }).empty() || thrown([&] { (void) std::move(r).GetValue(); }).empty() || thrown([&] { (void) *cr; }).empty() || thrown([&] { (void) *r; }).empty() || thrown([&] { (void) *std::move(r); }).empty() || thrown([&] { (void) cr.operator->(); }).empty() || thrown([&] { (void) r.operator->(); }).empty()) fail("get-value", "%s: value of an error returned", who);
		}
		if (cr.IsOk() != m.ok) fail("state", "%s: an observation changed the state", who);
	}
	template<class V, class E> Nz::Result<V, E> make(Rng& r, M& m)
	{
		using R = Nz::Result<V, E>; m.ok = r.coin(); m.v = (int) r.below(100000); int how = (int) r.below(4);
		cur->log("make %s %d (form %d)", m.ok ? "value" : "error", m.v, how); cur->mix((u64) m.v * 8 + (u64) how * 2 + m.ok);
		if (m.ok)
		{
			if constexpr (std::is_void_v<V>) { if (how & 1) return Nz::Ok(); return R(typename R::ValueTag{}); }
			else switch (how)
			{
				case 0: return Nz::Ok(Pay<V>::mk(m.v));
				case 1: if constexpr (std::is_copy_constructible_v<V>) { V t = Pay<V>::mk(m.v); R x = Nz::Ok(t); if (Pay<V>::of(t) != m.v) fail("source", "Ok(lvalue) consumed its argument"); const V& ct = t; R y(Nz::Ok(ct)); if (Pay<V>::of(t) != m.v) fail("source", "Ok(const lvalue) consumed its argument"); if constexpr (std::is_copy_constructible_v<R>) return r.coin() ? x : y; else return x; } else { V t = Pay<V>::mk(m.v); return Nz::Ok(std::move(t)); }
				case 2: return R(typename R::ValueTag{}, Pay<V>::mk(m.v));
				default: if constexpr (!std::is_same_v<V, E>) { if constexpr (std::is_copy_constructible_v<V>) if (r.coin()) { V t = Pay<V>::mk(m.v); R x = t; if (Pay<V>::of(t) != m.v) fail("source", "construction from an lvalue consumed it"); return x; } return Pay<V>::mk(m.v); } else return Nz::Ok(Pay<V>::mk(m.v));
			}
		}
		switch (how)
		{
			case 0: return Nz::Err(Pay<E>::mk(m.v));
			case 1: if constexpr (std::is_copy_constructible_v<E>) { E t = Pay<E>::mk(m.v); R x = Nz::Err(t); if (Pay<E>::of(t) != m.v) fail("source", "Err(lvalue) consumed its argument"); return x; } else { E t = Pay<E>::mk(m.v); return Nz::Err(std::move(t)); }
			case 2: return R(typename R::ErrorTag{}, Pay<E>::mk(m.v));
			default: if constexpr (std::is_copy_constructible_v<E>) { const E t = Pay<E>::mk(m.v); return Nz::Err(t); } else return R(Nz::ResultError<E>{Pay<E>::mk(m.v)});
		}
	}
	template<class V, class E> void history(Ctx& cx)
	{
		LifeScope scope; Rng& r = cx.rng; using R = Nz::Result<V, E>;
		{
			std::vector<M> ms(3); std::vector<R> rs; rs.reserve(3);
			for (auto& m : ms) { rs.push_back(make<V, E>(r, m)); check(rs.back(), m, "made"); }
			if constexpr (!std::is_void_v<V>) if constexpr (std::is_default_constructible_v<V> && std::is_same_v<V, std::string>) { R d; VX_TRUE("default", d.IsOk() && d.GetValue().empty()); }
			for (int k = 0; k < 14; ++k)
			{
				std::size_t a = r.below(3), b = r.below(3); cx.mix(a * 3 + b);
				switch (r.below(8))
				{
					case 0: { rs[a] = make<V, E>(r, ms[a]); break; }
					case 1: if constexpr (std::is_copy_constructible_v<R>) { cx.log("%zu = %zu", a, b); if (r.coin()) rs[a] = rs[b]; else { R c(rs[b]); check(c, ms[b], "copy"); rs[a] = std::move(c); } ms[a] = ms[b]; check(rs[b], ms[b], "copied result"); } break;
					case 2: if (a != b) { cx.log("%zu = move(%zu)", a, b); if (r.coin()) rs[a] = std::move(rs[b]); else { R c(std::move(rs[b])); check(c, ms[b], "moved"); rs[a] = std::move(c); } ms[a] = ms[b]; if (rs[b].IsOk() != ms[b].ok) fail("moved-from", "moving changed success into error or back"); rs[b] = make<V, E>(r, ms[b]); } break;
					case 3: // map the value, keep the error
					{
						int calls = 0; cx.log("%zu .Map", a); const R& c = rs[a]; M mm{ ms[a].ok, ms[a].ok ? 77 : ms[a].v };
						if constexpr (!std::is_copy_constructible_v<E>)
						{
							// the error can only be moved along
							if constexpr (std::is_void_v<V>) { auto z = std::move(rs[a]).Map([&] { ++calls; return 77; }); check<int, E>(z, mm, "moved and mapped"); rs[a] = make<V, E>(r, ms[a]); }
							else { auto z = std::move(rs[a]).Map([&](V&& v) { ++calls; V t(std::move(v)); return t; }); check<V, E>(z, ms[a], "moved and mapped"); auto y = std::move(z).Map([&](V&&) {}); check<void, E>(y, ms[a], "moved and mapped to nothing"); rs[a] = make<V, E>(r, ms[a]); }
						}
						else
						if constexpr (std::is_void_v<V>) { auto x = c.Map([&] { ++calls; return std::string("#77"); }); check<std::string, E>(x, mm, "mapped"); auto y = c.Map([&] { ++calls; }); check<void, E>(y, mm, "mapped to nothing"); R t(c); auto z = std::move(t).Map([&] { ++calls; return 77; }); check<int, E>(z, mm, "moved and mapped"); R t2(c); check<void, E>(std::move(t2).Map([&] { ++calls; }), mm, "moved and mapped to nothing"); VX_EQ("map-calls", calls, ms[a].ok ? 4 : 0); }
						else
						{
							const V* seen = nullptr; auto f = [&](const V& v) { ++calls; seen = std::addressof(v); if (Pay<V>::of(v) != ms[a].v) fail("map-argument", "the functor got %d, expected %d", Pay<V>::of(v), ms[a].v); return Pay<V>::of(v) / 2 + 1; };
							if (ms[a].ok) mm.v = ms[a].v / 2 + 1;
							auto x = c.Map(f); check<int, E>(x, mm, "mapped"); if (ms[a].ok && seen != std::addressof(c.GetValue())) fail("map-argument", "the functor got a copy"); check(rs[a], ms[a], "mapped from");
							auto y = c.Map([&](const V&) { ++calls; }); check<void, E>(y, mm, "mapped to nothing"); VX_EQ("map-calls", calls, ms[a].ok ? 2 : 0);
							// rvalue: the value is moved into the functor
							auto z = std::move(rs[a]).Map([&](V&& v) { ++calls; V t(std::move(v)); return t; }); check<V, E>(z, ms[a], "moved and mapped"); VX_EQ("map-calls", calls, ms[a].ok ? 3 : 0); rs[a] = std::move(z);
							R w = make<V, E>(r, ms[b]); auto u = std::move(w).Map([&](V&&) {}); check<void, E>(u, ms[b], "moved and mapped to nothing"); rs[b] = make<V, E>(r, ms[b]);
						}
						cx.count("map"); break;
					}
					case 4: // a functor that throws leaves the result usable
					{
						if constexpr (!std::is_copy_constructible_v<E>) break; else {
						cx.log("%zu .Map throwing", a); bool threw = false; const R& c = rs[a];
						try { if constexpr (std::is_void_v<V>) c.Map([]() -> int { throw Boom{}; }); else c.Map([](const V&) -> int { throw Boom{}; }); } catch (const Boom&) { threw = true; }
						VX_EQ("map-throws", threw, ms[a].ok); check(rs[a], ms[a], "after a throwing functor"); } break;
					}
					case 5: if constexpr (!std::is_void_v<V>)
						{
							int d = (int) r.below(1000); cx.log("%zu .GetValueOr(%d)", a, d);
							if constexpr (std::is_copy_constructible_v<R>) { V dv = Pay<V>::mk(d); const R& c = rs[a]; V got = r.coin() ? c.GetValueOr(dv) : c.GetValueOr(Pay<V>::mk(d)); VX_EQ("value-or", Pay<V>::of(got), ms[a].ok ? ms[a].v : d); VX_EQ("value-or source", Pay<V>::of(dv), d); check(rs[a], ms[a], "GetValueOr"); }
							V dv = Pay<V>::mk(d); V got = std::move(rs[a]).GetValueOr(std::move(dv)); VX_EQ("value-or", Pay<V>::of(got), ms[a].ok ? ms[a].v : d); if (ms[a].ok) { VX_EQ("value-or default untouched", Pay<V>::of(dv), d); } else check(rs[a], ms[a], "GetValueOr of an error");
							rs[a] = make<V, E>(r, ms[a]); cx.count("value-or");
						} break;
					case 6: if constexpr (!std::is_void_v<V>) if (ms[a].ok) { int x = (int) r.below(1000); cx.log("%zu write %d", a, x); switch (r.below(3)) { case 0: rs[a].GetValue() = Pay<V>::mk(x); break; case 1: *rs[a] = Pay<V>::mk(x); break; default: *rs[a].operator->() = Pay<V>::mk(x); } ms[a].v = x; } if (!ms[a].ok) { int x = (int) r.below(1000); rs[a].GetError() = Pay<E>::mk(x); ms[a].v = x; } break;
					default: // take the payload out
						if (ms[a].ok) { if constexpr (!std::is_void_v<V>) { V t = r.coin() ? std::move(rs[a]).GetValue() : *std::move(rs[a]); VX_EQ("take", Pay<V>::of(t), ms[a].v); } } else { E t = std::move(rs[a]).GetError(); VX_EQ("take", Pay<E>::of(t), ms[a].v); }
						cx.log("%zu taken", a); rs[a] = make<V, E>(r, ms[a]); break;
				}
				for (std::size_t i = 0; i < 3; ++i) check(rs[i], ms[i], "after operation");
			}
		}
	}
}
#define S(name, ...) VX_FN(name, 400, 10000, __VA_ARGS__)
#if PART == 0
S("int-string", history<int, std::string>)
S("string-string", history<std::string, std::string>)
S("string-code", history<std::string, Code>)
S("full-full", history<Tracked<0>, Tracked<0>>)
S("throwmove-string", history<Tracked<3>, std::string>)
S("int-int", history<int, int>)
S("final-polymorphic", history<ZFinal, ZPoly>)
S("big-big", history<ZBig, ZBig>)
#else
S("moveonly-string", history<std::unique_ptr<int>, std::string>)
S("tracked-moveonly-full", history<Tracked<1>, Tracked<0>>)
S("void-string", history<void, std::string>)
S("void-full", history<void, Tracked<0>>)
S("void-code", history<void, Code>)
S("void-big", history<void, ZBig>)
S("polymorphic-moveonly", history<ZPoly, Tracked<1>>)
S("operators-operators", history<ZOps, ZOps>)
S("void-operators", history<void, ZOps>)
S("void-moveonly", history<void, Tracked<1>>)
S("moveonly-moveonly", history<std::unique_ptr<int>, Tracked<1>>)
S("self-final", history<ZSelf, ZFinal>)

// error propagation macros: chains of fallible calls stop at the first error, and evaluate each step once
namespace
{
	struct Chain { std::vector<int> steps; int failAt; std::size_t ran = 0; int valueRan = 0; };
	Nz::Result<void, const char*> stepVoid(Chain& c, std::size_t i) { ++c.ran; if ((int) i == c.failAt) return Nz::Err("stopped"); return Nz::Ok(); }
	Nz::Result<std::unique_ptr<int>, const char*> stepValue(Chain& c, std::size_t i) { ++c.ran; ++c.valueRan; if ((int) i == c.failAt) return Nz::Err("stopped"); return Nz::Ok(std::make_unique<int>((int) i * 3)); }
	Nz::Result<int, std::string> runChain(Chain& c)
	{
		int sum = 0;
		for (std::size_t i = 0; i < c.steps.size(); ++i)
		{
			if (c.steps[i] == 0) NAZARA_TRY(stepVoid(c, i));
			else if (c.steps[i] == 1) { NAZARA_TRY_VALUE(auto p, stepValue(c, i)); sum += *p;
				NAZARA_TRY_VALUE(std::unique_ptr<int> q, stepValue(c, i)); sum += *q; }
			else { std::unique_ptr<int> v; NAZARA_TRY_VALUE(v, stepValue(c, i)); sum += *v; }
		}
		return Nz::Ok(sum);
	}
	Nz::Result<void, std::string> outer(Chain& c, int& sum) { NAZARA_TRY_VALUE(sum, runChain(c)); return Nz::Ok(); }
}
VX_SUITE("try-chains", 800, 20000)
{
	Rng& r = cx.rng; Chain c; std::size_t n = r.below(12); for (std::size_t i = 0; i < n; ++i) c.steps.push_back((int) r.below(3)); c.failAt = r.coin() ? -1 : (int) r.below(14);
	cx.log("chain of %zu failing at %d", n, c.failAt); for (int s : c.steps) cx.mix((u64) s); cx.mix((u64) c.failAt);
	int want = 0; std::size_t ran = 0; bool ok = true; for (std::size_t i = 0; i < n; ++i) { if ((int) i == c.failAt) { ++ran; ok = false; break; } if (c.steps[i] == 1) { want += 6 * (int) i; ran += 2; } else { ++ran; if (c.steps[i] == 2) want += 3 * (int) i; } }
	int sum = -5; auto res = outer(c, sum); VX_EQ("chain-state", res.IsOk(), ok); VX_EQ("chain-evaluations", c.ran, ran);
	if (ok) VX_EQ("chain-value", sum, want); else { VX_EQ("chain-error", res.GetError(), std::string("stopped")); VX_EQ("chain-value", sum, -5); } cx.count(ok ? "chain completed" : "chain stopped");
}
namespace
{
	// what is tried may be a result somebody keeps
	template<class V, class E, class Held> Nz::Result<void, E> tryKept(Held& held) { NAZARA_TRY(held); return Nz::Ok(); }
	template<class V, class E, class Held> Nz::Result<V, E> tryValueKept(Held& held) {
		NAZARA_TRY_VALUE(V v, held);
		V other(v);
		NAZARA_TRY_VALUE(other, held);
		return Nz::Ok(std::move(other));
	}
	template<class V, class E> Nz::Result<V, E> tryValueMoved(Nz::Result<V, E>& held) { NAZARA_TRY_VALUE(V v, std::move(held)); return Nz::Ok(std::move(v)); }
	template<class E> Nz::Result<void, E> tryMoved(Nz::Result<void, E>& held) { NAZARA_TRY(std::move(held)); return Nz::Ok(); }
	template<class V, class E> void tries(Ctx& cx)
	{
		LifeScope scope; Rng& r = cx.rng; using R = Nz::Result<V, E>; M m; R held = make<V, E>(r, m);
		if constexpr (std::is_copy_constructible_v<R>)
		{
			const R& c = held; M s{ m.ok, m.v };
			check<void, E>(tryKept<V, E>(held), s, "trying a kept result"); check(held, m, "the tried result"); check<void, E>(tryKept<V, E>(c), s, "trying a constant result"); check(held, m, "the tried result");
			if constexpr (!std::is_void_v<V>) { check<V, E>(tryValueKept<V, E>(held), m, "value of a kept result"); check(held, m, "the tried result"); check<V, E>(tryValueKept<V, E>(c), m, "value of a constant result"); check(held, m, "the tried result"); }
		}
		if constexpr (std::is_void_v<V>) check<void, E>(tryMoved<E>(held), m, "trying a given result"); else check<V, E>(tryValueMoved<V, E>(held), m, "value of a given result");
		if (held.IsOk() != m.ok) fail("moved-from", "trying a result changed success into error or back"); cx.count("tries");
	}
}
VX_FN("try-string-string", 400, 10000, tries<std::string, std::string>)
VX_FN("try-full-full", 400, 10000, tries<Tracked<0>, Tracked<0>>)
VX_FN("try-big-code", 400, 10000, tries<ZBig, Code>)
VX_FN("try-void-string", 400, 10000, tries<void, std::string>)
VX_FN("try-moveonly-full", 400, 10000, tries<std::unique_ptr<int>, Tracked<0>>)
VX_FN("try-moveonly-moveonly", 400, 10000, tries<std::unique_ptr<int>, Tracked<1>>)
VX_FN("try-void-moveonly", 400, 10000, tries<void, Tracked<1>>)
namespace
{
	// a payload constructible from another one, which remembers what it was built from and how
	template<class T> struct From { int v = -9; bool moved = false; From() = default; From(const T& t) : v(Pay<T>::of(t)), moved(false) {} From(T&& t) : v(-1), moved(true) { T u(std::move(t)); v = Pay<T>::of(u); } };
	template<class T> struct Pay<From<T>> { static int of(const From<T>& f) { return f.v; } };
	template<class V, class E> void convert(Ctx& cx)
	{
		LifeScope scope; Rng& r = cx.rng; M m; using R = Nz::Result<V, E>; using V2 = std::conditional_t<std::is_void_v<V>, void, From<std::conditional_t<std::is_void_v<V>, int, V>>>; using R2 = Nz::Result<V2, From<E>>;
		auto built = [&](const R2& b, bool moved, const char* who) { check(b, m, who); if (m.ok) { if constexpr (!std::is_void_v<V>) VX_EQ("conversion moves", b.GetValue().moved, moved); } else VX_EQ("conversion moves", b.GetError().moved, moved); };
		R a = make<V, E>(r, m); const R& c = a; R2 other = [&]() -> R2 { M o; R t = make<V, E>(r, o); return R2(std::move(t)); }();
		if constexpr ((std::is_void_v<V> || std::is_copy_constructible_v<V>) && std::is_copy_constructible_v<E>)
		{
			{ R2 b = c; built(b, false, "converted from a constant"); check(a, m, "source"); }
			{ R2 b(a); built(b, false, "converted from an lvalue"); check(a, m, "source"); }
			other = c; check(other, m, "assigned from a constant"); check(a, m, "source"); other = a; check(other, m, "assigned from an lvalue"); check(a, m, "source");
			{ R t(c); other = std::move(t); check(other, m, "assigned from an rvalue"); }
		}
		R2 b(std::move(a)); built(b, true, "converted from an rvalue"); if (a.IsOk() != m.ok) fail("moved-from", "a conversion changed success into error or back");
		cx.log("conversion of %s %d", m.ok ? "value" : "error", m.v); cx.count(m.ok ? "converted values" : "converted errors");
	}
}
VX_FN("convert-int-string", 400, 10000, convert<int, std::string>)
VX_FN("convert-string-code", 400, 10000, convert<std::string, Code>)
VX_FN("convert-full-full", 400, 10000, convert<Tracked<0>, Tracked<2>>)
VX_FN("convert-moveonly-string", 400, 10000, convert<std::unique_ptr<int>, std::string>)
VX_FN("convert-void-string", 400, 10000, convert<void, std::string>)
VX_SUITE("conversions", 800, 20000)
{
	LifeScope scope; Rng& r = cx.rng;
	M m; { auto a = make<int, Code>(r, m); struct Show { int x; Show(Code c) : x((int) c) {} Show(int v) : x(v) {} }; Nz::Result<long long, Show> b = a; VX_EQ("converted", b.IsOk(), m.ok); if (m.ok) VX_EQ("converted", b.GetValue(), m.v); else VX_EQ("converted", b.GetError().x, m.v); check(a, m, "converted from"); Nz::Result<double, Show> c(std::move(a)); VX_EQ("converted", c.IsOk(), m.ok); if (m.ok) VX_EQ("converted", (int) c.GetValue(), m.v); }
	{ auto a = make<std::unique_ptr<int>, std::string>(r, m); Nz::Result<std::shared_ptr<int>, std::string> b = std::move(a); VX_EQ("moved conversion", b.IsOk(), m.ok); if (m.ok) { VX_EQ("moved conversion", *b.GetValue(), m.v); VX_TRUE("source moved", a.GetValue() == nullptr); } else VX_EQ("moved conversion", Pay<std::string>::of(b.GetError()), m.v); }
	{ auto a = make<void, Code>(r, m); struct Show { int x; Show(Code c) : x((int) c) {} }; Nz::Result<void, Show> b = a, c(std::move(a)); VX_EQ("void conversion", b.IsOk(), m.ok); VX_EQ("void conversion", c.IsErr(), !m.ok); if (!m.ok) { VX_EQ("void conversion", b.GetError().x, m.v); VX_EQ("void conversion", c.GetError().x, m.v); } }
	{ bool ok = r.coin(); int v = (int) r.below(1000); Nz::Result<void, Tracked<0>> a = ok ? Nz::Result<void, Tracked<0>>(Nz::Ok()) : Nz::Result<void, Tracked<0>>(Nz::Err(Tracked<0>(v))); Nz::Result<void, std::optional<Tracked<0>>> b = a, c = Nz::Ok(); c = std::move(a); VX_EQ("void conversion", b.IsOk(), ok); if (!ok) { VX_EQ("void conversion", b.GetError()->get(), v); VX_EQ("void conversion", c.GetError()->get(), v); } }
	// invocables other than lambdas
	{ int v = (int) r.below(1000); struct Obj { int f; int twice() const { return f * 2; } }; Nz::Result<Obj, std::string> a = Nz::Ok(Obj{ v }); VX_EQ("member functor", a.Map(&Obj::twice).GetValue(), v * 2); VX_EQ("std::function", std::move(a).Map(std::function<int(Obj)>([](Obj o) { return o.f; })).GetValue(), v); cx.mix((u64) v); }
	cx.log("conversions of %s %d", m.ok ? "value" : "error", m.v); cx.count("conversion");
}
VX_SUITE("failing-copies", 800, 20000)
{
	// an exception raised by copying a payload propagates, nothing leaks and the source is intact
	LifeScope scope; Rng& r = cx.rng; using R = Nz::Result<Tracked<0>, Tracked<2>>; M m;
	{
		R a = make<Tracked<0>, Tracked<2>>(r, m); int op = (int) r.below(6); cx.log("operation %d with a failing copy", op); cx.mix((u64) op); bool threw = false; const R& c = a;
		life.arm(0);
		try
		{
			switch (op)
			{
				case 0: { R b(c); break; }
				case 1: { auto x = c.Map([](const Tracked<0>& t) { return Tracked<0>(t); }); break; }
				case 2: { auto x = c.Map([](const Tracked<0>&) noexcept { return 5; }); threw = m.ok; break; } // copies the error only
				case 3: { if (m.ok) { Tracked<0> t = c.GetValueOr(3); } else Tracked<0> t = c.GetValueOr(3); break; }
				case 4: { auto x = std::move(a).Map([](Tracked<0>&&) noexcept { return 5; }); threw = m.ok; break; } // moves the error (which copies)
				default: { Nz::Result<void, Tracked<2>> v = m.ok ? Nz::Result<void, Tracked<2>>(Nz::Ok()) : Nz::Result<void, Tracked<2>>(Nz::Err(c.GetError())); life.arm(0); auto x = v.Map([]() noexcept {}); threw = m.ok; break; }
			}
		}
		catch (const Boom&) { threw = true; }
		life.disarm(); VX_EQ("propagates", threw, true); check(a, m, "after a failed copy"); cx.count("failed copy");
	}
}
// a result whose value is itself a result, or what can be made from anything, holds it as such, from wherever it comes
namespace
{
	template<class V, class E, class Make, class Same> void heldAsIs(Ctx& cx, Make make, Same same)
	{
		using O = Nz::Result<V, E>; Rng& r = cx.rng; int k = (int) r.below(1000); cx.mix((u64) k); cx.log("value built from %d", k);
		V v = make(k); const V cv = make(k); V moved = make(k); E other = Pay<E>::mk(k);
		auto holds = [&](const O& o, const char* how) { ++cur->checks; if (!o.IsOk() || o.IsErr()) fail("nested value", "%s: the value was taken for an error", how); if (!same(o.GetValue(), k)) fail("nested value", "%s: another value is held", how); };
		O a(v), b(cv), c(make(k)), d(std::move(moved)), e = v, f = cv; holds(a, "from a variable"); holds(b, "from a constant"); holds(c, "from a temporary"); holds(d, "from a moved variable"); holds(e, "from a variable"); holds(f, "from a constant");
		O g = Nz::Ok(make(k)); holds(g, "from Ok()"); O h(typename O::ValueTag{}, make(k)); holds(h, "in place"); const V& again = a.GetValue(); holds(O(again), "from its own value");
		const O ca(a); O x(a), y(ca), z(std::move(g)); holds(ca, "copy"); holds(x, "copy"); holds(y, "copy of a constant"); holds(z, "moved");
		O err = Nz::Err(other); VX_TRUE("error", err.IsErr() && Pay<E>::of(err.GetError()) == k); err = v; holds(err, "assigned a variable"); err = Nz::Err(other); err = cv; holds(err, "assigned a constant"); err = Nz::Err(other); err = make(k); holds(err, "assigned a temporary"); err = Nz::Err(other); err = ca; holds(err, "assigned a result");
		Nz::Result<long, E> base((long) k); auto m = base.Map([&](long i) { return make((int) i); }); static_assert(std::is_same_v<decltype(m), O>); holds(m, "mapped"); holds(std::move(base).Map([&](long i) { return make((int) i); }), "mapped from a temporary");
		cx.count("nested values", 18);
	}
}
VX_SUITE("results of results", 300, 8000)
{
	using In = Nz::Result<int, std::string>; using InVoid = Nz::Result<void, int>;
	heldAsIs<In, std::string>(cx, [](int k) { return k % 2 ? In(k) : In(Nz::Err(text(k))); }, [](const In& i, int k) { return k % 2 ? i.IsOk() && i.GetValue() == k : i.IsErr() && i.GetError() == text(k); });
	heldAsIs<InVoid, int>(cx, [](int k) { return k % 2 ? InVoid(Nz::Ok()) : InVoid(Nz::Err(k)); }, [](const InVoid& i, int k) { return k % 2 ? i.IsOk() : i.IsErr() && i.GetError() == k; });
	heldAsIs<std::any, std::string>(cx, [](int k) { return std::any(k); }, [](const std::any& a, int k) { auto* p = std::any_cast<int>(&a); return p && *p == k; });
	heldAsIs<std::optional<int>, int>(cx, [](int k) { return k % 2 ? std::optional<int>(k) : std::optional<int>(); }, [](const std::optional<int>& o, int k) { return k % 2 ? o.has_value() && *o == k : !o.has_value(); });
}
#endif
