// Random histories over the library's vector-like containers, compared step by step with a plain sequence.
#pragma once
#include "tracked.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <list>
#include <string>
#include <vector>

namespace sq
{
	using namespace vx;
	using Model = std::vector<int>;

	// non default-constructible element
	struct NoDefault : Tracked<0> { NoDefault() = delete; NoDefault(int x) : Tracked<0>(x) {} NoDefault(int x, int y) : Tracked<0>(x, y) {} };
	// over-aligned element
	struct alignas(64) Wide : Tracked<0> { Wide() = default; Wide(int x) : Tracked<0>(x) {} Wide(int x, int y) : Tracked<0>(x, y) {} };
	struct Str { std::string s; Str() : s("000000000000000000000000") {} Str(int x) : s(std::string(24, '0') + std::to_string(x)) {} Str(int x, int y) : Str(x * 1000 + y) {} };
	inline int val(const Str& s) { return s.s.empty() ? -1 : (int) std::strtol(s.s.c_str(), nullptr, 10); }
	struct Pod { int a; short b; char pad[3]; Pod() : a(0), b(0), pad{} {} Pod(int x) : a(x), b((short) x), pad{1, 2, 3} {} Pod(int x, int y) : Pod(x * 1000 + y) {} };
	inline int val(const Pod& p) { return p.a; }
	using vx::val;

	template<class T> constexpr bool copyable = std::is_copy_constructible_v<T>;
	template<class T> constexpr bool defaultable = std::is_default_constructible_v<T>;
	template<class T> struct IsTracked { static constexpr bool value = false; static constexpr bool moveThrows = false; };
	template<int K> struct IsTracked<Tracked<K>> { static constexpr bool value = true; static constexpr bool moveThrows = K == 3 || K == 2; };
	template<> struct IsTracked<NoDefault> { static constexpr bool value = true; static constexpr bool moveThrows = false; };
	struct TrackedKind { static constexpr bool value = true; static constexpr bool moveThrows = false; };
	template<> struct IsTracked<ZFinal> : TrackedKind {}; template<> struct IsTracked<ZPoly> : TrackedKind {}; template<> struct IsTracked<ZBig> : TrackedKind {}; template<> struct IsTracked<ZEmpty> : TrackedKind {}; template<> struct IsTracked<ZExplicit> : TrackedKind {};
	template<> struct IsTracked<Wide> { static constexpr bool value = true; static constexpr bool moveThrows = false; };

	template<class T> T mk(int x) { if constexpr (std::is_same_v<T, int>) return x; else return T(x); }
	template<class T> constexpr bool isInt = std::is_same_v<T, int>;

	template<class C> void check(C& v, const Model& m, const char* who = "state")
	{
		using T = typename C::value_type;
		const C& c = v;
		++cur->checks;
		if (c.size() != m.size()) fail("size", "%s: size() is %zu, expected %zu", who, c.size(), m.size());
		if (c.empty() != m.empty()) fail("empty", "%s: empty() is %d with %zu elements", who, (int) c.empty(), m.size());
		if (c.capacity() < m.size()) fail("capacity", "%s: capacity %zu below size %zu", who, c.capacity(), m.size());
		if (c.max_size() < m.size()) fail("max-size", "%s: max_size %zu below size %zu", who, c.max_size(), m.size());
		if ((std::size_t) (v.end() - v.begin()) != m.size() || (std::size_t) (c.cend() - c.cbegin()) != m.size() || (std::size_t) (c.end() - c.begin()) != m.size()) fail("range", "%s: end() - begin() is %td, expected %zu", who, v.end() - v.begin(), m.size());
		if (m.empty())
		{
			if (c.crbegin() != c.crend() || c.rbegin() != c.rend() || v.rbegin() != v.rend()) fail("range", "%s: reverse range of an empty container is not empty", who);
			return;
		}
		const T* base = c.data();
		if (reinterpret_cast<std::uintptr_t>(base) % alignof(T)) fail("alignment", "%s: element storage is misaligned", who);
		if (v.data() != base || std::addressof(*v.begin()) != base || std::addressof(*c.begin()) != base || std::addressof(*c.cbegin()) != base || std::addressof(v.front()) != base || std::addressof(c.front()) != base || std::addressof(v.back()) != base + (m.size() - 1) || std::addressof(c.back()) != base + (m.size() - 1)) fail("access", "%s: front/back/begin/data disagree", who);
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			if (std::addressof(v[i]) != base + i || std::addressof(c[i]) != base + i) fail("access", "%s: operator[] does not address element %zu", who, i);
			int x = val(c[i]);
			if (x != m[i]) fail("element", "%s: element %zu is %d, expected %d (size %zu)", who, i, x, m[i], m.size());
		}
		std::size_t k = m.size();
		for (auto it = v.rbegin(); it != v.rend(); ++it) { if (k == 0 || std::addressof(*it) != base + k - 1) fail("reverse", "%s: reverse iteration is wrong at %zu", who, k); --k; }
		if (k) fail("reverse", "%s: reverse iteration ended early", who);
		k = m.size();
		for (auto it = c.crbegin(); it != c.crend(); ++it) { if (k == 0 || std::addressof(*it) != base + k - 1) fail("reverse", "%s: const reverse iteration is wrong", who); --k; }
		if (k) fail("reverse", "%s: const reverse iteration ended early", who);
		k = m.size();
		for (auto it = c.rbegin(); it != c.rend(); ++it) { if (k == 0 || std::addressof(*it) != base + k - 1) fail("reverse", "%s: reverse iteration of a constant is wrong", who); --k; }
		if (k) fail("reverse", "%s: reverse iteration of a constant ended early", who);
	}

	// A: adapter { C, T, limit (max size), hasReserve, copyable container }
	template<class A> struct Engine
	{
		using C = typename A::C; using T = typename C::value_type;
		Ctx& cx; Rng& r; int next = 1;
		bool reserving = false, threw = false, outOfMemory = false;
		bool faults; // inject exceptions from element operations
		Engine(Ctx& c, bool f) : cx(c), r(c.rng), faults(f) {}
		static constexpr bool valueless = std::is_empty_v<T>;
		static int two(int x, int y) { return valueless ? 0 : x * 1000 + y; }
		int fresh() { return valueless ? 0 : next++ * 7 + (int) cx.index % 5; }

		// sizes; large containers are mostly close to full
		std::size_t pick() { return A::limit > 1000 && r.chance(2, 3) ? A::limit - r.below(1600) : r.below(A::limit + 1); }
		enum Guarantee { Strong, Basic };
		// runs op; on an injected exception checks the guarantee and resynchronises the model
		template<class F> bool attempt(C& v, Model& m, Guarantee g, F&& op)
		{
			if (!faults || !r.chance(1, 2)) { op(); return true; }
			bool memory = !IsTracked<T>::value || (A::migrates && r.chance(1, 4)); // an element operation fails, or the memory for the elements
			if (memory) heap.failIn = (i64) r.below(3); else life.arm((i64) r.below(8));
			auto disarm = [&] { heap.failIn = -1; life.disarm(); };
			auto failed = [&]
			{
				disarm(); threw = true; outOfMemory = memory; cx.log("  threw"); cx.count(memory ? "memory exhausted" : "injected exception");
				if (g == Strong) check(v, m, "after a failed append (content must be unchanged)");
				else
				{
					// every element the container claims must be alive; nothing else is promised
					if (v.size() > A::limit) fail("size", "size() is %zu after a failed operation", v.size());
					Model n; for (std::size_t i = 0; i < v.size(); ++i) n.push_back(val(v[i]));
					m = n;
				}
				return false;
			};
			try { op(); disarm(); return true; }
			catch (const Boom&) { return failed(); }
			catch (const std::bad_alloc&) { return failed(); }
		}
		void retPos(typename C::iterator it, C& v, std::size_t idx, const char* what)
		{
			++cx.checks;
			if (it != v.begin() + (std::ptrdiff_t) idx) fail("returned-iterator", "%s returned position %td, expected %zu", what, it - v.begin(), idx);
		}
		void step(C& v, Model& m)
		{
			std::size_t n = m.size(); bool room = n < A::limit; const std::size_t cap = v.capacity(); const T* place = v.data(); bool transferred = false;
			constexpr Guarantee App = IsTracked<T>::moveThrows && A::migrates ? Basic : Strong;
			switch (r.below(21))
			{
				case 0: case 1: if (room) { int x = fresh(); cx.log("push_back(&&%d)", x); T t = mk<T>(x); if (attempt(v, m, App, [&] { auto& ref = v.push_back(std::move(t)); if (std::addressof(ref) != std::addressof(v.back())) fail("returned-reference", "push_back does not return the new element"); })) m.push_back(x); else if (outOfMemory && val(t) != x) fail("argument-lost", "push_back(&&) emptied its argument although no memory was left for it"); cx.count("push_back"); } break;
				case 2: if constexpr (copyable<T>) if (room) { int x = fresh(); cx.log("push_back(const& %d)", x); const T t = mk<T>(x); if (attempt(v, m, App, [&] { auto& ref = v.push_back(t); if (std::addressof(ref) != std::addressof(v.back())) fail("returned-reference", "push_back does not return the new element"); })) m.push_back(x); if (val(t) != x) fail("argument-changed", "push_back(const&) changed its argument"); } break;
				case 19: if (room) { int x = fresh(); cx.log("emplace_back(&&%d)", x); T t = mk<T>(x); if (attempt(v, m, App, [&] { auto& ref = v.emplace_back(std::move(t)); if (std::addressof(ref) != std::addressof(v.back())) fail("returned-reference", "emplace_back does not return the new element"); })) m.push_back(x); else if (outOfMemory && val(t) != x) fail("argument-lost", "emplace_back(&&) emptied its argument although no memory was left for it"); cx.count("emplace_back"); } break;
				case 3: case 4: if (room) { int x = fresh(), y = (int) r.below(900); bool dbl = !isInt<T> && r.coin(); cx.log("emplace_back(%d%s)", x, dbl ? ",y" : ""); if (attempt(v, m, App, [&] { if constexpr (!isInt<T>) { auto& ref = dbl ? v.emplace_back(x, y) : v.emplace_back(x); if (std::addressof(ref) != std::addressof(v.back())) fail("returned-reference", "emplace_back does not return the new element"); } else v.emplace_back(x); })) m.push_back(dbl ? two(x, y) : x); cx.count("emplace_back"); } break;
				case 5: if (n) { cx.log("pop_back"); v.pop_back(); m.pop_back(); cx.count("pop_back"); } break;
				case 6: case 7: if (room) { std::size_t p = r.below(n + 1); int x = fresh(); bool mv = !copyable<T> || r.coin(); cx.log("insert(%zu,%s%d) of %zu", p, mv ? "&&" : "", x, n); T t = mk<T>(x); if (attempt(v, m, Basic, [&] { typename C::iterator it; if constexpr (copyable<T>) it = mv ? v.insert(v.cbegin() + p, std::move(t)) : v.insert(v.cbegin() + p, static_cast<const T&>(t)); else it = v.insert(v.cbegin() + p, std::move(t)); retPos(it, v, p, "insert"); })) m.insert(m.begin() + p, x); cx.count("insert"); } break;
				case 8: if (room) { std::size_t p = r.below(n + 1); int x = fresh(), y = (int) r.below(900); bool dbl = !isInt<T>; cx.log("emplace(%zu,%d,%d) of %zu", p, x, y, n); if (attempt(v, m, Basic, [&] { typename C::iterator it; if constexpr (!isInt<T>) it = v.emplace(v.cbegin() + p, x, y); else it = v.emplace(v.cbegin() + p, x); retPos(it, v, p, "emplace"); })) m.insert(m.begin() + p, dbl ? two(x, y) : x); cx.count("emplace"); } break;
				case 9: if (n) { std::size_t p = r.below(n); cx.log("erase(%zu) of %zu", p, n); if (attempt(v, m, Basic, [&] { auto it = v.erase(v.cbegin() + p); retPos(it, v, p, "erase"); })) m.erase(m.begin() + p); cx.count("erase"); } break;
				case 10: { std::size_t a = r.below(n + 1), b = a + r.below(n - a + 1); if (r.chance(1, 6)) { a = 0; b = n; } cx.log("erase(%zu..%zu) of %zu", a, b, n); if (attempt(v, m, Basic, [&] { auto it = v.erase(v.cbegin() + a, v.cbegin() + b); retPos(it, v, a, "erase(range)"); })) m.erase(m.begin() + a, m.begin() + b); cx.count("erase range"); } break;
				case 11: if constexpr (defaultable<T>) { std::size_t s = pick(); cx.log("resize(%zu) from %zu", s, n); if (attempt(v, m, Basic, [&] { v.resize(s); })) m.resize(s, A::valueOfDefault); cx.count("resize"); } break;
				case 12: if constexpr (copyable<T> && defaultable<T>) { std::size_t s = pick(); int x = fresh(); cx.log("resize(%zu,%d) from %zu", s, x, n); T t = mk<T>(x); if (attempt(v, m, Basic, [&] { v.resize(s, t); })) m.resize(s, x); if (val(t) != x) fail("argument-changed", "resize changed its argument"); cx.count("resize value"); } break;
				case 13: if (r.chance(1, 3)) { cx.log("clear"); v.clear(); m.clear(); cx.count("clear"); } break;
				case 14: if constexpr (A::hasReserve) { std::size_t s = pick(); cx.log("reserve(%zu)", s); reserving = true; if (attempt(v, m, IsTracked<T>::moveThrows ? Basic : Strong, [&] { v.reserve(s); }) && v.capacity() < s) fail("reserve", "capacity() is %zu after reserve(%zu)", v.capacity(), s); cx.count("reserve"); } break;
				case 15: if (n && room) // an element of the container itself is moved to its end
				{
					std::size_t i = r.below(n); int x = m[i]; bool o = r.coin(); cx.log("%s moving element %zu of %zu", o ? "push_back" : "emplace_back", i, n); cx.count("self-moving argument");
					if (attempt(v, m, Basic, [&] { if (o) v.push_back(std::move(v[i])); else v.emplace_back(std::move(v[i])); })) { m.push_back(x); int y = fresh(); v[i] = mk<T>(y); m[i] = y; }
				} break;
				case 16: if constexpr (copyable<T>) if (n && room) // the value is an element of the container itself
				{
					std::size_t i = r.below(n), p = r.below(n + 1); int x = m[i]; unsigned o = (unsigned) r.below(4);
					cx.log("self-referencing %s element %zu at %zu of %zu", o == 0 ? "push_back" : o == 1 ? "emplace_back" : o == 2 ? "insert" : "emplace", i, p, n);
					cx.count("self-referencing argument");
					if (o < 2) { if (attempt(v, m, App, [&] { if (o == 0) v.push_back(v[i]); else v.emplace_back(v[i]); })) m.push_back(x); }
					else if (attempt(v, m, Basic, [&] { auto it = o == 2 ? v.insert(v.cbegin() + p, v[i]) : v.emplace(v.cbegin() + p, v[i]); retPos(it, v, p, "insert"); })) m.insert(m.begin() + p, x);
				} break;
				case 17: if constexpr (copyable<T> && defaultable<T>) if (n) { std::size_t i = r.below(n), s = pick(); int x = m[i]; cx.log("resize(%zu, element %zu) from %zu", s, i, n); if (attempt(v, m, Basic, [&] { v.resize(s, v[i]); })) m.resize(s, x); } break;
				case 18: if (n) { std::size_t i = r.below(n); int x = fresh(); cx.log("[%zu]=%d", i, x); if (attempt(v, m, Basic, [&] { v[i] = mk<T>(x); })) m[i] = x; } break;
				default: A::transfer(*this, v, m); transferred = true; break;
			}
			if (transferred) { threw = false; return; }
			// storage: capacity is never given back and suffices without moving anything
			++cx.checks; cx.count("storage comparisons");
			if (v.capacity() < cap) fail("capacity-lost", "capacity() went from %zu down to %zu", cap, v.capacity());
			if (v.capacity() == cap && v.data() != place) fail("moved", "the elements changed place although capacity() stayed %zu", cap);
			if (v.size() <= cap && v.capacity() != cap && !reserving && !threw) fail("capacity", "capacity() went from %zu to %zu for %zu elements", cap, v.capacity(), v.size());
			reserving = threw = false;
		}
		void run(C& v, Model& m, std::size_t steps)
		{
			check(v, m, "start");
			for (std::size_t i = 0; i < steps; ++i) { step(v, m); check(v, m, "after operation"); }
		}
	};

	template<class T> constexpr int defaultValue() { return 0; }

	// FixedVector / HybridVector
	template<class T, std::size_t Cap, bool Hybrid> struct FixedA
	{
		using C = std::conditional_t<Hybrid, Nz::HybridVector<T, Cap>, Nz::FixedVector<T, Cap>>;
		static constexpr std::size_t limit = Hybrid ? Cap * 3 + 3 : Cap;
		static constexpr bool hasReserve = true, migrates = Hybrid;
		static constexpr int valueOfDefault = 0;

		static void fill(Engine<FixedA>& e, C& v, Model& m, std::size_t n) { while (m.size() < n) { int x = e.fresh(); v.emplace_back(x); m.push_back(x); } }
		// copies, moves, assignments and swaps between containers in every storage state
		static void transfer(Engine<FixedA>& e, C& v, Model& m)
		{
			Rng& r = e.r; Ctx& cx = e.cx;
			C o; Model om; fill(e, o, om, e.pick());
			if (Hybrid && r.coin()) while (om.size() > r.below(Cap + 1)) { o.pop_back(); om.pop_back(); } // few elements but already spilled
			unsigned k = (unsigned) r.below(12);
			cx.log("transfer %u: %zu <-> %zu elements", k, m.size(), om.size()); cx.count("transfer");
			switch (k)
			{
				case 0: case 1: if constexpr (copyable<T>) { if (e.attempt(v, m, Engine<FixedA>::Basic, [&] { C& ret = (v = o); if (&ret != &v) fail("returned-reference", "assignment does not return *this"); })) m = om; check(o, om, "source of copy-assignment"); } break;
				case 2: case 3: { C& ret = (v = std::move(o)); if (&ret != &v) fail("returned-reference", "assignment does not return *this"); m = om; o.clear(); om.clear(); check(o, om, "cleared after being moved from"); fill(e, o, om, e.pick()); check(o, om, "reused after being moved from"); break; }
				case 4: case 5: if constexpr (copyable<T>) { if (e.attempt(v, m, Engine<FixedA>::Strong, [&] { C c(v); Model cm = m; check(c, cm, "copy"); fill(e, c, cm, std::min(limit, cm.size() + 2)); check(c, cm, "copy, grown"); })) {} check(v, m, "source of copy"); } break;
				case 6: { C c(std::move(v)); Model cm = m; check(c, cm, "move-constructed"); v.clear(); Model em; check(v, em, "cleared after being moved from"); fill(e, c, cm, std::min(limit, cm.size() + 3)); check(c, cm, "move-constructed, grown"); v = std::move(c); m = cm; break; }
				case 7: { using std::swap; swap(v, o); std::swap(m, om); check(o, om, "swapped"); break; }
				case 8: if constexpr (copyable<T>) { C& self = v; v = self; cx.log("self copy-assignment"); } break;
				case 9: if constexpr (copyable<T>) { std::list<T> src; Model sm; std::size_t n = e.pick(); for (std::size_t i = 0; i < n; ++i) { int x = e.fresh(); src.push_back(mk<T>(x)); sm.push_back(x); } cx.log("range constructor %zu", n);
					if (r.coin()) { C c(src.begin(), src.end()); check(c, sm, "range-constructed"); }
					else { const T a = mk<T>(5), b = mk<T>(6); C c{a, b}; Model lm{std::is_empty_v<T> ? 0 : 5, std::is_empty_v<T> ? 0 : 6}; check(c, lm, "list-constructed"); } } break;
				case 10: if constexpr (copyable<T> && defaultable<T>) { std::size_t n = e.pick(); int x = e.fresh(); T t = mk<T>(x); cx.log("size constructor %zu", n);
					if (e.attempt(v, m, Engine<FixedA>::Strong, [&] { C c(n, t); Model cm(n, x); check(c, cm, "size-constructed"); C d(n); Model dm(n, valueOfDefault); check(d, dm, "default-filled"); if constexpr (isInt<T>) { C i((int) n, x); check(i, cm, "constructed from a size and a value of the same type"); } })) {} } break;
				default: { cx.log("v = C()"); v = C(); m.clear(); break; }
			}
		}
	};

	template<class A, bool Faults> void fixedCase(Ctx& cx)
	{
		LifeScope scope;
		Engine<A> e(cx, Faults);
		{
			typename A::C v; Model m;
			A::fill(e, v, m, e.pick());
			e.run(v, m, A::limit > 1000 ? 3 + cx.rng.below(8) : 6 + cx.rng.below(30));
		}
	}

	// StackVector over storage of exactly `cap` elements
	template<class T> struct Mem
	{
		T* p;
#ifdef VX_HEAPBACKED // the containers own their storage on platforms without alloca
		explicit Mem(std::size_t n) : p(static_cast<T*>(::operator new(n * sizeof(T)))) { static_assert(alignof(T) <= alignof(std::max_align_t)); }
#else
		explicit Mem(std::size_t n) : p(static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))))) {}
		~Mem() { ::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T))); }
#endif
	};
	template<class T, std::size_t Cap> struct StackA
	{
		using C = Nz::StackVector<T>;
		static constexpr std::size_t limit = Cap;
		static constexpr bool hasReserve = false, migrates = false;
		static constexpr int valueOfDefault = 0;
		static void fill(Engine<StackA>& e, C& v, Model& m, std::size_t n) { while (m.size() < n) { int x = e.fresh(); v.emplace_back(x); m.push_back(x); } }
		// the source of a move holds nothing, and promises no room it has no storage for
		static void gone(C& v)
		{
			check(v, Model(), "moved from");
			if (v.capacity() != 0 && v.data() == nullptr) fail("capacity", "capacity() is %zu after being moved from, without any storage", v.capacity());
		}
		static void transfer(Engine<StackA>& e, C& v, Model& m)
		{
			Rng& r = e.r; Ctx& cx = e.cx; unsigned k = (unsigned) r.below(4);
			cx.log("transfer %u of %zu elements", k, m.size()); cx.count("transfer");
			if (v.capacity() != Cap) fail("capacity", "capacity() is %zu, expected %zu", v.capacity(), Cap);
			switch (k)
			{
				case 0: { C c(std::move(v)); Model cm = m; gone(v); check(c, cm, "move-constructed"); if (c.capacity() != Cap) fail("capacity", "capacity() is %zu after a move, expected %zu", c.capacity(), Cap); v = std::move(c); break; }
				case 1: { C c; Model em; check(c, em, "default-constructed"); c = std::move(v); gone(v); check(c, m, "move-assigned"); fill(e, c, m, std::min(Cap, m.size() + 2)); check(c, m, "move-assigned, grown"); v = std::move(c); break; }
				case 2: { // moving into a vector that holds elements of its own
					Mem<T> mem(Cap); { C c(mem.p, Cap); Model cm; fill(e, c, cm, e.pick()); C d(std::move(c)); gone(c); check(d, cm, "moved out"); d = std::move(v); gone(v); check(d, m, "move-assigned over elements"); v = std::move(d); gone(d); } break; }
				default: break;
			}
		}
	};
	template<class A, bool Faults> void stackCase(Ctx& cx)
	{
		LifeScope scope;
		Engine<A> e(cx, Faults);
		Mem<typename A::C::value_type> mem(A::limit);
		{
			typename A::C v(mem.p, A::limit); Model m;
			A::fill(e, v, m, e.pick());
			e.run(v, m, A::limit > 1000 ? 3 + cx.rng.below(8) : 6 + cx.rng.below(30));
		}
	}
}
