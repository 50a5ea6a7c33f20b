// Element types whose every construction, destruction, copy, move and read is observed.
#pragma once
#include "vx.hpp"
#include <initializer_list>
#include <stdexcept>
#include <type_traits>

namespace vx
{
	struct Boom { int what = 42; }; // injected exception

	struct Life
	{
		struct Slot { const void* p; };
		Slot* tab = nullptr; std::size_t cap = 0, used = 0;
		u64 live = 0;
		u64 ctor = 0, copy = 0, move = 0, assign = 0, copied = 0, dtor = 0;
		i64 throwIn = -1; u64 thrown = 0; // countdown over throwing operations
		bool quiet = false;
		static std::size_t h(const void* p) { u64 x = (u64) p; x *= 0x9E3779B97F4A7C15ull; return (std::size_t) (x >> 24); }
		bool has(const void* p) const { if (!cap) return false; for (std::size_t i = h(p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1)) if (tab[i].p == p) return true; return false; }
		void put(const void* p)
		{
			if ((used + 1) * 2 > cap)
			{
				Slot* o = tab; std::size_t oc = cap; std::size_t n = live + 1; cap = 1024; while (cap < n * 4) cap *= 2;
				tab = (Slot*) std::calloc(cap, sizeof(Slot)); used = 0;
				for (std::size_t i = 0; i < oc; ++i) if (o[i].p && o[i].p != (void*) 1) raw(o[i].p);
				std::free(o);
			}
			raw(p);
		}
		void raw(const void* p) { std::size_t i = h(p) & (cap - 1); while (tab[i].p && tab[i].p != (void*) 1) i = (i + 1) & (cap - 1); if (!tab[i].p) ++used; tab[i].p = p; }
		void born(const void* p) { if (has(p)) fail("life-construct-over-live", "an element was constructed on top of a live element (the old one is never destroyed)"); put(p); ++live; ++ctor; }
		void died(const void* p)
		{
			if (!cap) fail("life-destroy-dead", "destructor ran on storage that holds no live element");
			for (std::size_t i = h(p) & (cap - 1); tab[i].p; i = (i + 1) & (cap - 1))
				if (tab[i].p == p) { tab[i].p = (void*) 1; --live; ++dtor; return; }
			fail("life-destroy-dead", "destructor ran on storage that holds no live element (double or stray destruction)");
		}
		void use(const void* p, const char* what) { if (!has(p)) fail("life-use-dead", "%s of an element that is not alive", what); }
		void maybeThrow() { if (throwIn >= 0 && throwIn-- == 0) { ++thrown; throw Boom{}; } }
		void arm(i64 n) { throwIn = n; }
		void disarm() { throwIn = -1; }
	};
	inline VX_TLS Life life;
	// asserts that the case started and ended with no live element
	struct LifeScope
	{
		u64 before = life.live;
		~LifeScope() { life.disarm(); if (life.live != before) fail("life-leak", "%lld element(s) never destroyed", (long long) (life.live - before)); }
	};

	enum : int { MovedFrom = -7777 };
	// K: 0 copy+move, 1 move only, 2 copy only (moves copy), 3 copy+move that may throw on move too, 4 copy+noexcept move, over-aligned, no default ctor
	template<int K> struct Tracked
	{
		int v;
		const Tracked* self;
		static constexpr bool moveThrows = K == 3;
		Tracked() : v(0), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x) : v(x), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x, int y) : v(x * 1000 + y), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(const Tracked& o) : v(read(o)), self(this) { life.maybeThrow(); life.born(this); ++life.copy; }
		Tracked(Tracked&& o) noexcept(!moveThrows) : v(read(o)), self(this) { if constexpr (moveThrows) life.maybeThrow(); life.born(this); ++life.move; if (&o != this) o.v = MovedFrom; }
		Tracked& operator=(const Tracked& o) { ok("copy-assignment"); int x = read(o); life.maybeThrow(); v = x; ++life.assign; ++life.copied; return *this; }
		Tracked& operator=(Tracked&& o) noexcept(!moveThrows) { ok("move-assignment"); int x = read(o); if constexpr (moveThrows) life.maybeThrow(); v = x; if (&o != this) o.v = MovedFrom; ++life.assign; return *this; }
		~Tracked() { if (life.has(this) && self != this) fail("life-bitwise-moved", "element was relocated bitwise"); life.died(this); v = -9999; self = nullptr; }
		static int read(const Tracked& o) { o.ok("copy/move"); return o.v; }
		void ok(const char* w) const { life.use(this, w); if (self != this) fail("life-bitwise-moved", "element was relocated bitwise (%s)", w); }
		int get() const { ok("read"); return v; }
		bool operator==(const Tracked& o) const { return get() == o.get(); }
		bool operator!=(const Tracked& o) const { return get() != o.get(); }
		bool operator<(const Tracked& o) const { return get() < o.get(); }
	};
	template<> struct Tracked<1>
	{
		int v; const Tracked* self;
		Tracked() : v(0), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x) : v(x), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x, int y) : v(x * 1000 + y), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(const Tracked&) = delete; Tracked& operator=(const Tracked&) = delete;
		Tracked(Tracked&& o) noexcept : v(o.get()), self(this) { life.born(this); ++life.move; if (&o != this) o.v = MovedFrom; }
		Tracked& operator=(Tracked&& o) noexcept { ok("move-assignment"); int x = o.get(); v = x; if (&o != this) o.v = MovedFrom; ++life.assign; return *this; }
		~Tracked() { if (life.has(this) && self != this) fail("life-bitwise-moved", "element was relocated bitwise"); life.died(this); v = -9999; self = nullptr; }
		void ok(const char* w) const { life.use(this, w); if (self != this) fail("life-bitwise-moved", "element was relocated bitwise (%s)", w); }
		int get() const { ok("read"); return v; }
		bool operator==(const Tracked& o) const { return get() == o.get(); }
		bool operator!=(const Tracked& o) const { return get() != o.get(); }
		bool operator<(const Tracked& o) const { return get() < o.get(); }
	};
	template<> struct Tracked<2>
	{
		int v; const Tracked* self;
		Tracked() : v(0), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x) : v(x), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(int x, int y) : v(x * 1000 + y), self(this) { life.maybeThrow(); life.born(this); }
		Tracked(const Tracked& o) : v(o.get()), self(this) { life.maybeThrow(); life.born(this); ++life.copy; }
		Tracked& operator=(const Tracked& o) { ok("copy-assignment"); int x = o.get(); life.maybeThrow(); v = x; ++life.assign; ++life.copied; return *this; }
		~Tracked() { if (life.has(this) && self != this) fail("life-bitwise-moved", "element was relocated bitwise"); life.died(this); v = -9999; self = nullptr; }
		void ok(const char* w) const { life.use(this, w); if (self != this) fail("life-bitwise-moved", "element was relocated bitwise (%s)", w); }
		int get() const { ok("read"); return v; }
		bool operator==(const Tracked& o) const { return get() == o.get(); }
		bool operator!=(const Tracked& o) const { return get() != o.get(); }
		bool operator<(const Tracked& o) const { return get() < o.get(); }
	};
	inline int val(int x) { return x; }
	template<int K> int val(const Tracked<K>& t) { return t.get(); }

	// the zoo: shapes of classes generic code may treat differently, all observed the same way
	struct ZFinal final : Tracked<0> { ZFinal() = default; ZFinal(int x) : Tracked<0>(x) {} ZFinal(int x, int y) : Tracked<0>(x, y) {} };
	// polymorphic, the observed part is not the first one
	struct ZRoot { int mark = 0x5A5A; virtual ~ZRoot() = default; virtual int kind() const { return 1; } };
	struct ZPoly : ZRoot, Tracked<0> { ZPoly() = default; ZPoly(int x) : Tracked<0>(x) {} ZPoly(int x, int y) : Tracked<0>(x, y) {} int kind() const override { return 2; } };
	inline int val(const ZPoly& p) { const ZRoot& r = p; if (r.kind() != 2 || r.mark != 0x5A5A) fail("sliced", "a polymorphic object is not what it was constructed as"); return p.get(); }
	// large: all of it travels
	struct ZBig : Tracked<0>
	{
		unsigned char pad[300]; void paint() { for (int i = 0; i < 300; ++i) pad[i] = (unsigned char) (v * 31 + i); }
		ZBig() { paint(); } ZBig(int x) : Tracked<0>(x) { paint(); } ZBig(int x, int y) : Tracked<0>(x, y) { paint(); }
	};
	inline int val(const ZBig& b) { int x = b.get(); if (x != MovedFrom) for (int i = 0; i < 300; ++i) if (b.pad[i] != (unsigned char) (x * 31 + i)) fail("torn", "byte %d of a large object did not travel with it", i); return x; }
	// no state at all
	struct ZEmpty
	{
		ZEmpty() { life.maybeThrow(); life.born(this); } ZEmpty(int) : ZEmpty() {} ZEmpty(int, int) : ZEmpty() {}
		ZEmpty(const ZEmpty& o) { o.get(); life.maybeThrow(); life.born(this); ++life.copy; } ZEmpty(ZEmpty&& o) noexcept { o.get(); life.born(this); ++life.move; }
		ZEmpty& operator=(const ZEmpty& o) { get(); o.get(); life.maybeThrow(); ++life.assign; ++life.copied; return *this; } ZEmpty& operator=(ZEmpty&& o) noexcept { get(); o.get(); ++life.assign; return *this; }
		~ZEmpty() { life.died(this); }
		int get() const { life.use(this, "read"); return 0; }
	};
	static_assert(std::is_empty_v<ZEmpty>);
	inline int val(const ZEmpty& e) { return e.get(); }
	// only constructible explicitly; braces mean something else than parentheses
	struct ZExplicit : Tracked<0> { ZExplicit() = default; explicit ZExplicit(int x) : Tracked<0>(x) {} explicit ZExplicit(int x, int y) : Tracked<0>(x, y) {} ZExplicit(std::initializer_list<int>) : Tracked<0>(-5) {} };
	// neither copied nor moved, ever
	struct ZFixed
	{
		int v; ZFixed(int x) : v(x) { life.maybeThrow(); life.born(this); } ZFixed(int x, int y) : v(x * 1000 + y) { life.maybeThrow(); life.born(this); }
		ZFixed(const ZFixed&) = delete; ZFixed& operator=(const ZFixed&) = delete; ~ZFixed() { life.died(this); v = -9999; } int get() const { life.use(this, "read"); return v; }
	};
	inline int val(const ZFixed& z) { return z.get(); }
	// knows its place although nothing needs to be destroyed
	struct ZSelf
	{
		int v; const ZSelf* self; ZSelf() : v(0), self(this) {} ZSelf(int x) : v(x), self(this) {} ZSelf(int x, int y) : v(x * 1000 + y), self(this) {}
		ZSelf(const ZSelf& o) : v(o.get()), self(this) {} ZSelf(ZSelf&& o) noexcept : v(o.get()), self(this) { if (&o != this) o.v = MovedFrom; }
		ZSelf& operator=(const ZSelf& o) { get(); v = o.get(); return *this; } ZSelf& operator=(ZSelf&& o) noexcept { get(); v = o.get(); if (&o != this) o.v = MovedFrom; return *this; }
		int get() const { if (self != this) fail("life-bitwise-moved", "an object was relocated bitwise"); return v; }
	};
	static_assert(std::is_trivially_destructible_v<ZSelf>);
	inline int val(const ZSelf& z) { return z.get(); }
	// operators mean something else: generic code must not rely on the address-of, comma, negation or subscript of an unknown type
#ifdef VX_OWN_ADDRESS // thorough only: a rarity, which the library has only respected everywhere since the fix of its vectors
#define VX_ADDRESS void operator&() const = delete;
#else
#define VX_ADDRESS
#endif
	struct ZOps : Tracked<0> { ZOps() = default; ZOps(int x) : Tracked<0>(x) {} ZOps(int x, int y) : Tracked<0>(x, y) {} VX_ADDRESS template<class U> void operator,(U&&) const = delete; void operator!() const = delete; void operator*() const = delete; void operator->() const = delete; };
	template<class U, class Z, class = std::enable_if_t<std::is_same_v<Z, ZOps>>> void operator,(U&&, const Z&) = delete; // (not for what converts to it)
	// plain bytes, of an odd size
	struct ZTriv { unsigned char c[7]; ZTriv() = default; ZTriv(int x) { put(x); } ZTriv(int x, int y) { put(x * 1000 + y); } void put(int x) { for (int i = 0; i < 4; ++i) c[i] = (unsigned char) ((unsigned) x >> (8 * i)); for (int i = 4; i < 7; ++i) c[i] = (unsigned char) (c[0] + i * (x != 0)); } };
	static_assert(std::is_trivially_copyable_v<ZTriv> && std::is_trivially_default_constructible_v<ZTriv>);
	inline int val(const ZTriv& z) { unsigned x = 0; for (int i = 0; i < 4; ++i) x |= (unsigned) z.c[i] << (8 * i); for (int i = 4; i < 7; ++i) if (z.c[i] != (unsigned char) (z.c[0] + i * (x != 0))) fail("torn", "byte %d of a plain object did not travel with it", i); return (int) x; }
}
