#include "vx.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <cmath>
#include <csignal>
#include <limits>
using namespace vx;
#ifndef PART
#define PART 0
#endif
// checked conversions: a representable value comes out unchanged; in checked builds anything else stops the program
namespace
{
#if defined(NAZARA_DEBUG) && !defined(NDEBUG)
	constexpr bool Checked = true;
#else
	constexpr bool Checked = false;
#endif
	using I = __int128;
	template<class F> struct Call { F f; static void go(void* p) { ((Call*) p)->f(); } };
	// the operation must end in an assertion failure naming its file
	template<class F> void stops(const char* key, F f, const char* what)
	{
#ifdef VX_THREADED
		return; // children are forked by single-threaded workers only
#endif
		if (!Checked) return;
		Call<F> c{f}; Death d = run_isolated(&Call<F>::go, &c);
		++cur->checks; cur->count("assertions provoked");
		if (!(d.signaled && (d.sig == SIGTRAP || d.sig == SIGABRT || d.sig == SIGILL) && d.err.find("ssertion") != std::string::npos)) fail(key, "%s was not stopped (signal %d, exit code %d)\n%s", what, d.sig, d.code, d.err.c_str());
	}
	template<class T> const char* name()
	{
		if constexpr (std::is_same_v<T, bool>) return "bool";
		else if constexpr (std::is_floating_point_v<T>) return sizeof(T) == 4 ? "float" : sizeof(T) == 8 ? "double" : "long double";
		else if constexpr (std::is_signed_v<T>) return sizeof(T) == 1 ? "int8" : sizeof(T) == 2 ? "int16" : sizeof(T) == 4 ? "int32" : "int64";
		else return sizeof(T) == 1 ? "uint8" : sizeof(T) == 2 ? "uint16" : sizeof(T) == 4 ? "uint32" : "uint64";
	}
	template<class To> bool fits(I v) { return v >= (I) std::numeric_limits<To>::min() && v <= (I) std::numeric_limits<To>::max(); }
	VX_TLS u64 deaths = 0;
	template<class To, class From> void intToInt(Rng& r)
	{
		From v;
		switch (r.below(4))
		{
			case 0: v = r.value<From>(); break;
			case 1: { I x = (I) std::numeric_limits<To>::max() + (I) r.below(5) - 2; v = fits<From>(x) ? (From) x : r.value<From>(); break; }
			case 2: { I x = (I) std::numeric_limits<To>::min() + (I) r.below(5) - 2; v = fits<From>(x) ? (From) x : r.value<From>(); break; }
			default: v = (From) r.below(3); break;
		}
		if (fits<To>((I) v))
		{
			To a = Nz::SafeCast<To>(v), b = Nz::SafeCast<To>(From(v)), c = Nz::SafeCaster(v); const From cv = v; To d = Nz::SafeCast<To>(cv), e = Nz::SafeCaster(From(v));
			++cur->checks; cur->count("representable");
			if ((I) a != (I) v || b != a || c != a || d != a || e != a) fail("value", "SafeCast<%s>(%s %lld) gives %lld", name<To>(), name<From>(), (long long) v, (long long) a);
		}
		else if (deaths++ % 37 == 0)
		{
			char w[100]; std::snprintf(w, sizeof w, "SafeCast<%s>(%s %lld)", name<To>(), name<From>(), (long long) v);
			stops("unchecked overflow", [v] { volatile To t = Nz::SafeCast<To>(v); (void) t; }, w);
			if (deaths % 5 == 0) stops("unchecked overflow", [v] { const From cv = v; volatile To t = (To) Nz::SafeCaster(cv); (void) t; }, w);
		}
	}
	// exact comparison of a floating-point value with the range of an integer type
	template<class To, class From> void floatToInt(Rng& r)
	{
		From v; constexpr int digits = std::numeric_limits<To>::digits;
		switch (r.below(6))
		{
			case 0: v = From((i64) r.next()); break;
			case 1: v = From(r.range(-300, 300)); break;
			case 2: v = From(r.range(-3000, 3000)) / 4; break;
			case 3: v = std::ldexp(From(1), digits); for (u64 k = r.below(4); k--;) v = std::nextafter(v, r.coin() ? From(0) : std::numeric_limits<From>::max()); break;
			case 4: v = -std::ldexp(From(1), digits); for (u64 k = r.below(4); k--;) v = std::nextafter(v, r.coin() ? From(0) : std::numeric_limits<From>::lowest()); break;
			default: v = std::ldexp(From(r.range(-1000, 1000)), (int) r.range(-5, 70)); break;
		}
		// integral values only; 2^digits is exact in every floating-point type
		bool in = v == std::trunc(v) && v < std::ldexp(From(1), digits) && (std::is_signed_v<To> ? v >= -std::ldexp(From(1), digits) : v >= 0);
		if (in)
		{
			To a = Nz::SafeCast<To>(v), b = Nz::SafeCaster(v);
			++cur->checks; cur->count("representable");
			if ((long double) a != (long double) v || b != a) fail("value", "SafeCast<%s>(%s %.20Lg) gives %.20Lg", name<To>(), name<From>(), (long double) v, (long double) a);
		}
		else if (deaths++ % 61 == 0)
		{
			char w[120]; std::snprintf(w, sizeof w, "SafeCast<%s>(%s %.20Lg)", name<To>(), name<From>(), (long double) v);
			stops("unchecked conversion", [v] { volatile To t = Nz::SafeCast<To>(v); (void) t; }, w);
		}
	}
	template<class To, class From> void floatToFloat(Rng& r)
	{
		From v = std::ldexp(From((i64) r.next()) , (int) (r.chance(1, 3) ? r.range(-1100, 1000) : r.range(-80, 80)));
		if (r.chance(1, 5)) { From m = sizeof(To) <= sizeof(From) ? (From) std::numeric_limits<To>::max() : std::numeric_limits<From>::max(); v = r.coin() ? m : -m; if (r.coin() && sizeof(To) < sizeof(From)) v = std::nextafter(v, r.coin() ? From(0) : v * 2); }
		if (!std::isfinite(v)) return;
		bool in = sizeof(To) >= sizeof(From) || ((long double) v <= (long double) std::numeric_limits<To>::max() && (long double) v >= (long double) std::numeric_limits<To>::lowest());
		if (in) { To a = Nz::SafeCast<To>(v); ++cur->checks; cur->count("representable"); if (a != static_cast<To>(v)) fail("value", "SafeCast<%s>(%s %.20Lg) gives %.20Lg", name<To>(), name<From>(), (long double) v, (long double) a); if (sizeof(To) >= sizeof(From) && (long double) a != (long double) v) fail("value", "widening %.20Lg gives %.20Lg", (long double) v, (long double) a); }
		else if (deaths++ % 41 == 0) { char w[120]; std::snprintf(w, sizeof w, "SafeCast<%s>(%s %.20Lg)", name<To>(), name<From>(), (long double) v); stops("unchecked conversion", [v] { volatile To t = Nz::SafeCast<To>(v); (void) t; }, w); }
	}
	template<class To, class From> void intToFloat(Rng& r) { From v = r.value<From>(); To a = Nz::SafeCast<To>(v); ++cur->checks; if (a != static_cast<To>(v)) fail("value", "SafeCast<%s>(%s %lld) gives %.20Lg", name<To>(), name<From>(), (long long) v, (long double) a); }
	template<class To, class From> void pair(Rng& r, int n)
	{
		for (int k = 0; k < n; ++k)
			if constexpr (std::is_integral_v<To> && std::is_integral_v<From>) intToInt<To, From>(r);
			else if constexpr (std::is_integral_v<To>) floatToInt<To, From>(r);
			else if constexpr (std::is_floating_point_v<From>) floatToFloat<To, From>(r);
			else intToFloat<To, From>(r);
	}
	template<class To> void all(Rng& r, int n)
	{
		pair<To, i8>(r, n); pair<To, u8>(r, n); pair<To, i16>(r, n); pair<To, u16>(r, n); pair<To, i32>(r, n); pair<To, u32>(r, n); pair<To, i64>(r, n); pair<To, u64>(r, n); pair<To, float>(r, n); pair<To, double>(r, n); pair<To, long double>(r, n);
		pair<To, long long>(r, n / 2); pair<To, unsigned long long>(r, n / 2);
	}
	template<class To> void run(Ctx& cx) { deaths = cx.index * 7; u64 s = cx.rng.next(); cx.rng.s = s; cx.mix(s); cx.log("conversions to %s, values from seed %llx", name<To>(), (unsigned long long) s); all<To>(cx.rng, 40); cx.count("conversions", 13 * 40); }
}
#define S(T) VX_FN("to " #T, 40, 1500, run<T>)
using ld = long double;
#if PART == 0
S(i8) S(u8) S(i16) S(u16) S(float)
#else
S(i32) S(u32) S(i64) S(u64) S(double) S(ld)
namespace
{
	enum class E8 : i8 { Lo = -128, Hi = 127, Z = 0 }; enum class U16 : u16 { A = 0, B = 65535 }; enum Old { Zero, One, Two };
	struct Base { virtual ~Base() = default; int a = 1; }; struct Derived : Base { int b = 2; }; struct Other : Base { int c = 3; };
	struct Left { virtual ~Left() = default; int l = 4; }; struct Multi : Left, Base { int m = 5; }; struct Leaf final : Derived { int z = 9; };
	struct PlainBase { int a = 1; }; struct PlainDerived : PlainBase { int b = 2; };
}
VX_SUITE("enumerations", 60, 1500)
{
	Rng& r = cx.rng; cx.log("enumeration conversions");
	for (int k = 0; k < 60; ++k)
	{
		i64 v = r.coin() ? r.range(-140, 140) : (i64) r.value<i32>(); cx.mix((u64) v);
		if (v >= -128 && v <= 127)
		{
			E8 e = Nz::SafeCast<E8>(v); VX_TRUE("to enum", (i64) e == v); VX_TRUE("to enum", Nz::SafeCast<E8>((double) v) == e); VX_EQ("from enum", Nz::SafeCast<i64>(e), v); VX_EQ("from enum", Nz::SafeCast<i8>(e), (i8) v);
			if (v >= 0) { VX_EQ("from enum", Nz::SafeCast<u64>(e), (u64) v); const E8 ce = e; VX_EQ("from enum", Nz::SafeCast<u8>(ce), (u8) v); u32 x = Nz::SafeCaster(e); VX_EQ("from enum", x, (u32) v); }
			else if (k % 9 == 0) stops("enum", [e] { volatile u64 t = Nz::SafeCast<u64>(e); (void) t; }, "negative enumerator to unsigned");
		}
		else if (k % 7 == 0) stops("enum", [v] { volatile int t = (int) Nz::SafeCast<E8>(v); (void) t; }, "value outside of the enumeration's type");
		if (v >= 0 && v <= 65535) { U16 e = Nz::SafeCast<U16>(v); VX_EQ("to enum", (i64) e, v); VX_EQ("from enum", Nz::SafeCast<i32>(e), (i32) v); if (v > 32767) stops("enum", [e] { volatile i16 t = Nz::SafeCast<i16>(e); (void) t; }, "enumerator above int16"); }
		Old o = (Old) r.below(3); VX_EQ("from enum", Nz::SafeCast<u8>(o), (u8) o); VX_TRUE("to enum", Nz::SafeCast<Old>((u8) o) == o);
		VX_EQ("UnderlyingCast", Nz::UnderlyingCast(E8(v)), (i8) v); VX_EQ("UnderlyingCast", Nz::UnderlyingCast(U16(v)), (u16) v);
		static_assert(std::is_same_v<decltype(Nz::UnderlyingCast(E8::Z)), i8> && std::is_same_v<decltype(Nz::UnderlyingCast(U16::A)), u16>);
	}
}
static u32 r32(Ctx& cx) { return (u32) cx.rng.bits(32); }
VX_SUITE("class pointers and references", 40, 400)
{
	Derived d; Other o; Multi m; Leaf lf; Base b; PlainDerived pd; unsigned what = (unsigned) cx.index % 14; cx.log("downcasts, variant %u", what); cx.mix(what);
	Base* pb = &d; const Base* cpb = &lf; Base* null = nullptr;
	VX_TRUE("pointer", Nz::SafeCast<Derived*>(pb) == &d); VX_TRUE("pointer", Nz::SafeCast<const Derived*>(cpb) == &lf); VX_TRUE("pointer", Nz::SafeCast<const Leaf*>(cpb) == &lf);
	VX_TRUE("null pointer", Nz::SafeCast<Derived*>(null) == nullptr); VX_TRUE("null pointer", Nz::SafeCast<Derived*>(nullptr) == nullptr); VX_TRUE("upcast", Nz::SafeCast<Base*>(&d) == &d);
	Base* pm = &m; VX_TRUE("pointer", Nz::SafeCast<Multi*>(pm) == &m); VX_TRUE("pointer adjusts", (void*) Nz::SafeCast<Multi*>(pm) != (void*) pm); VX_TRUE("upcast", (void*) Nz::SafeCast<Base*>(&m) == (void*) pm);
	VX_TRUE("same type", Nz::SafeCast<Base*>(pb) == pb);
	Base& rb = d; const Base& crb = lf; Base& rm = m;
	VX_TRUE("reference", &Nz::SafeCast<Derived&>(rb) == &d); VX_TRUE("reference", &Nz::SafeCast<const Derived&>(crb) == &lf); VX_TRUE("reference", &Nz::SafeCast<const Derived&>(rb) == &d); VX_TRUE("reference", &Nz::SafeCast<Multi&>(rm) == &m); VX_TRUE("upcast", &Nz::SafeCast<Base&>(d) == &d);
	PlainBase* pp = &pd; PlainBase& rp = pd; VX_TRUE("non-polymorphic", Nz::SafeCast<PlainDerived*>(pp) == &pd && &Nz::SafeCast<PlainDerived&>(rp) == &pd);
	Derived* viaCaster = Nz::SafeCaster(pb); VX_TRUE("caster", viaCaster == &d);
	Nz::SafeCast<Derived&>(rb).b = 77; VX_EQ("reference designates the object", d.b, 77);
	switch (what)
	{
		case 0: stops("downcast", [&] { Base* p = &o; (void) Nz::SafeCast<Derived*>(p); }, "pointer downcast to an unrelated class"); break;
		case 1: stops("downcast", [&] { Base* p = &b; (void) Nz::SafeCast<Derived*>(p); }, "pointer downcast of a base object"); break;
		case 2: stops("downcast", [&] { Base& p = o; (void) Nz::SafeCast<Derived&>(p); }, "reference downcast to an unrelated class"); break;
		case 3: stops("downcast", [&] { const Base& p = b; (void) Nz::SafeCast<const Derived&>(p); }, "const reference downcast of a base object"); break;
		case 4: stops("downcast", [&] { const Base* p = &d; (void) Nz::SafeCast<const Leaf*>(p); }, "const pointer downcast too deep"); break;
		case 5: stops("downcast", [&] { Base* p = &d; (void) Nz::SafeCast<Multi*>(p); }, "downcast with multiple inheritance"); break;
		case 6: stops("downcast", [&] { Base* const p = &o; const Derived* q = Nz::SafeCaster(p); (void) q; }, "caster downcast to an unrelated class"); break;
		case 7: stops("downcast", [&] { Base& p = d; (void) Nz::SafeCast<const Multi&>(p); }, "reference downcast with multiple inheritance"); break;
		case 8: stops("downcast", [&] { std::unique_ptr<Base> p(new Other); std::unique_ptr<Derived> q = Nz::StaticUniquePointerCast<Derived>(std::move(p)); q.release(); }, "owning pointer downcast to an unrelated class"); break;
		case 9: stops("downcast", [&] { std::unique_ptr<const Base> p(new Derived); std::unique_ptr<const Leaf> q = Nz::StaticUniquePointerCast<const Leaf>(std::move(p)); q.release(); }, "owning pointer downcast too deep"); break;
		case 10: stops("pointer to a small integer", [&] { (void) Nz::PointerToInteger<u8>(&b); }, "address which does not fit an 8 bits integer"); break;
		case 11: stops("pointer to a small integer", [&] { (void) Nz::PointerToInteger<i32>((void*) (std::uintptr_t) (0x80000000u + r32(cx) % 0x1000u)); }, "address which does not fit a 32 bits integer"); break;
		case 12: stops("negative integer to pointer", [&] { (void) Nz::IntegerToPointer<Base*>(-1 - (int) (r32(cx) % 100)); }, "negative address"); break;
		default: VX_EQ("pointer to a small integer", Nz::PointerToInteger<i32>((void*) (std::uintptr_t) 0x7FFFFFFF), (i32) 0x7FFFFFFF); VX_EQ("pointer to a small integer", Nz::PointerToInteger<u8>((void*) (std::uintptr_t) 255), (u8) 255); VX_TRUE("small integer to pointer", Nz::IntegerToPointer<Base*>((i8) 127) == (Base*) (std::uintptr_t) 127); break;
	}
}
#endif
