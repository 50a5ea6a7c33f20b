#include "vx.hpp"
#include <NazaraUtils/Concepts.hpp>
#include <NazaraUtils/FunctionTraits.hpp>
#include <NazaraUtils/TypeTraits.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <NazaraUtils/TypeList.hpp>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
using namespace vx;
// descriptions of callables and types: reflected while running and compared with how the type was built
namespace shapes
{
	struct S { int v = 0; }; struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; }; class Inc; enum class En { A };
	template<class... T> struct Pack {}; template<auto V> struct Val {}; template<char C> struct Chr {}; namespace inner { template<class T> struct Deep { struct Member {}; }; enum Old { X }; union Un { int a; }; }
}
struct GlobalType {}; template<class T> struct GlobalTemplate {}; enum GlobalEnum { GE };
namespace Nz { struct InsideLibraryNamespace {}; }
namespace
{
	using namespace shapes;
	using Alphabet = std::tuple<Nz::TypeTag<void>, Nz::TypeTag<int>, Nz::TypeTag<const S&>, Nz::TypeTag<MoveOnly>, Nz::TypeTag<double*>, Nz::TypeTag<const char*>, Nz::TypeTag<S&&>, Nz::TypeTag<bool>, Nz::TypeTag<Inc&>, Nz::TypeTag<void (*)(int)>, Nz::TypeTag<En>, Nz::TypeTag<int&>, Nz::TypeTag<std::function<void(int)>>>;
	constexpr int A = (int) std::tuple_size_v<Alphabet>;
	template<int I> using Nth = typename std::tuple_element_t<(std::size_t) I, Alphabet>::Type;
	template<class T, int I = 0> constexpr int idOf() { if constexpr (I == A) return -1; else if constexpr (std::is_same_v<T, Nth<I>>) return I; else return idOf<T, I + 1>(); }
	constexpr u64 mixc(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	template<class FT, std::size_t... I> std::vector<int> argIds(std::index_sequence<I...>) { return {idOf<typename FT::template ArgType<I>>()...}; }
	template<class L> struct ListIds; template<class... T> struct ListIds<Nz::TypeList<T...>> { static std::vector<int> get() { return {idOf<T>()...}; } };
	// what the traits of the callable type F say, against the signature it was built from
	template<class F, class R, class... Args> void describes(const char* shape)
	{
		using FT = Nz::FunctionTraits<F>; std::vector<int> want{idOf<Args>()...};
		cur->checks += 5; cur->count("callable types described");
		if (FT::ArgCount != sizeof...(Args)) fail("argument count", "%s: %zu arguments instead of %zu", shape, (std::size_t) FT::ArgCount, sizeof...(Args));
		if (!std::is_same_v<typename FT::ReturnType, R>) fail("return type", "%s: return type %d instead of %d", shape, idOf<typename FT::ReturnType>(), idOf<R>());
		if (!std::is_same_v<typename FT::FuncType, R(Args...)>) fail("function type", "%s: another function type", shape);
		if (argIds<FT>(std::make_index_sequence<sizeof...(Args)>()) != want) fail("argument types", "%s: other argument types", shape);
		if (ListIds<typename FT::ArgTypes>::get() != want) fail("argument list", "%s: other argument types in the list", shape);
	}
	template<class R, class... A_> struct Call { R operator()(A_...); }; template<class R, class... A_> struct CallC { R operator()(A_...) const; }; template<class R, class... A_> struct CallN { R operator()(A_...) const noexcept; }; template<class R, class... A_> struct CallL { R operator()(A_...) &; }; template<class R, class... A_> struct CallR { R operator()(A_...) &&; }; template<class R, class... A_> struct Derived : CallC<R, A_...> {};
	template<class R, class... A_> void shapesOf()
	{
#define D(...) describes<__VA_ARGS__, R, A_...>(#__VA_ARGS__)
		D(R(A_...)); D(R(*)(A_...)); D(R(*)(A_...) noexcept); D(R(&)(A_...)); D(R(* const)(A_...)); D(R(*&)(A_...)); D(R(* const&)(A_...)); D(R(*&&)(A_...));
		D(R(S::*)(A_...)); D(R(S::*)(A_...) noexcept); D(R(S::*)(A_...) &); D(R(S::*)(A_...) & noexcept); D(R(S::*)(A_...) &&); D(R(S::*)(A_...) && noexcept);
		D(R(S::*)(A_...) const); D(R(S::*)(A_...) const noexcept); D(R(S::*)(A_...) const&); D(R(S::*)(A_...) const& noexcept); D(R(S::*)(A_...) const&&); D(R(S::*)(A_...) const&& noexcept);
		D(R(S::*)(A_...) volatile); D(R(S::*)(A_...) volatile noexcept); D(R(S::*)(A_...) volatile&); D(R(S::*)(A_...) volatile& noexcept); D(R(S::*)(A_...) volatile&&); D(R(S::*)(A_...) volatile&& noexcept);
		D(R(S::*)(A_...) const volatile); D(R(S::*)(A_...) const volatile noexcept); D(R(S::*)(A_...) const volatile&); D(R(S::*)(A_...) const volatile& noexcept); D(R(S::*)(A_...) const volatile&&); D(R(S::*)(A_...) const volatile&& noexcept);
		D(R(S::* const)(A_...) const); D(R(S::* const&)(A_...)); D(R(S::*&)(A_...) const&);
		D(Call<R, A_...>); D(CallC<R, A_...>); D(CallN<R, A_...>); D(CallL<R, A_...>); D(CallR<R, A_...>); D(Derived<R, A_...>); D(const CallC<R, A_...>); D(CallC<R, A_...>&); D(const CallC<R, A_...>&); D(CallN<R, A_...>&&); D(const CallN<R, A_...>&&); D(std::function<R(A_...)>); D(const std::function<R(A_...)>&);
#undef D
		VX_TRUE("functors", (Nz::IsFunctor_v<R(A_...)> && Nz::IsFunctor_v<R(S::*)(A_...)> && Nz::IsFunctor_v<R(S::*)(A_...) const& noexcept> && Nz::IsFunctor_v<Call<R, A_...>> && Nz::IsFunctor_v<Derived<R, A_...>> && Nz::IsFunctor_v<std::function<R(A_...)>>));
		VX_TRUE("function pointers", (std::is_same_v<Nz::FunctionPtr<R(A_...)>, R(*)(A_...)>));
	}
	// seeds to signatures; void only as a return type
	template<int Seed, class Seq> struct Sig; template<int Seed, int... I> struct Sig<Seed, std::integer_sequence<int, I...>> { static void run() { shapesOf<Nth<(int) (mixc(Seed) % A)>, Nth<1 + (int) (mixc((u64) Seed * 100 + I) % (A - 1))>...>(); } };
	template<int Base, int... I> void sigs(std::integer_sequence<int, I...>) { (Sig<Base + I, std::make_integer_sequence<int, (Base + I) % 6>>::run(), ...); }

	// --- overload selection: every overload returns its own number
	struct O
	{
		int tag = 100;
		int f() { return tag + 1; } int f(int) { return tag + 2; } int f(int, double) & { return tag + 3; } int f(const std::string&) && { return tag + 4; } int f(const char*) const { return tag + 5; } int f(long) const& { return tag + 6; } int f(short) const&& { return tag + 7; }
		int f(char) noexcept { return tag + 8; } int f(unsigned) & noexcept { return tag + 9; } int f(float) && noexcept { return tag + 10; } int f(bool) const noexcept { return tag + 11; } int f(u8) const& noexcept { return tag + 12; } int f(MoveOnly&&) const&& noexcept { return tag + 13; } int f(const S&, S&) { return tag + 14; } int f(S*) { return tag + 15; } int f(const S*) { return tag + 16; }
		static int g(int) { return 20; } static int g(double) noexcept { return 21; } static int g() { return 22; }
	};
	int h() { return 30; } int h(int) { return 31; } int h(double) noexcept { return 32; } int h(const std::string&, int) { return 33; } int h(int, const std::string&) { return 34; } int h(int*) { return 35; } int h(const int*) { return 36; } int h(int&) = delete;
	struct Named { int operator()(int) const; }; struct NoCall {};
	template<class... T> std::vector<int> visitAll(const std::vector<std::variant<int, std::string, double>>& v, const Nz::Overloaded<T...>& o) { std::vector<int> r; for (auto& x : v) r.push_back(std::visit(o, x)); return r; }
	std::string squeeze(std::string_view s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
	template<class T> void named(const char* want)
	{
		++cur->checks; cur->count("type names"); std::string got = squeeze(Nz::TypeName<T>());
		if (got != squeeze(want)) fail("type name", "the name of %s is given as \"%s\"", want, got.c_str());
		constexpr std::string_view c = Nz::TypeName<T>(); if (squeeze(c) != got) fail("constant type name", "another name at compile time");
		if (Nz::TypeName<T>().data() != Nz::TypeName<T>().data()) fail("stable", "the name moves");
	}
	template<class T> void composed() // names compose
	{
		std::string n(Nz::TypeName<T>());
		named<Pack<T>>(("shapes::Pack<" + n + ">").c_str()); named<inner::Deep<T>>(("shapes::inner::Deep<" + n + ">").c_str()); named<GlobalTemplate<Pack<T, T>>>(("GlobalTemplate<shapes::Pack<" + n + "," + n + ">>").c_str());
		if constexpr (!std::is_reference_v<T> && !std::is_void_v<T>) named<const T>(("const " + n).c_str());
	}
}
VX_SUITE("function traits of generated signatures (first half)", 1, 1) { sigs<0>(std::make_integer_sequence<int, 12>()); cx.log("12 signatures, every shape"); cx.mix(1); }
VX_SUITE("function traits of generated signatures (second half)", 1, 1) { sigs<12>(std::make_integer_sequence<int, 12>()); cx.log("12 signatures, every shape"); cx.mix(2); }
VX_SUITE("function traits of closures and others", 1, 1)
{
	int k = 3; auto l = [&](int a, const S& s) -> double { return a + s.v + k; }; auto m = [k](bool) mutable { ++k; return k; }; auto n = []() noexcept {};
	describes<decltype(l), double, int, const S&>("closure"); describes<decltype((l)), double, int, const S&>("reference to a closure"); describes<const decltype(m), int, bool>("constant mutable closure"); describes<decltype(n), void>("noexcept closure");
	cx.log("closures");
}
VX_SUITE("overload selection", 4, 40)
{
	int base = (int) cx.rng.range(-1000, 1000); O o; o.tag = base; const O c = o; S s; auto pick = [&](auto m) { return m; }; (void) pick;
	cx.log("tag %d", base); cx.mix((u64) base);
	VX_EQ("f()", (o.*Nz::Overload<>(&O::f))(), base + 1); VX_EQ("f(int)", (o.*Nz::Overload<int>(&O::f))(1), base + 2); VX_EQ("f(int,double)&", (o.*Nz::Overload<int, double>(&O::f))(1, 2.), base + 3); VX_EQ("f(string)&&", (std::move(o).*Nz::Overload<const std::string&>(&O::f))("a"), base + 4); VX_EQ("f(const char*) const", (c.*Nz::Overload<const char*>(&O::f))("a"), base + 5);
	VX_EQ("f(long) const&", (c.*Nz::Overload<long>(&O::f))(1), base + 6); VX_EQ("f(short) const&&", (std::move(c).*Nz::Overload<short>(&O::f))(1), base + 7); VX_EQ("f(char) noexcept", (o.*Nz::Overload<char>(&O::f))('a'), base + 8); VX_EQ("f(unsigned)& noexcept", (o.*Nz::Overload<unsigned>(&O::f))(1u), base + 9); VX_EQ("f(float)&& noexcept", (std::move(o).*Nz::Overload<float>(&O::f))(1.f), base + 10);
	VX_EQ("f(bool) const noexcept", (c.*Nz::Overload<bool>(&O::f))(true), base + 11); VX_EQ("f(u8) const& noexcept", (c.*Nz::Overload<u8>(&O::f))(1), base + 12); VX_EQ("f(MoveOnly&&) const&& noexcept", (std::move(c).*Nz::Overload<MoveOnly&&>(&O::f))(MoveOnly()), base + 13); VX_EQ("f(const S&, S&)", (o.*Nz::Overload<const S&, S&>(&O::f))(s, s), base + 14); VX_EQ("f(S*)", (o.*Nz::Overload<S*>(&O::f))(&s), base + 15); VX_EQ("f(const S*)", (o.*Nz::Overload<const S*>(&O::f))(&s), base + 16);
	static_assert(std::is_same_v<decltype(Nz::Overload<u8>(&O::f)), int (O::*)(u8) const& noexcept> && std::is_same_v<decltype(Nz::Overload<const std::string&>(&O::f)), int (O::*)(const std::string&) &&>);
	VX_EQ("g(int)", Nz::Overload<int>(&O::g)(1), 20); VX_EQ("g(double)", Nz::Overload<double>(&O::g)(1), 21); VX_EQ("g()", Nz::Overload<>(&O::g)(), 22);
	VX_EQ("h()", Nz::Overload<>(&h)(), 30); VX_EQ("h(int)", Nz::Overload<int>(&h)(1), 31); VX_EQ("h(double)", Nz::Overload<double>(&h)(1), 32); VX_EQ("h(string,int)", (Nz::Overload<const std::string&, int>(&h)("", 1)), 33); VX_EQ("h(int,string)", (Nz::Overload<int, const std::string&>(&h)(1, "")), 34); int i = 0; VX_EQ("h(int*)", Nz::Overload<int*>(&h)(&i), 35); VX_EQ("h(const int*)", Nz::Overload<const int*>(&h)(&i), 36);
	std::vector<std::variant<int, std::string, double>> v; std::vector<int> want; for (u64 n = cx.rng.below(20); n--;) switch (cx.rng.below(3)) { case 0: { int x = (int) cx.rng.range(0, 99); v.push_back(x); want.push_back(x); break; } case 1: v.push_back(std::string((std::size_t) cx.rng.below(9), 'a')); want.push_back(1000 + (int) std::get<std::string>(v.back()).size()); break; default: v.push_back(0.5); want.push_back(-1); }
	auto got = visitAll(v, Nz::Overloaded{[](int x) { return x; }, [](const std::string& t) { return 1000 + (int) t.size(); }, [](double) { return -1; }}); VX_TRUE("overloaded visitor", got == want); cx.count("overloads selected", 26);
}
VX_SUITE("type names", 1, 1)
{
	named<int>("int"); named<unsigned char>("unsigned char"); named<double>("double"); named<void>("void"); named<bool>("bool"); named<GlobalType>("GlobalType"); named<GlobalEnum>("GlobalEnum"); named<S>("shapes::S"); named<Inc>("shapes::Inc"); named<En>("shapes::En"); named<inner::Old>("shapes::inner::Old"); named<inner::Un>("shapes::inner::Un"); named<inner::Deep<int>::Member>("shapes::inner::Deep<int>::Member"); named<Nz::InsideLibraryNamespace>("Nz::InsideLibraryNamespace"); named<Nz::TypeTag<int>>("Nz::TypeTag<int>"); named<Nz::TypeTag<Nz::InsideLibraryNamespace>>("Nz::TypeTag<Nz::InsideLibraryNamespace>");
	named<std::string_view>("std::basic_string_view<char>"); named<Val<3>>("shapes::Val<3>"); named<Pack<>>("shapes::Pack<>"); named<Pack<Pack<>, Pack<Pack<int>>>>("shapes::Pack<shapes::Pack<>, shapes::Pack<shapes::Pack<int>>>");
	named<int*>("int*"); named<const int&>("const int&"); named<S&&>("shapes::S&&"); named<S**>("shapes::S**"); named<int[3]>("int[3]"); named<Pack<int[2][5]>>("shapes::Pack<int[2][5]>"); named<void(int, S)>("void(int, shapes::S)"); named<int S::*>("int shapes::S::*"); named<Chr<'a'>>("shapes::Chr<'a'>"); named<Chr<';'>>("shapes::Chr<';'>"); named<Chr<']'>>("shapes::Chr<']'>"); named<Chr<'='>>("shapes::Chr<'='>");
	composed<int>(); composed<S>(); composed<Inc>(); composed<Val<42>>(); composed<inner::Deep<GlobalType>>(); composed<Nz::InsideLibraryNamespace>(); composed<En>(); composed<unsigned long long>(); composed<Chr<']'>>();
	std::set<std::string_view> all{Nz::TypeName<int>(), Nz::TypeName<const int>(), Nz::TypeName<int&>(), Nz::TypeName<int&&>(), Nz::TypeName<int*>(), Nz::TypeName<long>(), Nz::TypeName<long long>(), Nz::TypeName<Val<1>>(), Nz::TypeName<Val<-1>>(), Nz::TypeName<Val<11>>(), Nz::TypeName<int()>(), Nz::TypeName<int(int)>(), Nz::TypeName<int[1]>(), Nz::TypeName<int[11]>(), Nz::TypeName<int[]>()}; VX_EQ("distinct names", all.size(), std::size_t(15));
	cx.log("names");
}
namespace enums { enum class C3 { A, B, C, Count }; enum class M1 { A, Max = A }; enum Old { OA, OB, Count }; enum class Wide : u64 { A, Max = 200 }; enum class Neg : i8 { A, B, Max = B }; enum class Big : u8 { Max = 255 }; }
VX_SUITE("type traits", 1, 1)
{
	VX_EQ("count", Nz::EnumValueCount_v<enums::C3>, std::size_t(3)); VX_EQ("count", Nz::EnumValueCount_v<enums::M1>, std::size_t(1)); VX_EQ("count", Nz::EnumValueCount_v<enums::Old>, std::size_t(2)); VX_EQ("count", Nz::EnumValueCount_v<enums::Wide>, std::size_t(201)); VX_EQ("count", Nz::EnumValueCount_v<enums::Neg>, std::size_t(2)); VX_EQ("count", Nz::EnumValueCount_v<enums::Big>, std::size_t(256));
	VX_TRUE("completeness", (Nz::IsComplete_v<int> && Nz::IsComplete_v<S> && !Nz::IsComplete_v<Inc> && Nz::IsComplete_v<Pack<Inc>> && Nz::IsComplete_v<Inc*> && Nz::IsComplete_v<En>));
	VX_TRUE("first type", (Nz::IsFirstType_v<int, int> && Nz::IsFirstType_v<int, int, char> && !Nz::IsFirstType_v<int, char, int> && !Nz::IsFirstType_v<int> && !Nz::IsFirstType_v<int, const int> && !Nz::IsFirstType_v<int&, int>));
	VX_TRUE("pointed type", (std::is_same_v<typename Nz::PointedType<int*>::type, int> && std::is_same_v<typename Nz::PointedType<const S*>::type, const S> && std::is_same_v<typename Nz::PointedType<S* const>::type, S> && std::is_same_v<typename Nz::PointedType<int* volatile>::type, int> && std::is_same_v<typename Nz::PointedType<const int* const volatile>::type, const int> && std::is_same_v<typename Nz::PointedType<void*>::type, void> && std::is_same_v<typename Nz::PointedType<int**>::type, int*>));
	VX_TRUE("pointer", (std::is_same_v<Nz::Pointer<int>, int*> && std::is_same_v<Nz::Pointer<const S>, const S*>));
	VX_TRUE("bare type", (std::is_same_v<Nz::RemoveCvRef_t<int>, int> && std::is_same_v<Nz::RemoveCvRef_t<const int&>, int> && std::is_same_v<Nz::RemoveCvRef_t<volatile S&&>, S> && std::is_same_v<Nz::RemoveCvRef_t<const volatile int>, int> && std::is_same_v<Nz::RemoveCvRef_t<const int*>, const int*> && std::is_same_v<Nz::RemoveCvRef_t<int* const&>, int*> && std::is_same_v<Nz::RemoveCvRef_t<const int[2]>, int[2]> && std::is_same_v<Nz::RemoveCvRef_t<void>, void>));
	VX_TRUE("always false", (!Nz::AlwaysFalse<int>::value && !Nz::AlwaysFalseValue<3>::value && std::is_same_v<Nz::LazyVoid_t<S>, void>));
	VX_TRUE("functor", (!Nz::IsFunctor_v<int> && !Nz::IsFunctor_v<S> && !Nz::IsFunctor_v<NoCall> && !Nz::IsFunctor_v<int S::*> && Nz::IsFunctor_v<Named> && !Nz::IsFunctor_v<int*> && !Nz::IsFunctor_v<std::string>));
	static_assert(std::is_same_v<typename Nz::TypeTag<const int&>::Type, const int&>);
	cx.log("traits");
}
namespace
{
	// a greedy constructor guarded the way the library's own are
	struct Greedy { int how = 0; template<class... T, class = Nz::PreventHiddenCopyMove<Greedy, T...>> Greedy(T&&...) : how(100 + (int) sizeof...(T)) {} Greedy(const Greedy& g) : how(g.how + 1) {} Greedy(Greedy&& g) : how(g.how + 2) {} };
}
VX_SUITE("constructors kept from hiding copies", 1, 1)
{
	Greedy a, b(1), c(1, 2); VX_EQ("none", a.how, 100); VX_EQ("one", b.how, 101); VX_EQ("two", c.how, 102); Greedy d(a); VX_EQ("copy of a variable", d.how, 101); const Greedy e(b); VX_EQ("copy", e.how, 102); Greedy f(e); VX_EQ("copy of a constant", f.how, 103); Greedy g(std::move(a)); VX_EQ("move", g.how, 102); Greedy h(std::move(e)); VX_EQ("move of a constant copies", h.how, 103); Greedy i(a, b); VX_EQ("two of them", i.how, 102);
	cx.log("constructors");
}
// concepts: constraints where the language has them, plain parameters otherwise; both forms accept what satisfies them
namespace concepts
{
#ifdef NAZARA_HAS_CONCEPTS
	template<class T> concept Small = sizeof(T) <= 2;
#endif
	template<NAZARA_CONCEPT_T(Small) T> constexpr int small(T) { return 1; }
	template<NAZARA_STD_CONCEPT_T(std::integral) T> constexpr int whole(T) { return 1; }
	template<class T, class = void> struct CallsSmall : std::false_type {}; template<class T> struct CallsSmall<T, std::void_t<decltype(small(std::declval<T>()))>> : std::true_type {};
	template<class T, class = void> struct CallsWhole : std::false_type {}; template<class T> struct CallsWhole<T, std::void_t<decltype(whole(std::declval<T>()))>> : std::true_type {};
#ifdef NAZARA_HAS_STD_CONCEPTS
	template<class T> constexpr bool arithmetic = Nz::Arithmetic<T>;
	template<Nz::Arithmetic T> constexpr int number(T) { return 1; }
	template<class T> constexpr int number(T) requires(!Nz::Arithmetic<T>) { return 2; }
#endif
}
VX_SUITE("concepts", 1, 1)
{
	VX_EQ("constrained template", concepts::small('a'), 1); VX_EQ("constrained template", concepts::small(short(3)), 1); VX_EQ("constrained template", concepts::whole(3ll), 1);
	constexpr bool lang =
#ifdef __cpp_concepts
		true;
#else
		false;
#endif
	constexpr bool lib =
#if defined(__cpp_concepts) && __cplusplus >= 202002L && defined(__cpp_lib_concepts)
		true;
#else
		false;
#endif
#ifdef NAZARA_HAS_CONCEPTS
	VX_TRUE("concepts announced", lang);
#else
	VX_TRUE("concepts announced", !lang);
#endif
#ifdef NAZARA_HAS_STD_CONCEPTS
	VX_TRUE("standard concepts announced", lib);
#else
	VX_TRUE("standard concepts announced", !lib);
#endif
	VX_EQ("unsatisfied constraint accepted", concepts::CallsSmall<double>::value, !lang); VX_EQ("satisfied constraint refused", concepts::CallsSmall<bool>::value, true);
	VX_EQ("unsatisfied constraint accepted", concepts::CallsWhole<double>::value, !lib); VX_EQ("satisfied constraint refused", concepts::CallsWhole<char>::value, true);
#ifdef NAZARA_HAS_STD_CONCEPTS
	using namespace concepts;
	VX_TRUE("arithmetic types", (arithmetic<bool> && arithmetic<char> && arithmetic<signed char> && arithmetic<wchar_t> && arithmetic<char8_t> && arithmetic<char16_t> && arithmetic<char32_t> && arithmetic<short> && arithmetic<unsigned> && arithmetic<long> && arithmetic<unsigned long long> && arithmetic<float> && arithmetic<double> && arithmetic<long double> && arithmetic<const int> && arithmetic<volatile float> && arithmetic<Nz::UInt8> && arithmetic<Nz::Int64> && arithmetic<std::size_t> && arithmetic<std::ptrdiff_t>));
	VX_TRUE("other types", (!arithmetic<void> && !arithmetic<int*> && !arithmetic<int&> && !arithmetic<S> && !arithmetic<En> && !arithmetic<std::nullptr_t> && !arithmetic<int[2]> && !arithmetic<int()> && !arithmetic<int S::*> && !arithmetic<std::string>));
	VX_EQ("constrained overload", number(3) * 10 + number(&cx), 12); VX_EQ("constrained overload", number(3.0f) * 10 + number(En{}), 12);
#endif
	cx.log("concepts");
}
