#include "vx.hpp"
#include <NazaraUtils/TypeList.hpp>
#include <NazaraUtils/TypeTag.hpp>
#include <algorithm>
#include <limits>
#include <tuple>
#include <type_traits>
#include <variant>
#include <vector>
using namespace vx;
// type lists as sequences: pseudo-random lists of types, reflected while running and compared with the same operation on vectors of numbers
namespace
{
	template<int I> struct Ty { };
	struct Inc; // incomplete
	// the alphabet: classes, builtin types, their qualified forms, void, functions, lists
	using Alphabet = std::tuple<Nz::TypeTag<Ty<0>>, Nz::TypeTag<Ty<1>>, Nz::TypeTag<int>, Nz::TypeTag<const int>, Nz::TypeTag<int&>, Nz::TypeTag<int*>, Nz::TypeTag<void>, Nz::TypeTag<Inc>, Nz::TypeTag<void(int)>, Nz::TypeTag<Nz::TypeList<>>, Nz::TypeTag<Nz::TypeList<int>>, Nz::TypeTag<unsigned>, Nz::TypeTag<int&&>, Nz::TypeTag<int[3]>, Nz::TypeTag<const int&>, Nz::TypeTag<volatile int>>;
	constexpr int A = (int) std::tuple_size_v<Alphabet>;
	template<int I> using Nth = typename std::tuple_element_t<(std::size_t) I, Alphabet>::Type;
	template<class T, int I = 0> constexpr int idOf() { if constexpr (I == A) return -1; else if constexpr (std::is_same_v<T, Nth<I>>) return I; else return idOf<T, I + 1>(); }
	constexpr u64 mixc(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	// Span: how many letters of the alphabet are used (few letters make many duplicates)
	template<int Seed, int Span, class Seq> struct Rand_;
	template<int Seed, int Span, int... I> struct Rand_<Seed, Span, std::integer_sequence<int, I...>> { using type = Nz::TypeList<Nth<(int) ((mixc((u64) Seed) % A + mixc((u64) (Seed * 1000 + I)) % Span) % A)>...>; };
	template<int Seed, int N, int Span> using RandList = typename Rand_<Seed, Span, std::make_integer_sequence<int, N>>::type;

	using Vec = std::vector<int>;
	template<class L> struct Ids; template<class... T> struct Ids<Nz::TypeList<T...>> { static Vec get() { return Vec{idOf<T>()...}; } };
	template<class... T> struct Carrier { static Vec get() { return Vec{idOf<T>()...}; } };
	template<class T> struct Wrap { };
	template<class T> struct ToTag { using type = Nz::TypeTag<T>; };
	template<class T> struct Collapse { using type = std::conditional_t<std::is_reference_v<T>, int, T>; };
	template<class L> struct TagIds; template<class... T> struct TagIds<Nz::TypeList<T...>> { static Vec get() { return Vec{idOf<typename T::Type>()...}; } };
	template<class T> struct Visit { void operator()(Vec& out, int& calls, const int& k) const { out.push_back(idOf<T>()); ++calls; (void) k; } };
	void same(const char* what, const Vec& got, const Vec& want)
	{
		++cur->checks; if (got == want) return;
		std::string s; for (int i : got) s += std::to_string(i) + " "; s += "instead of "; for (int i : want) s += std::to_string(i) + " "; fail(what, "%s: %s", what, s.c_str());
	}
	template<class L, int T> void perType(const Vec& m)
	{
		using X = Nth<T>; auto it = std::find(m.begin(), m.end(), T); std::size_t at = it == m.end() ? std::numeric_limits<std::size_t>::max() : (std::size_t) (it - m.begin());
		VX_EQ("find", (Nz::TypeListFind<L, X>), at); VX_EQ("has", (Nz::TypeListHas<L, X>), it != m.end());
		Vec a = m; a.push_back(T); same("append", Ids<Nz::TypeListAppend<L, X>>::get(), a);
		Vec p = m; p.insert(p.begin(), T); same("prepend", Ids<Nz::TypeListPrepend<L, X>>::get(), p);
		Vec r = m; r.erase(std::remove(r.begin(), r.end(), T), r.end()); same("remove", Ids<Nz::TypeListRemove<L, X>>::get(), r);
		cur->count("list operations", 5);
	}
	template<class L, int... T> void perTypes(const Vec& m, std::integer_sequence<int, T...>) { (perType<L, T>(m), ...); }
	template<class L, std::size_t... I> Vec allAt(std::index_sequence<I...>) { return Vec{idOf<Nz::TypeListAt<L, I>>()...}; }
	template<int Seed, int N, int Span> void one(Rng& r)
	{
		using L = RandList<Seed, N, Span>; using M = RandList<Seed + 500, (N * 7 + Seed) % 9, Span>; Vec m = Ids<L>::get(), n = Ids<M>::get();
		for (int i : m) cur->mix((u64) i);
		VX_EQ("size", Nz::TypeListSize<L>, m.size()); VX_EQ("empty", Nz::TypeListEmpty<L>, m.empty());
		same("at", allAt<L>(std::make_index_sequence<(std::size_t) N>()), m);
		Vec c = m; c.insert(c.end(), n.begin(), n.end()); same("concat", Ids<Nz::TypeListConcat<L, M>>::get(), c); Vec d = n; d.insert(d.end(), m.begin(), m.end()); same("concat", Ids<Nz::TypeListConcat<M, L>>::get(), d);
		same("concat with an empty list", Ids<Nz::TypeListConcat<L, Nz::TypeList<>>>::get(), m); same("concat with an empty list", Ids<Nz::TypeListConcat<Nz::TypeList<>, L>>::get(), m);
		Vec u; for (int i : m) if (std::find(u.begin(), u.end(), i) == u.end()) u.push_back(i); same("unique", Ids<Nz::TypeListUnique<L>>::get(), u);
		using UL = Nz::TypeListUnique<L>; same("unique twice", Ids<Nz::TypeListUnique<UL>>::get(), u);
		Vec cu; for (int i : c) if (std::find(cu.begin(), cu.end(), i) == cu.end()) cu.push_back(i); same("unique of a concatenation", Ids<Nz::TypeListUnique<Nz::TypeListConcat<L, M>>>::get(), cu);
		same("transform", TagIds<Nz::TypeListTransform<L, ToTag>>::get(), m);
		Vec t = m; for (int& i : t) if (i == idOf<int&>() || i == idOf<int&&>() || i == idOf<const int&>()) i = idOf<int>(); same("transform", Ids<Nz::TypeListTransform<L, Collapse>>::get(), t);
		same("instantiate", Nz::TypeListInstantiate<L, Carrier>::get(), m); static_assert(std::is_same_v<Nz::TypeListInstantiate<L, Nz::TypeList>, L>);
		Vec seen; int calls = 0; const int k = (int) r.below(9); Nz::TypeListApply<L, Visit>(seen, calls, k); same("apply", seen, m); VX_EQ("apply calls", (std::size_t) calls, m.size());
		perTypes<L>(m, std::make_integer_sequence<int, A>());
		cur->count("lists"); cur->count("list operations", 14);
	}
	template<int Base, int... I> void many(Ctx& cx, std::integer_sequence<int, I...>) { (one<Base + I, (Base + I * 5) % 11, 1 + (I * 3 + Base) % A>(cx.rng), ...); cx.log("lists %d..", Base); }
	template<int Base, int... I> void longs(Ctx& cx, std::integer_sequence<int, I...>) { (one<Base + I, 35 + 23 * I, A>(cx.rng), ...); cx.log("long lists"); }
	void longLists(Ctx& cx) { longs<900>(cx, std::make_integer_sequence<int, 2>()); }
	template<int Base> void block(Ctx& cx) { many<Base>(cx, std::make_integer_sequence<int, 8>()); }
}
#ifndef PART
#define PART 0
#endif
#if PART == 0
VX_FN("random type lists (block 0)", 1, 1, block<0>)
VX_FN("random type lists (block 1)", 1, 1, block<8>)
#else
VX_FN("random type lists (block 2)", 1, 1, block<16>)
VX_FN("random type lists (block 3)", 1, 1, block<24>)
VX_FN("long type lists", 1, 1, longLists)
#endif
#if PART == 0
VX_SUITE("real uses of type lists", 1, 1)
{
	using L = Nz::TypeListUnique<Nz::TypeList<int, char, int, double>>; using V = Nz::TypeListInstantiate<L, std::variant>; using T = Nz::TypeListInstantiate<L, std::tuple>;
	V v = 2.5; VX_EQ("variant of a list", v.index(), std::size_t(2)); VX_EQ("tuple of a list", std::tuple_size_v<T>, std::size_t(3)); static_assert(std::is_same_v<V, std::variant<int, char, double>>);
	cx.log("variant and tuple");
}
#endif
