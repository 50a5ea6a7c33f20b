#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/EnumArray.hpp>
#include <algorithm>
#include <iterator>
#include <numeric>
#include <vector>
using namespace vx;
#ifndef PART
#define PART 0
#endif
namespace
{
	enum class One { A, Max = A }; enum class Five { A, B, C, D, E, Max = E }; enum Seven { S0, S1, S2, S3, S4, S5, S6, Count }; enum class Byte : u8 { First, Max = 255 }; enum class SByte : i8 { First, Max = 127 }; enum class Wide : u64 { First, Max = 299 }; enum class Short : i16 { First, Count = 300 }; enum class UShort : u16 { First, Max = 65535 }; enum class Plain { First, Count = 70001 };
	template<class E> E at(std::size_t i) { return static_cast<E>(i); }
	// random walks of an iterator against an index; n elements whose addresses are known
	template<class Arr, class It> void walk(Ctx& cx, Arr& a, It b, It e, std::ptrdiff_t n)
	{
		using E = std::decay_t<decltype((*b).first)>;
		Rng& r = cx.rng; std::vector<It> its; std::vector<std::ptrdiff_t> pos; its.push_back(b); pos.push_back(0); its.push_back(e); pos.push_back(n);
		for (int s = 0; s < 60; ++s)
		{
			std::size_t k = (std::size_t) r.below(its.size()); It& it = its[k]; std::ptrdiff_t& p = pos[k]; unsigned op = (unsigned) r.below(11); cx.mix(op * 7 + k);
			switch (op)
			{
				case 0: if (p < n) { It& x = ++it; ++p; VX_TRUE("++ returns itself", &x == &it); } break;
				case 1: if (p < n) { It x = it++; VX_EQ("it++", x - b, p); ++p; } break;
				case 2: if (p > 0) { It& x = --it; --p; VX_TRUE("-- returns itself", &x == &it); } break;
				case 3: if (p > 0) { It x = it--; VX_EQ("it--", x - b, p); --p; } break;
				case 4: { std::ptrdiff_t d = (std::ptrdiff_t) r.below(n + 1) - p; It& x = it += d; p += d; VX_TRUE("+= returns itself", &x == &it); break; }
				case 5: { std::ptrdiff_t d = p - (std::ptrdiff_t) r.below(n + 1); It& x = it -= d; p -= d; VX_TRUE("-= returns itself", &x == &it); break; }
				case 6: { std::ptrdiff_t d = (std::ptrdiff_t) r.below(n + 1) - p; It x = r.coin() ? it + d : d + it; VX_EQ("it + n", x - b, p + d); VX_EQ("it + n leaves it", it - b, p); if (its.size() < 6) { its.push_back(x); pos.push_back(p + d); } break; }
				case 7: { std::ptrdiff_t d = p - (std::ptrdiff_t) r.below(n + 1); It x = it - d; VX_EQ("it - n", x - b, p - d); break; }
				case 8: if (n) { std::ptrdiff_t q = (std::ptrdiff_t) r.below(n); auto kv = it[q - p]; VX_TRUE("it[n] key", kv.first == at<E>((std::size_t) q)); VX_TRUE("it[n] value", &kv.second == a.data() + q); } break;
				case 9: { std::size_t j = (std::size_t) r.below(its.size()); its[k] = its[j]; pos[k] = pos[j]; break; }
				default: { It x(std::move(it)); it = std::move(x); break; }
			}
			{ std::ptrdiff_t q = pos[k]; It& i2 = its[k]; if (q < n) { auto kv = *i2; VX_TRUE("key", kv.first == at<E>((std::size_t) q)); VX_TRUE("value refers to the element", &kv.second == a.data() + q); } }
			std::size_t j = (std::size_t) r.below(its.size()); It &x = its[k], &y = its[j]; std::ptrdiff_t px = pos[k], py = pos[j];
			VX_EQ("==", x == y, px == py); VX_EQ("!=", x != y, px != py); VX_EQ("<", x < y, px < py); VX_EQ("<=", x <= y, px <= py); VX_EQ(">", x > y, px > py); VX_EQ(">=", x >= y, px >= py); VX_EQ("difference", x - y, px - py);
		}
		cx.count("iterator steps", 60);
	}
	template<class E, class V> void run(Ctx& cx)
	{
		LifeScope ls; Rng& r = cx.rng; using A = Nz::EnumArray<E, V>; constexpr std::size_t n = Nz::EnumValueCount_v<E>;
		auto pa = std::make_unique<A>(); A& a = *pa; const A& c = a; std::vector<int> m(n, 0); for (auto& v : a) v = 0;
		VX_EQ("size", a.size(), n); cx.log("array of %zu values", n);
		static_assert(std::is_same_v<typename std::tuple_element<0, std::tuple<decltype(a[E{}])>>::type, V&> && std::is_same_v<decltype(c[E{}]), const V&>);
		for (int s = 0; s < 12; ++s)
		{
			unsigned op = (unsigned) r.below(6); cx.mix(op); int base = (int) r.below(10000);
			switch (op)
			{
				case 0: for (int q = 0; q < 20; ++q) { std::size_t i = (std::size_t) r.below(n); a[at<E>(i)] = base + q; m[i] = base + q; cx.mix(i); } cx.log("writes by value"); break;
				case 1: { std::size_t i = 0; for (auto&& kv : a.iter_kv()) { VX_TRUE("key order", kv.first == at<E>(i)); kv.second = base + (int) i; m[i] = base + (int) i; ++i; } VX_EQ("every value visited once", i, n); cx.log("writes through key-value iteration"); break; }
				case 2: { std::size_t i = 0; for (auto [k, v] : a.iter_kv()) { if (i % 3 == 0) { v = -base; m[i] = -base; } VX_TRUE("key order", k == at<E>(i)); ++i; } VX_EQ("every value visited once", i, n); cx.log("writes through bindings"); break; }
				case 3: { a.fill(V(base)); std::fill(m.begin(), m.end(), base); cx.log("fill"); break; }
				case 4: { auto b = a.iter_kv().begin(); for (int q = 0; q < 10; ++q) { std::size_t i = (std::size_t) r.below(n); b[(std::ptrdiff_t) i].second = base; m[i] = base; } cx.log("writes through iterator indexing"); break; }
				default: { A copy(a); VX_TRUE("copies are equal", copy == a); copy[at<E>(0)] = base + 1; VX_EQ("copies are distinct", val(a[at<E>(0)]), m[0]); a = copy; m[0] = base + 1; cx.log("copy and assign"); break; }
			}
			for (std::size_t i = 0; i < n; ++i) { VX_EQ("operator[]", val(a[at<E>(i)]), m[i]); VX_EQ("const operator[]", val(c[at<E>(i)]), m[i]); VX_TRUE("position", &c[at<E>(i)] == c.data() + i); }
			std::size_t i = 0; for (auto [k, v] : c.iter_kv()) { VX_TRUE("const key order", k == at<E>(i)); VX_TRUE("const value refers to the element", &v == c.data() + i); static_assert(std::is_const_v<std::remove_reference_t<decltype(v)>>); ++i; } VX_EQ("every value visited once", i, n);
		}
		auto kv = a.iter_kv(); auto ckv = c.iter_kv(); walk(cx, a, kv.begin(), kv.end(), (std::ptrdiff_t) n); walk(cx, a, ckv.begin(), ckv.end(), (std::ptrdiff_t) n);
		VX_EQ("distance", kv.end() - kv.begin(), (std::ptrdiff_t) n);
	}
}
#define S(E, V) VX_FN(#E " -> " #V, 60, 3000, run<E, V>)
using T0 = Tracked<0>;
#if PART == 0
S(One, int) S(Five, int) S(Five, T0) S(Seven, T0)
#else
S(Byte, int) S(SByte, T0) S(Wide, short) S(Short, int)
VX_FN("UShort -> int", 2, 40, run<UShort, int>) VX_FN("Plain -> int", 2, 40, run<Plain, int>)
VX_SUITE("initialisation", 1, 1)
{
	cx.log("aggregate initialisation and constant evaluation");
	constexpr Nz::EnumArray<Five, int> a = {{10, 20, 30, 40, 50}}; static_assert(a[Five::C] == 30 && a.size() == 5);
	int sum = 0; for (auto [k, v] : a.iter_kv()) sum += v * (1 + (int) k); VX_EQ("weighted sum", sum, 10 + 40 + 90 + 160 + 250);
	Nz::EnumArray<Five, std::unique_ptr<int>> u; u[Five::D] = std::make_unique<int>(4); for (auto&& [k, v] : u.iter_kv()) VX_EQ("move-only values", v != nullptr, k == Five::D);
	static_assert(Nz::EnumValueCount_v<One> == 1 && Nz::EnumValueCount_v<Five> == 5 && Nz::EnumValueCount_v<Seven> == 7 && Nz::EnumValueCount_v<Byte> == 256 && Nz::EnumValueCount_v<Wide> == 300 && Nz::EnumValueCount_v<Short> == 300 && Nz::EnumValueCount_v<UShort> == 65536 && Nz::EnumValueCount_v<Plain> == 70001);
}
#endif
