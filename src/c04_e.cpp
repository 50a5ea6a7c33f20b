// C04: construction from ranges of every kind of iterator
#include "vx.hpp"
#include <NazaraUtils/FixedVector.hpp>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace vx;
namespace
{
	// a single-pass range: reading a position twice, or after going past it, shows
	struct Feed { std::vector<int> v; std::size_t at = 0, reads = 0; bool bad = false; };
	struct Single
	{
		using iterator_category = std::input_iterator_tag; using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int;
		Feed* f = nullptr; std::size_t pos = 0;
		int operator*() const { if (pos != f->at || pos >= f->v.size()) { f->bad = true; return -1; } ++f->reads; return f->v[pos]; }
		Single& operator++() { if (pos != f->at || pos >= f->v.size()) f->bad = true; f->at = ++pos; return *this; }
		struct Old { int v; int operator*() const { return v; } };
		Old operator++(int) { Old o{**this}; ++*this; return o; }
		bool operator==(const Single& o) const { bool e = !f || f->at == f->v.size(), g = !o.f || o.f->at == o.f->v.size(); return e == g; }
		bool operator!=(const Single& o) const { return !(*this == o); }
	};
	template<class V, class M> void same(const char* key, const V& v, const M& m)
	{
		VX_EQ(key, v.size(), m.size()); std::size_t i = 0; for (auto& e : m) { VX_TRUE(key, i < v.size() && v[i] == e); ++i; } VX_TRUE(key, std::equal(v.begin(), v.end(), m.begin(), m.end())); ++i;
	}
	template<template<class> class Vec> void ranges(Ctx& cx)
	{
		Rng& r = cx.rng; std::size_t n = r.below(r.chance(1, 8) ? 13 : 9); std::vector<int> in(n); for (int& x : in) { x = (int) r.range(-999, 999); cx.mix((u64) x); } cx.log("%d elements", (int) n); cx.count("elements", n);
		{ Feed f{in}; Vec<int> v(Single{&f}, Single{}); same("single pass", v, in); VX_TRUE("single pass", !f.bad && f.at == n); VX_EQ("each position read once", f.reads, n); }
		{ std::ostringstream o; for (int x : in) o << x << ' '; std::istringstream s(o.str()); Vec<int> v(std::istream_iterator<int>(s), std::istream_iterator<int>{}); same("stream", v, in); }
		{ std::string t; for (int x : in) t += (char) ('a' + ((x % 26) + 26) % 26); std::istringstream s(t); Vec<char> v(std::istreambuf_iterator<char>(s), std::istreambuf_iterator<char>{}); same("stream buffer", v, t); Vec<char> w(t.begin(), t.end()); same("text", w, t); Vec<long long> x(t.rbegin(), t.rend()); same("reverse text", x, std::vector<long long>(t.rbegin(), t.rend())); }
		{ std::list<int> l(in.begin(), in.end()); Vec<int> v(l.begin(), l.end()); same("list", v, in); std::forward_list<int> s(in.begin(), in.end()); Vec<short> w(s.cbegin(), s.cend()); same("forward list", w, in); std::deque<int> d(in.begin(), in.end()); Vec<int> x(d.begin(), d.end()); same("deque", x, in); std::multiset<int> m(in.begin(), in.end()); Vec<int> y(m.begin(), m.end()); same("set", y, m); }
		{ std::vector<bool> b; for (int x : in) b.push_back(x & 1); Vec<int> v(b.begin(), b.end()); same("bits", v, std::vector<int>(b.begin(), b.end())); }
		{ std::vector<std::unique_ptr<int>> p; for (int x : in) p.push_back(std::make_unique<int>(x)); Vec<std::unique_ptr<int>> v(std::make_move_iterator(p.begin()), std::make_move_iterator(p.end())); VX_EQ("moved range", v.size(), n); for (std::size_t i = 0; i < n; ++i) { VX_TRUE("moved range", v[i] && *v[i] == in[i]); VX_TRUE("moved range", !p[i]); } }
		{ std::vector<std::string> p; for (int x : in) p.push_back(std::to_string(x) + std::string(30, '.')); Vec<std::string> v(p.begin(), p.end()); same("strings", v, p); const char* c[16]; for (std::size_t i = 0; i < n; ++i) c[i] = p[i].c_str(); Vec<std::string> w(c, c + n); same("converted range", w, p); Vec<std::string> x(v.rbegin(), v.rend()); same("own iterators", x, std::vector<std::string>(p.rbegin(), p.rend())); }
		{ std::initializer_list<int> il = {1, 2, 3}; Vec<int> v(il); same("list of values", v, std::vector<int>(il)); Vec<int> w = {4, 5, 6, 7}; same("list of values", w, std::vector<int>{4, 5, 6, 7}); Vec<int> x{}; VX_TRUE("no values", x.empty()); Vec<int> y(in.data(), in.data()); VX_TRUE("empty range", y.empty()); }
	}
	template<class T> using F = Nz::FixedVector<T, 13>;
	template<class T> using H2 = Nz::HybridVector<T, 2>;
	template<class T> using H6 = Nz::HybridVector<T, 6>;
}
VX_FN("ranges-fixed", 400, 10000, ranges<F>)
VX_FN("ranges-hybrid-2", 400, 10000, ranges<H2>)
VX_FN("ranges-hybrid-6", 400, 10000, ranges<H6>)
