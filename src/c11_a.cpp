#include "vx.hpp"
#include <NazaraUtils/SparsePtr.hpp>
#include <algorithm>
#include <iterator>
#include <memory>
#include <numeric>
#include <vector>
using namespace vx;
namespace
{
	struct A1 { int a = 1; }; struct A2 { int b = 2; }; struct Both : A1, A2 { int c; };
	struct Vtx { float x, y, z; u32 color; u16 id; int get() const { return id; } };

	// a region of cells; every cell knows its own offset
	template<class T> T make(std::size_t i);
	template<> u8 make<u8>(std::size_t i) { return (u8) (i * 37 + 1); }
	template<> u32 make<u32>(std::size_t i) { return (u32) (i * 2654435761u); }
	template<> Vtx make<Vtx>(std::size_t i) { Vtx v; std::memset(&v, 0, sizeof v); v.x = (float) i; v.id = (u16) i; return v; }
	bool same(u8 a, u8 b) { return a == b; }
	bool same(u32 a, u32 b) { return a == b; }
	bool same(const Vtx& a, const Vtx& b) { return a.id == b.id && a.x == b.x; }

	template<class T, class Q> void history(Ctx& cx) // Q is T or const T
	{
		Rng& r = cx.rng; using P = Nz::SparsePtr<Q>;
		std::size_t stride = (1 + r.below(5)) * alignof(T); if (stride < sizeof(T)) stride = sizeof(T) + alignof(T) * r.below(4);
		if (r.chance(1, 8)) stride = sizeof(T);
		i64 n = 1 + (i64) r.below(40); int sign = r.chance(1, 4) ? -1 : 1;
		std::vector<u32> raw((std::size_t) n * stride / 4 + 8); // exactly delimited by ASan
		char* base = (char*) raw.data();
		auto cell = [&](i64 i) { return base + (std::size_t) (sign > 0 ? i : n - 1 - i) * stride; };
		for (i64 i = 0; i < n; ++i) new (cell(i)) T(make<T>((std::size_t) i));
		int st = sign * (int) stride; i64 at = (i64) r.below((u64) n);
		cx.log("%lld cells, stride %d, start %lld", (long long) n, st, (long long) at);
		P p; VX_TRUE("null", !p && p.GetPtr() == nullptr && p.GetStride() == 0);
		switch (r.below(5))
		{
			case 0: p = P(cell(at), st); break;
			case 1: if (sign > 0) p = P(cell(at), (std::size_t) st); else p.Reset(cell(at), st); break;
			case 2: p.Reset(cell(at), st); break;
			case 3: { Nz::SparsePtr<T> q((T*) cell(at)); VX_EQ("default stride", q.GetStride(), (int) sizeof(T)); q.SetStride(st); if (r.coin()) p = P(q); else p.Reset(q); break; }
			default: p.SetPtr(cell(at)); p.SetStride(st); break;
		}
		auto check = [&](const P& q, i64 i, const char* who)
		{
			++cx.checks;
			if (q.GetPtr() != (void*) cell(i) || q.GetStride() != st) fail("position", "%s: at byte %lld of stride %d, expected %lld of %d", who, (long long) ((char*) q.GetPtr() - base), q.GetStride(), (long long) (cell(i) - base), st);
			if (&*q != (Q*) cell(i) || q.operator->() != (Q*) cell(i) || (Q*) q != (Q*) cell(i) || !q) fail("access", "%s: access gives another address", who);
			if (!same(*q, make<T>((std::size_t) i))) fail("access", "%s: wrong element", who);
		};
		check(p, at, "constructed");
		for (int k = 0; k < 24; ++k)
		{
			i64 to = (i64) r.below((u64) n), d = to - at; cx.mix((u64) to);
			auto step = [&](auto v) { using U = decltype(v); U c = (U) d; switch (r.below(4)) { case 0: { P q = p + c; check(p, at, "operand of +"); p = q; cx.log("+ %lld", (long long) d); break; } case 1: p += c; cx.log("+= %lld", (long long) d); break; case 2: { auto& ref = p[c]; if ((char*) &ref != cell(to)) fail("index", "[%lld] designates byte %lld, expected %lld", (long long) d, (long long) ((char*) &ref - base), (long long) (cell(to) - base)); cx.log("[%lld]", (long long) d); P q = p; q += c; p = q; break; } default: { U m = (U) -d; if ((i64) m == -d) { if (r.coin()) p = p - m; else p -= m; } else p += c; cx.log("- %lld", (long long) -d); } } };
			switch (r.below(9))
			{
				case 0: step(int()); break;
				case 1: step(i64()); break;
				case 2: step((short) 0); break;
				case 3: step((signed char) 0); break;
				case 4: if (d >= 0) { switch (r.below(4)) { case 0: p += (unsigned) d; break; case 1: p = p + (u64) d; break; case 2: p = p + (u8) d; break; default: p += (u16) d; } cx.log("+ unsigned %lld", (long long) d); } else { switch (r.below(4)) { case 0: p -= (unsigned) -d; break; case 1: p = p - (u64) -d; break; case 2: p = p - (u8) -d; break; default: p -= (u16) -d; } cx.log("- unsigned %lld", (long long) -d); } break;
				case 5: while (at < to) { if (r.coin()) { P& q = ++p; if (&q != &p) fail("increment", "prefix"); } else { P q = p++; check(q, at, "result of postfix ++"); } ++at; check(p, at, "++"); } cx.log("++ to %lld", (long long) to); while (at > to) { if (r.coin()) { P& q = --p; if (&q != &p) fail("decrement", "prefix"); } else { P q = p--; check(q, at, "result of postfix --"); } --at; check(p, at, "--"); } break;
				case 6: { P q(cell(to), st); cx.log("compare with %lld", (long long) to); ++cx.checks; i64 df = q - p; if (df != d) fail("difference", "difference is %lld, expected %lld", (long long) df, (long long) d); if (p - q != -d || p + (q - p) != q) fail("difference", "p + (q - p) != q"); i64 bd = cell(to) - cell(at); if ((p == q) != (bd == 0) || (p != q) != (bd != 0) || (p < q) != (bd > 0) || (p > q) != (bd < 0) || (p <= q) != (bd >= 0) || (p >= q) != (bd <= 0)) fail("compare", "comparisons disagree with the addresses"); to = at; break; }
				case 7: { P q(p), s; s = q; check(q, at, "copy"); check(s, at, "assigned"); q.Reset(); VX_TRUE("null", !q && q.GetStride() == 0); q.Reset(s); check(q, at, "reset from another"); Nz::SparsePtr<const T> c = p; VX_TRUE("const", c.GetPtr() == p.GetPtr() && c.GetStride() == st && (const T*) c == (const T*) (Q*) p); cx.log("copies"); to = at; break; }
				default: { P q = P(cell(0), st), e = q + n; cx.log("walk %lld", (long long) n); i64 i = 0; for (; q < e || (sign < 0 && q > e); ++q, ++i) { if (i >= n) fail("walk", "ran past the end"); check(q, i, "walk"); } if (i != n || q != e) fail("walk", "visited %lld of %lld", (long long) i, (long long) n); to = at; }
			}
			at = to; check(p, at, "after operation");
		}
		cx.count("history");
	}
}
VX_FN("bytes", 800, 20000, history<u8, u8>)
VX_FN("words", 800, 20000, history<u32, u32>)
VX_FN("const-words", 800, 20000, history<u32, const u32>)
VX_FN("vertices", 800, 20000, history<Vtx, Vtx>)
VX_FN("const-vertices", 500, 12000, history<Vtx, const Vtx>)
VX_SUITE("base-conversion", 800, 16000)
{
	// a pointer to derived objects seen through any base designates that base's subobject, keeping the stride
	Rng& r = cx.rng; std::size_t n = 1 + r.below(20); std::vector<Both> v(n); int step = 1 + (int) r.below(3); bool back = r.coin();
	for (std::size_t i = 0; i < n; ++i) { v[i].a = (int) i; v[i].b = 1000 + (int) i; v[i].c = -(int) i; }
	std::size_t at = r.below(n); int st = (back ? -1 : 1) * step * (int) sizeof(Both); cx.log("%zu objects, start %zu, stride %d", n, at, st); cx.mix(at * 64 + n);
	Nz::SparsePtr<Both> d(&v[at], st); Nz::SparsePtr<A1> p1(d); Nz::SparsePtr<const A2> p2 = d; Nz::SparsePtr<A2> p3; p3.Reset(d);
	VX_TRUE("base", p1.GetStride() == st && p2.GetStride() == st && p3.GetStride() == st);
	for (i64 i = (i64) at; i >= 0 && i < (i64) n; i += back ? -step : step) { VX_EQ("first base", p1->a, (int) i); VX_EQ("second base", p2->b, 1000 + (int) i); VX_EQ("second base", (*p3).b, 1000 + (int) i); VX_TRUE("address", &*p2 == static_cast<A2*>(&v[(std::size_t) i])); ++p1; ++p2; p3 += 1; }
	Nz::SparsePtr<Both> z; Nz::SparsePtr<A2> z2(z); VX_TRUE("null stays null", !z2 && z2.GetPtr() == nullptr);
	auto g1 = Nz::SparsePtr(&v[0]); VX_EQ("deduced", g1.GetStride(), (int) sizeof(Both)); auto g2 = Nz::SparsePtr(&v[0], st); VX_EQ("deduced", g2.GetStride(), st);
	cx.count("conversion");
}
VX_SUITE("algorithms", 800, 16000)
{
	// sorting and searching one field of an array of structures leaves the others alone
	Rng& r = cx.rng; std::size_t n = r.below(60); std::vector<Vtx> v(n); std::vector<u32> want;
	for (std::size_t i = 0; i < n; ++i) { v[i] = make<Vtx>(i); v[i].color = (u32) r.below(r.coin() ? 10 : 100000); want.push_back(v[i].color); }
	cx.log("sort %zu colours", n); for (u32 w : want) cx.mix(w);
	Nz::SparsePtr<u32> b(n ? &v[0].color : nullptr, sizeof(Vtx)); auto e = b + n; VX_EQ("distance", (std::size_t) std::distance(b, e), n);
	u64 sum = 0; for (auto it = b; it != e; ++it) sum += *it; VX_EQ("sum", sum, std::accumulate(want.begin(), want.end(), u64(0)));
	std::sort(want.begin(), want.end()); std::sort(b, e);
	for (std::size_t i = 0; i < n; ++i) { VX_EQ("sorted", v[i].color, want[i]); VX_TRUE("neighbour field", v[i].id == (u16) i && v[i].x == (float) i); }
	u32 q = (u32) r.below(100000); VX_EQ("lower_bound", (std::size_t) (std::lower_bound(b, e, q) - b), (std::size_t) (std::lower_bound(want.begin(), want.end(), q) - want.begin()));
	std::vector<u32> out(n); std::copy(b, e, out.begin()); VX_TRUE("copy", out == want); std::reverse(b, e); for (std::size_t i = 0; i < n; ++i) VX_EQ("reversed", v[n - 1 - i].color, want[i]);
	cx.count("algorithm");
}
VX_SUITE("iterators", 800, 16000)
{
	// the iterator a strided pointer is: adapters and reordering algorithms give what they give on a plain array, move-only elements included, and touch that field only
	Rng& r = cx.rng; struct Rec { u32 before; std::unique_ptr<u32> val; u32 key; u32 after; }; std::size_t n = r.below(40);
	std::vector<Rec> v(n); std::vector<u32> want; for (std::size_t i = 0; i < n; ++i) { v[i].before = (u32) i; v[i].after = ~(u32) i; v[i].key = (u32) r.below(r.coin() ? 6 : 5000); v[i].val = std::make_unique<u32>((u32) r.below(r.coin() ? 6 : 5000)); want.push_back(*v[i].val); }
	std::vector<u32> keys; for (auto& c : v) keys.push_back(c.key);
	int st = (int) sizeof(Rec); bool back = n && r.chance(1, 3); // the array may be walked backwards, which leaves out what orders positions (comparisons follow the addresses)
	using U = std::unique_ptr<u32>; using It = Nz::SparsePtr<U>; using KIt = Nz::SparsePtr<u32>; using CIt = Nz::SparsePtr<const u32>;
	It b(n ? (void*) (back ? &v[n - 1].val : &v[0].val) : nullptr, back ? -st : st); KIt kb(n ? (void*) (back ? &v[n - 1].key : &v[0].key) : nullptr, back ? -st : st);
	if (back) { std::reverse(want.begin(), want.end()); std::reverse(keys.begin(), keys.end()); }
	It e = b + n; KIt ke = kb + n; cx.log("%zu records%s", n, back ? " backwards" : ""); for (u32 w : want) cx.mix(w); for (u32 k : keys) cx.mix(k);
	auto less = [](const U& x, const U& y) { return *x < *y; };
	for (unsigned step = 0, steps = 1 + (unsigned) r.below(5); step < steps; ++step)
	{
		unsigned op = (unsigned) r.below(12); if (back && op != 5 && op < 8) op = 8 + op % 4; std::size_t m = n ? r.below(n + 1) : 0; cx.log("op %u at %zu", op, m); cx.mix(op);
		using DK = std::vector<u32>::difference_type; u32 pivot = (u32) r.below(6);
		switch (op)
		{
			case 0: std::sort(b, e, less); std::sort(want.begin(), want.end()); break;
			case 1: std::stable_sort(b, e, less); std::stable_sort(want.begin(), want.end()); break;
			case 2: std::rotate(b, b + m, e); std::rotate(want.begin(), want.begin() + (DK) m, want.end()); break;
			case 3: { auto rb = std::make_reverse_iterator(e), re = std::make_reverse_iterator(b); std::sort(rb, re, less); std::sort(want.rbegin(), want.rend()); break; }
			case 4: { auto x = std::stable_partition(b, e, [&](const U& u) { return *u < pivot; }); auto y = std::stable_partition(want.begin(), want.end(), [&](u32 u) { return u < pivot; }); VX_EQ("partition", (i64) (x - b), (i64) (y - want.begin())); break; }
			case 5: { std::vector<U> out(std::make_move_iterator(b), std::make_move_iterator(e)); VX_EQ("moved out", out.size(), n); for (std::size_t i = 0; i < n; ++i) { VX_TRUE("moved from", b[i] == nullptr); VX_TRUE("moved out", out[i] != nullptr && *out[i] == want[i]); } std::move(out.begin(), out.end(), b); break; }
			case 6: std::make_heap(b, e, less); std::sort_heap(b, e, less); std::sort(want.begin(), want.end()); break;
			case 7: std::sort(b, b + m, less); std::sort(b + m, e, less); std::inplace_merge(b, b + m, e, less); std::sort(want.begin(), want.end()); break;
			case 8: { auto rb = std::make_reverse_iterator(ke); u32 x = (u32) r.below(100000); if (n) { rb[(std::ptrdiff_t) (n - 1 - m % n)] = x; keys[m % n] = x; *rb += 1; keys[n - 1] += 1; } break; }
			case 9: { auto rb = std::make_reverse_iterator(ke), re = std::make_reverse_iterator(kb); std::iota(rb, re, pivot); std::iota(keys.rbegin(), keys.rend(), pivot); break; }
			case 10: { auto x = std::unique(kb, ke); auto y = std::unique(keys.begin(), keys.end()); VX_EQ("unique", (i64) (x - kb), (i64) (y - keys.begin())); std::fill(x, ke, pivot); std::fill(y, keys.end(), pivot); break; }
			case 11: { CIt cb(kb), ce(ke); std::vector<u32> copy(cb, ce); VX_TRUE("copied", copy == keys); auto rb = std::make_reverse_iterator(ce), re = std::make_reverse_iterator(cb); std::vector<u32> rcopy(rb, re); VX_TRUE("reversed", std::equal(rcopy.begin(), rcopy.end(), keys.rbegin(), keys.rend())); if (n) { auto mm = std::minmax_element(cb, ce); auto wm = std::minmax_element(keys.begin(), keys.end()); VX_EQ("min", *mm.first, *wm.first); VX_EQ("max", *mm.second, *wm.second); VX_EQ("at max", (i64) (mm.second - cb), (i64) (wm.second - keys.begin())); } std::vector<u32> sums(n), wsums(n); std::partial_sum(cb, ce, sums.begin()); std::partial_sum(keys.begin(), keys.end(), wsums.begin()); VX_TRUE("partial_sum", sums == wsums); break; }
		}
		for (std::size_t i = 0; i < n; ++i) { std::size_t at = back ? n - 1 - i : i; VX_TRUE("element", v[at].val != nullptr && *v[at].val == want[i]); VX_EQ("key", v[at].key, keys[i]); VX_TRUE("neighbour field", v[at].before == (u32) at && v[at].after == ~(u32) at); }
		cx.count("algorithm step");
	}
}
VX_SUITE("far-strides", 800, 16000)
{
	// pointer arithmetic only (nothing is read): large counts and strides must not wrap in 32 bits
	Rng& r = cx.rng; int st = (int) r.value<u32>(); if (st == 0) st = 1; if (r.coin()) st %= 100000; if (st == 0) st = 7; i64 c = r.range(-3000000, 3000000); const char* b = (const char*) (std::uintptr_t(1) << 60);
	cx.log("stride %d count %lld", st, (long long) c); Nz::SparsePtr<const char> p(b, st); i64 off = c * st;
	auto addr = [](const Nz::SparsePtr<const char>& q) { return (i64) ((std::uintptr_t) q.GetPtr()); }; i64 base = (i64) (std::uintptr_t) b;
	VX_EQ("+", addr(p + c), base + off); VX_EQ("-", addr(p - c), base - off); { auto q = p; q += (int) c; VX_EQ("+=", addr(q), base + off); q -= (int) c; VX_EQ("-=", addr(q), base); }
	VX_EQ("[]", (i64) (std::uintptr_t) &p[c], base + off); if (c >= 0) { VX_EQ("unsigned", addr(p + (unsigned) c), base + off); VX_EQ("unsigned", addr(p - (unsigned) c), base - off); VX_EQ("unsigned", (i64) (std::uintptr_t) &p[(unsigned) c], base + off); auto q = p; q -= (u64) c; VX_EQ("unsigned", addr(q), base - off); }
	VX_EQ("difference", (i64) ((p + c) - p), c); cx.count("arithmetic");
}
