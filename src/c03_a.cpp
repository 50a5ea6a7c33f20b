#include "bitset_model.hpp"
using namespace bm;

static int cmpModel(const Model& a, const Model& b) // as binary numbers
{
	for (std::size_t i = std::max(a.size(), b.size()); i-- > 0;)
	{
		int x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
		if (x != y) return x < y ? -1 : 1;
	}
	return 0;
}
static Model zip(const Model& a, const Model& b, int op)
{
	Model r(std::max(a.size(), b.size()));
	for (std::size_t i = 0; i < r.size(); ++i)
	{
		int x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0;
		r[i] = (char) (op == 0 ? x & y : op == 1 ? x | y : x ^ y);
	}
	return r;
}
template<class B> static void relate(Ctx& cx, const B& a, const Model& ma, const B& b, const Model& mb)
{
	int c = cmpModel(ma, mb);
	cx.log("compare %zu with %zu bits (%d)", ma.size(), mb.size(), c);
	if ((a == b) != (c == 0)) fail("equal", "== is %d for %s and %s", (int) (a == b), mstr(ma).c_str(), mstr(mb).c_str());
	if ((a != b) != (c != 0)) fail("not-equal", "!= is %d for %s and %s", (int) (a != b), mstr(ma).c_str(), mstr(mb).c_str());
	if ((a < b) != (c < 0)) fail("less", "< is %d for %s and %s", (int) (a < b), mstr(ma).c_str(), mstr(mb).c_str());
	if ((a <= b) != (c <= 0)) fail("less-equal", "<= is %d for %s and %s", (int) (a <= b), mstr(ma).c_str(), mstr(mb).c_str());
	if ((a > b) != (c > 0)) fail("greater", "> is %d for %s and %s", (int) (a > b), mstr(ma).c_str(), mstr(mb).c_str());
	if ((a >= b) != (c >= 0)) fail("greater-equal", ">= is %d for %s and %s", (int) (a >= b), mstr(ma).c_str(), mstr(mb).c_str());
	bool inter = false; for (std::size_t i = 0; i < std::min(ma.size(), mb.size()); ++i) inter |= ma[i] && mb[i];
	if (a.Intersects(b) != inter) fail("intersects", "Intersects is %d for %s and %s", (int) a.Intersects(b), mstr(ma).c_str(), mstr(mb).c_str());
	cur->checks += 7; cx.count("comparison"); cx.count(c == 0 ? "equal pair" : "ordered pair"); if (ma.size() != mb.size()) cx.count("pair of different sizes");
}
template<class B> static Model pickBuilt(Ctx& cx, B& b)
{
	// operands with a history: extra bits left behind by an operation would show in relations
	Model m = pickModel(cx.rng, pickSize<B>(cx.rng)); b = make<B>(m, cx.rng);
	for (std::size_t k = cx.rng.below(4); k-- > 0;) coreOp(cx, b, m);
	return m;
}
template<class B> static void relCase(Ctx& cx)
{
	Rng& r = cx.rng;
	B a, b, c; Model ma = pickBuilt(cx, a), mb, mc;
	switch (r.below(4))
	{
		case 0: mb = ma; mb.resize(std::min(limitOf<B>(), mb.size() + r.below(80)), 0); b = make<B>(mb, r); break; // equal or extended
		case 1: mb = ma; if (!mb.empty()) { std::size_t k = r.below(mb.size()); mb[k] = !mb[k]; } b = make<B>(mb, r); break; // differs in one bit
		case 2: mb = ma; if (mb.size() > 1) { std::swap(mb[r.below(mb.size())], mb[r.below(mb.size())]); } b = make<B>(mb, r); break;
		default: mb = pickBuilt(cx, b); break;
	}
	relate(cx, a, ma, b, mb); relate(cx, b, mb, a, ma); relate(cx, a, ma, a, ma);
	for (int op = 0; op < 3; ++op)
	{
		Model want = zip(ma, mb, op);
		cx.log("op%d of %zu and %zu bits", op, ma.size(), mb.size());
		B res = op == 0 ? a & b : op == 1 ? a | b : a ^ b; check(res, want, "binary operator"); checkSearch(res, want);
		check(a, ma, "left operand"); check(b, mb, "right operand");
		B x = a; B& ref = op == 0 ? x &= b : op == 1 ? x |= b : x ^= b; VX_TRUE("compound-returns-this", &ref == &x); check(x, want, "compound operator");
		B y; mc = pickBuilt(cx, y); if (op == 0) y.PerformsAND(a, b); else if (op == 1) y.PerformsOR(a, b); else y.PerformsXOR(a, b); check(y, want, "Performs");
		B z = b; if (op == 0) z.PerformsAND(a, z); else if (op == 1) z.PerformsOR(a, z); else z.PerformsXOR(a, z); check(z, want, "destination is the right operand");
		B w = a; B& wr = op == 0 ? w &= w : op == 1 ? w |= w : w ^= w; check(wr, zip(ma, ma, op), "same operand twice");
		cx.count("bitwise", 5);
	}
	B n = ~a; Model mn = ma; for (auto& ch : mn) ch = !ch; check(n, mn, "complement"); B n2 = a; n2.PerformsNOT(n2); check(n2, mn, "complement in place"); B n3 = b; n3.PerformsNOT(a); check(n3, mn, "complement into another");
	relate(cx, n, mn, a, ma);
	checkStoredIterators(a, ma); cx.count("iterator walk");
	// ordering is a strict weak order consistent with a third operand
	mc = pickBuilt(cx, c); relate(cx, c, mc, a, ma); relate(cx, b, mb, c, mc);
	if (a < b && b < c) VX_TRUE("transitive", a < c);
}
template<class B> static void largeRelCase(Ctx& cx) { LargeScope scope; relCase<B>(cx); cx.count("large operands"); }
#ifndef PART
VX_SUITE_FN("rel-large-u8", largeRelCase<Nz::Bitset<Nz::UInt8>>, 20, 150);
VX_SUITE_FN("rel-u8", relCase<Nz::Bitset<Nz::UInt8>>, 1500, 30000);
VX_SUITE_FN("rel-u32", relCase<Nz::Bitset<Nz::UInt32>>, 1500, 30000);
VX_SUITE_FN("rel-u16-hybrid", relCase<Nz::HybridBitset<Nz::UInt16 VX_COMMA 32>>, 1000, 20000);
#else
static void hugeRel(Ctx& cx)
{
	// operators beyond 2^32 bits
	if constexpr (!hugeRuns) return;
	using B = Nz::Bitset<Nz::UInt64>; Rng& r = cx.rng; Sparse m; B b = makeHuge<B>(r, m, hugeSize(r)); cx.log("bitset of %zu bits", m.n); cx.mix(m.n);
	std::size_t x = *m.on.rbegin(); B s(100, true); VX_TRUE("equality", b == b && !(b == s) && b != s && (s < b) && b > s);
	s |= b; Sparse w = m; for (std::size_t i = 0; i < 100; ++i) w.on.insert(i); checkHuge(s, w, "or"); VX_TRUE("intersects", s.Intersects(b)); s ^= b; w.on.clear(); for (std::size_t i = 0; i < 100; ++i) if (!m.on.count(i)) w.on.insert(i); checkHuge(s, w, "xor");
	VX_TRUE("intersects", !s.Intersects(b)); s.Set(x); VX_TRUE("intersects", s.Intersects(b)); s &= b; w.on.clear(); w.on.insert(x); checkHuge(s, w, "and"); VX_TRUE("inequality", s < b && !(b < s) && s != b);
	VX_TRUE("tests", s.TestAny() && !s.TestAll() && !s.TestNone()); s.Reset(x); VX_TRUE("tests", !s.TestAny() && s.TestNone()); s.PerformsNOT(s); VX_TRUE("tests", s.TestAll()); VX_EQ("count", s.Count(), m.n); cx.count("bitsets of more than 2^32 bits");
}
static vx::Suite s4("huge", hugeRel, 1, 2, vx::Enumerates);
VX_SUITE_FN("rel-large-u64", largeRelCase<Nz::Bitset<Nz::UInt64>>, 20, 150);
VX_SUITE_FN("rel-u16", relCase<Nz::Bitset<Nz::UInt16>>, 1500, 30000);
VX_SUITE_FN("rel-u64", relCase<Nz::Bitset<Nz::UInt64>>, 1500, 30000);
VX_SUITE_FN("rel-u32-fixed", relCase<Nz::FixedBitset<Nz::UInt32 VX_COMMA 80>>, 1000, 20000);
#endif
