#include "bitset_model.hpp"
using namespace bm;
VX_SUITE_FN("core-u16-vector", coreCase<Nz::Bitset<Nz::UInt16>>, 2000, 40000);
VX_SUITE_FN("core-large-u64", largeCoreCase<Nz::Bitset<Nz::UInt64>>, 30, 300);
VX_SUITE_FN("core-u32-vector", coreCase<Nz::Bitset<Nz::UInt32>>, 3000, 60000);
VX_SUITE_FN("core-u64-fixed", coreCase<Nz::FixedBitset<Nz::UInt64 VX_COMMA 40>>, 2000, 40000);
VX_SUITE_FN("core-u8-hybrid", coreCase<Nz::HybridBitset<Nz::UInt8 VX_COMMA 64>>, 2000, 40000);

// every size up to two blocks and a bit, every shift amount, three fills: the boundary grid is enumerated
template<class B> static void grid(Ctx& cx)
{
	std::size_t n = (std::size_t) cx.index;
	for (int fill = 0; fill < 3; ++fill)
	{
		Model m(n); for (std::size_t i = 0; i < n; ++i) m[i] = fill == 0 ? 1 : fill == 1 ? (char) (i * i % 3 == 1) : (char) (i % 5 == 0);
		cx.log("grid n=%zu fill=%d", n, fill);
		for (std::size_t s = 0; s <= n + 3; ++s)
		{
			B b = make<B>(m, cx.rng); b.ShiftLeft(s); check(b, shl(m, s), "left shift");
			B c = make<B>(m, cx.rng); c.ShiftRight(s); check(c, shr(m, s), "right shift");
			B d = make<B>(m, cx.rng); d.Resize(s, true); Model dm = m; dm.resize(s, 1); check(d, dm, "resize true");
			B e = make<B>(m, cx.rng); e.Resize(s, false); e.Resize(n, true); Model em = m; em.resize(s, 0); em.resize(n, 1); check(e, em, "resize down and up");
			cx.count("grid points", 4);
		}
		B f = make<B>(m, cx.rng); f.Flip(); Model fm = m; for (auto& c : fm) c = !c; check(f, fm, "flip"); checkSearch(f, fm);
		f.Reverse(); std::reverse(fm.begin(), fm.end()); check(f, fm, "reverse"); checkSearch(f, fm);
	}
}
static void grid8(Ctx& cx) { grid<Nz::Bitset<Nz::UInt8>>(cx); }
static void grid32(Ctx& cx) { grid<Nz::Bitset<Nz::UInt32>>(cx); }
static void grid64(Ctx& cx) { grid<Nz::Bitset<Nz::UInt64>>(cx); }
static vx::Suite s1("grid-u8", grid8, 28, 60, vx::Enumerates);
static vx::Suite s2("grid-u32", grid32, 72, 140, vx::Enumerates);
static vx::Suite s3("grid-u64", grid64, 134, 264, vx::Enumerates);

// element access, growth and search beyond 2^32 bits
template<class B> static void hugeCore(Ctx& cx)
{
	if constexpr (!hugeRuns) return;
	Rng& r = cx.rng; Sparse m; B b = makeHuge<B>(r, m, hugeSize(r)); cx.log("bitset of %zu bits", m.n); cx.mix(m.n); checkHuge(b, m, "set"); VX_EQ("count", b.Count(), m.on.size()); VX_EQ("blocks", b.GetBlockCount(), (m.n + B::bitsPerBlock - 1) / B::bitsPerBlock);
	std::size_t x = *m.on.rbegin(); b.Reset(x); m.on.erase(x); VX_TRUE("reset", !b.Test(x)); b[x].Flip(); VX_TRUE("flip", b.Test(x)); b[x] = false; VX_TRUE("unbounded", !b.UnboundedTest(x) && !b.UnboundedTest(m.n + 5));
	b.UnboundedSet(m.n + 700); m.on.insert(m.n + 700); m.n += 701; checkHuge(b, m, "grown by a bit"); b.Resize(m.n + 30, true); for (int i = 0; i < 30; ++i) m.on.insert(m.n + i); m.n += 30; checkHuge(b, m, "grown");
	b.SetBlock(m.n / B::bitsPerBlock - 1, 1); { std::size_t lo = (m.n / B::bitsPerBlock - 1) * B::bitsPerBlock; m.on.erase(m.on.lower_bound(lo), m.on.lower_bound(lo + B::bitsPerBlock)); m.on.insert(lo); } checkHuge(b, m, "block written");
	std::size_t s = (std::size_t(1) << 32) + r.below(64); b.Resize(s); m.on.erase(m.on.lower_bound(s), m.on.end()); m.n = s; checkHuge(b, m, "shrunk"); b.Resize(77); m.on.erase(m.on.lower_bound(77), m.on.end()); m.n = 77; checkHuge(b, m, "shrunk far");
	cx.count("bitsets of more than 2^32 bits");
}
static void hugeCases(Ctx& cx) { if (cx.index % 2) hugeCore<Nz::Bitset<Nz::UInt32>>(cx); else hugeCore<Nz::Bitset<Nz::UInt64>>(cx); }
static vx::Suite s4("huge", hugeCases, 1, 2, vx::Enumerates);
