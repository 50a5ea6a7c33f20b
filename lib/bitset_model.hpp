// Reference model of a bit sequence and the random-history engine used by C01, C02 and C03.
#pragma once
#include "vx.hpp"
#include <NazaraUtils/Bitset.hpp>
#include <set>
#include <algorithm>
#include <sstream>
#include <vector>

namespace bm
{
	using namespace vx;
	using Model = std::vector<char>;

	inline std::string mstr(const Model& m) { std::string s(m.size(), '0'); for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) s[m.size() - 1 - i] = '1'; return s; }

	// compares every observation the public interface offers with the model
	template<class B> void check(const B& b, const Model& m, const char* who = "state")
	{
		using Block = std::decay_t<decltype(b.GetBlock(0))>;
		constexpr std::size_t W = sizeof(Block) * 8;
		++cur->checks;
		if (b.GetSize() != m.size()) fail("size", "%s: GetSize() is %zu, expected %zu", who, b.GetSize(), m.size());
		std::size_t nb = (m.size() + W - 1) / W;
		if (b.GetBlockCount() != nb) fail("block-count", "%s: GetBlockCount() is %zu, expected %zu for %zu bits", who, b.GetBlockCount(), nb, m.size());
		if (b.GetCapacity() < m.size()) fail("capacity", "%s: capacity %zu below size %zu", who, b.GetCapacity(), m.size());
		std::size_t cnt = 0;
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			cnt += m[i] ? 1 : 0;
			if (b.Test(i) != !!m[i]) fail("bit", "%s: bit %zu is %d, expected %d (size %zu)", who, i, (int) b.Test(i), (int) m[i], m.size());
		}
		for (std::size_t k = 0; k < nb; ++k)
		{
			Block want = 0;
			for (std::size_t i = 0; i < W && k * W + i < m.size(); ++i) if (m[k * W + i]) want = Block(want | (Block(1) << i));
			if (b.GetBlock(k) != want) fail("block", "%s: block %zu is %llx, expected %llx (size %zu)", who, k, (unsigned long long) b.GetBlock(k), (unsigned long long) want, m.size());
		}
		if (b.Count() != cnt) fail("count", "%s: Count() is %zu, expected %zu", who, b.Count(), cnt);
		if (b.TestAny() != (cnt != 0)) fail("test-any", "%s: TestAny() is %d with %zu bits set", who, (int) b.TestAny(), cnt);
		if (b.TestNone() != (cnt == 0)) fail("test-none", "%s: TestNone() is %d with %zu bits set", who, (int) b.TestNone(), cnt);
		if (b.TestAll() != (cnt == m.size())) fail("test-all", "%s: TestAll() is %d with %zu of %zu bits set", who, (int) b.TestAll(), cnt, m.size());
	}

	inline std::size_t nextSet(const Model& m, std::size_t from) { for (std::size_t i = from; i < m.size(); ++i) if (m[i]) return i; return std::size_t(-1); }

	// iteration with stored iterators: post-increment hands out the old position and moves on
	template<class B> void checkStoredIterators(const B& b, const Model& m)
	{
		auto tag = b.IterBits(); std::size_t want = nextSet(m, 0), steps = 0;
		for (auto it = tag.begin(); it != tag.end();)
		{
			if (++steps > m.size()) fail("iterate-postfix", "post-increment never reaches the end");
			if (*it != want) fail("iterate-postfix", "iterator is at bit %zu, expected %zd", *it, (ssize_t) want);
			std::size_t nxt = nextSet(m, want + 1);
			switch (cur->rng.below(3))
			{
				case 0: { auto old = it++; if (*old != want) fail("iterate-postfix", "post-increment returned bit %zu, expected %zu", *old, want); break; }
				case 1: { auto& self = ++it; VX_TRUE("iterate-prefix", &self == &it); break; }
				default: { auto copy = it; VX_TRUE("iterator-equal", copy == it && !(copy != it)); ++copy; VX_TRUE("iterator-differs", copy != it && !(copy == it)); it = copy; break; }
			}
			want = nxt;
		}
		if (want != std::size_t(-1)) fail("iterate-postfix", "iteration ended before bit %zu", want);
	}

	template<class B> void checkSearch(const B& b, const Model& m)
	{
		++cur->checks;
		if (b.FindFirst() != nextSet(m, 0)) fail("find-first", "FindFirst() is %zd, expected %zd", (ssize_t) b.FindFirst(), (ssize_t) nextSet(m, 0));
		for (std::size_t k = 0; k < (m.size() > 2000 ? 40 : m.size()); ++k)
			if (std::size_t i = m.size() > 2000 ? cur->rng.below(m.size()) : k; b.FindNext(i) != nextSet(m, i + 1)) fail("find-next", "FindNext(%zu) is %zd, expected %zd", i, (ssize_t) b.FindNext(i), (ssize_t) nextSet(m, i + 1));
		std::size_t want = nextSet(m, 0);
		auto tag = b.IterBits();
		std::size_t steps = 0;
		for (std::size_t i : tag)
		{
			if (i != want) fail("iterate", "iteration yields bit %zu, expected %zd", i, (ssize_t) want);
			want = nextSet(m, want + 1);
			if (++steps > m.size()) fail("iterate", "iteration yields more bits than the bitset holds");
		}
		if (want != std::size_t(-1)) fail("iterate", "iteration stopped before bit %zu", want);
		if (cur->rng.chance(1, 4)) checkStoredIterators(b, m);
		for (std::size_t i = 0; i < 3; ++i)
		{
			std::size_t p = m.size() + cur->rng.below(200);
			if (b.UnboundedTest(p)) fail("unbounded-test", "UnboundedTest(%zu) is true beyond size %zu", p, m.size());
		}
		for (std::size_t i = 0; i < m.size(); ++i)
			if (b.UnboundedTest(i) != !!m[i]) fail("unbounded-test", "UnboundedTest(%zu) is wrong", i);
		const B& cb = b;
		if (!m.empty()) { std::size_t p = cur->rng.below(m.size()); if (cb[p] != !!m[p]) fail("subscript", "operator[](%zu) const is wrong", p); }
	}

	// how many bits the container can hold at most (fixed containers)
	template<class B> struct Limits { static constexpr std::size_t maxBits = 330; };
	template<class Block, std::size_t N> struct Limits<Nz::Bitset<Block, Nz::FixedVector<Block, N>>> { static constexpr std::size_t maxBits = N * sizeof(Block) * 8 < 330 ? N * sizeof(Block) * 8 : 330; };

	// in large cases, containers that can hold it get beyond what 16-bit counters reach
	inline VX_TLS bool large = false;
	template<class B> std::size_t limitOf() { return large && Limits<B>::maxBits == 330 ? 140000 : Limits<B>::maxBits; }
	struct LargeScope { LargeScope() { large = true; } ~LargeScope() { large = false; } };

	// sizes biased to block boundaries
	template<class B> std::size_t pickSize(Rng& r, std::size_t limit = limitOf<B>())
	{
		using Block = std::decay_t<decltype(std::declval<const B&>().GetBlock(0))>;
		constexpr std::size_t W = sizeof(Block) * 8;
		std::size_t s;
		switch (r.below(large ? 6 : 4))
		{
			case 0: s = W * r.below(limit / W + 1); break;
			case 4: case 5: s = (std::size_t) (65536 * (1 + (i64) r.below(2)) + r.range(-70, 70)); break;
			case 1: { i64 v = (i64) (W * r.below(limit / W + 1)) + r.range(-2, 2); s = v < 0 ? 0 : (std::size_t) v; break; }
			case 2: s = r.below(W * 2 + 2); break;
			default: s = r.below(limit + 1); break;
		}
		return std::min(s, limit);
	}

	inline Model pickModel(Rng& r, std::size_t n)
	{
		Model m(n);
		switch (r.below(5))
		{
			case 0: break;
			case 1: for (auto& c : m) c = 1; break;
			case 2: if (n) m[r.below(n)] = 1; break;
			case 3: for (auto& c : m) c = 1; if (n) m[r.below(n)] = 0; break;
			default: for (auto& c : m) c = (char) r.below(2); break;
		}
		return m;
	}

	template<class B> B make(const Model& m, Rng& r)
	{
		switch (r.below(3))
		{
			case 0: { B b; b.Resize(m.size()); for (std::size_t i = 0; i < m.size(); ++i) if (m[i]) b.Set(i); return b; }
			case 1: { B b(m.size(), true); for (std::size_t i = 0; i < m.size(); ++i) if (!m[i]) b.Reset(i); return b; }
			default: { std::string s = mstr(m); return B(s); }
		}
	}

	inline Model shl(const Model& m, std::size_t n) { Model r(m.size()); for (std::size_t i = n; i < m.size(); ++i) r[i] = m[i - n]; return r; }
	inline Model shr(const Model& m, std::size_t n) { Model r(m.size()); if (n < m.size()) for (std::size_t i = 0; i + n < m.size(); ++i) r[i] = m[i + n]; return r; }

	// --- one mutating operation of the core family
	template<class B> void coreOp(Ctx& cx, B& b, Model& m)
	{
		Rng& r = cx.rng;
		using Block = std::decay_t<decltype(b.GetBlock(0))>;
		constexpr std::size_t W = sizeof(Block) * 8;
		const std::size_t L = limitOf<B>();
		std::size_t n = m.size();
		switch (r.below(22))
		{
			case 0: case 1: { std::size_t s = pickSize<B>(r); bool v = r.coin(); cx.log("Resize(%zu,%d) from %zu", s, v, n); b.Resize(s, v); m.resize(s, v); cx.count("Resize"); break; }
			case 2: { std::size_t s = pickSize<B>(r); cx.log("Resize(%zu)", s); b.Resize(s); m.resize(s, 0); break; }
			case 3: if (n) { std::size_t i = r.below(n); bool v = r.coin(); cx.log("Set(%zu,%d)", i, v); b.Set(i, v); m[i] = v; cx.count("Set(bit)"); } break;
			case 4: if (n) { std::size_t i = r.below(n); cx.log("Reset(%zu)", i); b.Reset(i); m[i] = 0; } break;
			case 5: { bool v = r.chance(3, 4); cx.log("Set(%d)", v); b.Set(v); std::fill(m.begin(), m.end(), (char) v); cx.count("Set(all)"); break; }
			case 6: if (r.chance(1, 3)) { cx.log("Reset()"); b.Reset(); std::fill(m.begin(), m.end(), 0); } else { cx.log("Set()"); b.Set(); std::fill(m.begin(), m.end(), 1); } break;
			case 7: { cx.log("Flip"); b.Flip(); for (auto& c : m) c = !c; cx.count("Flip"); break; }
			case 8: { cx.log("Reverse"); b.Reverse(); std::reverse(m.begin(), m.end()); cx.count("Reverse"); break; }
			case 9: case 10: { std::size_t s = r.chance(1, 3) ? W * r.below(large ? n / W + 2 : 8) : r.below(n + 12); cx.log("ShiftLeft(%zu) of %zu", s, n); if (r.coin()) b.ShiftLeft(s); else if (r.coin()) VX_TRUE("shift-returns-this", &(b <<= s) == &b); else { B c = b << s; check(b, m, "left operand of <<"); b = c; } m = shl(m, s); cx.count("ShiftLeft"); break; }
			case 11: case 12: { std::size_t s = r.chance(1, 3) ? W * r.below(large ? n / W + 2 : 8) : r.below(n + 12); cx.log("ShiftRight(%zu) of %zu", s, n); if (r.coin()) b.ShiftRight(s); else if (r.coin()) VX_TRUE("shift-returns-this", &(b >>= s) == &b); else { B c = b >> s; check(b, m, "left operand of >>"); b = std::move(c); } m = shr(m, s); cx.count("ShiftRight"); break; }
			case 13: { std::size_t i = r.below(std::min(L, n + (large ? 20000 : 70))); bool v = r.chance(3, 4); cx.log("UnboundedSet(%zu,%d) of %zu", i, v, n); b.UnboundedSet(i, v);
				if (i < n) m[i] = v;
				else if (v) { m.resize(i + 1, 0); m[i] = 1; }
				else if (b.GetSize() != n) m.resize(i + 1, 0); // clearing beyond the end may or may not enlarge
				cx.count("UnboundedSet"); break; }
			case 14: { std::size_t i = r.below(std::min(L, n + (large ? 20000 : 70))); cx.log("UnboundedReset(%zu) of %zu", i, n); b.UnboundedReset(i);
				if (i < n) m[i] = 0; else if (b.GetSize() != n) m.resize(i + 1, 0);
				break; }
			case 15: if (n) { std::size_t k = r.below((n + W - 1) / W); Block v = (Block) r.bits(W); cx.log("SetBlock(%zu,%llx) of %zu", k, (unsigned long long) v, n); b.SetBlock(k, v); for (std::size_t i = 0; i < W && k * W + i < n; ++i) m[k * W + i] = (v >> i) & 1; cx.count("SetBlock"); } break;
			case 16: case 17: if (n) // bit proxy
			{
				std::size_t i = r.below(n), j = r.below(n); bool v = r.coin(); auto bit = b[i]; unsigned o = (unsigned) r.below(11);
				cx.log("proxy[%zu] op%u %d", i, o, v); cx.count("bit proxy");
				switch (o)
				{
					case 0: bit.Flip(); m[i] = !m[i]; break;
					case 1: bit.Reset(); m[i] = 0; break;
					case 2: bit.Set(v); m[i] = v; break;
					case 3: bit = v; m[i] = v; break;
					case 4: bit |= v; m[i] = m[i] || v; break;
					case 5: bit &= v; m[i] = m[i] && v; break;
					case 6: bit ^= v; m[i] = !!m[i] != v; break;
					case 7: bit -= v; if (v) m[i] = 0; break;
					case 8: b[i] = b[j]; m[i] = m[j]; break;
					case 9: VX_EQ("proxy-test", bit.Test(), !!m[i]); VX_EQ("proxy-bool", (bool) bit, !!m[i]); break;
					default: bit.Set(); m[i] = 1; break;
				}
				if (o == 8 || o == 3) break;
				VX_EQ("proxy-view", bit.Test(), !!m[i]);
			} break;
			case 18: { cx.log("Clear"); b.Clear(); m.clear(); break; }
			case 19: { std::size_t s = r.below(L + 1); cx.log("Reserve(%zu)", s); b.Reserve(s); if (b.GetCapacity() < s) fail("reserve", "capacity %zu after Reserve(%zu)", b.GetCapacity(), s); break; }
			case 20: { Model om = pickModel(r, pickSize<B>(r)); B o = make<B>(om, r); check(o, om, "built bitset"); cx.log("swap/copy/move with %zu bits", om.size());
				switch (r.below(5))
				{
					case 0: b.Swap(o); std::swap(m, om); check(o, om, "swapped"); break;
					case 1: { using std::swap; swap(b, o); std::swap(m, om); check(o, om, "swapped"); break; }
					case 2: b = o; m = om; check(o, om, "source of copy"); break;
					case 3: b = std::move(o); m = om; break;
					default: { B c(o); B d(std::move(c)); b = d; m = om; check(d, om, "move-constructed"); break; }
				}
				cx.count("copy/move/swap"); break; }
			default: { B& self = b; cx.log("self-assign"); b = self; break; }
		}
	}

	template<class B> void coreCase(Ctx& cx)
	{
		Rng& r = cx.rng;
		Model m = pickModel(r, pickSize<B>(r));
		B b = make<B>(m, r);
		cx.log("start %s", mstr(m).substr(0, 400).c_str());
		check(b, m, "constructed");
		std::size_t n = 4 + r.below(large ? 12 : 28);
		for (std::size_t i = 0; i < n; ++i)
		{
			coreOp(cx, b, m);
			check(b, m, "after operation");
			if (r.chance(1, 4)) checkSearch(b, m);
		}
		checkSearch(b, m);
	}

	// growths that fail for lack of memory leave the bitset as it was (a bulk append may have appended the first bytes)
	template<class B> void memoryCase(Ctx& cx)
	{
		Rng& r = cx.rng; Model m = pickModel(r, r.below(120)); B b = make<B>(m, r);
		for (int k = 0; k < 12; ++k)
		{
			Model want = m; bool bulk = false; std::size_t n = m.size(), step = 0; unsigned op = (unsigned) r.below(8); Model om = pickModel(r, r.below(500)); B o = make<B>(om, r);
			u64 v = r.value<u64>(); std::vector<u8> bytes(1 + r.below(60)); for (auto& c : bytes) c = (u8) r.below(256);
			std::size_t bits = op == 3 ? r.below(90) : op == 4 ? r.below(bytes.size() * 8 + 1) : r.below(600); bool fill = r.coin(); i64 at = r.chance(1, 4) ? 1 : 0;
			switch (op)
			{
				case 0: want.resize(bits, fill); break;
				case 1: if (bits >= n) want.resize(bits + 1, 0); want[bits] = 1; break;
				case 2: break;
				case 3: for (std::size_t i = 0; i < bits; ++i) want.push_back(i < 64 ? (v >> i) & 1 : 0); break;
				case 4: for (std::size_t i = 0; i < bits; ++i) want.push_back((bytes[i / 8] >> (i % 8)) & 1); bulk = true; step = 8; break;
				case 5: for (std::size_t i = 0; i < bits % 33; ++i) want.push_back(i < 8 ? (v >> i) & 1 : 0); break;
				default: want.resize(std::max(n, om.size()), 0); for (std::size_t i = 0; i < want.size(); ++i) { char x = i < om.size() ? om[i] : 0; want[i] = op == 6 ? want[i] | x : want[i] ^ x; } break;
			}
			cx.log("operation %u with %zu bits on %zu, allocation %d failing", op, bits, n, (int) at); cx.mix(op * 1000 + bits); bool failed = false; heap.failIn = at;
			try
			{
				switch (op)
				{
					case 0: b.Resize(bits, fill); break;
					case 1: b.UnboundedSet(bits); break;
					case 2: b.Reserve(bits * 4); break;
					case 3: b.AppendBits(v, bits); break;
					case 4: b.Write(bytes.data(), bits); break;
					case 5: b.AppendBits((u8) v, bits % 33); break;
					case 6: b |= o; break;
					default: b ^= o; break;
				}
			}
			catch (const std::bad_alloc&) { failed = true; }
			heap.failIn = -1;
			if (failed) { if (bulk && b.GetSize() >= n && b.GetSize() <= want.size() && (b.GetSize() - n) % step == 0) want.resize(b.GetSize()); else want = m; }
			check(b, want, failed ? "after a growth without memory" : "grown"); check(o, om, "operand"); m = want; cx.count(failed ? "growth without memory" : "growth");
			if (r.chance(1, 3)) { std::size_t s = r.below(60); b.Resize(s); m.resize(s, 0); B t(b); b.Swap(t); check(b, m, "shrunk"); }
		}
	}

	template<class B> void largeCoreCase(Ctx& cx) { LargeScope scope; coreCase<B>(cx); cx.count("histories of large bitsets"); }

	// more bits than 32 bits can count; a sparse model
#if defined(VX_NOFILL) || defined(VX_FUZZER) || defined(VX_THREADED)
	constexpr bool hugeRuns = false; // half a gigabyte a bitset: not under memcheck, in fuzzing or in threads
#else
	constexpr bool hugeRuns = true;
#endif
	struct Sparse { std::size_t n = 0; std::set<std::size_t> on; };
	template<class B> void checkHuge(const B& b, const Sparse& m, const char* who)
	{
		++cur->checks;
		if (b.GetSize() != m.n) fail("size", "%s: size is %zu, expected %zu", who, b.GetSize(), m.n);
		std::size_t at = b.FindFirst(), k = 0;
		for (std::size_t x : m.on) { if (at != x) fail("find", "%s: set bit %zu is found at %zu, expected %zu", who, k, at, x); at = b.FindNext(at); ++k; }
		if (at != B::npos) fail("find", "%s: bit %zu is found beyond the last set bit", who, at);
		for (std::size_t x : m.on) { if (!b.Test(x)) fail("test", "%s: bit %zu is reset", who, x); std::size_t low = x & 0xFFFFFFFFu; if (b.Test(low) != (m.on.count(low) != 0)) fail("test", "%s: bit %zu", who, low); if (low + 1 < m.n && b[low + 1] != (m.on.count(low + 1) != 0)) fail("test", "%s: bit %zu", who, low + 1); }
	}
	template<class B> B makeHuge(Rng& r, Sparse& m, std::size_t n)
	{
		heap.most = u64(4) << 30;
		m.n = n; B b(n, false);
		auto on = [&](std::size_t x) { if (x >= n) return; m.on.insert(x); if (r.coin()) b.Set(x); else if (r.coin()) b[x] = true; else b.UnboundedSet(x); };
		for (int i = 0; i < 4; ++i) { on(n - 1 - r.below(300)); on(r.below(300)); on((std::size_t(1) << 32) + r.below(n - (std::size_t(1) << 32))); }
		on(n - 1); return b;
	}
	inline std::size_t hugeSize(Rng& r) { return (std::size_t(1) << 32) + 1 + r.below(r.coin() ? 200 : 100000); }
}
