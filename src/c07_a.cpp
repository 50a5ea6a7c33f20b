#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>
using namespace vx;
#ifndef PART
#define PART 0
#endif

// element types: a value v that identifies the entry, watched for corruption by neighbours
struct Byte { unsigned char v; Byte(int x) : v((unsigned char) x) {} int get() const { return v; } static int lim() { return 256; } };
struct Odd { char pad[7]; int lo() const { int x; std::memcpy(&x, pad, 4); return x; } Odd(int x) { std::memset(pad, x, 7); std::memcpy(pad, &x, 4); } int get() const { for (int i = 4; i < 7; ++i) if ((unsigned char) pad[i] != (unsigned char) lo()) return -1; return lo(); } static int lim() { return 1 << 30; } };
struct alignas(32) Wide { int v; char fill[60]; Wide(int x) : v(x) { std::memset(fill, x, sizeof fill); } int get() const { for (char c : fill) if (c != (char) v) return -1; return v; } static int lim() { return 1 << 30; } };
struct Two { int v; std::unique_ptr<int> p; Two(int a, std::unique_ptr<int> b) : v(a), p(std::move(b)) {} Two(int a) : v(a), p(new int(a)) {} int get() const { return p && *p == v ? v : -1; } static int lim() { return 1 << 30; } };

template<class T, std::size_t A> struct PoolModel
{
	using Pool = Nz::MemoryPool<T, A>;
	struct E { T* p; int v; };
	std::size_t blockSize; std::size_t blocks = 1; std::map<std::size_t, E> live;
	explicit PoolModel(std::size_t b) : blockSize(b) {}
};
template<class T, std::size_t A> void checkPool(Nz::MemoryPool<T, A>& pool, PoolModel<T, A>& m, const char* who, bool full)
{
	const auto& cp = pool;
	++cur->checks;
	if (cp.GetAllocatedEntryCount() != m.live.size() || pool.size() != m.live.size()) fail("allocated-count", "%s: %zu entries are reported allocated, %zu are", who, cp.GetAllocatedEntryCount(), m.live.size());
	if (cp.GetBlockCount() != m.blocks) fail("block-count", "%s: %zu blocks, expected %zu", who, cp.GetBlockCount(), m.blocks);
	if (cp.GetBlockSize() != m.blockSize) fail("block-size", "%s: block size %zu, expected %zu", who, cp.GetBlockSize(), m.blockSize);
	if (cp.GetFreeEntryCount() != m.blocks * m.blockSize - m.live.size()) fail("free-count", "%s: %zu free entries, expected %zu", who, cp.GetFreeEntryCount(), m.blocks * m.blockSize - m.live.size());
	if (!full) return;
	for (auto& [i, e] : m.live)
	{
		if (pool.RetrieveFromIndex(i) != e.p || cp.RetrieveFromIndex(i) != e.p) fail("address", "%s: entry %zu moved", who, i);
		std::size_t back = pool.RetrieveEntryIndex(e.p);
		if (back != i) fail("index-of", "%s: entry %zu at its address is reported to be %zu", who, i, back);
		if (e.p->get() != e.v) fail("content", "%s: entry %zu holds %d, expected %d", who, i, e.p->get(), e.v);
	}
	auto walk = [&](auto b, auto e, const char* how, bool postfix)
	{
		std::set<std::size_t> seen; std::size_t n = 0;
		for (auto it = b; it != e;)
		{
			if (it == e) fail("iterate", "%s: == and != disagree (%s)", who, how);
			if (++n > m.live.size()) fail("iterate", "%s: %s visits more than the %zu entries", who, how, m.live.size());
			std::size_t i = it.GetIndex(); auto f = m.live.find(i);
			if (f == m.live.end() || !seen.insert(i).second) fail("iterate", "%s: %s visits %s entry %zu", who, how, f == m.live.end() ? "the unallocated" : "twice the", i);
			if (&*it != f->second.p) fail("iterate", "%s: %s gives another address for entry %zu", who, how, i);
			if (postfix) { auto old = it++; if (old.GetIndex() != i || old == it) fail("iterate", "%s: postfix increment of %s", who, how); }
			else { auto& r = ++it; if (&r != &it) fail("iterate", "%s: prefix increment of %s", who, how); }
		}
		if (n != m.live.size()) fail("iterate", "%s: %s visits %zu of %zu entries", who, how, n, m.live.size());
	};
	walk(pool.begin(), pool.end(), "begin()", false);
	walk(cp.begin(), cp.end(), "begin() const", true);
	walk(pool.cbegin(), pool.cend(), "cbegin()", cur->rng.coin());
	if constexpr (sizeof(typename Nz::MemoryPool<T, A>::iterator) > 0) { std::size_t n = 0; for (T& t : pool) { (void) t; ++n; } for (const T& t : cp) { (void) t; ++n; } if (n != 2 * m.live.size()) fail("iterate", "%s: range-for visits %zu", who, n); }
}
template<class T, std::size_t A> void noteAlloc(PoolModel<T, A>& m, std::size_t idx, T* p, int v)
{
	if (idx == Nz::MemoryPool<T, A>::InvalidIndex) fail("alloc-index", "allocation returned the invalid index");
	if (m.live.count(idx)) fail("alloc-index", "allocation returned index %zu which is in use", idx);
	if ((std::uintptr_t) p % A || (std::uintptr_t) p % alignof(T)) fail("alignment", "entry %zu at %p is not aligned on %zu", idx, (void*) p, A);
	for (auto& [i, e] : m.live)
		if ((char*) p < (char*) e.p + sizeof(T) && (char*) e.p < (char*) p + sizeof(T)) fail("overlap", "entry %zu overlaps entry %zu", idx, i);
	if (m.live.size() == m.blocks * m.blockSize) { ++m.blocks; cur->count("block added"); }
	m.live[idx] = { p, v };
}
template<class T, std::size_t A> void poolCase(Ctx& cx)
{
	Rng& r = cx.rng;
	using Pool = Nz::MemoryPool<T, A>;
	static const std::size_t sizes[] = { 1, 1, 2, 3, 4, 7, 8, 16, 63, 64, 65, 128, 130 };
	std::size_t bs = sizes[r.below(sizeof sizes / sizeof *sizes)];
	cx.log("pool of blocks of %zu", bs); cx.mix(bs);
	auto pool = std::make_optional<Pool>(bs); PoolModel<T, A> m(bs);
	checkPool(*pool, m, "new pool", true);
	int next = 1; std::size_t steps = 8 + r.below(60); unsigned grow = 2 + (unsigned) r.below(7);
	auto alloc = [&]
	{
		int v = next++ % T::lim(); std::size_t idx = 12345; T* p;
		switch (r.below(3))
		{
			case 0: p = pool->Allocate(Pool::DeferConstruct, idx); cx.log("Allocate(defer) -> %zu", idx); new (p) T(v); break;
			default: p = pool->Allocate(idx, v); cx.log("Allocate(%d) -> %zu", v, idx); break;
			case 1: if constexpr (std::is_same_v<T, Two>) { auto up = std::make_unique<int>(v); p = pool->Allocate(idx, v, std::move(up)); if (up) fail("forward", "Allocate did not forward its argument"); } else p = pool->Allocate(idx, T(v)); cx.log("Allocate(move) -> %zu", idx); break;
		}
		noteAlloc(m, idx, p, v); cx.mix(idx); cx.count("allocation");
	};
	auto pick = [&] { auto it = m.live.begin(); std::advance(it, r.below(m.live.size())); return it; };
	for (std::size_t s = 0; s < steps; ++s)
	{
		switch (r.below(15))
		{
			case 13: if (!m.live.empty()) // a whole range of entries goes, whatever is left stands far apart
				{
					std::size_t last = m.live.rbegin()->first, a = (std::size_t) r.below(last + 1), b = r.coin() ? last : (std::size_t) (a + r.below(last - a + 1)); cx.log("free every entry from %zu to %zu", a, b);
					for (auto it = m.live.lower_bound(a); it != m.live.end() && it->first < b; it = m.live.erase(it)) { pool->Free(it->first); cx.count("free"); }
					checkPool(*pool, m, "after freeing a range", true);
				} break;
			case 0: case 1: case 2: case 3: case 4:
				for (unsigned k = 1 + (unsigned) r.below(grow); k--;) alloc();
				break;
			case 5: case 6: case 7:
				for (unsigned k = 1 + (unsigned) r.below(4); k-- && !m.live.empty();)
				{
					auto it = pick();
					if (r.chance(1, 4)) { cx.log("destroy + Free(%zu, NoDestruction)", it->first); it->second.p->~T(); pool->Free(it->first, Pool::NoDestruction); }
					else { cx.log("Free(%zu)", it->first); pool->Free(it->first); }
					cx.mix(it->first); m.live.erase(it); cx.count("free");
				}
				break;
			case 8: if (r.chance(1, 3)) { cx.log("fill up"); while (m.live.size() < m.blocks * m.blockSize) alloc(); } break;
			case 9: if (r.chance(1, 3)) { cx.log("Reset"); pool->Reset(); m.live.clear(); cx.count("reset"); } break;
			case 10: if (r.chance(1, 4)) { cx.log("Clear"); pool->Clear(); m.live.clear(); m.blocks = 0; cx.count("clear"); } break;
			case 11: if (r.chance(1, 2))
				{
					cx.log("move-construct"); Pool other(std::move(*pool)); checkPool(other, m, "move-constructed pool", true);
					PoolModel<T, A> em(bs); em.blocks = 0;
					if (r.coin()) { checkPool(*pool, em, "moved-from pool", true); }
					std::size_t idx; T* p = pool->Allocate(idx, 3); noteAlloc(em, idx, p, 3); checkPool(*pool, em, "moved-from pool reused", true);
					pool.reset(); pool.emplace(std::move(other)); cx.count("move construction");
				} break;
			case 12: if (r.chance(1, 2))
				{
					std::size_t obs = 1 + r.below(9); cx.log("move-assign over a pool of blocks of %zu", obs);
					Pool other(obs); PoolModel<T, A> om(obs);
					for (unsigned k = (unsigned) r.below(20); k--;) { std::size_t idx; T* p = other.Allocate(idx, 5); noteAlloc(om, idx, p, 5); }
					if (r.coin()) { other = std::move(*pool); checkPool(other, m, "move-assigned pool", true); if (pool->GetAllocatedEntryCount() != 0) fail("moved-from", "a moved-from pool still has entries"); if (pool->begin() != pool->end()) fail("moved-from", "a moved-from pool iterates"); pool.emplace(std::move(other)); }
					else { *pool = std::move(other); m.live.clear(); m.blockSize = obs; bs = obs; m.blocks = om.blocks; for (auto& e : om.live) m.live.insert(e); }
					cx.count("move assignment");
				} break;
			default:
			{
				Pool foreign(2); std::size_t fi; T* fp = foreign.Allocate(fi, 1); alignas(T) static char out[sizeof(T)];
				if (pool->RetrieveEntryIndex(fp) != Pool::InvalidIndex || pool->RetrieveEntryIndex((const T*) out) != Pool::InvalidIndex) fail("foreign", "an object outside of the pool got an index");
				cx.log("foreign pointer"); break;
			}
		}
		checkPool(*pool, m, "after operation", m.live.size() < 40 || r.chance(1, 6));
	}
	checkPool(*pool, m, "at the end", true);
}
// more entries, and larger blocks, than 16-bit counters reach
static void largePool(Ctx& cx)
{
	Rng& r = cx.rng; static const std::size_t sizes[] = { 255, 257, 300, 4096, 65535, 65536, 70000, 100000 };
	std::size_t bs = sizes[cx.index % 8], n = 65536 + (std::size_t) r.range(-300, 6000); cx.log("%zu entries in blocks of %zu", n, bs); cx.mix(n);
	Nz::MemoryPool<u32> pool(bs); struct E { std::size_t idx; u32* p; u32 v; bool on; }; std::vector<E> all; std::vector<int> owner; u32 next = 1;
	auto alloc = [&](E& e) { e.v = next++; e.p = pool.Allocate(e.idx, e.v); e.on = true; };
	auto verify = [&](const char* when)
	{
		std::size_t live = 0; owner.assign((all.size() / bs + 2) * bs, -1);
		for (std::size_t i = 0; i < all.size(); ++i) if (E& e = all[i]; e.on)
		{
			++live; if (e.idx >= owner.size() || owner[e.idx] != -1) fail("alloc-index", "%s: index %zu given to two entries or out of range", when, e.idx);
			owner[e.idx] = (int) i; if (*e.p != e.v || pool.RetrieveFromIndex(e.idx) != e.p) fail("content", "%s: entry %zu changed or moved", when, e.idx);
			if (i % 64 == 0 && pool.RetrieveEntryIndex(e.p) != e.idx) fail("index-of", "%s: entry %zu has index %zu", when, e.idx, pool.RetrieveEntryIndex(e.p));
		}
		if (pool.size() != live || pool.GetAllocatedEntryCount() != live) fail("allocated-count", "%s: %zu entries reported, %zu are allocated", when, pool.size(), live);
		if (pool.GetFreeEntryCount() != pool.GetBlockCount() * bs - live) fail("free-count", "%s: %zu free entries reported", when, pool.GetFreeEntryCount());
		std::size_t seen = 0; for (auto it = pool.begin(); it != pool.end(); ++it, ++seen) { if (seen >= live) fail("iterate", "%s: more entries visited than allocated", when); std::size_t k = it.GetIndex(); if (k >= owner.size() || owner[k] < 0) fail("iterate", "%s: entry %zu visited twice or free", when, k); if (&*it != all[(std::size_t) owner[k]].p) fail("iterate", "%s: wrong address for entry %zu", when, k); owner[k] = -2; }
		if (seen != live) fail("iterate", "%s: %zu of %zu entries visited", when, seen, live);
		cur->checks += live; cx.count("entries verified", live);
	};
	all.resize(n); for (E& e : all) alloc(e); verify("filled");
	std::size_t blocks = pool.GetBlockCount(); VX_EQ("block-count", blocks, (n + bs - 1) / bs);
	for (E& e : all) if (r.chance(1, 3)) { pool.Free(e.idx); e.on = false; } verify("a third freed");
	for (E& e : all) if (!e.on && r.coin()) alloc(e); verify("some allocated again"); VX_EQ("block-count", pool.GetBlockCount(), blocks);
	Nz::MemoryPool<u32> other(std::move(pool)); pool = std::move(other); verify("moved there and back");
	pool.Reset(); for (E& e : all) e.on = false; verify("reset"); for (E& e : all) alloc(e); verify("filled again"); VX_EQ("block-count", pool.GetBlockCount(), blocks);
}
#if PART == 0
VX_FN("large", 8, 60, largePool)
#endif
#define S(name, q, ...) VX_FN(name, q, q * 25, __VA_ARGS__)
#if PART == 0
S("int-like-byte", 500, poolCase<Byte, 1>)
S("odd-size", 500, poolCase<Odd, 1>)
S("owning", 400, poolCase<Two, alignof(Two)>)
#else
S("byte-over-aligned-16", 500, poolCase<Byte, 16>)
S("odd-over-aligned-8", 500, poolCase<Odd, 8>)
S("odd-over-aligned-64", 300, poolCase<Odd, 64>)
S("wide-32", 400, poolCase<Wide, 32>)
S("wide-in-128", 300, poolCase<Wide, 128>)
S("owning-over-aligned-32", 300, poolCase<Two, 32>)
#endif
