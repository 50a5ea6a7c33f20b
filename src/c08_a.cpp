#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/MemoryPool.hpp>
#include <map>
#include <optional>
#include <vector>
using namespace vx;
#ifndef PART
#define PART 0
#endif
#if PART == 0
// every entry is constructed once, destroyed once; construction and allocation failures change nothing
template<class T, std::size_t A> struct Lives
{
	using Pool = Nz::MemoryPool<T, A>;
	struct E { T* p; int v; };
	std::map<std::size_t, E> live; std::size_t blocks = 1;
	void check(Pool& pool, u64 before, const char* who)
	{
		++cur->checks;
		if (pool.GetAllocatedEntryCount() != live.size()) fail("count", "%s: %zu entries reported, %zu expected", who, pool.GetAllocatedEntryCount(), live.size());
		if (life.live - before != live.size()) fail("live", "%s: %llu live objects for %zu entries", who, (unsigned long long) (life.live - before), live.size());
		if (pool.GetBlockCount() != blocks) fail("blocks", "%s: %zu blocks, expected %zu", who, pool.GetBlockCount(), blocks);
		if (pool.GetFreeEntryCount() != blocks * pool.GetBlockSize() - live.size()) fail("count", "%s: free count %zu", who, pool.GetFreeEntryCount());
		for (auto& [i, e] : live) { if (pool.RetrieveFromIndex(i) != e.p) fail("address", "%s: entry %zu moved", who, i); if (val(*e.p) != e.v) fail("content", "%s: entry %zu is %d, expected %d", who, i, val(*e.p), e.v); }
		std::size_t n = 0; for (T& t : pool) { (void) val(t); if (++n > live.size()) break; }
		if (n != live.size()) fail("iterate", "%s: iteration visits %zu of %zu entries", who, n, live.size());
	}
};
template<class T, std::size_t A> void lifeCase(Ctx& cx)
{
	LifeScope scope; Rng& r = cx.rng;
	using Pool = Nz::MemoryPool<T, A>;
	static const std::size_t sizes[] = { 1, 2, 3, 5, 8, 64, 70 };
	std::size_t bs = sizes[r.below(7)]; cx.log("blocks of %zu", bs); cx.mix(bs);
	Lives<T, A> m; int next = 1;
	{
		auto pool = std::make_optional<Pool>(bs);
		std::size_t steps = 10 + r.below(50);
		for (std::size_t s = 0; s < steps; ++s)
		{
			switch (r.below(16))
			{
				case 0: case 1: case 2: case 3: case 4:
				{
					int v = next++; std::size_t idx = 77; bool full = m.live.size() == m.blocks * pool->GetBlockSize();
					T* p;
					switch (r.below(3))
					{
						case 0: p = pool->Allocate(idx, v); break;
						case 1: v = v * 1000 + 5; p = pool->Allocate(idx, v / 1000, 5); break;
						default: p = pool->Allocate(Pool::DeferConstruct, idx); if (life.live - scope.before != m.live.size()) fail("defer", "deferred allocation constructed the object"); ::new ((void*) p) T(v); break;
					}
					cx.log("Allocate(%d) -> %zu", v, idx); if (full) ++m.blocks;
					if (m.live.count(idx)) fail("alloc-index", "index %zu is already in use", idx);
					m.live[idx] = { p, v }; cx.mix(idx); cx.count("allocation"); break;
				}
				case 5: // the constructor throws
				{
					int v = next++; std::size_t idx; bool full = m.live.size() == m.blocks * pool->GetBlockSize(), threw = false;
					cx.log("Allocate with a throwing constructor"); life.arm(0);
					try { pool->Allocate(idx, v); } catch (const Boom&) { threw = true; }
					life.disarm(); VX_TRUE("propagate", threw); cx.count("constructor failure");
					if (full && pool->GetBlockCount() == m.blocks + 1) ++m.blocks; // the block may have been added
					break;
				}
				case 6: case 7: // the memory of a new block cannot be had
				{
					int v = next++; std::size_t idx = 77; T* p = nullptr; std::size_t k = r.below(7); bool full = m.live.size() == m.blocks * pool->GetBlockSize();
					cx.log("Allocate with failing allocation %zu", k); heap.failIn = (i64) k;
					try { p = pool->Allocate(idx, v); } catch (const std::bad_alloc&) {}
					bool fired = heap.failIn < 0; heap.failIn = -1;
					if (p) { if (full) ++m.blocks; m.live[idx] = { p, v }; }
					else { if (!fired) fail("bad-alloc", "allocation failed without reason"); if (!full) fail("bad-alloc", "allocated memory while an entry was free"); cx.count("allocation failure"); }
					break;
				}
				case 8: case 9: case 10:
					if (!m.live.empty())
					{
						auto it = m.live.begin(); std::advance(it, r.below(m.live.size())); cx.log("Free(%zu)", it->first);
						if (r.chance(1, 4)) { u64 d = life.dtor; pool->Free(it->first, Pool::NoDestruction); if (life.dtor != d) fail("no-destruction", "Free(NoDestruction) destroyed the object"); if (val(*it->second.p) != it->second.v) fail("no-destruction", "the object changed"); it->second.p->~T(); }
						else pool->Free(it->first);
						m.live.erase(it); cx.count("free");
					} break;
				case 11: if (r.chance(1, 3)) { cx.log("Reset"); pool->Reset(); m.live.clear(); cx.count("reset"); } break;
				case 12: if (r.chance(1, 4))
					{
						cx.log("Clear"); pool->Clear(); m.live.clear(); m.blocks = 0; cx.count("clear");
						if (heap.live == 0) {} // memory release itself is decided by the heap balance below
					} break;
				case 13: { cx.log("move"); Pool o(std::move(*pool)); m.check(o, scope.before, "moved pool"); pool.reset(); m.check(o, scope.before, "after the source's destruction"); pool.emplace(std::move(o)); cx.count("move construction"); break; }
				case 14: { cx.log("move-assign over a non-empty pool"); Pool o(1 + r.below(5)); for (std::size_t k = r.below(12); k--;) { std::size_t i; o.Allocate(i, 9); } o = std::move(*pool); m.check(o, scope.before, "move-assigned pool"); pool.reset(); m.check(o, scope.before, "after the source's destruction"); pool.emplace(2); { std::size_t i; pool->Allocate(i, 4); pool->Allocate(i, 5); pool->Allocate(i, 6); } *pool = std::move(o); cx.count("move assignment"); break; }
				default:
				{
					// whole-pool scope: memory comes back on Clear and on destruction
					u64 h = heap.live, l = life.live; cx.log("temporary pool");
					{ Pool o(1 + r.below(70)); std::size_t i; for (std::size_t k = r.below(150); k--;) o.Allocate(i, 1); if (r.coin()) { o.Clear(); if (heap.live - h > 1) fail("clear-memory", "Clear kept %llu memory blocks", (unsigned long long) (heap.live - h)); if (life.live != l) fail("clear-live", "Clear left live objects"); if (r.coin()) o.Allocate(i, 2); } }
					if (heap.live != h) fail("pool-memory", "%lld memory block(s) of a destroyed pool remain", (long long) (heap.live - h)); if (life.live != l) fail("pool-live", "live objects remain");
				}
			}
			m.check(*pool, scope.before, "after operation");
		}
	}
	if (life.live != scope.before) fail("pool-live", "destroying the pool left live objects");
}
#define S(name, q, ...) VX_FN(name, q, q * 25, __VA_ARGS__)
S("full", 500, lifeCase<Tracked<0>, alignof(Tracked<0>)>)
S("moveonly-over-aligned", 400, lifeCase<Tracked<1>, 64>)
S("final", 250, lifeCase<ZFinal, alignof(ZFinal)>)
S("polymorphic", 250, lifeCase<ZPoly, 32>)
S("big", 200, lifeCase<ZBig, alignof(ZBig)>)
S("explicit", 250, lifeCase<ZExplicit, alignof(ZExplicit)>)
S("operators", 250, lifeCase<ZOps, alignof(ZOps)>)
S("immovable", 250, lifeCase<ZFixed, alignof(ZFixed)>)
S("copyonly", 300, lifeCase<Tracked<2>, alignof(Tracked<2>)>)

#else
// objects whose constructor and destructor use the pool they live in
struct Node; static VX_TLS Nz::MemoryPool<Node, 8>* thePool; static VX_TLS std::map<std::size_t, Node*>* reg; static VX_TLS u64 built, destroyed;
struct Node
{
	u32 magic; int v; std::vector<std::size_t> kids; std::size_t* self;
	Node(int value, int depth, int width, i64* boom) : magic(0xA11CE), v(value), self(new std::size_t(0))
	{
		++built;
		try
		{
			for (int i = 0; i < (depth > 0 ? width : 0); ++i)
			{
				if (boom && (*boom)-- == 0) throw Boom{};
				std::size_t idx; Node* n = thePool->Allocate(idx, value * 10 + i, depth - 1, width, boom);
				if (n->magic != 0xA11CE || thePool->RetrieveFromIndex(idx) != n) fail("nested-alloc", "a nested allocation returned another entry");
				if (!reg->emplace(idx, n).second) fail("nested-alloc", "index %zu was given twice", idx);
				kids.push_back(idx);
			}
		}
		catch (...) { release(); delete self; ++destroyed; magic = 0; throw; }
	}
	Node(const Node&) = delete;
	void release() { for (std::size_t k : kids) { reg->erase(k); thePool->Free(k); } kids.clear(); }
	~Node()
	{
		if (magic != 0xA11CE) fail("node-state", "destructor ran on a corrupt or dead node");
		release(); ++destroyed; delete self; self = nullptr; magic = 0xDEAD;
		if (reincarnate) { bool k = reincarnate; reincarnate = false; (void) k; std::size_t idx; Node* n = thePool->Allocate(idx, -1, 0, 0, nullptr); if (!reg->emplace(idx, n).second) fail("nested-alloc", "index %zu of a node being destroyed was given again", idx); }
	}
	bool reincarnate = false;
};
VX_SUITE("nodes", 600, 15000)
{
	Rng& r = cx.rng; std::map<std::size_t, Node*> all; reg = &all; built = destroyed = 0;
	{
		Nz::MemoryPool<Node, 8> pool(1 + r.below(r.coin() ? 4 : 70)); thePool = &pool; cx.log("blocks of %zu", pool.GetBlockSize());
		std::vector<std::size_t> roots;
		auto verify = [&](const char* who)
		{
			++cx.checks;
			if (pool.GetAllocatedEntryCount() != all.size()) fail("count", "%s: %zu entries, %zu expected", who, pool.GetAllocatedEntryCount(), all.size());
			if (built - destroyed != all.size()) fail("live", "%s: %llu nodes live for %zu entries", who, (unsigned long long) (built - destroyed), all.size());
			for (auto& [i, n] : all) { if (pool.RetrieveFromIndex(i) != n || n->magic != 0xA11CE || pool.RetrieveEntryIndex(n) != i) fail("entry", "%s: entry %zu", who, i); }
			std::size_t c = 0; for (Node& n : pool) { if (n.magic != 0xA11CE) fail("iterate", "%s: iteration reaches a dead node", who); if (++c > all.size()) break; }
			if (c != all.size()) fail("iterate", "%s: %zu of %zu nodes visited", who, c, all.size());
		};
		for (int s = 0; s < 14; ++s)
		{
			switch (r.below(5))
			{
				case 0: case 1:
				{
					int d = (int) r.below(4), w = (int) r.below(4); std::size_t idx; cx.log("tree depth %d width %d", d, w); cx.mix((u64) (d * 8 + w));
					Node* n = pool.Allocate(idx, 1, d, w, nullptr); if (!all.emplace(idx, n).second) fail("nested-alloc", "index %zu of a live node was given to the root", idx); roots.push_back(idx); cx.count("tree built"); break;
				}
				case 2:
				{
					i64 boom = (i64) r.below(12); std::size_t idx; cx.log("tree failing after %lld children", (long long) boom);
					try { Node* n = pool.Allocate(idx, 1, 3, 2, &boom); all.emplace(idx, n); roots.push_back(idx); } catch (const Boom&) { cx.count("constructor failure in a tree"); } break;
				}
				default: if (!roots.empty())
				{
					std::size_t k = r.below(roots.size()), idx = roots[k]; roots.erase(roots.begin() + (long) k); bool re = r.chance(1, 3);
					cx.log("free tree %zu%s", idx, re ? " whose root allocates while being destroyed" : ""); all[idx]->reincarnate = re; std::map<std::size_t, Node*> snap = all; std::size_t before = all.size();
					Node* rootPtr = all[idx]; (void) rootPtr; (void) before; Node* keep = all[idx]; std::size_t keepIdx = idx;
					pool.Free(keepIdx); if (all.count(keepIdx) && all[keepIdx] == keep) all.erase(keepIdx);
					for (auto& [i, n] : all) if (!snap.count(i)) roots.push_back(i);
					cx.count("tree freed"); break;
				}
			}
			verify("after operation");
		}
		for (std::size_t k : roots) { all.erase(k); pool.Free(k); }
		roots.clear(); verify("all trees freed");
	}
	VX_EQ("live", built - destroyed, 0u);
}
#endif
