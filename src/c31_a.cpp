#include "vx.hpp"
#include <NazaraUtils/Algorithm.hpp>
#include <NazaraUtils/Bitset.hpp>
#include <NazaraUtils/CallOnExit.hpp>
#include <NazaraUtils/Endianness.hpp>
#include <NazaraUtils/EnumArray.hpp>
#include <NazaraUtils/FixedVector.hpp>
#include <NazaraUtils/Flags.hpp>
#include <NazaraUtils/FunctionRef.hpp>
#include <NazaraUtils/Hash.hpp>
#include <NazaraUtils/MathUtils.hpp>
#include <NazaraUtils/MemoryPool.hpp>
#include <NazaraUtils/MovablePtr.hpp>
#include <NazaraUtils/MovableValue.hpp>
#include <NazaraUtils/PathUtils.hpp>
#include <NazaraUtils/PrivateImpl.hpp>
#include <NazaraUtils/Result.hpp>
#include <NazaraUtils/Signal.hpp>
#include <NazaraUtils/SparsePtr.hpp>
#include <NazaraUtils/StackArray.hpp>
#include <NazaraUtils/StackVector.hpp>
#include <NazaraUtils/StringHash.hpp>
#include <NazaraUtils/StringUtils.hpp>
#include <NazaraUtils/TypeName.hpp>
#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <sched.h>
using namespace vx;
// Threads run operations of the library while a race detector watches every access; what each thread computes is compared with the same
// history run alone. The logs of a run use relaxed atomics only, so that they order nothing for the detector.
namespace thr { enum class Fl { A, B, C, D, E, F, G, Max = G }; enum class Key { A, B, C, D, Max = D }; }
namespace Nz { template<> struct EnumAsFlags<thr::Fl> { static constexpr thr::Fl max = thr::Fl::Max; }; }
namespace
{
	std::atomic<u64> ticket{0}, nchecks{0}, nops{0};
	void chk(bool ok, const char* key) { nchecks.fetch_add(1, std::memory_order_relaxed); if (!ok) fail(key, "an object used by one thread at a time answers wrongly"); }
	struct Job
	{
		Rng rng; u64 dig = 1;
		virtual ~Job() = default; virtual const char* name() const = 0;
		virtual void step() = 0;            // one operation of the owning thread
		virtual u64 read() const = 0;       // every constant operation: may run in several threads at once
		void mix(u64 v) { dig = (dig ^ v) * 0x100000001B3ull; dig ^= dig >> 31; }
	};
	u64 add(u64 h, u64 v) { h = (h ^ v) * 0x100000001B3ull; return h ^ (h >> 29); }
	u64 add(u64 h, const std::string& s) { for (char c : s) h = add(h, (u8) c); return add(h, s.size()); }
	std::string word(Rng& r) { std::string s; for (u64 n = r.below(30); n--;) s += (char) ('a' + r.below(26)); return s; }

	template<class Block, class Set = Nz::Bitset<Block>> struct BitsJob : Job
	{
		Set b, o; std::vector<bool> m;
		const char* name() const override { return "bitset"; }
		void step() override
		{
			switch (rng.below(12))
			{
				case 0: { std::size_t n = (std::size_t) rng.below(150); bool v = rng.coin(); b.Resize(n, v); m.resize(n, v); break; }
				case 1: b.Reverse(); std::reverse(m.begin(), m.end()); break;
				case 2: b.Flip(); m.flip(); break;
				case 3: o = b; o.Flip(); o &= b; chk(o.TestNone(), "bitset"); break;
				case 4: { std::size_t n = (std::size_t) rng.below(20); b <<= n; for (std::size_t i = m.size(); i--;) m[i] = i >= n ? m[i - n] : false; break; }
				case 5: { std::size_t n = (std::size_t) rng.below(20); b = b >> n; for (std::size_t i = 0; i < m.size(); ++i) m[i] = i + n < m.size() ? m[i + n] : false; break; }
				case 6: { u64 v = rng.next(); std::size_t n = (std::size_t) rng.below(65); b.Clear(); m.clear(); b.Write(&v, n); for (std::size_t i = 0; i < n; ++i) m.push_back(v >> i & 1); break; }
				default: if (!m.empty()) { std::size_t i = (std::size_t) rng.below(m.size()); bool v = rng.coin(); b.Set(i, v); m[i] = v; } break;
			}
			chk(b.GetSize() == m.size() && b.Count() == (std::size_t) std::count(m.begin(), m.end(), true), "bitset"); mix(b.Count());
		}
		u64 read() const override
		{
			u64 h = add(b.GetSize(), b.Count()); h = add(h, b.ToString()); h = add(h, b.FindFirst()); h = add(h, b.TestAll()); h = add(h, b.TestAny()); h = add(h, b.TestNone()); for (std::size_t i : b.IterBits()) h = add(h, i); for (std::size_t i = 0; i < b.GetBlockCount(); ++i) h = add(h, b.GetBlock(i)); for (std::size_t i = 0; i < b.GetSize(); i += 7) h = add(h, b.Test(i) + b[i]); h = add(h, b.UnboundedTest(1000)); Set c(b); h = add(h, c == b); h = add(h, (~b).Count()); h = add(h, (b << 3).Count()); h = add(h, b < c); h = add(h, b.Intersects(b)); if (!m.empty()) h = add(h, b.FindNext(m.size() / 2)); return h;
		}
	};
	template<class V> struct VecJob : Job
	{
		V v; std::vector<std::string> m; bool bounded; VecJob(bool bd = false) : bounded(bd) {}
		const char* name() const override { return "vector"; }
		void step() override
		{
			u64 w = rng.below(8); std::string s = word(rng); std::size_t p = (std::size_t) rng.below(m.size() + 1); if (m.size() >= (bounded ? 8 : 14) && w < 4) w = 4;
			switch (w) { case 0: v.push_back(s); m.push_back(s); break; case 1: v.emplace_back(s.c_str()); m.push_back(s); break; case 2: v.insert(v.begin() + (std::ptrdiff_t) p, s); m.insert(m.begin() + (std::ptrdiff_t) p, s); break; case 3: v.emplace(v.begin() + (std::ptrdiff_t) p, 3, 'x'); m.insert(m.begin() + (std::ptrdiff_t) p, "xxx"); break; case 4: if (p < m.size()) { v.erase(v.begin() + (std::ptrdiff_t) p); m.erase(m.begin() + (std::ptrdiff_t) p); } break; case 5: { V c(std::move(v)); v.clear(); v = std::move(c); break; } case 6: { V c(v); v = c; break; } default: v.resize(p); m.resize(p); }
			chk(v.size() == m.size() && std::equal(m.begin(), m.end(), v.begin()), "vector"); mix(v.size());
			auto sv = NazaraStackVector(std::string, 5); auto sa = NazaraStackArray(std::string, 3); for (int i = 0; i < 5; ++i) sv.push_back(s); for (auto& x : sa) x = s; sv.erase(sv.begin() + 1); chk(sv.size() == 4 && sv.back() == s && sa[2] == s, "stack vector"); mix(sv.size());
		}
		u64 read() const override { u64 h = add(v.size(), v.capacity() > 0); for (auto& s : v) h = add(h, s); for (std::size_t i = 0; i < v.size(); ++i) h = add(h, v[i].size()); h = add(h, v.empty()); V c(v); h = add(h, c.size()); if (!v.empty()) h = add(add(h, v.front()), v.back()); for (auto it = v.rbegin(); it != v.rend(); ++it) h = add(h, *it); return h; }
	};
	struct PoolJob : Job
	{
		Nz::MemoryPool<std::string> p{4}; std::map<std::size_t, std::string> m;
		const char* name() const override { return "pool"; }
		void step() override
		{
			if (m.empty() || rng.chance(3, 5)) { std::string s = word(rng); std::size_t i; std::string* q = p.Allocate(i, s); chk(*q == s && !m.count(i), "pool"); m[i] = s; }
			else if (rng.chance(1, 12)) { p.Reset(); m.clear(); }
			else if (rng.chance(1, 12)) { Nz::MemoryPool<std::string> q(std::move(p)); p = std::move(q); }
			else { auto it = m.begin(); std::advance(it, (std::ptrdiff_t) rng.below(m.size())); chk(*p.RetrieveFromIndex(it->first) == it->second, "pool"); p.Free(it->first); m.erase(it); }
			chk(p.GetAllocatedEntryCount() == m.size(), "pool"); std::size_t n = 0; for (auto& s : p) { mix(s.size()); ++n; } chk(n == m.size(), "pool");
			for (auto& e : m) { chk(p.RetrieveEntryIndex(p.RetrieveFromIndex(e.first)) == e.first, "pool index"); } std::string stranger; chk(p.RetrieveEntryIndex(&stranger) == p.InvalidIndex, "pool index of a stranger"); auto it = p.begin(); if (it != p.end()) { mix(it.GetIndex()); it++; } mix(p.GetFreeEntryCount()); if (rng.chance(1, 40)) { p.Reset(); m.clear(); } if (rng.chance(1, 60)) { p.Clear(); m.clear(); }
		}
		u64 read() const override { u64 h = add(p.GetAllocatedEntryCount(), p.GetBlockCount()); h = add(h, p.GetFreeEntryCount()); h = add(h, p.GetBlockSize()); for (auto& [i, s] : m) h = add(h, *p.RetrieveFromIndex(i)); for (auto it = p.cbegin(); it != p.cend(); ++it) h = add(h, *it); return h; }
	};
	struct SignalJob : Job
	{
		using On = Nz::Signal<int>; On on; struct C { On::Connection c; int k; }; std::deque<C> cs; u64 got = 0; On::ConnectionGuard guard; bool guarded = false;
		using Sig = On;
		const char* name() const override { return "signal"; }
		void step() override
		{
			switch (rng.below(7))
			{
				case 0: case 1: if (cs.size() < 12) { int k = (int) rng.below(100); cs.push_back({on.Connect([this, k](int x) { got = add(got, (u64) (x * 1000 + k)); }), k}); } break;
				case 2: if (!cs.empty()) { std::size_t i = (std::size_t) rng.below(cs.size()); cs[i].c.Disconnect(); cs.erase(cs.begin() + (std::ptrdiff_t) i); } break;
				case 3: { Sig t(std::move(on)); on = std::move(t); break; }
				case 4: if (guarded) guard.Disconnect(); else guard.Connect(on, [this](int x) { got += (u64) x; }); guarded = !guarded; break;
				default: { int x = (int) rng.below(50); on(x); break; }
			}
			mix(got); for (auto& c : cs) chk(c.c.IsConnected(), "signal");
		}
		u64 read() const override { u64 h = got; for (auto& c : cs) { h = add(h, c.c.IsConnected()); On::Connection k(c.c); h = add(h, k.IsConnected()); } return h; }
	};
	struct SmallJob : Job // the small value types
	{
		struct Obj { std::string s; int k; }; Nz::PrivateImpl<Obj, 64> in{Obj{"a", 1}}; Nz::PrivateImpl<Obj> out{Obj{"b", 2}}; Nz::Flags<thr::Fl> f; Nz::EnumArray<thr::Key, std::string> e; std::array<u32, 40> store{}; Nz::MovablePtr<std::string> mp{nullptr}; std::string target; Nz::MovableLiteral<int, 0> ml; Nz::Result<std::string, int> r{Nz::Ok(std::string("r"))}; int calls = 0;
		const char* name() const override { return "values"; }
		void step() override
		{
			std::string s = word(rng); thr::Fl fl = (thr::Fl) rng.below(7); thr::Key k = (thr::Key) rng.below(4);
			switch (rng.below(9))
			{
				case 0: in->s = s; { auto c = in; in = std::move(c); } mix(in->s.size()); break;
				case 1: out.Reset(); out.Emplace(Obj{s, 3}); { auto c = std::move(out); chk(!out.HasValue(), "holder"); out = c; } chk(out->s == s, "holder"); break;
				case 2: f |= fl; mix((u64) (f & fl ? 1 : 0)); break;
				case 3: f ^= fl; break;
				case 4: e[k] = s; for (auto&& [kk, v] : e.iter_kv()) mix(add((u64) kk, v)); break;
				case 5: { Nz::SparsePtr<u32> p(store.data(), 8); for (int i = 0; i < 20; ++i) p[i] = (u32) rng.below(1000); auto q = p + 3; chk(&*q == &store[6] && q - p == 3, "sparse"); mix(*q); break; }
				case 6: { mp = &target; target = s; auto c = std::move(mp); chk(!mp.Get(), "movable"); mp = c; mix(mp->size()); ml = (int) s.size(); break; }
				case 7: if (rng.coin()) r = Nz::Ok(s); else r = Nz::Err((int) s.size()); mix(r.IsOk() ? add(1, r.GetValue()) : (u64) r.GetError()); { auto c = r.Map([](const std::string& x) { return x.size(); }); mix(c.GetValueOr(77)); } break;
				default: { int local = 0; { Nz::CallOnExit c([&] { ++local; ++calls; }); auto fn = [&](int x) { local += x; return local; }; Nz::FunctionRef<int(int)> fr(fn); auto fr2 = fr; mix((u64) fr2(3)); } chk(local == 4, "on exit"); }
			}
		}
		u64 read() const override { u64 h = add(1, in->s); h = add(h, out.HasValue() ? out->s : std::string()); h = add(h, (u64) f.Test(thr::Fl::C)); h = add(h, (u64) (f & thr::Fl::D ? 1 : 0)); h = add(h, std::hash<Nz::Flags<thr::Fl>>()(f)); for (auto&& [k, v] : e.iter_kv()) h = add(add(h, (u64) k), v); Nz::SparsePtr<const u32> p(store.data(), 8); for (int i = 0; i < 20; ++i) h = add(h, p[i]); h = add(h, r.IsOk()); if (r.IsOk()) h = add(h, r.GetValue()); else h = add(h, (u64) r.GetError()); h = add(h, mp.Get() ? *mp : std::string("-")); return add(h, (u64) (int) ml); }
	};
	struct PureJob : Job // functions without state
	{
		std::vector<std::string> words; u64 seed;
		PureJob(u64 s) : seed(s) { Rng r; r.s = s; for (int i = 0; i < 12; ++i) words.push_back(word(r)); }
		const char* name() const override { return "functions"; }
		void step() override { mix(all(rng.next())); }
		u64 read() const override { u64 h = 1; for (u64 i = 0; i < 4; ++i) h = add(h, all(seed + i)); return h; }
		u64 all(u64 v) const
		{
			const std::string& s = words[v % words.size()]; u64 h = Nz::CRC32(std::string_view(s)); h = add(h, Nz::FNV1a32(std::string_view(s))); h = add(h, Nz::FNV1a64(std::string_view(s))); h = add(h, Nz::CRC32(s.c_str())); std::size_t sd = 3; Nz::HashCombine(sd, s); h = add(h, sd); h = add(h, Nz::StringHash<>()(s)); h = add(h, Nz::HashCombine(1, s, 2.0)); h = add(h, Nz::FNV1a32Hash()(s)); h = add(h, Nz::FNV1a64Hash()(s)); h = add(h, Nz::CRC32Hash()(s));
			h = add(h, Nz::CountBits(v)); h = add(h, Nz::FindFirstBit(v)); h = add(h, Nz::FindLastBit(v)); h = add(h, Nz::ReverseBits(v)); h = add(h, Nz::IntegralLog2((v | 1))); h = add(h, Nz::GetNearestPowerOfTwo((u32) v & 0xFFFFFF)); h = add(h, (u64) (Nz::Lerp(1.0, 3.0, (double) (v & 7) / 8) * 1000)); { u64 sw = v; Nz::SwapBytes(&sw, 8); h = add(h, sw); } h = add(h, Nz::HostToBigEndian((u32) v)); h = add(h, Nz::Align((u64) (v & 0xFFFF), u64(16))); h = add(h, Nz::NumberEquals((double) (v & 3), 1.0)); h = add(h, (u64) (Nz::Mod((double) (v & 1023), 7.5) * 16)); h = add(h, Nz::Clamp((int) (v & 63), 3, 40)); h = add(h, (u64) Nz::IntegralPow(3, (unsigned) (v & 7))); h = add(h, Nz::SafeCast<u16>(v & 0xFFFF)); h = add(h, (u64) Nz::BitCast<i64>(v)); h = add(h, (u64) (Nz::DegreeToRadian((double) (v & 511)) * 1000)); h = add(h, (u64) Nz::Approach(0, 10, (int) (v & 7)));
			h = add(h, std::string(Nz::TypeName<PureJob>())); h = add(h, (u64) Nz::ToUtf8String(s).size()); h = add(h, Nz::PathToString(Nz::Utf8Path(s) / Nz::Utf8Path("x"))); return h;
		}
	};
	std::unique_ptr<Job> make(u64 kind, u64 seed)
	{
		std::unique_ptr<Job> j;
		switch (kind % 10)
		{
			case 0: j = std::make_unique<BitsJob<u32>>(); break; case 1: j = std::make_unique<BitsJob<u8>>(); break; case 2: j = std::make_unique<BitsJob<u64, Nz::HybridBitset<u64, 64>>>(); break;
			case 3: j = std::make_unique<VecJob<Nz::FixedVector<std::string, 8>>>(true); break; case 4: j = std::make_unique<VecJob<Nz::HybridVector<std::string, 4>>>(); break;
			case 5: j = std::make_unique<PoolJob>(); break; case 6: j = std::make_unique<SignalJob>(); break; case 7: case 8: j = std::make_unique<SmallJob>(); break; default: j = std::make_unique<PureJob>(seed);
		}
		j->rng.s = seed; return j;
	}
	// starts everybody at once; delays are drawn per step
	struct Gate { std::atomic<int> waiting{0}; int n; explicit Gate(int k) : n(k) {} void pass() { waiting.fetch_add(1, std::memory_order_relaxed); for (int spin = 0; waiting.load(std::memory_order_relaxed) < n; ++spin) if (spin > 200) sched_yield(); } };
	void delay(Rng& r) { switch (r.below(6)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < 200; i = i + 1) {} break; default:; } }
	struct Ev { u64 t; int thread; };
	struct Log { std::vector<Ev> ev; int me; explicit Log(int m) : me(m) { ev.reserve(600); } void note() { nops.fetch_add(1, std::memory_order_relaxed); ev.push_back({ticket.fetch_add(1, std::memory_order_relaxed), me}); } };
	void account(Ctx& cx, std::vector<Log>& logs)
	{
		std::vector<Ev> all; for (auto& l : logs) all.insert(all.end(), l.ev.begin(), l.ev.end()); std::sort(all.begin(), all.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; }); u64 switches = 0; for (std::size_t i = 1; i < all.size(); ++i) switches += all[i].thread != all[i - 1].thread; for (auto& e : all) cx.mix((u64) e.thread + 1);
		cx.count("operations in threads", all.size()); cx.count("switches between threads", switches); if (switches > (u64) logs.size()) cx.count("runs whose operations interleaved"); cx.checks += nchecks.exchange(0); cx.ops += nops.exchange(0);
	}
	template<class F> void spawn(int n, F f) { std::vector<std::thread> t; t.reserve((std::size_t) n); for (int i = 0; i < n; ++i) t.emplace_back(f, i); for (auto& x : t) x.join(); }
}
VX_SUITE("distinct objects in distinct threads", 6, 60)
{
	int n = (int) cx.rng.range(2, 6), steps = (int) cx.rng.range(20, 120); u64 base = cx.rng.next(); bool same = cx.rng.coin(); u64 kind0 = cx.rng.below(10); cx.log("%d threads, %d steps, kinds from %d, seed %llx", n, steps, (int) kind0, (unsigned long long) base);
	auto kind = [&](int i) { return same ? kind0 : kind0 + (u64) i; }; auto seed = [&](int i) { return base + (u64) i * 77; }; std::vector<u64> got((std::size_t) n); std::vector<Log> logs; for (int i = 0; i < n; ++i) logs.emplace_back(i); Gate g(n);
	// the objects are built, used and destroyed by their thread
	spawn(n, [&](int i) { Rng d; d.s = base ^ (u64) i; g.pass(); { auto j = make(kind(i), seed(i)); for (int k = 0; k < steps; ++k) { j->step(); logs[(std::size_t) i].note(); delay(d); } got[(std::size_t) i] = add(j->dig, j->read()); } });
	for (int i = 0; i < n; ++i) { auto j = make(kind(i), seed(i)); for (int k = 0; k < steps; ++k) j->step(); u64 want = add(j->dig, j->read()); VX_EQ("same results as alone", got[(std::size_t) i], want); cx.count((std::string("objects: ") + j->name()).c_str()); }
	account(cx, logs);
}
VX_SUITE("constant operations on shared objects", 6, 60)
{
	int n = (int) cx.rng.range(2, 6), jobs = (int) cx.rng.range(1, 5), rounds = (int) cx.rng.range(2, 10); u64 kind0 = cx.rng.below(10); std::vector<std::unique_ptr<Job>> js; for (int i = 0; i < jobs; ++i) { js.push_back(make(kind0 + (u64) i, cx.rng.next())); for (u64 k = cx.rng.range(0, 60); k--;) js.back()->step(); }
	cx.log("%d threads read %d objects, kinds from %d", n, jobs, (int) kind0); std::vector<std::vector<u64>> got((std::size_t) n); std::vector<Log> logs; for (int i = 0; i < n; ++i) logs.emplace_back(i); Gate g(n); u64 base = cx.rng.next();
	spawn(n, [&](int i) { Rng d; d.s = base ^ (u64) i; g.pass(); for (int r = 0; r < rounds; ++r) for (auto& j : js) { got[(std::size_t) i].push_back(j->read()); logs[(std::size_t) i].note(); delay(d); } });
	for (auto& v : got) for (int r = 0; r < rounds; ++r) for (int k = 0; k < jobs; ++k) VX_EQ("every reader sees the same", v[(std::size_t) (r * jobs + k)], js[(std::size_t) k]->read());
	for (auto& j : js) cx.count((std::string("shared objects: ") + j->name()).c_str()); account(cx, logs);
}
VX_SUITE("objects handed from thread to thread", 6, 60)
{
	int n = (int) cx.rng.range(2, 5), jobs = (int) cx.rng.range(1, 6), turns = (int) cx.rng.range(10, 60); u64 kind0 = cx.rng.below(10), base = cx.rng.next(); struct Item { std::unique_ptr<Job> j; int left; u64 moves = 0; int last = -1; }; std::deque<Item> queue; std::mutex mx; std::vector<u64> seeds;
	for (int i = 0; i < jobs; ++i) { seeds.push_back(cx.rng.next()); queue.push_back(Item{make(kind0 + (u64) i, seeds.back()), turns}); queue.back().j->dig = (u64) i; }
	cx.log("%d threads share %d objects, %d turns, kinds from %d", n, jobs, turns, (int) kind0); std::vector<std::pair<u64, u64>> done; std::vector<Log> logs; for (int i = 0; i < n; ++i) logs.emplace_back(i); Gate g(n); u64 moves = 0; std::vector<u64> tag;
	std::vector<Item> finished;
	spawn(n, [&](int i) { Rng d; d.s = base ^ (u64) i; g.pass(); for (;;) { Item it; { std::lock_guard<std::mutex> l(mx); if (queue.empty()) break; std::size_t k = (std::size_t) d.below(queue.size()); it = std::move(queue[k]); queue.erase(queue.begin() + (std::ptrdiff_t) k); } if (it.last != i) ++it.moves; it.last = i; for (u64 k = 1 + d.below(4); k-- && it.left; --it.left) { it.j->step(); logs[(std::size_t) i].note(); } delay(d); std::lock_guard<std::mutex> l(mx); if (it.left) queue.push_back(std::move(it)); else finished.push_back(std::move(it)); } });
	VX_EQ("every object comes back", finished.size(), (std::size_t) jobs); std::vector<u64> got, want; for (auto& f : finished) { got.push_back(add(f.j->dig, f.j->read())); moves += f.moves; }
	for (int i = 0; i < jobs; ++i) { auto j = make(kind0 + (u64) i, seeds[(std::size_t) i]); j->dig = (u64) i; for (int k = 0; k < turns; ++k) j->step(); want.push_back(add(j->dig, j->read())); cx.count((std::string("travelling objects: ") + j->name()).c_str()); }
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); ++cx.checks; if (got != want) fail("same results as alone", "an object that travelled between threads ends in another state"); cx.count("moves of an object to another thread", moves); account(cx, logs);
}
