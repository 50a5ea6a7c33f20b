#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/Signal.hpp>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
using namespace vx;
#ifndef PART
#define PART 0
#endif
#if PART == 0
// more slots than 16-bit counters reach
VX_SUITE("many slots", 8, 60)
{
	Rng& r = cx.rng; std::size_t n = 65536 + (std::size_t) r.range(-200, 3000); cx.log("%zu slots", n); cx.mix(n);
	using Big = Nz::Signal<int>; Big s; std::vector<Big::Connection> c(n); std::vector<unsigned> calls(n, 0), want(n, 0); std::vector<char> on(n, 1); int serial = 0; std::size_t offDuring = (std::size_t) r.below(n), offTarget = (std::size_t) r.below(n);
	for (std::size_t i = 0; i < n; ++i) c[i] = s.Connect([&, i](int x) { if (x != serial) fail("arguments", "slot %zu received %d in emission %d", i, x, serial); ++calls[i]; if (i == offDuring && x == 3) { c[offTarget].Disconnect(); on[offTarget] = 0; } });
	auto emit = [&](bool loose)
	{
		++serial; std::vector<char> before = on; s(serial);
		for (std::size_t i = 0; i < n; ++i) { if (loose && i == offTarget) { if (calls[i] > want[i] + before[i]) fail("called-twice", "slot %zu", i); want[i] = calls[i]; continue; } want[i] += before[i]; if (calls[i] != want[i]) fail(calls[i] < want[i] ? "missed" : "called-twice", "slot %zu of %zu was called %u times instead of %u", i, n, calls[i], want[i]); if (c[i].IsConnected() != (bool) on[i]) fail("is-connected", "slot %zu", i); }
		cur->checks += n; cx.count("slots followed", n);
	};
	emit(false);
	for (std::size_t k = 0; k < n / 3; ++k) { std::size_t i = (std::size_t) r.below(n); if (on[i]) { c[i].Disconnect(); on[i] = 0; } }
	emit(false); emit(on[offDuring]);
	Big t(std::move(s)); s = std::move(t); emit(false);
	s.Clear(); for (auto& b : on) b = 0; emit(false);
}
// Delivery under re-entrant callbacks: an online checker follows every emission frame.
namespace
{
	using Sig = Nz::Signal<int, const std::string&, Tracked<0>>;
	struct Frame { int sig; int serial; std::set<int> due; std::vector<int> got; Frame* up; };
	struct World
	{
		Ctx& cx; Rng& r;
		std::vector<std::unique_ptr<Sig>> sigs;
		struct Sub { int sig; bool on; Sig::Connection c; bool done = false; };
		std::vector<Sub> subs;
		std::vector<std::pair<int, Sig::ConnectionGuard>> guards;
		Frame* top = nullptr; int depth = 0, serial = 0; int budget; bool allowThrow, reentrant; i64 closures = 0;
		World(Ctx& c) : cx(c), r(c.rng) {}
		void off(int id) { if (subs[(std::size_t) id].on) { subs[(std::size_t) id].on = false; } }
		int connect(int s);
		void disconnect(int id);
		void emit(int s);
		void act(int self, int s);
		std::size_t connected(int s) { std::size_t n = 0; for (auto& x : subs) n += x.on && x.sig == s; return n; }
	};
	// state captured by a callback: noticed when it dies, may own a guard of another subscription
	struct Payload
	{
		World& w; int id; Tracked<0> tok; std::vector<std::pair<int, Sig::ConnectionGuard>> owned; u64 magic = 0x600D;
		Payload(World& ww, int i) : w(ww), id(i), tok(i) { ++w.closures; }
		~Payload() { for (auto& o : owned) w.off(o.first); --w.closures; magic = 0xDEAD; if (w.subs[(std::size_t) id].on) fail("released-while-connected", "the callback of connected slot %d was destroyed", id); }
	};
	int World::connect(int s)
	{
		int id = (int) subs.size(); subs.push_back({ s, true, {}, false });
		auto p = std::make_shared<Payload>(*this, id);
		if (r.chance(1, 6) && id > 0) { int o = (int) r.below((u64) id); if (subs[(std::size_t) o].on) p->owned.emplace_back(o, Sig::ConnectionGuard(subs[(std::size_t) o].c)); }
		auto fn = [p](int serial, const std::string& text, Tracked<0> t)
		{
			World& w = p->w; int id = p->id; Payload* raw = p.get();
			if (raw->magic != 0x600D || raw->tok.get() != id) fail("closure-dead", "a callback ran after its destruction");
			Frame* f = w.top; ++cur->checks;
			if (!f) fail("unexpected-call", "slot %d called outside of an emission", id);
			if (!w.subs[(std::size_t) id].on) fail("called-disconnected", "slot %d was called after its disconnection", id);
			if (w.subs[(std::size_t) id].sig != f->sig) fail("wrong-signal", "slot %d of signal %d called by signal %d", id, w.subs[(std::size_t) id].sig, f->sig);
			if (serial != f->serial || text != "text " + std::to_string(serial) || t.get() != serial) fail("arguments", "slot %d received wrong arguments in emission %d", id, f->serial);
			for (int g : f->got) if (g == id) fail("called-twice", "slot %d was called twice by emission %d", id, f->serial);
			f->got.push_back(id); cur->count("callback run");
			w.act(id, f->sig);
			if (raw->magic != 0x600D || raw->tok.get() != id) fail("closure-dead", "the running callback of slot %d was destroyed", id);
		};
		Sig& sg = *sigs[(std::size_t) s];
		p.reset();
		Sig::Connection c;
		switch (r.below(3)) { case 0: c = sg.Connect(std::move(fn)); break; case 1: { Sig::Callback cb(fn); c = sg.Connect(cb); break; } default: c.Connect(sg, fn); }
		subs[(std::size_t) id].c = c;
		if (!c.IsConnected()) fail("connect", "a new connection is not connected");
		if (r.chance(1, 4)) guards.emplace_back(id, c);
		cx.log("%*sconnect %d to signal %d", depth * 2, "", id, s); cx.mix((u64) (s * 131 + 7)); cx.count("connect");
		return id;
	}
	void World::disconnect(int id)
	{
		cx.log("%*sdisconnect %d", depth * 2, "", id); cx.mix((u64) id);
		bool was = subs[(std::size_t) id].on; Sig::Connection c = subs[(std::size_t) id].c;
		if (c.IsConnected() != was) fail("is-connected", "slot %d reports connected=%d, expected %d", id, (int) c.IsConnected(), (int) was);
		off(id); c.Disconnect();
		if (c.IsConnected()) fail("is-connected", "slot %d is still connected after Disconnect", id);
		cx.count("disconnect");
	}
	void World::emit(int s)
	{
		Frame f; f.sig = s; f.serial = ++serial; f.up = top; for (std::size_t i = 0; i < subs.size(); ++i) if (subs[i].on && subs[i].sig == s) f.due.insert((int) i);
		cx.log("%*semit signal %d (%zu slots)", depth * 2, "", s, f.due.size()); cx.mix((u64) f.due.size());
		top = &f; ++depth; std::size_t d = f.due.size();
		struct Pop { World& w; Frame& f; ~Pop() { w.top = f.up; --w.depth; } };
		bool threw = false;
		try { Pop pop{*this, f}; const Sig& cs = *sigs[(std::size_t) s]; std::string text = "text " + std::to_string(f.serial); cs(f.serial, text, Tracked<0>(f.serial)); }
		catch (const Boom&) { threw = true; cx.count("emission aborted by an exception"); }
		++cx.checks; cx.count(depth ? "nested emission" : "emission"); (void) d;
		std::set<int> got(f.got.begin(), f.got.end());
		if (!threw) for (int id : f.due) if (subs[(std::size_t) id].on && !got.count(id)) fail("missed", "connected slot %d was not called by emission %d", id, f.serial);
		if (threw && depth && r.coin()) throw Boom{}; // lets it propagate further at times
	}
	void World::act(int self, int s)
	{
		if (budget <= 0 || !reentrant) return;
		int n = r.chance(1, 2) ? 1 : (int) r.below(4);
		while (n-- > 0 && budget-- > 0) switch (r.below(16))
		{
			case 0: case 1: disconnect(self); break;
			case 2: case 3: case 4: if (!subs.empty()) disconnect((int) r.below(subs.size())); break;
			case 5: case 6: if (subs.size() < 60) connect(r.coin() ? s : (int) r.below(sigs.size())); break;
			case 7: case 8: if (depth < 5) emit(r.coin() ? s : (int) r.below(sigs.size())); break;
			case 9: if (r.chance(1, 3)) { int k = (int) r.below(sigs.size()); cx.log("%*sClear signal %d", depth * 2, "", k); for (auto& x : subs) if (x.sig == k) x.on = false; sigs[(std::size_t) k]->Clear(); cx.count("clear in callback"); } break;
			case 10: if (!guards.empty()) { std::size_t i = r.below(guards.size()); cx.log("%*sdrop guard of %d", depth * 2, "", guards[i].first); off(guards[i].first); auto g = std::move(guards[i]); guards.erase(guards.begin() + (long) i); cx.count("guard dropped in callback"); } break;
			case 11: if (allowThrow && r.chance(1, 2)) { cx.log("%*sthrow", depth * 2, ""); throw Boom{}; } break;
			case 12: if (!guards.empty()) { std::size_t i = r.below(guards.size()), j = r.below(guards.size()); if (i != j && guards[i].first != guards[j].first) { cx.log("%*sguard of %d <- guard of %d", depth * 2, "", guards[i].first, guards[j].first); off(guards[i].first); int nid = guards[j].first; guards[i].first = nid; Sig::ConnectionGuard tmp = std::move(guards[j].second); guards[i].second = std::move(tmp); for (std::size_t k = 0; k < guards.size(); ++k) if (k != i && &guards[k].second && !guards[k].second.IsConnected() && k == j) { guards.erase(guards.begin() + (long) k); break; } } } break;
			case 13: { Sig copy(*sigs[(std::size_t) s]); copy(0, "", Tracked<0>(0)); *sigs[(std::size_t) s] = copy; cx.log("%*scopy the signal", depth * 2, ""); break; }
			default: break;
		}
	}
	static void delivery(Ctx& cx, bool reentrant, bool throwing)
	{
		LifeScope scope; Rng& r = cx.rng;
		{
			World w(cx); w.reentrant = reentrant; w.allowThrow = throwing; w.subs.reserve(4096);
			std::size_t ns = 1 + r.below(3); for (std::size_t i = 0; i < ns; ++i) w.sigs.push_back(std::make_unique<Sig>());
			std::size_t steps = 6 + r.below(20);
			for (std::size_t st = 0; st < steps; ++st)
			{
				w.budget = 1 + (int) r.below(40);
				switch (r.below(10))
				{
					case 0: case 1: case 2: case 3: for (u64 k = 1 + r.below(5); k--;) if (w.subs.size() < 80) w.connect((int) r.below(ns)); break;
					case 4: if (!w.subs.empty()) w.disconnect((int) r.below(w.subs.size())); break;
					case 5: if (r.chance(1, 6)) { int k = (int) r.below(ns); cx.log("Clear signal %d", k); for (auto& x : w.subs) if (x.sig == k) x.on = false; w.sigs[(std::size_t) k]->Clear(); if (w.sigs[(std::size_t) k]) {} cx.count("clear"); } break;
					default: w.emit((int) r.below(ns)); break;
				}
				// between operations a callback is alive if and only if its slot is connected
				i64 on = 0; for (auto& x : w.subs) { on += x.on; if (x.c.IsConnected() != x.on) fail("is-connected", "slot %d reports connected=%d, expected %d", (int) (&x - w.subs.data()), (int) x.c.IsConnected(), (int) x.on); }
				if (w.closures != on) fail("callback-lifetime", "%lld callbacks are alive for %lld connected slots", (long long) w.closures, (long long) on);
			}
			w.reentrant = false; for (std::size_t i = 0; i < ns; ++i) w.emit((int) i);
			for (auto& x : w.subs) x.on = false;
			if (r.coin()) w.guards.clear();
			w.sigs.clear();
			if (w.closures) fail("callback-lifetime", "%lld callbacks outlive their signal", (long long) w.closures);
			for (auto& x : w.subs) if (x.c.IsConnected()) fail("is-connected", "connected to a destroyed signal");
		}
	}
	void flat(Ctx& cx) { delivery(cx, false, false); }
	void reent(Ctx& cx) { delivery(cx, true, false); }
	void reentThrow(Ctx& cx) { delivery(cx, true, true); }
}
VX_FN("flat", 400, 10000, flat)
VX_FN("reentrant", 1500, 40000, reent)
VX_FN("reentrant-throwing", 1200, 30000, reentThrow)

#else
// arguments and connect forms
namespace
{
	struct Recv
	{
		int calls = 0; std::string last; int* where = nullptr; Recv* self; Recv() : self(this) {}
		mutable int constCalls = 0;
		void onText(std::string s, int& n) { if (self != this) fail("receiver", "the method ran on another object"); ++calls; last = std::move(s); where = &n; n += 1; }
		void onConst(std::string s, int& n) const { if (self != this) fail("receiver", "the method ran on another object"); ++constCalls; if (s.empty()) fail("arguments", "by-value argument was consumed"); n += 100; }
		void nothing() { ++calls; }
	};
	struct Emitter { NazaraSignal(OnText, std::string, int&); NazaraSignal(OnNothing); NazaraStaticSignal(OnStatic, const Emitter*, std::unique_ptr<int>&); };
	NazaraStaticSignalImpl(Emitter, OnStatic);
	struct Client { int n = 0; NazaraSlot(Emitter, OnText, slot); NazaraSlot(Emitter, OnNothing, slot2); };
	VX_TLS int freeCalls; void freeFn(std::string s, int& n) { if (s != "value") fail("arguments", "free function got '%s'", s.c_str()); ++freeCalls; n += 1000; }
}
VX_SUITE("connect-forms", 1200, 30000)
{
	Rng& r = cx.rng; freeCalls = 0;
	Emitter e; const Emitter& ce = e; Recv a, b; int lambda = 0, expect = 0, calls[6] = {};
	std::vector<std::pair<int, Nz::Signal<std::string, int&>::Connection>> cs;
	for (u64 k = 1 + r.below(12); k--;)
	{
		int form = (int) r.below(7); cx.log("connect form %d", form); cx.mix((u64) form);
		Nz::Signal<std::string, int&>::Connection c;
		switch (form)
		{
			case 0: c = e.OnText.Connect(a, &Recv::onText); break;
			case 1: c = e.OnText.Connect(&b, &Recv::onText); break;
			case 2: c = ce.OnText.Connect(a, &Recv::onConst); break; // the signal member is mutable
			case 3: c.Connect(e.OnText, &b, &Recv::onConst); break;
			case 4: c = e.OnText.Connect(freeFn); break;
			case 5: c = e.OnText.Connect([&](std::string s, int& n) { if (s != "value") fail("arguments", "lambda got '%s'", s.c_str()); std::string eat = std::move(s); ++lambda; n += 1000000; }); break;
			default: { const Recv& cr = a; c = e.OnText.Connect(cr, &Recv::onConst); const Recv* cp = &b; c = e.OnText.Connect(cp, &Recv::onConst); form = 6; calls[2]++; calls[3]++; break; }
		}
		if (form < 6) { calls[form]++; cs.emplace_back(form, c); }
		if (r.chance(1, 4) && !cs.empty()) { std::size_t i = r.below(cs.size()); cx.log("disconnect form %d", cs[i].first); cs[i].second.Disconnect(); calls[cs[i].first]--; cs.erase(cs.begin() + (long) i); }
		int n = 0; std::string v = "value"; Recv a0 = a; (void) a0; int ac = a.calls, bc = b.calls, aa = a.constCalls, bb = b.constCalls, ff = freeCalls, ll = lambda;
		ce.OnText(v, n); cx.count("emission");
		expect = calls[0] + calls[1] + 100 * (calls[2] + calls[3]) + 1000 * calls[4] + 1000000 * calls[5];
		VX_EQ("reference-argument", n, expect); VX_EQ("caller-argument", v, std::string("value"));
		VX_EQ("method-ref", a.calls - ac, calls[0]); VX_EQ("method-ptr", b.calls - bc, calls[1]); VX_EQ("const-method-ref", a.constCalls - aa, calls[2]); VX_EQ("const-method-ptr", b.constCalls - bb, calls[3]); VX_EQ("function", freeCalls - ff, calls[4]); VX_EQ("lambda", lambda - ll, calls[5]);
		if (calls[0]) { VX_TRUE("reference-identity", a.where == &n); VX_EQ("value-argument", a.last, std::string("value")); }
	}
}
VX_SUITE("macros", 600, 12000)
{
	Rng& r = cx.rng; Emitter e, e2; int n = 0, seen = 0, stat = 0;
	{
		Client c; c.slot.Connect(e.OnText, [&](std::string, int& k) { ++k; }); c.slot2.Connect(e.OnNothing, [&] { ++seen; });
		bool again = r.coin(); cx.log("slots%s", again ? ", reconnected to another emitter" : "");
		if (again) c.slot.Connect(e2.OnText, [&](std::string, int& k) { k += 10; });
		e.OnText("x", n); VX_EQ("slot", n, again ? 0 : 1); e2.OnText("x", n); VX_EQ("slot", n, again ? 10 : 1); e.OnNothing(); VX_EQ("slot", seen, 1);
		Emitter copy(e); copy.OnNothing(); VX_EQ("copied signal", seen, 1);
		if (r.coin()) { cx.log("move the emitter"); Emitter m(std::move(e)); m.OnNothing(); VX_EQ("moved signal", seen, 2); e.OnNothing(); VX_EQ("moved-from signal", seen, 2); VX_TRUE("moved", c.slot2.IsConnected()); e = std::move(m); e.OnNothing(); VX_EQ("moved back", seen, 3); }
		else { e = e2; seen = 3; e.OnNothing(); VX_EQ("assigned signal keeps its slots", seen, 4); seen = 3; }
#ifndef VX_THREADED // one signal for the whole program
		auto con = Emitter::OnStatic.Connect([&](const Emitter* p, std::unique_ptr<int>& u) { if (p != &e) fail("arguments", "wrong pointer"); u = std::make_unique<int>(7); ++stat; });
		std::unique_ptr<int> u; Emitter::OnStatic(&e, u); VX_EQ("static signal", stat, 1); VX_TRUE("static signal", u && *u == 7); con.Disconnect(); Emitter::OnStatic(&e, u); VX_EQ("static signal", stat, 1);
#endif
	}
	n = 0; seen = 3; e.OnText("x", n); e2.OnText("x", n); e.OnNothing(); VX_EQ("slot outlived", n, 0); VX_EQ("slot outlived", seen, 3); cx.count("client destroyed");
	cx.mix(r.next());
}
#endif
