#include "vx.hpp"
#include "tracked.hpp"
#include <NazaraUtils/Signal.hpp>
#include <map>
#include <memory>
#include <optional>
#include <vector>
using namespace vx;
// Connections, guards and signals as independent objects under random histories of copies, moves, assignments and destructions.
namespace
{
	using Sig = Nz::Signal<int>;
	using Con = Sig::Connection;
	using Guard = Sig::ConnectionGuard;
	enum { None = -1 };
	struct World
	{
		Ctx& cx; Rng& r; World(Ctx& c) : cx(c), r(c.rng) {}
		std::vector<std::unique_ptr<Sig>> sigs;           // may be null
		std::vector<std::unique_ptr<Con>> cons; std::vector<int> conSub;
		std::vector<std::unique_ptr<Guard>> guards; std::vector<int> guardSub;
		std::vector<int> subSig;                          // signal each slot is connected to, or None
		std::map<int, int> hits; int emitting = None; i64 alive = 0;
		struct Cap
		{
			World& w; int id; std::unique_ptr<Guard> own; int ownSub = None;
			Cap(World& ww, int i) : w(ww), id(i) { ++w.alive; }
			~Cap() { --w.alive; if (w.subSig[(std::size_t) id] != None) fail("released-while-connected", "callback of connected slot %d destroyed", id); if (own) w.off(ownSub); }
		};
		void off(int s) { if (s != None) subSig[(std::size_t) s] = None; }
		std::shared_ptr<Cap> cap(int sig) { int id = (int) subSig.size(); subSig.push_back(sig); auto c = std::make_shared<Cap>(*this, id); cx.count("connect"); return c; }
		auto fn(std::shared_ptr<Cap> c) { return [c](int x) { World& w = c->w; if (w.emitting == None || w.subSig[(std::size_t) c->id] != w.emitting) fail("called-disconnected", "slot %d called, it is connected to %d, signal %d emits", c->id, w.subSig[(std::size_t) c->id], w.emitting); if (x != w.emitting + 50) fail("arguments", "wrong argument"); ++w.hits[c->id]; if (w.selfOff && !c->own && w.r.chance(1, 10)) w.leave(c->id); }; }
		bool selfOff = false;
		// called from the callback of the slot
		void leave(int id)
		{
			std::vector<Con*> all; for (std::size_t i = 0; i < cons.size(); ++i) if (conSub[i] == id) all.push_back(cons[i].get());
			for (std::size_t i = 0; i < guards.size(); ++i) if (guardSub[i] == id) all.push_back(&guards[i]->GetConnection());
			if (all.empty()) return;
			cx.log("slot %d disconnects itself", id); for (Con* c : all) VX_TRUE("connected while called", c->IsConnected());
			off(id); all[r.below(all.size())]->Disconnect(); Con copy(*all[0]);
			for (Con* c : all) VX_TRUE("disconnected in its own callback", !c->IsConnected()); VX_TRUE("disconnected in its own callback", !copy.IsConnected()); cx.count("left while called");
		}
		std::size_t sig() { return r.below(sigs.size()); }
		std::size_t con() { return r.below(cons.size()); }
		std::size_t guard() { return r.below(guards.size()); }
		Sig& S(std::size_t i) { if (!sigs[i]) { cx.log("new signal %zu", i); sigs[i] = std::make_unique<Sig>(); } return *sigs[i]; }
		void rebind(std::size_t from, int to) { for (int& s : subSig) if (s == (int) from) s = to; }
		void verify(const char* who, bool emit)
		{
			++cx.checks;
			for (std::size_t i = 0; i < cons.size(); ++i) { bool want = conSub[i] != None && subSig[(std::size_t) conSub[i]] != None; if (cons[i]->IsConnected() != want) fail("is-connected", "%s: connection %zu (slot %d) reports %d, expected %d", who, i, conSub[i], (int) cons[i]->IsConnected(), (int) want); }
			for (std::size_t i = 0; i < guards.size(); ++i) { bool want = guardSub[i] != None && subSig[(std::size_t) guardSub[i]] != None; if (guards[i]->IsConnected() != want || guards[i]->GetConnection().IsConnected() != want) fail("is-connected", "%s: guard %zu (slot %d) reports %d, expected %d", who, i, guardSub[i], (int) guards[i]->IsConnected(), (int) want); }
			i64 on = 0; for (int s : subSig) on += s != None;
			if (on != alive) fail("callback-lifetime", "%s: %lld callbacks alive, %lld slots connected", who, (long long) alive, (long long) on);
			if (emit) for (std::size_t i = 0; i < sigs.size(); ++i) if (sigs[i])
			{
				hits.clear(); emitting = (int) i; std::vector<int> due = subSig; selfOff = true; (*sigs[i])((int) i + 50); selfOff = false; emitting = None; cx.count("emission");
				for (std::size_t k = 0; k < subSig.size(); ++k) { int want = due[k] == (int) i, got = hits.count((int) k) ? hits[(int) k] : 0; if (got != want) fail("delivery", "%s: slot %zu was called %d time(s) by signal %zu, expected %d", who, k, got, i, want); }
			}
		}
	};
	void history(Ctx& cx, bool owning)
	{
		Rng& r = cx.rng; World w(cx); w.subSig.reserve(1024);
		std::size_t ns = 1 + r.below(3); for (std::size_t i = 0; i < ns; ++i) w.sigs.push_back(std::make_unique<Sig>());
		for (std::size_t i = 0; i < 5; ++i) { w.cons.push_back(std::make_unique<Con>()); w.conSub.push_back(None); }
		for (std::size_t i = 0; i < 4; ++i) { w.guards.push_back(std::make_unique<Guard>()); w.guardSub.push_back(None); }
		w.verify("initially", true);
		std::size_t steps = 12 + r.below(50);
		for (std::size_t st = 0; st < steps && w.subSig.size() < 200; ++st)
		{
			int op = (int) r.below(27); cx.mix((u64) op);
			switch (op)
			{
				case 0: case 1: case 2: { std::size_t s = w.sig(), c = w.con(); Sig& S = w.S(s); auto p = w.cap((int) s); int id = p->id; if (owning && r.chance(1, 2)) { std::size_t g = w.guard(); p->own = std::make_unique<Guard>(std::move(*w.guards[g])); p->ownSub = w.guardSub[g]; w.guardSub[g] = None; } cx.log("con %zu = signal %zu slot %d", c, s, id); w.conSub[c] = id; *w.cons[c] = S.Connect(w.fn(std::move(p))); break; }
				case 3: { std::size_t s = w.sig(), c = w.con(); Sig& S = w.S(s); auto p = w.cap((int) s); int id = p->id; cx.log("con %zu .Connect signal %zu slot %d", c, s, id); w.conSub[c] = id; w.cons[c]->Connect(S, w.fn(std::move(p))); break; }
				case 4: { std::size_t s = w.sig(); Sig& S = w.S(s); auto p = w.cap((int) s); cx.log("connect slot %d to signal %zu, connection dropped", p->id, s); S.Connect(w.fn(std::move(p))); break; }
				case 5: case 6: { std::size_t s = w.sig(), g = w.guard(); Sig& S = w.S(s); auto p = w.cap((int) s); int id = p->id; cx.log("guard %zu .Connect signal %zu slot %d", g, s, id); int old = w.guardSub[g]; w.guardSub[g] = id; w.off(old); w.guards[g]->Connect(S, w.fn(std::move(p))); break; }
				case 7: { std::size_t s = w.sig(), g = w.guard(); Sig& S = w.S(s); auto p = w.cap((int) s); int id = p->id; cx.log("guard %zu = signal %zu slot %d", g, s, id); int old = w.guardSub[g]; w.guardSub[g] = id; w.off(old); *w.guards[g] = S.Connect(w.fn(std::move(p))); break; }
				case 8: { std::size_t c = w.con(); cx.log("con %zu disconnect", c); w.off(w.conSub[c]); w.cons[c]->Disconnect(); if (r.coin()) w.cons[c]->Disconnect(); break; }
				case 9: { std::size_t g = w.guard(); cx.log("guard %zu disconnect", g); w.off(w.guardSub[g]); if (r.coin()) w.guards[g]->Disconnect(); else w.guards[g]->GetConnection().Disconnect(); break; }
				case 10: { std::size_t a = w.con(), b = w.con(); cx.log("con %zu = con %zu", a, b); *w.cons[a] = *w.cons[b]; w.conSub[a] = w.conSub[b]; break; }
				case 11: { std::size_t a = w.con(), b = w.con(); if (a == b) break; cx.log("con %zu = move(con %zu)", a, b); *w.cons[a] = std::move(*w.cons[b]); w.conSub[a] = w.conSub[b]; w.conSub[b] = None; break; }
				case 12: { std::size_t a = w.con(), b = w.con(); cx.log("con %zu re-created from con %zu", a, b); bool mv = a != b && r.coin(); auto n = mv ? std::make_unique<Con>(std::move(*w.cons[b])) : std::make_unique<Con>(*w.cons[b]); int id = w.conSub[b]; if (mv) w.conSub[b] = None; w.cons[a] = std::move(n); w.conSub[a] = id; break; }
				case 13: { std::size_t a = w.con(); cx.log("con %zu dropped", a); w.cons[a] = std::make_unique<Con>(); w.conSub[a] = None; break; }
				case 14: { std::size_t g = w.guard(), c = w.con(); if (w.guardSub[g] == w.conSub[c]) break; bool mv = r.coin(); cx.log("guard %zu = %s(con %zu)", g, mv ? "move" : "copy", c); w.off(w.guardSub[g]); w.guardSub[g] = w.conSub[c]; if (mv) { *w.guards[g] = std::move(*w.cons[c]); w.conSub[c] = None; } else { const Con& k = *w.cons[c]; *w.guards[g] = k; } break; }
				case 15: { std::size_t g = w.guard(), c = w.con(); bool mv = r.coin(); cx.log("guard %zu re-created from %s con %zu", g, mv ? "moved" : "copied", c); w.off(w.guardSub[g]); w.guardSub[g] = None; w.guards[g].reset(); const Con& k = *w.cons[c]; w.guards[g] = mv ? std::make_unique<Guard>(std::move(*w.cons[c])) : std::make_unique<Guard>(k); w.guardSub[g] = w.conSub[c]; if (mv) w.conSub[c] = None; break; }
				case 16: { std::size_t a = w.guard(), b = w.guard(); if (a == b || (w.guardSub[a] == w.guardSub[b])) break; cx.log("guard %zu = move(guard %zu)", a, b); w.off(w.guardSub[a]); *w.guards[a] = std::move(*w.guards[b]); w.guardSub[a] = w.guardSub[b]; w.guardSub[b] = None; break; }
				case 17: { std::size_t b = w.guard(); cx.log("guard %zu moved to a new guard%s", b, r.coin() ? "" : " "); auto n = std::make_unique<Guard>(std::move(*w.guards[b])); if (w.guards[b]->IsConnected()) fail("moved-from", "a moved-from guard is still connected"); w.guards[b] = std::move(n); break; }
				case 18: { std::size_t g = w.guard(); cx.log("guard %zu destroyed", g); w.off(w.guardSub[g]); w.guardSub[g] = None; w.guards[g] = nullptr; w.guards[g] = std::make_unique<Guard>(); cx.count("guard destroyed"); break; }
				case 19: { std::size_t g = w.guard(), c = w.con(); cx.log("con %zu = guard %zu's connection", c, g); *w.cons[c] = w.guards[g]->GetConnection(); w.conSub[c] = w.guardSub[g]; break; }
				case 20: { std::size_t s = w.sig(); if (!w.sigs[s]) break; cx.log("signal %zu Clear", s); w.rebind(s, None); w.sigs[s]->Clear(); cx.count("clear"); break; }
				case 21: { std::size_t s = w.sig(); if (!w.sigs[s]) break; cx.log("signal %zu destroyed", s); w.rebind(s, None); w.sigs[s].reset(); cx.count("signal destroyed"); break; }
				case 22: { std::size_t a = w.sig(), b = w.sig(); Sig& A = w.S(a); Sig& B = w.S(b); cx.log("signal %zu = signal %zu (copy)", a, b); if (r.coin()) A = B; else { Sig c(B); c(1); if (r.coin()) A = c; } break; }
				case 23: { std::size_t a = w.sig(), b = w.sig(); if (a == b) break; Sig& A = w.S(a); Sig& B = w.S(b); cx.log("signal %zu = move(signal %zu)", a, b); w.rebind(a, None); w.rebind(b, (int) a); A = std::move(B); cx.count("signal move assignment"); break; }
				case 24: { std::size_t b = w.sig(); Sig& B = w.S(b); cx.log("signal %zu moved to a new signal", b); auto n = std::make_unique<Sig>(std::move(B)); w.emitting = None; B(1); /* the source has no slot: any call would fail */ if (r.coin()) { auto keep = std::move(w.sigs[b]); w.sigs[b] = std::move(n); } else { w.rebind(b, None); if (r.coin()) n->Clear(); n.reset(); } cx.count("signal move construction"); break; }
				case 25: // a connection which memory runs out for leaves everything as it was (a guard may have dropped its slot)
				{
					std::size_t s = w.sig(), c = w.con(), g = w.guard(); Sig& S = w.S(s); int form = (int) r.below(3); auto p = w.cap(None); int id = p->id, old = w.guardSub[g]; auto f = std::make_optional(w.fn(std::move(p))); int oldSig = old == None ? None : w.subSig[(std::size_t) old]; bool failed = false; i64 at = (i64) r.below(5);
					cx.log("connect slot %d to signal %zu (form %d: con %zu, guard %zu), allocation %d failing", id, s, form, c, g, (int) at);
					if (form == 2) w.off(old); // a callback released meanwhile is that of a disconnected slot
					heap.failIn = at;
					try { if (form == 0) S.Connect(std::move(*f)); else if (form == 1) w.cons[c]->Connect(S, std::move(*f)); else w.guards[g]->Connect(S, std::move(*f)); } catch (const std::bad_alloc&) { failed = true; }
					heap.failIn = -1; f.reset();
					if (!failed) { w.subSig[(std::size_t) id] = (int) s; if (form == 1) w.conSub[c] = id; if (form == 2) w.guardSub[g] = id; }
					else if (form == 2) { if (oldSig != None && w.guards[g]->IsConnected()) w.subSig[(std::size_t) old] = oldSig; else w.guardSub[g] = None; }
					cx.count(failed ? "connection without memory" : "connection"); break;
				}
				default: break;
			}
			w.verify("after operation", r.coin());
		}
		w.verify("at the end", true);
		if (r.coin()) { for (std::size_t i = 0; i < w.guards.size(); ++i) { w.off(w.guardSub[i]); w.guardSub[i] = None; w.guards[i] = std::make_unique<Guard>(); } w.verify("guards dropped", true); }
		for (std::size_t s = 0; s < ns; ++s) { w.rebind(s, None); w.sigs[s].reset(); }
		w.verify("signals destroyed", false);
	}
	void plain(Ctx& cx) { history(cx, false); }
	void owning(Ctx& cx) { history(cx, true); }
}
VX_FN("history", 1500, 40000, plain)
VX_FN("history-callbacks-owning-guards", 1500, 40000, owning)
