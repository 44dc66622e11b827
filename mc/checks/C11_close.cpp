// C11: closing sessions and shutting down.
#include "flows.hpp"
using namespace sim;

enum How { CLOSE_SEND, CLOSE_RECV, SHUT, SHUT_NOW, SHUT_TWICE, NHOW };
static const char *howName[] = { "close-by-sender", "close-by-receiver", "shutdown", "shutdown-now", "shutdown-then-now" };

struct Spec { std::string name; int how = 0, who = 0, how2 = -1; std::vector<double> offsets; bool slow = false, carol = false; double deadAt = -1; int times = 40, stride = 1; double again = -1; };

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan, int drops)
{
	Sim s(ctx); App app(s); s.latency = 0.02;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	Host *c = sp.carol ? &s.add("carol", "10.0.0.3:1935") : nullptr;
	Host *hs[] = { &a, &b };
	app.acceptAll(a); app.acceptAll(b); if(c) app.acceptAll(*c);
	if(sp.slow) s.taskDelay = [&] (Host &h, unsigned long) { return h.idx ? 0.031 : 0.017; };
	bool acted = false; plan.match = [&] (const Pkt &p) { return acted and p.from < 2 and not (c and p.dst == c->address); };
	plan.install(s);
	auto inner = s.policy; int lost = 0, closesLost = 0;
	s.policy = [&] (Pkt &p, std::vector<double> &d) { inner(p, d); if(c and (p.from == 2 or p.dst == c->address)) for(auto &x : d) x += 0.0031; if(d.empty()) { lost++; auto q = parsePacket(p.data); if(q.has(CHUNK_CLOSE) or q.has(CHUNK_CLOSE_ACK)) closesLost++; } };
	// traffic
	std::vector<Tx *> ts; bool bobOpened = false;
	auto opened = [&] (Tx &t) { ts.push_back(&t); for(int i = 0; i < 3; i++) app.write(t, 700 + 900 * i); };
	app.onNew = [&] (Rx &r) { if(r.host == b.idx and not bobOpened) { bobOpened = true; auto f = r.flow->openReturnFlow(B("ret")); if(f) { Tx &t = app.wrap(b.idx, f); opened(t); } auto g = r.flow->openFlow(B("own")); if(g) { Tx &t = app.wrap(b.idx, g); opened(t); } } };
	Tx &t0 = app.open(a, "bob", "f0", &b.address); opened(t0);
	Tx &t1 = app.open(a, "bob", "f1", &b.address); opened(t1);
	Tx &tc = app.open(a, "bob", "closed", &b.address); app.write(tc, 10);
	Tx *tcar = nullptr; if(c) { tcar = &app.open(a, "carol", "car", &c->address); for(int i = 0; i < 5; i++) app.write(*tcar, 1500); }
	t0.flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(a.idx, f); };
	s.after(0.21, [&] { app.close(tc); });
	s.after(1.5, [&] { if(t1.flow->isOpen()) app.write(t1, 5000); });
	if(sp.deadAt >= 0) s.after(sp.deadAt, [&] { hs[1 - sp.who]->muted = true; });
	// what happened at each end
	double shutAt[2] = { -1, -1 }, closeAt[2] = { -1, -1 }; bool immediate[2] = { false, false }; int sentAfterDone = 0;
	s.onSend.push_back([&] (const Pkt &p) { if(p.from > 1) return; Host &h = *hs[p.from]; if(h.shutdownCompletes and parsePacket(p.data).sid and s.now > h.shutdownAt) sentAfterDone++; });
	auto bound = [&] (const Tx &t) { return not t.flow->getFarCanonicalEPD().empty(); };
	auto inSession = [&] (int w) { for(auto &t : app.tx) if(t->host == w and bound(*t) and S(t->flow->getFarCanonicalEPD()) == hs[1 - w]->name) return true; for(auto &r : app.rx) if(r->host == w and S(r->flow->getFarCanonicalEPD()) == hs[1 - w]->name) return true; return false; };
	// at this end, every flow of the session with the other end must have been told by now
	auto told = [&] (int w, const std::vector<Tx *> &txs, const std::vector<Rx *> &rxs, const char *when) {
		for(auto t : txs) if(not t->closed) { ctx.require(t->exceptions == 1, "%s: a sending flow of %s got %d failure notifications %s", sp.name.c_str(), hs[w]->name.c_str(), t->exceptions, when); ctx.require(not t->flow->isOpen() and not t->flow->write("x", 1), "a flow is usable after its session closed"); }
		for(auto r : rxs) ctx.require(r->completes == 1, "%s: a receiving flow of %s got %d end notifications %s", sp.name.c_str(), hs[w]->name.c_str(), r->completes, when);
	};
	std::vector<Tx *> liveT[2]; std::vector<Rx *> liveR[2];
	auto snapshot = [&] (int w, bool all) {
		liveT[w].clear(); liveR[w].clear();
		for(auto &t : app.tx) if(t->host == w and not t->closed and not t->exceptions and (all or (bound(*t) and S(t->flow->getFarCanonicalEPD()) == hs[1 - w]->name))) liveT[w].push_back(t.get());
		for(auto &r : app.rx) if(r->host == w and not r->completes and (all or S(r->flow->getFarCanonicalEPD()) == hs[1 - w]->name)) liveR[w].push_back(r.get());
	};
	auto act = [&] (int w, int how) {
		acted = true; Host &h = *hs[w];
		switch(how)
		{
		case CLOSE_SEND: case CLOSE_RECV:
			{
				snapshot(w, false);
				Flow *f = nullptr;
				if(how == CLOSE_SEND) { for(auto t : liveT[w]) f = t->flow.get(); } else for(auto r : liveR[w]) f = r->flow.get();
				if(not f) { liveT[w].clear(); liveR[w].clear(); ctx.count("nothing to close yet"); return; }
				closeAt[w] = s.now;
				f->closeSession();
				told(w, liveT[w], liveR[w], "at once");
				ctx.count("sessions closed");
			}
			break;
		default:
			snapshot(w, true);
			if(shutAt[w] < 0) shutAt[w] = s.now;
			closeAt[w] = s.now; immediate[w] = how == SHUT_NOW;
			h.rtmfp->shutdown(how == SHUT_NOW);
			ctx.require(not h.rtmfp->openFlow(B("bob"), B("late")), "a flow was opened after shutdown");
			s.after(0, [&, w] { told(w, liveT[w], liveR[w], "after shutdown"); });
			ctx.count("shutdowns");
			if(how == SHUT_TWICE) s.after(sp.again, [&, w] { immediate[w] = true; shutAt[w] = s.now; hs[w]->rtmfp->shutdown(true); });
			break;
		}
	};
	int at = ctx.choose(sp.times, 0, "when") * sp.stride, n = 0;
	double off = sp.how2 >= 0 ? sp.offsets[ctx.choose((int)sp.offsets.size(), 0, "offset")] : 0;
	double T = -1;
	s.onStep.push_back([&] { if(n++ == at) { s.after(0, [&] { T = s.now; act(sp.who, sp.how); }); if(sp.how2 >= 0) s.after(off, [&] { act(1 - sp.who, sp.how2); }); } });
	s.runUntil([&] { return T >= 0; }, s.now + 30); ctx.bail();
	if(T < 0) { ctx.count("times past the end"); return; }
	bool wasOpen[2] = { inSession(0), inSession(1) };
	// peers learn of it
	s.run(T + 0.5 + off); ctx.bail();
	for(int w = 0; w < 2; w++)
	{
		int o = 1 - w;
		if(closeAt[w] < 0 or immediate[w] or closeAt[o] >= 0) continue;
		(void)o;
	}
	double deadline = T + off + 7 + 5.2 * drops;
	s.run(deadline); ctx.bail();
	for(int w = 0; w < 2; w++)
	{
		int o = 1 - w;
		if(closeAt[w] < 0 or closeAt[o] >= 0 or hs[o]->muted or not (wasOpen[w] and wasOpen[o])) continue;
		if(immediate[w] and closesLost) continue; // its one packet was lost
		for(auto &t : app.tx) if(t->host == o and not t->closed and t.get() != tcar and bound(*t)) ctx.require(false, "%s: the other end still has an open flow %.1f s after the close", sp.name.c_str(), s.now - T);
		for(auto &t : app.tx) if(t->host == o and not t->closed and t->exceptions == 0 and t.get() != tcar) ctx.require(false, "%s: a flow of the other end was never told", sp.name.c_str());
		for(auto &r : app.rx) if(r->host == o and S(r->meta) != "car") ctx.require(r->completes == 1, "%s: a receiving flow of the other end got %d notifications", sp.name.c_str(), r->completes);
		ctx.count("closes noticed by the other end");
	}
	for(int w = 0; w < 2; w++) if(shutAt[w] >= 0 and immediate[w]) { ctx.require(hs[w]->shutdownCompletes == 1, "immediate shutdown not complete after %.1f s", s.now - shutAt[w]); ctx.require(hs[w]->shutdownAt - shutAt[w] <= 0.2, "immediate shutdown took %.2f s", hs[w]->shutdownAt - shutAt[w]); }
	// carol is not involved in closing bob's session
	if(c and shutAt[0] < 0)
	{
		app.write(*tcar, 300); s.run(s.now + 2); ctx.bail();
		ctx.require(tcar->exceptions == 0, "closing one session failed a flow of another"); checkExact(ctx, app, *tcar, "car", c->idx);
	}
	// a new session can be opened right away by an end that is not shut down, to an end that is not shut down
	bool reopen = shutAt[0] < 0 and shutAt[1] < 0 and closeAt[0] + closeAt[1] > 0 and sp.deadAt < 0;
	if(reopen)
	{
		double wait[] = { 0, 11, 25 }; s.run(s.now + wait[ctx.choose(3, 0, "reopen after")]); s.policy = nullptr;
		Tx &t = app.open(a, "bob", "anew", &b.address); app.write(t, 2500);
		Tx &u = app.open(b, "alice", "anew-b", &a.address); app.write(u, 2500);
		s.run(s.now + 30); ctx.bail();
		checkExact(ctx, app, t, "anew", b.idx); checkExact(ctx, app, u, "anew-b", a.idx);
		ctx.require(t.exceptions == 0 and u.exceptions == 0, "a flow opened after the close failed");
	}
	double end = std::max(T + off + 96, sp.again + T + 1);
	s.run(end); ctx.bail();
	// nothing of the session is left: no traffic about it any more
	for(int w = 0; w < 2; w++) if(shutAt[w] >= 0)
	{
		ctx.require(hs[w]->shutdownCompletes == 1, "%s: shutdown of %s reported complete %d times", sp.name.c_str(), hs[w]->name.c_str(), hs[w]->shutdownCompletes);
		ctx.require(hs[w]->shutdownAt - shutAt[w] <= 95.01, "orderly shutdown took %.1f s", hs[w]->shutdownAt - shutAt[w]);
		for(auto &t : app.tx) if(t->host == w and not t->closed) ctx.require(t->exceptions == 1 and t->exceptionAt <= hs[w]->shutdownAt, "a flow outlived the shutdown of its instance");
		for(auto &r : app.rx) if(r->host == w) ctx.require(r->completes == 1 and r->completeAt <= hs[w]->shutdownAt, "a receiving flow outlived the shutdown of its instance");
		// and nobody can open a session to it
		Host &o = *hs[1 - w]; if(shutAt[1 - w] < 0 and not o.muted) { s.policy = nullptr; Tx &t = app.open(o, hs[w]->name, "toolate", &hs[w]->address); app.write(t, 10); s.run(s.now + 140); ctx.bail(); ctx.require(t.exceptions == 1 and not app.find("toolate"), "a session opened to an endpoint that is shut down"); }
	}
	if(not reopen and closeAt[sp.who] >= 0 and wasOpen[sp.who])
	{
		int more = 0; s.onSend.push_back([&] (const Pkt &p) { if(p.from == sp.who and (not c or not (p.dst == c->address)) and parsePacket(p.data).sid) more++; });
		if(shutAt[0] < 0 and shutAt[1] < 0) { s.run(s.now + 30); ctx.bail(); ctx.require(more == 0, "%d packets on the closed session after it was to be over", more); }
	}
	ctx.require(sentAfterDone == 0, "%d session packets after shutdown completed", sentAfterDone);
	for(auto &t : app.tx) for(size_t i = 0; i < t->finished.size(); i++) if(t->exceptions or t->closed) ctx.require(t->finished[i] == 1, "a write receipt of a closed session finished %d times", t->finished[i]);
	ctx.summary = fmt("%s at event %d, %d lost", sp.name.c_str(), at, lost);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C11";
	meta.assumptions = { "virtual network and time; interface writes are never blocked" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 2 : 1;
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 10; p.faults = { F_DROP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG }; p.shortDelay = 0.05;
		FaultPlan d = p; d.faults = { F_DROP, F_DELAY_LONG };
		auto add = [&] (Spec sp, int budget, const FaultPlan &pl) { v.push_back({ sp.name, budget, [=] (Ctx &c) { body(c, sp, pl, budget); } }); };
		for(int who : { 0, 1 }) for(int how = 0; how < NHOW; how++)
		{
			std::string nm = fmt("%s-%s", who ? "bob" : "alice", howName[how]);
			Spec x; x.who = who; x.how = how; x.times = 48;
			if(how == SHUT_TWICE) for(double g : { 0., 0.03, 3., 40. }) { x.again = g; x.name = nm + fmt("-%.2f", g); add(x, 1, d); }
			else { x.name = nm; add(x, k + (th ? 0 : 0), p); }
			x.again = 2; x.name = nm + "-slow"; x.slow = true; x.times = 30; add(x, 1, d);
			x.slow = false; x.deadAt = 0.3; x.name = nm + "-dead-peer"; x.times = 16; x.stride = 3; add(x, 0, p);
			x.deadAt = 0.03; x.name = nm + "-dead-early"; add(x, 0, p);
			x = Spec(); x.who = who; x.how = how; x.again = 5; x.carol = true; x.name = nm + "-carol"; x.times = 20; x.stride = 3; add(x, 1, d);
		}
		for(int h1 = 0; h1 < 4; h1++) for(int h2 = 0; h2 < 4; h2++)
		{
			Spec x; x.how = h1; x.how2 = h2; x.name = fmt("both-%s-%s", howName[h1], howName[h2]); x.offsets = { 0, 0.005, 0.0199, 0.0201, 0.05, 3, 18.5 }; x.times = th ? 24 : 12; x.stride = th ? 2 : 4;
			add(x, k, d);
		}
		return v;
	});
}
