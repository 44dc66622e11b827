// C09: simultaneous opens and restarts.
#include "flows.hpp"
using namespace sim;

static const double OFFS[] = { 0, 0.0005, 0.001, 0.01, 0.0245, 0.0251, 0.026, 0.04, 0.0499, 0.0501, 0.06, 0.0749, 0.0751, 0.09, 0.0999, 0.1001, 0.11, 0.13, 0.3, 1.02, 1.1 };
struct Glare { std::string name, an = "alice", bn = "bob"; std::string aEpd, bEpd; bool threads = false; int extra = 0; double lat = 0.025; bool echo = false; double deadTo = 0; int deadDir = 0; };

static void glare(Ctx &ctx, const Glare &g, FaultPlan plan)
{
	Sim s(ctx); App app(s); s.latency = g.lat;
	Host &a = s.add(g.an, "10.0.0.1:1935"), &b = s.add(g.bn, "10.0.0.2:1935");
	double off = OFFS[ctx.choose(sizeof OFFS / sizeof *OFFS, 0, "offset")] * (g.lat / 0.025);
	auto fp = std::make_shared<FaultPlan>(plan);
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) { if(s.now < 1000 + g.deadTo and (g.deadDir & (p.from == a.idx ? 1 : 2))) { d.clear(); return; } fp->apply(ctx, p, d); };
	int slow = 0;
	if(g.threads) s.taskDelay = [&] (Host &, unsigned long) -> double { if(slow++ > 16) return 0; int c = ctx.choose(3, 1, "crypto"); return c ? c == 1 ? 0.06 : 1.7 : 0; };
	app.acceptAll(a); app.acceptAll(b);
	std::vector<Tx *> ta, tb;
	auto open = [&] (Host &h, Host &to, const std::string &epd, std::vector<Tx *> &v, const std::string &pfx) {
		for(int i = 0; i <= g.extra; i++) { Tx &t = app.open(h, epd.empty() ? to.name : epd, fmt("%s%d", pfx.c_str(), i), &to.address); v.push_back(&t); app.write(t, 1300); app.write(t, 7); }
	};
	// A keying packet that arrives only after the receiver's session with the sender has opened cannot be told from a
	// restart (RFC 7016 3.5.1): such executions are only required to settle.
	bool overtaken = false; std::map<int, std::set<uint32_t>> answered;
	auto isid = [] (const Parsed &q) { uint32_t v = 0; for(auto &c : q.chunks) if(c.type == CHUNK_IIKEYING and c.payload.size() > 4) memcpy(&v, c.payload.data(), 4); return v; };
	s.onSend.push_back([&] (const Pkt &p) { auto q = parsePacket(p.data); if(q.has(CHUNK_RIKEYING)) answered[p.from].insert(q.sid); });
	s.onDeliver.push_back([&] (const Pkt &p) {
		auto q = parsePacket(p.data); uint32_t id = isid(q); if(not id) return;
		int h = p.from == a.idx ? b.idx : a.idx; if(answered[h].count(id)) return;
		bool open = not answered[h].empty();
		for(auto t : h == a.idx ? ta : tb) open |= not t->flow->getFarCanonicalEPD().empty();
		if(open) overtaken = true;
	});
	open(a, b, g.aEpd, ta, "a");
	s.after(off, [&] { open(b, a, g.bEpd, tb, "b"); });
	bool ok = s.runUntil([&] { if(tb.empty()) return false; for(auto v : { &ta, &tb }) for(auto t : *v) if(t->flow->getBufferedSize()) return false; return true; }, 1000 + 94);
	double took = s.now - 1000;
	s.run(s.now + 5); ctx.bail();
	if(overtaken)
	{
		ctx.count("late keying taken for a restart");
		s.policy = nullptr; s.run(s.now + 700); ctx.bail();
		for(auto v : { &ta, &tb }) for(auto t : *v) ctx.require(t->exceptions <= 1 and (t->exceptions == 1 or t->flow->isOpen()), "a flow closed without its exception");
		for(int dir = 0; dir < 2; dir++)
		{
			bool got = false;
			for(int i = 0; i < 2 and not got; i++)
			{
				Tx &t = dir ? app.open(b, g.an, fmt("again-b%d", i), &a.address) : app.open(a, g.bn, fmt("again-a%d", i), &b.address); app.write(t, 9);
				s.runUntil([&] { return t.exceptions or t.flow->getBufferedSize() == 0; }, s.now + 130); ctx.bail();
				Rx *r = app.find(fmt("again-%s%d", dir ? "b" : "a", i)); got = r and r->msgs.size() == 1;
			}
			ctx.require(got, "endpoints cannot reach each other after a late keying packet");
		}
		return;
	}
	ctx.require(ok, "flows of a simultaneous open not delivered after %.0f s", s.now - 1000);
	for(size_t i = 0; i < ta.size(); i++) { checkExact(ctx, app, *ta[i], fmt("a%zu", i), b.idx); checkExact(ctx, app, *tb[i], fmt("b%zu", i), a.idx); }
	for(auto v : { &ta, &tb }) for(auto t : *v) ctx.require(t->exceptions == 0 and t->flow->isOpen(), "a flow failed although both ends are reachable");
	Bytes an = ta[0]->flow->getNearNonce(), af = ta[0]->flow->getFarNonce();
	for(auto t : ta) ctx.require(t->flow->getNearNonce() == an and t->flow->getFarNonce() == af and S(t->flow->getFarCanonicalEPD()) == g.bn, "flows of one endpoint are in different sessions");
	for(auto t : tb) ctx.require(t->flow->getNearNonce() == af and t->flow->getFarNonce() == an and S(t->flow->getFarCanonicalEPD()) == g.an, "the two directions do not share one session");
	// still usable afterwards
	app.write(*ta[0], 30); app.write(*tb[0], 40);
	ok = s.runUntil([&] { return ta[0]->flow->getBufferedSize() == 0 and tb[0]->flow->getBufferedSize() == 0; }, s.now + 10); ctx.bail();
	ctx.require(ok, "session is not usable after a simultaneous open");
	checkExact(ctx, app, *ta[0], "a0", b.idx); checkExact(ctx, app, *tb[0], "b0", a.idx);
	ctx.summary = fmt("%s offset %.4f: %.2f s", g.name.c_str(), off, took);
}

struct Restart { std::string name; bool other = false; bool aliceInit = true; bool outstanding = false, newFlowAtSurvivor = false; double gap = 2; bool survivorOpensToo = false; double survOff = 0; bool aliveOther = false; int times = 1; };
static void restart(Ctx &ctx, const Restart &r, FaultPlan plan)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"); Host *b = &s.add("bob", "10.0.0.2:1935");
	app.acceptAll(a); app.acceptAll(*b);
	// a session between them, with flows in both directions
	Tx *ta, *tb;
	if(r.aliceInit) { ta = &app.open(a, "bob", "a-old", &b->address); tb = &app.open(*b, "alice", "b-old"); }
	else { tb = &app.open(*b, "alice", "b-old", &a.address); ta = &app.open(a, "bob", "a-old"); }
	app.write(*ta, 100); app.write(*tb, 100);
	s.runUntil([&] { return app.rx.size() == 2 and app.rx[0]->msgs.size() and app.rx[1]->msgs.size(); }, s.now + 10);
	ctx.require(app.rx.size() == 2, "session did not open on a perfect network");
	s.run(s.now + 1);
	Rx *rxAtA = app.find("b-old", a.idx); ctx.require(rxAtA, "old flow missing");
	Tx *cur = nullptr, *mid = nullptr; std::vector<Tx *> stale { ta }; std::vector<Rx *> staleRx { rxAtA }; double restartAt = 0;
	for(int n = 0; n < r.times; n++)
	{
		// restart: same address, fresh instance
		b->up = false;
		Host &nb = s.add(r.other ? "mallory" : "bob", "10.0.0.2:1935", fmt("%d", n + 2)); Host *old = b; b = &nb; (void)old;
		app.acceptAll(nb);
		if(r.outstanding) app.write(*stale.back(), 500);
		s.run(s.now + r.gap); ctx.bail();
		if(r.newFlowAtSurvivor) { mid = &app.open(a, "bob", fmt("a-mid%d", n)); app.write(*mid, 60); stale.push_back(mid); }
		restartAt = s.now;
		auto fp = std::make_shared<FaultPlan>(plan);
		s.policy = [&ctx, fp] (Pkt &p, std::vector<double> &d) { fp->apply(ctx, p, d); };
		cur = &app.open(nb, "alice", fmt("b-new%d", n), &a.address); app.write(*cur, 1400); app.write(*cur, 30);
		Tx *both = nullptr;
		if(r.survivorOpensToo) s.after(r.survOff, [&] { both = &app.open(a, r.other ? "mallory" : "bob", "a-both", &nb.address); app.write(*both, 77); });
		if(r.other)
		{
			bool wasOpen = ta->flow->isOpen();
			s.run(s.now + 98); ctx.bail();
			ctx.require(wasOpen and ta->exceptions == 0 and rxAtA->completes == 0, "a different identity at the peer's address displaced the session");
			ctx.require(cur->exceptions == 1 and app.find("b-new0", a.idx) == nullptr, "an endpoint with another identity got a session over the existing one");
			ctx.require(S(ta->flow->getFarCanonicalEPD()) == "bob", "identity of the session changed");
			ctx.count("displacements refused");
			return;
		}
		bool ok = s.runUntil([&] { return cur->flow->getBufferedSize() == 0; }, s.now + 90); ctx.bail();
		ctx.require(ok, "restarted endpoint's flow not delivered");
		s.run(s.now + 6); ctx.bail();
		checkExact(ctx, app, *cur, fmt("b-new%d", n), a.idx);
		ctx.require(cur->exceptions == 0, "the restarted endpoint's flow failed");
		for(auto t : stale) { bool rebound = t->exceptions == 0 and t->flow->isOpen() and t->flow->getNearNonce() == cur->flow->getFarNonce(); ctx.require(t->exceptions == 1 or (rebound and t != ta), "a flow of the stale session got %d exceptions", t->exceptions); ctx.require(rebound or not t->flow->isOpen(), "a flow of the stale session is still open"); }
		for(auto x : staleRx) ctx.require(x->completes == 1 and x->errors == 1, "an incoming flow of the stale session was told %d times", x->completes);
		// the new session works in both directions; a flow opened now by the survivor uses it
		Tx &back = app.open(a, "bob", fmt("a-new%d", n)); app.write(back, 2000);
		ok = s.runUntil([&] { return back.flow->getBufferedSize() == 0; }, s.now + 20); ctx.bail();
		ctx.require(ok, "the surviving endpoint cannot use the new session");
		checkExact(ctx, app, back, fmt("a-new%d", n), b->idx);
		ctx.require(back.flow->getNearNonce() == cur->flow->getFarNonce() and back.flow->getFarNonce() == cur->flow->getNearNonce(), "the survivor's flow is not in the new session");
		if(both) { ctx.require(both->exceptions == 0 and both->flow->getBufferedSize() == 0, "flow opened by the survivor meanwhile failed"); checkExact(ctx, app, *both, "a-both", b->idx); }
		ta = &back; stale = { ta }; rxAtA = app.find(fmt("b-new%d", n), a.idx); staleRx = { rxAtA };
		ctx.count("restarts survived");
	}
	ctx.summary = fmt("%s", r.name.c_str());
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C09";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto adapter whose glare winner and override rules are name-based" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 1 : 0;
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 14; p.faults = { F_DROP, F_DELAY_SHORT, F_DELAY_LONG, F_DUP_LATE }; p.shortDelay = 0.06;
		FaultPlan none; none.window = 0;
		auto add = [&] (Glare g, int budget, const FaultPlan &pl) { v.push_back({ "glare/" + g.name, budget, [=] (Ctx &c) { glare(c, g, pl); } }); };
		Glare g; g.name = "winner-first"; add(g, 2 + k, p);
		g.an = "zed"; g.name = "loser-first"; add(g, 2 + k, p);
		g = Glare(); g.extra = 1; g.name = "two-each"; add(g, 1 + k, p);
		g.an = "zed"; g.name = "two-each-loser"; add(g, 1 + k, p);
		g = Glare(); g.aEpd = "any"; g.bEpd = "grp:a"; g.name = "loose-epds"; add(g, 1 + k, p);
		g = Glare(); g.threads = true; g.name = "slow-crypto"; add(g, 2 + k, none); g.an = "zed"; g.name = "slow-crypto-loser"; add(g, 2 + k, none);
		g = Glare(); g.threads = true; g.name = "slow-crypto-faults"; { FaultPlan q = p; q.faults = { F_DROP, F_DELAY_SHORT }; add(g, 1 + k, q); g.an = "zed"; g.name += "-loser"; add(g, 1 + k, q); }
		for(double d : { 2., 20., 45. }) for(int dir : { 1, 2, 3 }) for(int l : { 0, 1 }) { g = Glare(); g.deadTo = d; g.deadDir = dir; if(l) g.an = "zed"; g.name = fmt("dead-%.0f-dir%d-%d", d, dir, l); add(g, 0, p); }
		FaultPlan ls; ls.window = th ? 10 : 8; ls.faults = { F_DROP }; ls.cost = 0;
		g = Glare(); g.name = "all-losses"; add(g, 0, ls);
		auto radd = [&] (Restart r, int budget) { v.push_back({ "restart/" + r.name, budget, [=] (Ctx &c) { restart(c, r, p); } }); };
		for(int init = 0; init < 2; init++) for(int o = 0; o < 2; o++) for(int m = 0; m < 2; m++)
		{
			Restart r; r.aliceInit = init; r.outstanding = o; r.newFlowAtSurvivor = m; r.name = fmt("same-init%d-out%d-mid%d", init, o, m); radd(r, 2 + k);
			r.other = true; r.name = fmt("other-init%d-out%d-mid%d", init, o, m); radd(r, 1 + k);
		}
		for(double gap : { 0.0, 0.3, 30., 80. }) { Restart r; r.gap = gap; r.outstanding = gap < 50; r.name = fmt("gap-%.1f", gap); radd(r, 1 + k); }
		{ Restart r; r.times = 3; r.name = "thrice"; radd(r, 1 + k); }
		return v;
	});
}
