// C12: dead peers, keepalive and idle limits.
#include "flows.hpp"
using namespace sim;

enum Traffic { T_CONT, T_ONCE, T_PEER, T_BOTH, T_BURST, NT };
static const char *tName[] = { "continuous", "once", "from-peer", "both-ways", "bursts" };
struct Lim { double rtx = -1, ka = -1, idle = -1; };
struct Spec { std::string name; Lim lim[2], later[2]; int traffic = T_CONT; double changeAt = -1; int nOut = 0; std::vector<double> outAt { -1 }, outLen { 0 }; int dir = 3; double closeAt = -1; bool byDefault = false; double horizon = 60; double jitter = 0; bool close2 = true; };

static double eff(double v, double dflt) { return v < 0 ? dflt : std::max(v, 1.); }

// What one end may and must do, computed from the packets that left it and reached it and from what its application did.
struct End {
	double limit = 120, ka = 3600, idle = 300, changedAt = -1e9;
	double openAt = -1, lastAck = -1e9, hi = -1, lastTx = -1, lastTry = -1, flowsGone = -1, closedAt = -1, peerCloseAt = -1, lastPing = -1; bool pingOut = false, prevOut = false; double quietSince = -1; double lastDataTry = -1;
	std::set<std::pair<uintmax_t, uintmax_t>> seen; int timeouts = 0, keepalives = 0, idleCloses = 0;
};

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s); s.latency = 0.02;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); Host *hs[] = { &a, &b };
	app.acceptAll(a); app.acceptAll(b);
	End e[2]; bool appClosed = false; const double MAXRTO = 10.0;
	auto setLim = [&] (int w, Flow *f, const Lim &l) {
		End &x = e[w];
		if(l.rtx >= 0) { if(f) f->setSessionRetransmitLimit(l.rtx); else hs[w]->rtmfp->setDefaultSessionRetransmitLimit(l.rtx); x.limit = eff(l.rtx, 120); }
		if(l.idle >= 0) { if(f) f->setSessionIdleLimit(l.idle); else hs[w]->rtmfp->setDefaultSessionIdleLimit(l.idle); x.idle = eff(l.idle, 300); }
		if(l.ka >= 0) { if(f) f->setSessionKeepalivePeriod(l.ka); else hs[w]->rtmfp->setDefaultSessionKeepalivePeriod(l.ka); x.ka = eff(l.ka, 3600); }
		x.changedAt = s.now;
	};
	if(sp.byDefault) for(int w : { 0, 1 }) setLim(w, nullptr, sp.lim[w]);
	double outFrom = -1, outTo = -1; auto fp = std::make_shared<FaultPlan>(plan); bool lostAny = false, armed = false, calm = true;
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) {
		if(sp.jitter) for(auto &x : d) x += sp.jitter * (p.id % 3);
		if(s.now >= outFrom and s.now < outTo and (sp.dir & (p.from == 0 ? 1 : 2))) { d.clear(); lostAny = true; return; }
		if(armed) { fp->apply(ctx, p, d); if(d.size() != 1 or d[0] > 0.5) calm = false; }
	};
	auto bound = [&] (const Tx &t) { return not t.flow->getFarCanonicalEPD().empty(); };
	s.onSend.push_back([&] (const Pkt &p) {
		auto q = parsePacket(p.data); if(q.mode() == 3) return;
		End &x = e[p.from]; double t = s.now;
		bool data = not userData(q).empty(), ping = false; for(auto &c : q.chunks) { if(c.type == CHUNK_PING and (c.payload.empty() or c.payload[0] != 'M')) ping = true; if(c.type == CHUNK_CLOSE) { if(x.closedAt < 0) x.closedAt = t; } }
		if(ping and x.closedAt < 0)
		{
			x.keepalives++;
			double quiet = x.lastTx < 0 ? x.openAt : x.lastTx;
			if(not x.pingOut) ctx.require(t >= quiet + x.ka - 1e-6, "keepalive %.3f s after the last packet with a period of %.3f s", t - quiet, x.ka);
			x.pingOut = true;
		}
		if((data or ping) and x.closedAt < 0)
		{
			if(x.hi < 0) x.hi = t;
			for(auto &u : userData(q)) if(x.seen.insert({ u.flow, u.sn }).second) x.lastTry = t;
		}
		if(data or ping or q.has(CHUNK_PING_REPLY) or not acks(q).empty()) x.lastTx = t;
	});
	s.onDeliver.push_back([&] (const Pkt &p) {
		auto q = parsePacket(p.data); if(q.mode() == 3) return; End &x = e[1 - p.from];
		if(x.closedAt < 0 and (not acks(q).empty() or q.has(CHUNK_PING_REPLY))) { x.lastAck = s.now; x.hi = -1; x.lastTry = -1; x.pingOut = false; if(lostAny) calm = false; }
		if(q.has(CHUNK_CLOSE) or q.has(CHUNK_CLOSE_ACK)) { if(x.peerCloseAt < 0) x.peerCloseAt = s.now; }
	});
	std::vector<Tx *> ts[2]; bool setup = false;
	// flows an end has in the session, as the application sees it
	auto hasFlows = [&] (int w) { for(auto &t : app.tx) if(t->host == w and bound(*t) and not t->exceptions and not (t->closed and t->flow->getBufferedSize() == 0)) return true; for(auto &r : app.rx) if(r->host == w and not r->completes and not r->closedByApp) return true; return false; };
	auto toldClosed = [&] (int w) { for(auto &t : app.tx) if(t->host == w and t->exceptions) return true; return false; };
	s.onStep.push_back([&] {
		for(int w : { 0, 1 })
		{
			End &x = e[w]; double t = s.now;
			if(x.openAt < 0) { if(hasFlows(w)) { x.openAt = t; x.flowsGone = -1; x.lastTx = std::max(x.lastTx, t - 1e-9); } else continue; }
			if(x.closedAt < 0 and toldClosed(w) and x.peerCloseAt < 0) x.closedAt = t;
			if(x.peerCloseAt >= 0 or appClosed) continue;
			if(x.closedAt >= 0)
			{
				if(x.closedAt != t) continue;
				if(x.hi < 0 and x.prevOut) x.hi = x.lastAck; // sent before that acknowledgement, and not answered by it
				// why did it close?
				bool idle = x.flowsGone >= 0 and t >= x.flowsGone + x.idle - 1e-6;
				double start = x.hi < 0 ? 1e18 : x.hi - x.lastAck <= MAXRTO ? x.lastAck : x.hi;
				bool dead = x.hi >= 0 and t >= start + x.limit - 1e-6;
				ctx.require(idle or dead, "%s closed the session %.2f s after the last sign of its peer (limit %.1f), %.2f s after its first unanswered packet; without flows for %.2f s (idle limit %.1f)", hs[w]->name.c_str(), t - x.lastAck, x.limit, x.hi < 0 ? -1 : t - x.hi, x.flowsGone < 0 ? 0 : t - x.flowsGone, x.idle);
				if(dead and not idle) { x.timeouts++; ctx.count("dead peers detected"); } else { x.idleCloses++; ctx.count("idle sessions closed"); }
				for(auto &f : app.tx) if(f->host == w and bound(*f) and not f->closed) s.after(0, [&ctx, &f] { ctx.require(f->exceptions == 1, "flow not told when its session timed out"); });
				continue;
			}
			if(hasFlows(w)) x.flowsGone = -1; else if(x.flowsGone < 0) x.flowsGone = t;
			x.prevOut = false; for(auto &f : app.tx) if(f->host == w and f->flow->getOutstandingBytes()) x.prevOut = true;
			// must have closed by now
			if(x.hi >= 0)
			{
				// each transmission of new data restarts the retransmission timeout; without an acknowledgement it grows by a factor of 1.4142 each time
				double from = std::max({ x.hi + x.limit, x.changedAt, std::max(x.lastTry, x.hi) }), rto = calm ? std::min(MAXRTO, (x.lastAck > 0 ? 0.6 : 3.1) + 0.4143 * (from - x.hi)) : MAXRTO;
				ctx.require(t <= from + rto + 0.05, "%s still waits %.2f s after its first unanswered packet although its limit is %.1f s", hs[w]->name.c_str(), t - x.hi, x.limit);
			}
			if(x.flowsGone >= 0 and x.hi < 0) ctx.require(t <= std::max(x.flowsGone + 132 + x.idle, x.changedAt) + 1, "%s keeps a session without flows for %.1f s (idle limit %.1f)", hs[w]->name.c_str(), t - x.flowsGone, x.idle);
			// must have sent a keepalive by now
			double quiet = std::max(x.lastTx, x.openAt);
			ctx.require(t <= std::max(quiet + x.ka, x.changedAt) + (x.hi >= 0 ? MAXRTO : 6.2) + 0.3, "%s sent nothing for %.2f s with a keepalive period of %.1f s", hs[w]->name.c_str(), t - quiet, x.ka);
		}
	});
	Tx &t0 = app.open(a, "bob", "f", &b.address); ts[0].push_back(&t0); app.write(t0, 200);
	s.runUntil([&] { return bound(t0) and app.find("f", b.idx); }, s.now + 30); ctx.bail();
	ctx.require(app.find("f", b.idx), "setup failed");
	RecvFlow *rf = app.find("f", b.idx)->flow.get();
	if(not sp.byDefault) { setLim(0, t0.flow.get(), sp.lim[0]); setLim(1, rf, sp.lim[1]); }
	if(sp.traffic == T_PEER or sp.traffic == T_BOTH) { Tx &t = app.wrap(b.idx, rf->openFlow(B("back"))); ts[1].push_back(&t); app.write(t, 200); }
	setup = true; (void)setup;
	double T0 = s.now;
	auto write = [&] (int w, size_t n) { for(auto t : ts[w]) if(t->flow->isOpen() and not t->closed) app.write(*t, n); };
	// traffic
	for(double d = 0.37; d < sp.horizon and sp.traffic != T_ONCE; d += sp.traffic == T_BURST ? 7.3 : 0.83)
		s.at(T0 + d, [&, d] { if(sp.traffic != T_PEER) write(0, 300); if(sp.traffic == T_PEER or sp.traffic == T_BOTH) write(1, 2000); });
	if(sp.changeAt >= 0) s.at(T0 + sp.changeAt, [&] { for(int w : { 0, 1 }) { Flow *f = w ? (Flow *)rf : t0.flow.get(); setLim(w, f, sp.later[w]); } });
	if(sp.closeAt >= 0) s.at(T0 + sp.closeAt, [&] { for(int w : { 0, 1 }) for(auto t : ts[w]) if(not t->exceptions) app.close(*t); });
	outFrom = T0 + sp.outAt[ctx.choose((int)sp.outAt.size(), 0, "outage at")]; if(outFrom < T0) outFrom = 1e18;
	outTo = outFrom + sp.outLen[ctx.choose((int)sp.outLen.size(), 0, "outage length")];
	armed = true;
	if(outFrom < 1e17) { s.at(outFrom, [] {}); }
	for(double d = 0.5; d < sp.horizon; d += 0.5) s.at(T0 + d, [] {}); // the monitor looks at least this often
	s.run(T0 + sp.horizon); ctx.bail();
	for(int w : { 0, 1 }) for(auto &t : app.tx) if(t->host == w and not t->closed) ctx.require(t->exceptions <= 1, "flow told %d times", t->exceptions);
	// an end that was told must match the other end in the long run
	int c = 0; for(int w : { 0, 1 }) c += e[w].closedAt >= 0 or e[w].peerCloseAt >= 0;
	ctx.count(c ? "sessions that ended" : "sessions that lived on");
	if(outTo > 1e17 or outFrom > 1e17) for(auto v : { &ts[0], &ts[1] }) for(auto t : *v) if(not c and not t->exceptions and outFrom > 1e17 and t->flow->getBufferedSize() == 0) checkPrefix(ctx, app, *t, v == &ts[0] ? "f" : "back", v == &ts[0] ? b.idx : a.idx);
	ctx.summary = fmt("%s: ends closed at %.2f %.2f, peers at %.2f %.2f, keepalives %d %d", sp.name.c_str(), e[0].closedAt - T0, e[1].closedAt - T0, e[0].peerCloseAt - T0, e[1].peerCloseAt - T0, e[0].keepalives, e[1].keepalives);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C12";
	meta.assumptions = { "virtual network and time" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 2 : 1;
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 10; p.faults = { F_DROP, F_DELAY_LONG }; p.longDelay = 1.9; // acknowledgements and pings
		auto add = [&] (Spec x, int budget, FaultPlan pl) { v.push_back({ x.name, budget, [=] (Ctx &c) { body(c, x, pl); } }); };
		std::vector<double> starts; for(int i = 0; i < (th ? 24 : 14); i++) starts.push_back(0.1 + i * (th ? 0.31 : 0.53));
		// outages against the limit, each direction, each kind of traffic
		for(int tr = 0; tr < NT; tr++) for(double lim : { 0.2, 1., 7., 31. }) for(int dir : { 1, 2, 3 })
		{
			Spec x; x.traffic = tr; x.dir = dir; x.lim[0].rtx = lim; x.lim[1].rtx = lim * 1.5; x.lim[0].ka = 4; x.lim[1].ka = 6; double L = std::max(lim, 1.);
			x.outAt = starts; x.outLen = { L * 0.5, L - 0.1, L + 0.4, L + 4, 1e18 }; x.horizon = 20 + L * 2.2; x.byDefault = dir == 2;
			x.name = fmt("outage-%s-%.1f-dir%d", tName[tr], lim, dir); add(x, 0, p);
			x.name += "-f"; x.outAt = { 0.9, 5.1 }; x.outLen = { L - 0.1, L + 0.4 }; FaultPlan q = p; q.skip = 3; add(x, k, q);
		}
		for(int dir : { 1, 2, 3 }) { Spec x; x.dir = dir; x.outAt = { 0.1, 3.3 }; x.outLen = { 60, 119, 1e18 }; x.horizon = 140; x.name = fmt("default-limit-dir%d", dir); add(x, 0, p); }
		// keepalives in quiet sessions
		for(double ka : { 0.2, 1., 3., 20. }) for(double kb : { 0.2, 3., 3.05, -1. }) for(int tr : { T_ONCE, T_PEER, T_BURST })
		{
			Spec x; x.traffic = tr; x.lim[0].ka = ka; x.lim[1].ka = kb; x.lim[0].rtx = 12; x.lim[1].rtx = 5; x.horizon = 70; x.name = fmt("keepalive-%.1f-%.2f-%s", ka, kb, tName[tr]); add(x, k, p);
			x.name += "-dead"; x.outAt = { 1.7, 9.4 }; x.outLen = { 3, 1e18 }; x.horizon = 80; add(x, 0, p);
			x.name += "-f"; p.skip = 4; if(tr == T_ONCE or th) add(x, k, p); p.skip = 0;
		}
		// idle closing
		for(double ia : { 0.3, 1., 9., 150. }) for(double ib : { -1., 4., 40. }) for(double cl : { -1., 0.5, 6. }) for(int tr : { T_ONCE, T_BOTH })
		{
			Spec x; x.traffic = tr; x.lim[0].idle = ia; x.lim[1].idle = ib; x.closeAt = cl; x.horizon = cl < 0 ? 200 : 460; x.name = fmt("idle-%.1f-%.1f-close%.1f-%s", ia, ib, cl, tName[tr]); x.byDefault = ia == 1; add(x, cl < 0 ? 0 : k, p);
			if(tr == T_ONCE) { x.lim[0].ka = 30; x.name += "-ka"; add(x, 0, p); }
		}
		// limits changed while the session runs
		for(double at : { 2.2, 9. }) for(int tr : { T_CONT, T_ONCE, T_PEER }) for(int what = 0; what < 6; what++)
		{
			Spec x; x.traffic = tr; x.changeAt = at; x.horizon = 90; x.lim[0].ka = x.lim[1].ka = 25; x.lim[0].rtx = 30; x.lim[1].rtx = 30;
			switch(what)
			{
			case 0: x.later[0].rtx = 4; x.later[1].rtx = 2; break;
			case 1: x.later[0].rtx = 50; x.later[1].rtx = 55; break;
			case 2: x.later[0].ka = 2; x.later[1].ka = 2.5; break;
			case 3: x.lim[0].ka = x.lim[1].ka = 2; x.later[0].ka = 15; x.later[1].ka = 0.1; break;
			case 4: x.later[0].idle = 1; x.later[1].idle = 1; break;
			case 5: x.closeAt = 0.4; x.later[0].idle = 3; x.later[1].idle = 20; x.horizon = 200; break;
			}
			x.outAt = { -1, 1., 4. }; x.outLen = { 3, 1e18 }; x.name = fmt("change%d-%.1f-%s", what, at, tName[tr]); add(x, 0, p);
		}
		return v;
	});
}
