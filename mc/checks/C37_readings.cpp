// C37: what an application reads off a flow about its session is true.
#include "flows.hpp"
using namespace sim;

static const double TICK = 0.004;
static bool near(double a, double b, double e = 1e-9) { return a == b or std::fabs(a - b) <= e * (1 + std::fabs(b)); }

// The reference for one end: what RFC 7016 section 3.5.2.2 makes of the timestamps on the packets that reached it.
struct End {
	struct In { long ts; double sentAt, at; bool startup; };
	std::vector<In> in; // packets with timestamps that reached this end
	bool bound = false, any = false; long lastEcho = -1; double srtt = -1, var = 0, mrto = 0.25, last = -1, lastAt = -1; std::vector<std::pair<double, double>> all; // time, measurement
	bool measuredNow = false; double prevErto = 3; unsigned long measurements = 0;
};
struct Watch {
	Sim &s; App &app; Ctx &ctx; End e[2]; std::map<uint64_t, size_t> known; double born[2]; std::vector<std::function<Flow *()>> flows[2];
	Watch(Sim &s, App &app) : s(s), app(app), ctx(s.ctx)
	{
		for(int i = 0; i < 2; i++) born[i] = s.now;
		s.onSend.push_back([this] (const Pkt &p) { if(p.from >= 0 and p.from < 2) known[p.id] = e[p.from].in.size(); });
		s.onDeliver.push_back([this] (const Pkt &p) { if(p.from >= 0 and p.from < 2 and p.dst == this->s.hosts[1 - p.from]->address) arrive(p); });
		s.onStep.push_back([this] { check(); });
	}
	Flow *any(int w) { for(auto &f : flows[w]) { Flow *x = f(); if(x and x->isOpen() and not x->getFarCanonicalEPD().empty()) return x; } return nullptr; }
	void arrive(const Pkt &p)
	{
		int w = 1 - p.from; End &x = e[w]; auto q = parsePacket(p.data); bool startup = q.mode() == 3 or q.sid == 0; Flow *f = any(w); x.measuredNow = false;
		bool open = f ? f->getFarAddress() == p.src : w == 1;
		if(open and not startup and q.tse >= 0 and q.tse != x.lastEcho and q.mode() != 0)
		{
			x.lastEcho = q.tse; uint16_t ticks = uint16_t(uint64_t((s.now - born[w]) / TICK + 1e-7) - q.tse);
			if(ticks < 32768)
			{
				double m = ticks * TICK; x.measuredNow = true; x.measurements++; x.all.push_back({ s.now, m });
				if(x.any) { x.var = (3 * x.var + std::fabs(x.srtt - m)) / 4; x.srtt = (7 * x.srtt + m) / 8; } else { x.srtt = m; x.var = m / 2; }
				x.any = true; x.last = m; x.lastAt = s.now; x.mrto = x.srtt + 4 * x.var + 0.2;
				truthful(w, p, m);
			}
			else ctx.require(false, "%s: an echo %u ticks old came back", s.hosts[w]->name.c_str(), ticks);
		}
		if(q.ts >= 0) x.in.push_back({ q.ts, p.sentAt, s.now, startup });
	}
	// a measurement is what some packet took to get there plus what the answer took to get back
	void truthful(int w, const Pkt &p, double m)
	{
		End &y = e[1 - w]; size_t n = known[p.id]; double back = s.now - p.sentAt; std::string seen; long lastTs = -1;
		for(size_t i = n; i--; )
		{
			auto &k = y.in[i]; if(lastTs < 0 and not k.startup) lastTs = k.ts;
			if(not k.startup and k.ts != lastTs) continue;
			double t = (k.at - k.sentAt) + back; if(std::fabs(t - m) <= 2 * TICK + 1e-9) return;
			if(seen.size() < 40) seen += fmt(" %.4f", t);
		}
		ctx.require(false, "%s measured a round trip of %.4f s; it really took%s", s.hosts[w]->name.c_str(), m, seen.empty() ? " nothing: no packet had got there" : seen.c_str());
	}
	void check()
	{
		for(int w = 0; w < 2; w++)
		{
			auto *r = s.hosts[w]->rtmfp.get(); if(r) ctx.require(near(r->getInstanceAge(), s.now - born[w], 1e-6), "the instance's age");
			End &x = e[w];
			for(auto &g : flows[w])
			{
				Flow *f = g(); if(not f or not f->isOpen() or f->getFarCanonicalEPD().empty()) continue;
				double srtt = f->getSRTT(), var = f->getRTTVariance(), last = f->getLastRTT(), base = f->getBaseRTT(), erto = f->getERTO(), mrto = f->getMRTO(), safe = f->getSafeSRTT(); const char *h = s.hosts[w]->name.c_str();
				if(not x.any) { ctx.require(srtt < 0 and safe == 0.2 and mrto == 0.25, "%s: readings before any measurement (smoothed %.4f, safe %.4f, timeout %.4f)", h, srtt, safe, mrto); continue; }
				ctx.require(near(srtt, x.srtt) and near(safe, x.srtt), "%s: smoothed round trip %.6f s, from the measurements it is %.6f s", h, srtt, x.srtt);
				ctx.require(near(var, x.var), "%s: round-trip variance %.6f s, from the measurements it is %.6f s", h, var, x.var);
				ctx.require(near(last, x.last), "%s: last round trip %.6f s, it was %.6f s", h, last, x.last);
				ctx.require(near(mrto, x.mrto), "%s: measured timeout %.6f s, from the measurements it is %.6f s", h, mrto, x.mrto);
				if(x.measuredNow) ctx.require(near(erto, std::max(x.mrto, 0.25)), "%s: timeout %.6f s after a measurement that makes it %.6f s", h, erto, std::max(x.mrto, 0.25));
				else ctx.require(erto >= x.prevErto - 1e-9 and erto <= std::max(10., x.mrto) + 1e-9 and (near(erto, x.prevErto) or near(erto, std::max(std::min(x.prevErto * 1.414214, 10.), x.mrto), 1e-6)), "%s: timeout went from %.6f s to %.6f s without a measurement", h, x.prevErto, erto);
				bool real = false; for(auto &m : x.all) if(x.lastAt - m.first <= 30 * 6 + 32 and near(m.second, base)) real = true;
				ctx.require(real, "%s: base round trip %.4f s is no recent measurement", h, base); ctx.require(base <= last + 1e-9, "%s: base round trip %.4f s exceeds the last one of %.4f s", h, base, last);
				x.prevErto = erto; 
			}
			if(x.any) { Flow *f = any(w); if(f) x.prevErto = f->getERTO(); }
			x.measuredNow = false;
		}
		ages();
	}
	bool agesOn = true;
	void ages()
	{
		if(agesOn) for(auto &t : app.tx)
		{
			if(not t->flow or t->closed or t->exceptions) continue;
			double oldest = 0, unstarted = 0; bool o = false, u = false;
			for(auto &r : t->receipts) { if(not o and not r->isFinished()) { oldest = s.now - r->createdAt(); o = true; } if(not u and not r->isStarted()) { unstarted = s.now - r->createdAt(); u = true; } }
			double b = t->flow->getBufferedAge(), us = t->flow->getUnstartedAge();
			ctx.require(near(b, oldest, 1e-6), "flow %d: age of the oldest unacknowledged message %.4f s, reported %.4f s", t->id, oldest, b);
			ctx.require(near(us, unstarted, 1e-6), "flow %d: age of the oldest message not started %.4f s, reported %.4f s", t->id, unstarted, us);
		}
	}
};

struct Rig {
	Sim s; App app; Host &a, &b; Watch w; Tx *t = nullptr, *back = nullptr;
	Rig(Ctx &ctx) : s(ctx), app(s), a(s.add("alice", "10.0.0.1:1935")), b(s.add("bob", "10.0.0.2:1935")), w(s, app) { s.latency = 0; app.acceptAll(a); app.acceptAll(b); }
	void open(bool reverse)
	{
		app.onNew = [this, reverse] (Rx &r) { int h = r.host; if(h > 1) return; auto f = r.flow; w.flows[h].push_back([f] { return f.get(); }); if(reverse and h == 1 and not back) { back = &app.wrap(1, r.flow->openReturnFlow(B("ret"))); auto g = back->flow; w.flows[1].push_back([g] { return g.get(); }); g->onRecvFlow = nullptr; } };
		t = &app.open(a, "bob", "f", &b.address); auto f = t->flow; w.flows[0].push_back([f] { return f.get(); }); f->onRecvFlow = [this] (std::shared_ptr<RecvFlow> g) { app.accept(0, g); };
	}
	bool idle() { for(auto &x : app.tx) if(x->flow and x->flow->getBufferedSize()) return false; return true; }
	void done(Ctx &ctx) { s.run(s.now + 40); ctx.bail(); checkExact(ctx, app, *t, "f", 1); if(back) checkExact(ctx, app, *back, "ret", 0); }
};

static const double lats[] = { 0.030137, 0.000537, 0.400137, 1.700137 };

// traffic under changing delays
static void delays(Ctx &ctx, bool reverse, double gap, double start, int changes, FaultPlan plan)
{
	Rig g(ctx); double d[2] = { 0.020137, 0.020137 }; auto fp = std::make_shared<FaultPlan>(plan); bool armed = false; double lastFault = 0;
	g.s.policy = [&, fp] (Pkt &p, std::vector<double> &v) { for(auto &x : v) x = d[p.from == 1]; if(armed) { auto n = v; fp->apply(ctx, p, n); if(n.size() != v.size() or n[0] != v[0]) lastFault = g.s.now + 4; v = n; } };
	g.s.run(g.s.now + start); ctx.bail(); g.open(reverse); g.app.write(*g.t, 10); armed = true;
	double next = g.s.now + 1.3; int n = 0;
	for(int i = 0; i < changes + 1; i++)
	{
		for(double end = next; g.s.now < end - 1e-9; ) { g.s.run(std::min(end, g.s.now + gap)); ctx.bail(); g.app.write(*g.t, n % 5 == 4 ? 3000 : 40); if(g.back) g.app.write(*g.back, n % 3 ? 30 : 2000); n++; }
		if(i < changes) { d[0] = lats[ctx.choose(4, 0, "delay there")]; d[1] = lats[ctx.choose(4, 0, "delay back")]; }
		next = g.s.now + 8;
	}
	// with traffic going on, measurements keep coming and show the present delay
	if(g.s.now > lastFault) { End &x = g.w.e[0]; ctx.require(x.any and g.s.now - x.lastAt < 2.5 + d[0] + d[1], "no round trip was measured for %.3f s of traffic", g.s.now - x.lastAt); ctx.require(x.last < d[0] + d[1] + 2 * TICK + 0.001 and x.last > d[0] + d[1] - 2 * TICK - 0.001, "after 8 s at a round trip of %.4f s the last measured is %.4f s", d[0] + d[1], x.last); }
	armed = false; g.done(ctx); ctx.count("measurements", g.w.e[0].measurements + g.w.e[1].measurements);
}
// quiet times around the limits of the timestamps
static void quiet(Ctx &ctx, bool reverse, FaultPlan plan, int rounds = 2)
{
	static const double ps[] = { 0.9, 30, 60.5, 127, 127.9, 128.1, 131.072, 135, 200, 262.144, 262.2, 290, 400, 524.288 };
	Rig g(ctx); double d[2] = { 0.030137, 0.030137 }; auto fp = std::make_shared<FaultPlan>(plan); bool armed = false;
	g.s.policy = [&, fp] (Pkt &p, std::vector<double> &v) { for(auto &x : v) x = d[p.from == 1]; if(armed) fp->apply(ctx, p, v); };
	for(auto *h : { &g.a, &g.b }) h->rtmfp->setDefaultSessionKeepalivePeriod(ctx.choose(2, 0, "keepalive") ? 45 : 4000);
	g.open(reverse); g.app.write(*g.t, 10); g.s.run(g.s.now + 2.5); ctx.bail(); armed = true;
	for(int i = 0; i < 2; i++)
	{
		double p = ps[i >= rounds ? 0 : ctx.choose(14, 0, "quiet")]; int who = ctx.choose(reverse ? 3 : 1, 0, "who speaks first"); d[i] = lats[i >= rounds ? 0 : ctx.choose(3, 0, "delay")]; g.s.run(g.s.now + p); ctx.bail();
		for(int k = 0; k < 3; k++) { if(who != 1) g.app.write(*g.t, 100); if(who != 0 and g.back) g.app.write(*g.back, 100); if(k == 0) { g.s.run(g.s.now + 0.5); ctx.bail(); } }
		g.s.run(g.s.now + 3); ctx.bail(); if(plan.window == 0) { End &x = g.w.e[who == 1]; ctx.require(x.any and g.s.now - x.lastAt < 4, "no round trip was measured after %.3f s of silence", p); }
	}
	armed = false; g.done(ctx); ctx.count("measurements", g.w.e[0].measurements + g.w.e[1].measurements);
}
// a queue that builds up
static void queues(Ctx &ctx, size_t rxBuf, FaultPlan plan)
{
	Rig g(ctx); double d = 0.050137; auto fp = std::make_shared<FaultPlan>(plan); g.s.policy = [&, fp] (Pkt &p, std::vector<double> &v) { for(auto &x : v) x = d; fp->apply(ctx, p, v); };
	g.open(true); auto keep = g.app.onNew; g.app.onNew = [&, keep] (Rx &r) { keep(r); if(r.host == 1) r.flow->setBufferCapacity(rxBuf); };
	for(int i = 0; i < 4; i++) g.app.write(*g.t, (size_t[]) { 10, 3000, 0, 20000 }[i]);
	for(int i = 0; i < 3; i++) { g.s.run(g.s.now + (double[]) { 0.05, 0.7, 3 }[ctx.choose(3, 0, "wait")]); ctx.bail(); int n = (int[]) { 1, 4 }[ctx.choose(2, 0, "how many")]; for(int k = 0; k < n; k++) { g.app.write(*g.t, k & 1 ? 9000 : 100); if(g.back) g.app.write(*g.back, 1500); } }
	g.done(ctx);
}
// settings apply to the session, from whichever of its flows, and read back
static void settings(Ctx &ctx, int depth)
{
	Rig g(ctx); Host &c = g.s.add("carol", "10.0.0.3:1935"); g.s.latency = 0.020137; g.app.acceptAll(c); g.open(true);
	struct Want { double ka = 3600, rtx = 120, idle = 300, delay = INFINITY; int tos = 0; } want[2]; // the sessions from alice to bob and to carol
	double dka = 3600, drtx = 120, didle = 300; int pre = ctx.choose(3, 0, "defaults");
	if(pre) { dka = pre == 1 ? 50 : 0.2; drtx = pre == 1 ? 20 : 0; didle = pre == 1 ? 70 : -4; g.a.rtmfp->setDefaultSessionKeepalivePeriod(dka); g.a.rtmfp->setDefaultSessionRetransmitLimit(drtx); g.a.rtmfp->setDefaultSessionIdleLimit(didle); for(auto &w : want) { w.ka = std::max(dka, 1.); w.rtx = std::max(drtx, 1.); w.idle = std::max(didle, 1.); } }
	bool watch = false; std::map<std::string, int> tos; auto toBob = g.b.address.toPresentation(), toCarol = c.address.toPresentation();
	g.s.onSend.push_back([&] (const Pkt &p) { if(not watch or p.from != 0) return; auto q = parsePacket(p.data); if(q.mode() == 3) return; auto to = p.dst.toPresentation(); int i = to == toBob ? 0 : 1; ctx.require((p.tos & 0xfc) == (want[i].tos & 0xfc) and (p.tos & ~0xff) == (want[i].tos & ~0xff), "a packet left with traffic class 0x%x instead of 0x%x", p.tos, want[i].tos); });
	Tx &u = g.app.open(g.a, "carol", "u", &c.address); Tx &t2 = g.app.open(g.a, "bob", "t2", &g.b.address); g.app.write(*g.t, 10); g.app.write(u, 10); g.app.write(t2, 10); g.s.run(g.s.now + 2); ctx.bail(); watch = true;
	if(g.back) g.app.write(*g.back, 20);
	g.s.run(g.s.now + 1); ctx.bail(); Rx *in = g.app.find("ret", 0); ctx.require(in, "no return flow");
	std::vector<std::vector<Flow *>> fl = { { g.t->flow.get(), t2.flow.get(), in->flow.get() }, { u.flow.get() } };
	auto verify = [&] {
		ctx.require(g.a.rtmfp->getDefaultSessionKeepalivePeriod() == dka and g.a.rtmfp->getDefaultSessionRetransmitLimit() == drtx and g.a.rtmfp->getDefaultSessionIdleLimit() == didle, "the defaults read back");
		for(int i = 0; i < 2; i++) for(auto *f : fl[i]) { ctx.require(f->getSessionKeepalivePeriod() == want[i].ka, "keepalive period %.3f instead of %.3f", (double)f->getSessionKeepalivePeriod(), want[i].ka); ctx.require(f->getSessionRetransmitLimit() == want[i].rtx, "retransmit limit %.3f instead of %.3f", (double)f->getSessionRetransmitLimit(), want[i].rtx); ctx.require(f->getSessionIdleLimit() == want[i].idle, "idle limit %.3f instead of %.3f", (double)f->getSessionIdleLimit(), want[i].idle); ctx.require(f->getSessionCongestionDelay() == want[i].delay, "congestion delay"); ctx.require(f->getSessionTrafficClass() == want[i].tos, "traffic class 0x%x instead of 0x%x", f->getSessionTrafficClass(), want[i].tos); }
		Rx *r = g.app.find("f", 1); ctx.require(r and r->flow->getSessionKeepalivePeriod() == 3600 and r->flow->getSessionRetransmitLimit() == 120 and r->flow->getSessionIdleLimit() == 300 and r->flow->getSessionTrafficClass() == 0 and r->flow->getSessionCongestionDelay() == INFINITY, "the other end's settings changed");
	};
	verify();
	for(int i = 0; i < depth; i++)
	{
		int k = ctx.choose(15, 0, "setting"), j = ctx.choose(4, 0, "flow"); Flow *f = j < 3 ? fl[0][j] : fl[1][0]; Want &x = want[j == 3]; double v = (double[]) { 0.1, 7, INFINITY }[k % 3];
		switch(k / 3)
		{
		case 0: if(std::isinf(v)) v = 1e9; f->setSessionKeepalivePeriod(v); x.ka = std::max(v, 1.); break;
		case 1: f->setSessionRetransmitLimit(v); x.rtx = std::max(v, 1.); break;
		case 2: if(v == 0.1) v = -3; f->setSessionIdleLimit(v); x.idle = std::max(v, 1.); break;
		case 3: { int tc = (int[]) { 0xb8, 0xff, 1 }[k % 3]; f->setSessionTrafficClass(tc); x.tos = tc & ~3; break; }
		case 4: if(k % 3 == 0) { f->setSessionCongestionDelay(v); x.delay = v; } else if(k % 3 == 1) { dka = 9; g.a.rtmfp->setDefaultSessionKeepalivePeriod(dka); didle = 11; g.a.rtmfp->setDefaultSessionIdleLimit(didle); } else { drtx = 13; g.a.rtmfp->setDefaultSessionRetransmitLimit(drtx); } break;
		}
		verify(); g.app.write(*g.t, 30); g.app.write(u, 30); g.s.run(g.s.now + 0.3); ctx.bail(); verify();
	}
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C37";
	meta.assumptions = { "virtual network and time; transparent crypto", "a base round trip is only claimed to be a recent measurement not above the last one: how far back it looks may be cut short", "no claim on the ages while messages are abandoned" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v; FaultPlan base, none; base.shortDelay = 0.011137; base.longDelay = 1.371137; base.dupDelay = 0.004137; base.dupLate = 2.701137; none.window = 0;
		for(bool r : { false, true }) for(double gap : { 0.07, 0.45 }) for(double start : { 0., 255. }) v.push_back({ fmt("delays/%d-%.2f-%.0f", r, gap, start), 0, [=] (Ctx &c) { delays(c, r, gap, start, th ? 3 : 2, none); } });
		for(bool r : { false, true }) for(int skip : { 0, 6, 20 }) { FaultPlan p = base; p.window = th ? 24 : 14; p.skip = skip; p.faults = { F_DROP, F_DUP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG }; v.push_back({ fmt("faults/%d-%d", r, skip), th ? 2 : 1, [=] (Ctx &c) { delays(c, r, 0.15, 0, 1, p); } }); }
		for(bool r : { false, true }) v.push_back({ fmt("quiet/%d", r), 0, [=] (Ctx &c) { quiet(c, r, none); } });
		{ FaultPlan p = base; p.window = th ? 10 : 5; v.push_back({ "quiet-faults", 1, [=] (Ctx &c) { quiet(c, true, p, th ? 2 : 1); } }); }
		for(size_t b : { 2000, 65536 }) { FaultPlan p = base; p.window = th ? 30 : 18; p.skip = 5; p.faults = { F_DROP, F_DUP_LATE, F_DELAY_LONG }; v.push_back({ fmt("queues/%zu", b), th ? 2 : 1, [=] (Ctx &c) { queues(c, b, p); } }); }
		v.push_back({ "settings", 0, [=] (Ctx &c) { settings(c, th ? 3 : 2); } });
		return v;
	});
}
