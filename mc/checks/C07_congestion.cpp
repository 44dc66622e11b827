// C07: bounded flight, packet size limit, retransmission discipline, back-off, ECN echo and response.
#include "flows.hpp"
using namespace sim;

struct Spec { std::string name; double latency; std::vector<std::vector<size_t>> flows; std::vector<std::vector<size_t>> back; double gap = 0; bool ceAll = false; double blackFrom = -1, blackTo = -1; int blackDir = 3; bool abandon = false; Priority pri = PRI_ROUTINE; double limit = 300; double congDelay = -1; size_t rwnd = 0; bool dropAlternate = false; };

// Everything here is recomputed from the packets on the wire, apart from the window and outstanding counters the API reports.
struct Mon {
	struct Frag { size_t len = 0; uint64_t tsn = 0; int naks = 0; bool inFlight = false, acked = false; int sends = 0; };
	Ctx &ctx; Sim &s; int me; std::vector<Tx *> &tx;
	std::map<std::pair<uintmax_t, uintmax_t>, Frag> frags;
	uint64_t tsn = 0, maxAcked = 0; double lastAct = 0, lastSend = 0; std::vector<double> timeouts; bool ackedSince = true;
	size_t before = 0, prevCwnd = 0; bool inDeliver = false, lossOrCE = false, newlyAcked = false; int ceSeen = 0; uint8_t ecnLast = 0; size_t fastRtx = 0, rto = 0;
	Mon(Ctx &c, Sim &s, int me, std::vector<Tx *> &tx) : ctx(c), s(s), me(me), tx(tx) {}
	SendFlow *any() { for(auto t : tx) if(t->flow and t->flow->getCongestionWindow() and not t->flow->getFarCanonicalEPD().empty()) return t->flow.get(); return nullptr; }
	size_t cwnd() { auto f = any(); return f ? f->getCongestionWindow() : 0; }
	size_t outstanding() { size_t r = 0; for(auto t : tx) if(t->flow) r += t->flow->getOutstandingBytes(); return r; }
	size_t inflight() { size_t r = 0; for(auto &f : frags) if(f.second.inFlight) r += f.second.len; return r; }
	void timeout()
	{
		double quiet = s.now - lastAct;
		if(quiet < 0.2499) { ctx.fail("data declared lost %.3f s after the last activity without three later acknowledgements", quiet); return; }
		if(quiet > 10.3) ctx.fail("retransmission timeout only after %.3f s", quiet);
		rto++; ctx.count("retransmission timeouts");
		if(ackedSince) timeouts.clear();
		ackedSince = false;
		timeouts.push_back(s.now);
		size_t n = timeouts.size();
		if(n >= 3) { double d0 = timeouts[n - 2] - timeouts[n - 3], d1 = timeouts[n - 1] - timeouts[n - 2]; if(d1 < std::min(d0 * 1.37, 9.9)) ctx.fail("retransmission timeout does not back off: %.3f s after an interval of %.3f s", d1, d0); if(d1 > std::min(d0 * 1.46 + 0.01, 10.1)) ctx.fail("retransmission timeout grew from %.3f s to %.3f s", d0, d1); }
		for(auto &f : frags) f.second.inFlight = false;
	}
	void onSend(const Pkt &p)
	{
		auto q = parsePacket(p.data);
		if(q.sid and q.clearLen > 1200) ctx.fail("session packet with %zu bytes of cleartext", q.clearLen);
		if(p.from != me) return;
		auto ud = userData(q);
		if(ud.empty()) return;
		size_t out = outstanding(), w = cwnd(), fresh = 0, mine = inflight();
		for(auto &u : ud) { auto &f = frags[{ u.flow, u.sn }]; if(not f.inFlight) fresh += u.data.size(); }
		if(out < mine + fresh) { timeout(); mine = inflight(); } // the sender considers what was in flight lost
		bool resendInFlight = false;
		for(auto &u : ud) resendInFlight |= frags[{ u.flow, u.sn }].inFlight;
		if(resendInFlight) { timeout(); mine = inflight(); }
		if(ctx.failed()) return;
		if(mine and mine >= w) { ctx.fail("data sent with %zu bytes in flight and a congestion window of %zu", mine, w); return; }
		tsn++;
		for(auto &u : ud) { auto &f = frags[{ u.flow, u.sn }]; if(f.sends++) { fastRtx++; ctx.count("retransmissions"); } f.len = u.data.size(); f.tsn = tsn; f.naks = 0; f.inFlight = not f.acked; mine += f.len; }
		if(out > w + 1200 + 64) ctx.fail("%zu bytes outstanding with a congestion window of %zu", out, w);
		lastAct = lastSend = s.now;
	}
	void onDeliver(const Pkt &p)
	{
		if(p.from == me or p.from < 0) return;
		inDeliver = true; before = cwnd(); lossOrCE = newlyAcked = false;
		auto q = parsePacket(p.data);
		if(not q.sid) return;
		ackedSince = true; // any packet of the peer may refresh the round-trip estimate
		auto as = acks(q);
		for(auto &c : q.chunks) if(c.type == CHUNK_ECN_REPORT and c.payload.size() == 1) { uint8_t d = c.payload[0] - ecnLast; if(d and d < 0xe0) { ecnLast = c.payload[0]; lossOrCE = not as.empty(); ctx.count("congestion marks reported"); } }
		if(as.empty()) return;
		lastAct = s.now;
		for(auto &k : as)
			for(auto it = frags.lower_bound({ k.flow, 0 }); it != frags.end() and it->first.first == k.flow; ++it)
			{
				uintmax_t sn = it->first.second; bool in = sn <= k.csn;
				for(auto &r : k.ranges) in |= sn >= r.first and sn <= r.second;
				auto &f = it->second;
				if(in and not f.acked and f.sends) { f.acked = true; f.inFlight = false; newlyAcked = ackedSince = true; maxAcked = std::max(maxAcked, f.tsn); }
			}
		for(auto &f : frags)
			if(f.second.inFlight and f.second.tsn <= maxAcked and ++f.second.naks >= 3) { f.second.inFlight = false; lossOrCE = true; ctx.count("losses by negative acknowledgement"); }
	}
	size_t MSS = 0;
	void onStep()
	{
		size_t w = cwnd();
		if(not w) return;
		const size_t init = CWND_INIT, floor = CWND_TIMEDOUT;
		if(w < floor) ctx.fail("congestion window of %zu is below the floor of %zu", w, floor);
		if(prevCwnd or inDeliver)
		{
			size_t b = inDeliver and before ? before : prevCwnd;
			if(b and w > std::max(b, init))
			{
				if(not inDeliver) ctx.fail("congestion window grew from %zu to %zu without an acknowledgement", b, w);
				else if(lossOrCE) ctx.fail("congestion window grew from %zu to %zu on loss or a congestion mark", b, w);
				else if(not newlyAcked) ctx.fail("congestion window grew from %zu to %zu although nothing new was acknowledged", b, w);
				else ctx.count("window increases");
			}
			if(lossOrCE and inDeliver and w < b) ctx.count("window decreases on loss or mark");
		}
		prevCwnd = w; inDeliver = false; lossOrCE = false;
		if(inflight() and s.now - lastAct > 10.3) ctx.fail("%.2f s without a retransmission although data is outstanding", s.now - lastAct);
	}
};

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s); s.latency = sp.latency;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	std::vector<Tx *> ta, tb;
	Mon ma(ctx, s, a.idx, ta), mb(ctx, s, b.idx, tb);
	app.onNew = [&] (Rx &r) { if(sp.rwnd) r.flow->setBufferCapacity(sp.rwnd); };
	app.acceptAll(a); app.acceptAll(b);
	for(size_t i = 0; i < sp.flows.size(); i++) ta.push_back(&app.open(a, "bob", fmt("a%zu", i), i ? nullptr : &b.address, sp.pri));
	if(sp.congDelay >= 0) ta[0]->flow->setSessionCongestionDelay(sp.congDelay);
	s.runUntil([&] { for(auto t : ta) if(not t->flow->isWritable()) return false; return true; }, s.now + 20);
	ctx.bail();
	app.write(*ta[0], 10);
	s.runUntil([&] { return not app.rx.empty(); }, s.now + 10);
	ctx.require(not app.rx.empty(), "no flow arrived on a perfect network");
	for(size_t i = 0; i < sp.back.size(); i++) tb.push_back(&app.wrap(b.idx, app.rx[0]->flow->openFlow(B(fmt("b%zu", i)), sp.pri)));
	s.runUntil([&] { return s.net.empty() and ta[0]->flow->getOutstandingBytes() == 0; }, s.now + 5);
	// receiver-side count of marked packets
	int ceIn = 0; double ceSince = -1; uint8_t echoed = 0;
	s.onDeliver.push_back([&] (const Pkt &p) {
		if(p.from == a.idx and (p.tos & 3) == 3 and parsePacket(p.data).sid) { ceIn++; ctx.count("congestion marks delivered"); if(ceSince < 0) ceSince = s.now; }
		ma.onDeliver(p); mb.onDeliver(p);
	});
	s.onSend.push_back([&] (const Pkt &p) {
		ma.onSend(p); mb.onSend(p);
		if(p.from != b.idx) return;
		for(auto &c : parsePacket(p.data).chunks) if(c.type == CHUNK_ECN_REPORT)
		{
			if(c.payload.size() != 1 or c.payload[0] != uint8_t(ceIn)) { ctx.fail("congestion report says %u, %d marked packets were received", c.payload.empty() ? 999u : c.payload[0], ceIn); return; }
			echoed = c.payload[0]; ceSince = -1;
		}
	});
	s.onStep.push_back([&] { ma.onStep(); mb.onStep(); if(ceSince >= 0 and s.now - ceSince > 0.5) ctx.fail("a congestion mark was not echoed for %.2f s", s.now - ceSince); });
	double t0 = s.now; int alt = 0;
	auto fp = std::make_shared<FaultPlan>(plan);
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) {
		double t = s.now - t0; bool data = not userData(parsePacket(p.data)).empty();
		if(sp.ceAll and p.from == a.idx and (p.tos & 3)) p.tos |= 3;
		if(t >= sp.blackFrom and t < sp.blackTo and (sp.blackDir & (p.from == a.idx ? 1 : 2))) { d.clear(); return; }
		if(sp.dropAlternate and data and t < 0.4 and (alt++ & 1)) { d.clear(); return; }
		fp->apply(ctx, p, d);
	};
	auto put = [&] (std::vector<Tx *> &t, const std::vector<std::vector<size_t>> &w) {
		for(size_t i = 0; i < t.size(); i++)
			for(size_t j = 0; j < w[i].size(); j++)
			{
				Tx *x = t[i]; size_t n = w[i][j];
				if(sp.gap > 0) s.after(sp.gap * (j + 1), [&app, x, n] { app.write(*x, n); });
				else app.write(*x, n);
			}
	};
	put(ta, sp.flows); put(tb, sp.back);
	if(sp.abandon) for(int k = 0; k < 3; k++) { Tx *x = ta[0]; s.after(0.03 + 0.05 * k, [x, k] { if(x->receipts.size() > size_t(2 + 2 * k)) x->receipts[2 + 2 * k]->abandon(); }); }
	auto idle = [&] { if(not s.script.empty()) return false; for(auto v : { &ta, &tb }) for(auto t : *v) if(t->flow->getBufferedSize()) return false; return true; };
	bool done = s.runUntil(idle, t0 + sp.limit);
	ctx.bail();
	ctx.require(done, "transfer did not finish within %.0f s (%zu bytes outstanding, window %zu)", sp.limit, ma.outstanding(), ma.cwnd());
	for(auto v : { &ta, &tb }) for(auto t : *v) ctx.require(t->flow->getOutstandingBytes() == 0 and t->flow->getBufferedSize() == 0, "everything is acknowledged but a flow reports %zu bytes outstanding", t->flow->getOutstandingBytes());
	if(not sp.abandon) for(size_t i = 0; i < ta.size(); i++) checkExact(ctx, app, *ta[i], fmt("a%zu", i), b.idx);
	for(size_t i = 0; i < tb.size(); i++) checkExact(ctx, app, *tb[i], fmt("b%zu", i), a.idx);
	// everything is acknowledged: the whole window must be usable again
	s.policy = nullptr; s.run(s.now + 12); ctx.bail();
	for(auto side : { &ma, &mb })
	{
		if(side->tx.empty()) continue;
		Tx *t = side->tx[0];
		ctx.require(side->outstanding() == 0, "%zu bytes outstanding on an idle session", side->outstanding());
		size_t sends0 = side->tsn, room = t->flow->getRecvBufferBytesAvailable(); size_t n0 = t->msgs.size();
		for(int i = 0; i < 4; i++) app.write(*t, 4000);
		uint64_t ackedMax = side->maxAcked; size_t peak = 0;
		s.runUntil([&] { peak = std::max(peak, side->outstanding()); return side->maxAcked != ackedMax; }, s.now + 4 * sp.latency + 1);
		ctx.bail();
		if(side->maxAcked == ackedMax and not sp.ceAll) ctx.require(false, "nothing sent again on an idle session: %zu packets", (size_t)(side->tsn - sends0));
		size_t wnd = std::min<size_t>({ CWND_INIT, room, 14000 });
		ctx.require(peak >= wnd, "only %zu bytes could be sent although the congestion window is at least %zu and the receive window %zu", peak, (size_t)CWND_INIT, room);
		bool ok = s.runUntil([&] { return t->flow->getBufferedSize() == 0; }, s.now + 60); ctx.bail();
		ctx.require(ok and t->msgs.size() == n0 + 4, "the session could not send after everything was acknowledged");
	}
	ctx.summary = fmt("%s: %.2f s, retransmissions %zu, timeouts %zu, marks %d, final window %zu", sp.name.c_str(), s.now - t0, ma.fastRtx, ma.rto, ceIn, ma.cwnd());
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C07";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "flight is recomputed from the wire (payload bytes; negative acknowledgements counted per acknowledging packet), timeouts are inferred from the sender's own outstanding counter dropping" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		std::vector<size_t> bulk(12, 3500), med(9, 2600), small(30, 300);
		std::vector<Spec> sp;
		{ Spec x { "bulk", 0.025, { bulk } }; sp.push_back(x); x.name = "bulk-fast"; x.latency = 0.001; sp.push_back(x); x.name = "bulk-slow"; x.latency = 0.4; sp.push_back(x); }
		{ Spec x { "two-flows", 0.03, { med, small } }; sp.push_back(x); x.name = "both-ways"; x.back = { med, small }; sp.push_back(x); }
		{ Spec x { "trickle", 0.06, { small } }; x.gap = 0.03; sp.push_back(x); }
		{ Spec x { "critical", 0.03, { bulk } }; x.pri = PRI_IMMEDIATE; sp.push_back(x); }
		{ Spec x { "delay-cc", 0.04, { bulk } }; x.congDelay = 0.01; sp.push_back(x); }
		{ Spec x { "abandons", 0.025, { med } }; x.abandon = true; sp.push_back(x); }
		{ Spec x { "small-window", 0.025, { med } }; x.rwnd = 3000; sp.push_back(x); }
		{ Spec x { "blackout-short", 0.025, { bulk } }; x.blackFrom = 0.06; x.blackTo = 0.9; sp.push_back(x); }
		{ Spec x { "blackout-acks", 0.025, { bulk } }; x.blackFrom = 0.06; x.blackTo = 3.7; x.blackDir = 2; sp.push_back(x); }
		{ Spec x { "alternate-loss", 0.025, { bulk }, { bulk } }; x.dropAlternate = true; sp.push_back(x); }
		FaultPlan p; p.window = 40; p.faults = { F_DROP, F_DUP_LATE, F_DELAY_LONG, F_CE }; p.longDelay = 0.31; p.dupLate = 0.9;
		for(auto &x : sp) v.push_back({ x.name, th ? 2 : (x.name == "bulk" ? 2 : 1), [=] (Ctx &c) { body(c, x, p); } });
		FaultPlan q; q.window = th ? 30 : 16; q.faults = { F_DROP, F_DELAY_SHORT, F_CE };
		for(auto i : { 0, 4, 6 }) v.push_back({ sp[i].name + "/pairs", th ? 3 : 2, [=] (Ctx &c) { auto x = sp[i]; for(auto &f : x.flows) f.resize(6); for(auto &f : x.back) f.resize(5); body(c, x, q); } });
		FaultPlan l; l.window = th ? 14 : 11; l.faults = { F_DROP }; l.cost = 0; l.match = [] (const Pkt &p) { return p.from == 0 and not userData(parsePacket(p.data)).empty(); };
		v.push_back({ "all-data-losses", 0, [=] (Ctx &c) { Spec x { "losses", 0.025, { std::vector<size_t>(5, 2600) } }; body(c, x, l); } });
		FaultPlan ce = l; ce.faults = { F_CE }; ce.window = th ? 14 : 10;
		v.push_back({ "all-marks", 0, [=] (Ctx &c) { Spec x { "marks", 0.025, { std::vector<size_t>(5, 2600) } }; body(c, x, ce); } });
		FaultPlan la = l; la.match = [] (const Pkt &p) { return p.from == 1; }; la.window = th ? 13 : 10;
		v.push_back({ "all-ack-losses", 0, [=] (Ctx &c) { Spec x { "acklosses", 0.025, { std::vector<size_t>(6, 2600) } }; body(c, x, la); } });
		FaultPlan none; none.window = 0;
		{ Spec x { "mark-everything", 0.01, { std::vector<size_t>(330, 1000) } }; x.ceAll = true; v.push_back({ x.name, 0, [=] (Ctx &c) { body(c, x, none); } }); }
		for(double d : { 5., 20., 47. }) for(int dir : { 1, 2, 3 }) { Spec x { fmt("blackout-%.0f-dir%d", d, dir), 0.025, { med, small } }; x.blackFrom = 0.03; x.blackTo = d; x.blackDir = dir; v.push_back({ x.name, 0, [=] (Ctx &c) { body(c, x, none); } }); }
		return v;
	});
}
