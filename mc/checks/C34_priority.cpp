// C34: higher-priority data goes first, equals share, time-critical use is announced. Every packet every endpoint sends is
// checked against what was waiting at that moment (written by the application, not yet sent, priority as last set).
#include "flows.hpp"
using namespace sim;

struct FlowSpec { int from, to; Priority pri; };
struct Spec { std::string name; int hosts = 2; std::vector<FlowSpec> flows; double latency = 0.025; int batch = 14; bool small = false; int actions = 0; bool slowStart = false; bool tc = false; bool anyPri = false; };

struct W { // one flow
	Tx *tx; int from, to; Priority pri; std::string meta; uintmax_t id = 0; std::set<uintmax_t> sent; size_t packets = 0; int epoch = 0;
	size_t written() const { return tx->msgs.size(); }
	bool unsent() const { return sent.size() < written(); }
	bool room() const { return tx->flow->getOutstandingBytes() + 2500 < tx->flow->getRecvBufferBytesAvailable(); }
};

struct Watch {
	Ctx &ctx; Sim &s; std::deque<W> w; bool armed = false;
	struct Snap { size_t packets; int epoch; }; std::map<int, std::map<int, Snap>> last; // flow -> what its equals had sent at its latest packet
	std::map<std::pair<int, int>, size_t> sessPackets; std::map<std::pair<int, int>, std::map<std::pair<int, int>, size_t>> sessSnap[8]; std::map<std::pair<int, int>, double> tcRecv; // (at, from) -> latest time-critical packet
	bool cross = false; std::map<uint32_t, int> dummy;
	Watch(Ctx &c, Sim &s) : ctx(c), s(s)
	{
		s.onDeliver.push_back([this] (const Pkt &p) { auto it = this->s.route.find(p.dst); if(it == this->s.route.end()) return; auto q = parsePacket(p.data); if(q.sid and q.mode() != HEADER_MODE_STARTUP and (q.flags & HEADER_FLAG_TC)) { tcRecv[{ it->second, p.from }] = this->s.now; ctx.count("time-critical packets received"); } });
		s.onSend.push_back([this] (const Pkt &p) { onSend(p); });
	}
	bool blocked(int from, int to)
	{
		size_t out = 0, cw = 0; for(auto &x : w) if(x.from == from and x.to == to) { out += x.tx->flow->getOutstandingBytes(); cw = x.tx->flow->getCongestionWindow(); }
		return out >= cw;
	}
	void onSend(const Pkt &p)
	{
		auto q = parsePacket(p.data); if(not q.sid or q.mode() == HEADER_MODE_STARTUP) return;
		auto it = s.route.find(p.dst); if(it == s.route.end()) return; int to = it->second, from = p.from;
		std::set<int> flows;
		for(auto &u : userData(q))
		{
			int k = -1;
			if(u.hasMeta) { for(size_t i = 0; i < w.size(); i++) if(w[i].meta == S(u.meta) and w[i].from == from) { k = (int)i; w[i].id = u.flow; } }
			else for(size_t i = 0; i < w.size(); i++) if(w[i].from == from and w[i].to == to and w[i].id and w[i].id == u.flow) k = (int)i;
			if(k < 0) continue;
			flows.insert(k); w[k].sent.insert(u.sn);
		}
		sessPackets[{ from, to }]++;
		bool wantTC = false; for(int k : flows) if(w[k].pri > PRI_ROUTINE) wantTC = true;
		if(not flows.empty()) ctx.require(wantTC == not not (q.flags & HEADER_FLAG_TC), wantTC ? "data above routine priority is not marked time critical" : "data of at most routine priority is marked time critical");
		else ctx.require(not (q.flags & HEADER_FLAG_TC), "a packet without data is marked time critical");
		// time-critical reception on other sessions
		double age = INFINITY; for(auto &r : tcRecv) if(r.first.first == from and r.first.second != to) age = std::min(age, s.now - r.second);
		bool tcr = q.flags & HEADER_FLAG_TCR;
		if(age < TIMECRITICAL_TIMEOUT - 0.001) { ctx.require(tcr, "time-critical reception %.3f s ago on another session is not announced", age); ctx.count("packets announcing time-critical reception"); }
		if(age > TIMECRITICAL_TIMEOUT + 0.001) ctx.require(not tcr, "time-critical reception announced, but there was none on another session for %.3f s", age);
		if(not armed) return;
		for(int k : flows)
		{
			W &f = w[k]; f.packets++; ctx.count("data packets");
			for(size_t i = 0; i < w.size(); i++)
			{
				W &g = w[i]; if((int)i == k or g.from != from or flows.count(i) or not g.unsent() or not g.room()) continue;
				bool same = g.to == to;
				if(not same and (not cross or blocked(g.from, g.to))) continue;
				ctx.require(g.pri <= f.pri, "data of priority %d goes before data of priority %d waiting %s", f.pri, g.pri, same ? "in the same session" : "in another session");
			}
			// equals take turns
			auto l = last.find(k);
			if(l != last.end()) for(auto &sn : l->second) { W &g = w[sn.first]; if(g.pri == f.pri and g.epoch + f.epoch == sn.second.epoch and g.unsent() and not flows.count(sn.first)) { ctx.require(g.packets > sn.second.packets, "flow '%s' sent twice while its equal '%s' was waiting for its turn", f.meta.c_str(), g.meta.c_str()); ctx.count("turns taken"); } }
			last[k].clear();
			for(size_t i = 0; i < w.size(); i++) { W &g = w[i]; if((int)i != k and g.from == from and g.to == to and g.pri == f.pri and g.unsent() and g.room()) last[k][i] = { g.packets, g.epoch + f.epoch }; }
			if(cross)
			{
				std::pair<int, int> me { from, to }; auto &sn = sessSnap[f.pri];
				auto q = sn.find(me); if(q != sn.end()) for(auto &o : q->second) { bool waiting = false; for(auto &g : w) if(g.from == o.first.first and g.to == o.first.second and g.pri == f.pri and g.unsent() and g.room()) waiting = true; if(waiting and not blocked(o.first.first, o.first.second)) { ctx.require(sessPackets[o.first] > o.second, "a session sent twice while another with data of the same priority was waiting for its turn"); ctx.count("turns of sessions"); } }
				sn[me].clear();
				for(auto &g : w) if(g.from == from and g.to != to and g.pri == f.pri and g.unsent() and g.room() and not blocked(g.from, g.to)) sn[me][{ g.from, g.to }] = sessPackets[{ g.from, g.to }];
			}
		}
	}
};

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s); s.latency = sp.latency;
	static const char *names[] = { "hub", "bob", "carol", "dave" };
	for(int i = 0; i < sp.hosts; i++) { Host &h = s.add(names[i], fmt("10.0.0.%d:1", i + 1)); app.acceptAll(h); }
	Watch wt(ctx, s); wt.cross = sp.latency < 0.002;
	std::vector<FlowSpec> fl = sp.flows;
	if(sp.anyPri) { static const Priority ps[] = { PRI_0, PRI_2, PRI_3, PRI_4, PRI_7 }; for(auto &f : fl) f.pri = ps[ctx.choose(5, 0, "priority")]; }
	for(size_t i = 0; i < fl.size(); i++)
	{
		auto &f = fl[i]; Tx &t = app.open(*s.hosts[f.from], s.hosts[f.to]->name, fmt("f%zu", i), &s.hosts[f.to]->address, f.pri);
		ctx.require(t.flow->getPriority() == f.pri, "priority not kept"); t.flow->setBufferCapacity(1 << 20);
		wt.w.push_back({}); W &w = wt.w.back(); w.tx = &t; w.from = f.from; w.to = f.to; w.pri = f.pri; w.meta = fmt("f%zu", i); app.write(t, 30);
		if(sp.slowStart) s.run(s.now + 0.4);
	}
	bool up = s.runUntil([&] { for(auto &w : wt.w) if(w.tx->flow->getBufferedSize() or w.sent.empty()) return false; return true; }, s.now + 20); ctx.bail(); ctx.require(up, "not established"); ctx.bail();
	s.run(s.now + 2); ctx.bail(); // older time-critical reception is over
	auto fp = std::make_shared<FaultPlan>(plan); s.policy = [&, fp] (Pkt &p, std::vector<double> &d) { fp->apply(ctx, p, d); };
	wt.armed = true;
	auto batch = [&] (W &w, int n) { for(int i = 0; i < n; i++) app.write(*w.tx, sp.small ? 250 + 90 * (i % 4) : 700 + 100 * (i % 4)); };
	auto setPri = [&] (W &w, Priority p) { if(p == w.pri) return; ctx.log("%.4f  priority of %s: %d", s.now, w.meta.c_str(), p); w.tx->flow->setPriority(p); w.pri = p; w.epoch++; ctx.require(w.tx->flow->getPriority() == p, "priority not kept"); ctx.count("priority changes"); };
	double t0 = s.now;
	if(sp.tc)
	{
		// sparse traffic on every flow with pauses around the 800 ms for which time-critical reception counts
		static const double gaps[] = { 0.1, 0.7, 0.85, 1.7 }; double t = 0;
		for(int i = 0; i < sp.actions; i++)
		{
			int who = ctx.choose((int)fl.size(), 0, "sender"); t += gaps[ctx.choose(4, 0, "gap")];
			s.after(t, [&, who] { batch(wt.w[who], 1); });
		}
		for(double x = 0.05; x < t + 1; x += 0.23) s.after(x, [&] { for(auto &w : wt.w) if(w.pri <= PRI_ROUTINE) batch(w, 1); }); // gives every session something to send
	}
	else
	{
		for(size_t i = 0; i < wt.w.size(); i++) if(i == 0 or not sp.slowStart) batch(wt.w[i], sp.batch); else s.after(0.02 * i, [&, i] { batch(wt.w[i], sp.batch); });
		static const double when[] = { 0, 0.01, 0.026, 0.051, 0.08, 0.3 };
		for(int i = 0; i < sp.actions; i++) s.after(when[i] * (sp.latency < 0.002 ? 0.04 : 1), [&] {
			int n = (int)wt.w.size(); int c = ctx.choose(1 + n * 4, 1, "action"); if(0 == c) return; c--; W &w = wt.w[c / 4];
			switch(c % 4) { case 0: setPri(w, PRI_1); break; case 1: setPri(w, PRI_3); break; case 2: setPri(w, PRI_5); break; case 3: batch(w, 3); break; }
		});
	}
	bool ok = s.runUntil([&] { if(not s.script.empty()) return false; for(auto &w : wt.w) if(w.tx->flow->getBufferedSize()) return false; return true; }, t0 + 120); ctx.bail();
	ctx.require(ok, "data waits for ever"); s.run(s.now + 1); ctx.bail();
	for(size_t i = 0; i < wt.w.size(); i++) checkExact(ctx, app, *wt.w[i].tx, wt.w[i].meta, wt.w[i].to);
	ctx.summary = fmt("%s: %zu flows, %.2f s", sp.name.c_str(), wt.w.size(), s.now - t0);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C34";
	meta.assumptions = { "virtual network and time, transparent crypto adapter, an interface that is always writable", "across sessions only those with free congestion window count as able to send" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 2 : 1; std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 24; p.faults = { F_DROP, F_DUP, F_DELAY_LONG }; FaultPlan none; none.window = 0; FaultPlan drops = p; drops.faults = { F_DROP };
		auto add = [&] (const Spec &x, int budget, const FaultPlan &pl) { v.push_back({ x.name, budget, [=] (Ctx &c) { body(c, x, pl); } }); };
		Spec x; x.name = "three-flows"; x.anyPri = true; x.flows = { { 0, 1, PRI_3 }, { 0, 1, PRI_3 }, { 0, 1, PRI_3 } }; add(x, k, p);
		x.name = "three-flows-small"; x.small = true; x.batch = 24; add(x, k, drops);
		x.small = false; x.batch = 14; x.name = "two-sessions"; x.hosts = 3; x.latency = 0.0005; x.flows = { { 0, 1, PRI_3 }, { 0, 1, PRI_3 }, { 0, 2, PRI_3 }, { 0, 2, PRI_3 } }; x.batch = 10; add(x, th ? 1 : 0, drops);
		x.name = "three-sessions"; x.hosts = 4; x.flows = { { 0, 1, PRI_3 }, { 0, 2, PRI_3 }, { 0, 3, PRI_3 } }; add(x, k, drops);
		x = Spec(); x.name = "both-ways"; x.anyPri = true; x.flows = { { 0, 1, PRI_3 }, { 0, 1, PRI_3 }, { 1, 0, PRI_3 }, { 1, 0, PRI_3 } }; add(x, th ? 1 : 0, drops);
		for(bool slow : { false, true }) for(double lat : { 0.025, 0.0005 })
		{
			x = Spec(); x.latency = lat; x.slowStart = slow; x.actions = 6; x.name = fmt("changes-%g%s", lat, slow ? "-later" : "");
			x.flows = { { 0, 1, PRI_3 }, { 0, 1, PRI_3 }, { 0, 1, PRI_3 } }; add(x, th or (not slow and lat > 0.01) ? 1 + k : 1, p);
			x.name += "-mixed"; x.flows = { { 0, 1, PRI_2 }, { 0, 1, PRI_3 }, { 0, 1, PRI_3 }, { 0, 1, PRI_5 } }; add(x, th ? 3 : 1, drops);
			x.name += "-hub"; x.hosts = 3; x.flows = { { 0, 1, PRI_3 }, { 0, 2, PRI_3 }, { 0, 1, PRI_5 }, { 0, 2, PRI_5 } }; add(x, th ? 3 : slow and lat < 0.01 ? 2 : 1, drops);
		}
		x = Spec(); x.tc = true; x.hosts = 4; x.actions = th ? 4 : 3;
		x.name = "tc-in"; x.flows = { { 1, 0, PRI_4 }, { 2, 0, PRI_4 }, { 3, 0, PRI_3 } }; add(x, th ? 1 : 0, drops);
		x.name = "tc-in-routine"; x.flows = { { 1, 0, PRI_7 }, { 2, 0, PRI_3 }, { 0, 3, PRI_3 } }; add(x, th ? 1 : 0, drops);
		x.name = "tc-around"; x.flows = { { 1, 0, PRI_5 }, { 2, 0, PRI_5 }, { 3, 0, PRI_5 }, { 0, 1, PRI_3 } }; add(x, th ? 1 : 0, drops);
		x.name = "tc-out"; x.flows = { { 0, 1, PRI_5 }, { 0, 2, PRI_3 }, { 3, 0, PRI_2 } }; x.actions = 3; add(x, th ? 1 : 0, drops);
		return v;
	});
}
