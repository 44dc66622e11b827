// C06: receive windows are truthful and respected; zero windows are probed and every suspended transfer resumes.
#include "flows.hpp"
using namespace sim;

struct Ev { double at; int what; size_t arg; }; // what: 0 hold, 1 sequence, 2 capacity, 3 window limit, 4 network
struct Timeline { std::string name; std::vector<Ev> ev; double writeGap; double ackBlackoutFrom = -1, ackBlackoutTo = -1; };

static void body(Ctx &ctx, size_t cap, size_t limit, const Timeline &tl, FaultPlan plan, std::vector<size_t> sizes)
{
	Sim s(ctx); App app(s); Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	Rx *rx = nullptr; size_t curCap = cap, curLim = limit; bool held = false, network = false, capChanged = false, reorderedAcks = false;
	uintmax_t flowId = 0; double t0 = 1000.1;
	size_t window = 65536; bool gotAck = false; uint64_t lastAckPkt = 0; size_t firstFlight = 0;
	std::map<uintmax_t, size_t> unacked; std::set<uintmax_t> everSent; bool retransmitted = false; // own accounting, exact until the first retransmission
	std::vector<double> probes; double zeroSince = -1; size_t maxHeld = 0;
	auto apply = [&] (const Ev &e) {
		if(not rx) return;
		switch(e.what)
		{
		case 0: held = true; network = false; rx->flow->setReceiveOrder(RO_HOLD); break;
		case 1: held = false; network = false; rx->flow->setReceiveOrder(RO_SEQUENCE); break;
		case 2: curCap = e.arg; capChanged = true; rx->flow->setBufferCapacity(e.arg); break;
		case 3: curLim = e.arg; rx->flow->setWindowLimit(e.arg); break;
		case 4: held = false; network = true; rx->flow->setReceiveOrder(RO_NETWORK); break;
		}
	};
	app.onNew = [&] (Rx &r) {
		if(S(r.meta) != "f") return;
		rx = &r; r.flow->setBufferCapacity(cap); if(limit != SIZE_MAX) r.flow->setWindowLimit(limit);
		if(r.flow->getBufferCapacity() != cap) ctx.fail("buffer capacity reads back as %zu", r.flow->getBufferCapacity());
		for(auto &e : tl.ev) if(e.at == 0) apply(e); else s.after(e.at, [&apply, e] { apply(e); });
	};
	app.acceptAll(b);
	plan.install(s);
	if(tl.ackBlackoutFrom >= 0)
	{
		auto inner = s.policy;
		s.policy = [&, inner] (Pkt &p, std::vector<double> &d) { if(p.from == b.idx and s.now >= t0 + tl.ackBlackoutFrom and s.now < t0 + tl.ackBlackoutTo) { d.clear(); return; } inner(p, d); };
	}
	Tx &t = app.open(a, "bob", "f", &b.address);
	s.onSend.push_back([&] (const Pkt &p) {
		auto q = parsePacket(p.data);
		if(p.from == a.idx)
		{
			for(auto &c : q.chunks) if(c.type == CHUNK_BUFFERPROBE)
			{
				Rd rd(c.payload); if(rd.vlu() != flowId) { ctx.fail("buffer probe for an unknown flow"); return; }
				ctx.count("buffer probes");
				if(window != 0) ctx.fail("buffer probe although the last advertised window is %zu", window);
				double prev = probes.empty() ? zeroSince : probes.back();
				if(probes.empty() and s.now - zeroSince < 0.999) ctx.fail("first buffer probe %.3f s after the window closed", s.now - zeroSince);
				if(probes.size() >= 2) { double i0 = probes.back() - probes[probes.size() - 2], i1 = s.now - probes.back(); if(i1 < std::min(i0 * 1.3, 59.9)) ctx.fail("buffer probes do not back off: %.3f s after an interval of %.3f s", i1, i0); }
				if(s.now - prev > 60.1 + 10) ctx.fail("%.1f s without a buffer probe", s.now - prev);
				probes.push_back(s.now);
			}
			size_t before = 0; for(auto &u : unacked) before += u.second;
			size_t fragBefore = before; bool any = false;
			for(auto &u : userData(q))
			{
				if(not flowId and u.hasMeta and S(u.meta) == "f") flowId = u.flow;
				if(u.flow != flowId) continue;
				any = true;
				if(not everSent.insert(u.sn).second) retransmitted = true;
				if(not retransmitted and fragBefore >= window) { ctx.fail("%zu bytes in flight already fill the advertised window of %zu, yet more data was sent", fragBefore, window); return; }
				unacked[u.sn] = u.data.size(); fragBefore += u.data.size();
			}
			if(any)
			{
				if(window == 0) { ctx.fail("data sent into a zero window"); return; }
				if(t.flow->getOutstandingBytes() >= window + 1250) ctx.fail("%zu bytes outstanding with a window of %zu", t.flow->getOutstandingBytes(), window);
				if(not gotAck) for(auto &u : userData(q)) if(u.flow == flowId) firstFlight += u.data.size();
			}
			return;
		}
		for(auto &k : acks(q))
		{
			if(k.flow != flowId or not rx) continue;
			size_t buf = rx->flow->getBufferedSize();
			size_t adv = buf >= curCap ? 0 : std::min(curCap - buf, curLim);
			size_t blocks = (adv + 1023) / 1024;
			if(blocks == 0 and curCap > 0 and curLim > 0 and not held) blocks = 1;
			if(k.blocks != blocks) ctx.fail("advertised %lu blocks; capacity %zu, buffered %zu, limit %zu, suspended %d call for %zu", (unsigned long)k.blocks, curCap, buf, curLim, held, blocks);
			ctx.count("advertisements checked"); if(not k.blocks) ctx.count("zero windows advertised");
		}
	});
	s.onDeliver.push_back([&] (const Pkt &p) {
		if(p.from != b.idx) return;
		for(auto &k : acks(parsePacket(p.data)))
		{
			if(k.flow != flowId) continue;
			if(p.id < lastAckPkt) reorderedAcks = true; lastAckPkt = p.id;
			gotAck = true; window = k.blocks * 1024;
			if(window == 0 and zeroSince < 0) zeroSince = s.now;
			if(window) { zeroSince = -1; probes.clear(); }
			for(auto it = unacked.begin(); it != unacked.end(); ) { bool in = it->first <= k.csn; for(auto &r : k.ranges) in |= it->first >= r.first and it->first <= r.second; if(in) it = unacked.erase(it); else ++it; }
		}
	});
	s.onStep.push_back([&] {
		if(not rx) return;
		size_t frags = 0, bytes = 0; (void)frags;
		for(auto &m : rx->msgs) bytes += m.data.size();
		if(gotAck and t.flow->getRecvBufferBytesAvailable() != window) ctx.fail("the flow reports an advertised window of %zu, last received was %zu", t.flow->getRecvBufferBytesAvailable(), window);
		if(held and not capChanged and not reorderedAcks and sizes[0] >= 400)
		{
			size_t h = rx->flow->getBufferedSize(); maxHeld = std::max(maxHeld, h);
			size_t nfr = h / 464 + 1;
			if(h > std::max(cap, firstFlight) + 64 * nfr + 1024 + 1250) ctx.fail("suspended receiver holds %zu bytes with a capacity of %zu", h, cap);
		}
	});
	double gap = tl.writeGap;
	if(gap == 0) for(auto n : sizes) app.write(t, n);
	else for(size_t i = 0; i < sizes.size(); i++) s.at(t0 + gap * i, [&, i] { app.write(t, sizes[i]); });
	double lastEv = 0; for(auto &e : tl.ev) lastEv = std::max(lastEv, e.at);
	bool suspendedForever = false; { bool h = false; size_t c = cap, l = limit; std::vector<Ev> ev = tl.ev; std::stable_sort(ev.begin(), ev.end(), [] (const Ev &x, const Ev &y) { return x.at < y.at; }); for(auto &e : ev) { if(e.what == 0) h = true; if(e.what == 1 or e.what == 4) h = false; if(e.what == 2) c = e.arg; if(e.what == 3) l = e.arg; } suspendedForever = h or not c or not l; }
	double limitT = t0 + std::max(lastEv, tl.ackBlackoutTo) + 200;
	bool done = s.runUntil([&] { return s.script.empty() and rx and rx->msgs.size() == t.msgs.size() and t.flow->getBufferedSize() == 0; }, suspendedForever ? t0 + lastEv + 300 : limitT);
	ctx.bail();
	if(not suspendedForever)
	{
		ctx.require(done, "transfer stalled: %zu of %zu messages delivered %.0f s after the last resume (window %zu, %zu buffered at the sender)", rx ? rx->msgs.size() : 0, t.msgs.size(), limitT - t0 - lastEv, window, t.flow->getBufferedSize());
		if(network) std::sort(rx->msgs.begin(), rx->msgs.end(), [] (const RxMsg &m, const RxMsg &n) { return m.sn < n.sn; });
		checkExact(ctx, app, t, "f", b.idx);
	}
	else
	{
		ctx.require(t.exceptions == 0, "a suspended flow failed");
		if(window == 0 and t.flow->getBufferedSize()) ctx.require(probes.size() >= 5, "only %zu probes in 300 s of zero window", probes.size());
	}
	ctx.summary = fmt("cap %zu limit %zu: %zu messages in %.2f s, max held %zu, window %zu", cap, limit, rx ? rx->msgs.size() : 0, s.now - 1000, maxHeld, window);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C06";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "in-flight bytes are recomputed from the wire until the first retransmission, afterwards the flow's own accounting is used" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		std::vector<size_t> big { 3000, 500, 4000, 600, 2500, 900, 900, 900 }, bulk { 9000, 9000, 400, 9000 }, tiny { 400, 5, 0, 1, 7, 9, 2, 1, 900, 3 };
		std::vector<Timeline> tls {
			{ "plain", {}, 0 },
			{ "hold-resume", { { 0, 0, 0 }, { 2.3, 1, 0 } }, 0 },
			{ "hold-late", { { 0.08, 0, 0 }, { 9.7, 1, 0 } }, 0.03 },
			{ "hold-network", { { 0, 0, 0 }, { 1.7, 4, 0 } }, 0.05 },
			{ "enlarge", { { 0, 2, 0 }, { 3.1, 2, 9000 } }, 0 },
			{ "limit-zero", { { 0, 3, 0 }, { 2.6, 3, 4000 } }, 0 },
			{ "hold-forever", { { 0.06, 0, 0 } }, 0 },
			{ "blackout", { { 0, 0, 0 }, { 2.0, 1, 0 } }, 0, 1.9, 14 },
			{ "blackout-enlarge", { { 0.05, 2, 0 }, { 4.0, 2, 5000 } }, 0, 3.9, 21 },
			{ "toggle", { { 0, 0, 0 }, { 0.4, 1, 0 }, { 0.43, 0, 0 }, { 1.9, 1, 0 }, { 2.0, 2, 1200 }, { 2.5, 3, 100 } }, 0.04 },
		};
		FaultPlan p; p.window = 22; p.skip = 3; p.faults = { F_DROP, F_DELAY_LONG, F_DUP_LATE }; p.longDelay = 0.6;
		for(auto &tl : tls)
			for(size_t cap : { (size_t)1, (size_t)1024, (size_t)2200, (size_t)6000, (size_t)65536 })
				for(size_t lim : { SIZE_MAX, (size_t)1, (size_t)1500 })
				{
					if(lim != SIZE_MAX and cap != 2200 and cap != 65536) continue;
					int k = th ? 2 : (cap == 2200 or (cap == 6000)) and lim == SIZE_MAX ? 2 : 1;
					v.push_back({ fmt("%s/cap%zu/lim%s", tl.name.c_str(), cap, lim == SIZE_MAX ? "none" : fmt("%zu", lim).c_str()), k, [=] (Ctx &c) { body(c, cap, lim, tl, p, big); } });
				}
		FaultPlan q = p; q.window = 70; q.faults = { F_DROP, F_DELAY_SHORT, F_DELAY_LONG };
		for(auto i : { 0, 1, 2, 6 }) v.push_back({ "bulk/" + tls[i].name, th ? 2 : 1, [=] (Ctx &c) { body(c, 12000, SIZE_MAX, tls[i], q, bulk); } });
		for(auto &tl : tls) v.push_back({ "tiny/" + tl.name, th ? 2 : 1, [=] (Ctx &c) { body(c, 1500, SIZE_MAX, tl, p, tiny); } });
		FaultPlan l; l.window = th ? 12 : 9; l.skip = 5; l.faults = { F_DROP }; l.cost = 0; l.match = [] (const Pkt &p) { return p.from == 1; };
		for(auto i : { 1, 4, 5, 9 }) v.push_back({ "all-ack-losses/" + tls[i].name, 0, [=] (Ctx &c) { body(c, 2200, SIZE_MAX, tls[i], l, big); } });
		return v;
	});
}
