#pragma once
// A transfer in which messages may be abandoned in every way, with packet faults; wire and application monitors.
#include "flows.hpp"
namespace sim {

struct AbandonScript {
	std::string name; std::vector<size_t> sizes; std::vector<int> parent; // parent[i]: index or -1
	bool preOpen = true; double gap = 0; size_t rxBuf = 0; bool network = false; double closeAfter = 0.4; bool hold = false;
	std::vector<int> fixed; // fixed action per message (or -1: explorer's choice)
	int actionCost = 1; bool twoFlows = false;
};
enum { A_NONE, A_NOW, A_110, A_300, A_1200, A_START50, A_FINISH160, A_NORTX, A_FINISH700, A_LAST };

struct AbandonRun {
	Ctx &ctx; Sim s; App app; Host &a, &b; const AbandonScript &sc;
	Rx *rx = nullptr; Tx *t = nullptr; RefRecv ref; uintmax_t flowId = 0;
	std::vector<int> act; std::map<std::pair<int, size_t>, int> sent; std::vector<Time> startBy, finishBy; std::vector<int> dataSent;
	std::vector<bool> parentDead; size_t checkedRx = 0;

	AbandonRun(Ctx &c, const AbandonScript &script) : ctx(c), s(c), app(s), a(s.add("alice", "10.0.0.1:1935")), b(s.add("bob", "10.0.0.2:1935")), sc(script) {}

	int locate(const Bytes &d, size_t &off) const
	{
		for(size_t i = 0; i < t->msgs.size(); i++)
		{
			auto &m = t->msgs[i];
			if(m.size() < d.size()) continue;
			auto it = std::search(m.begin(), m.end(), d.begin(), d.end());
			if(it != m.end()) { off = it - m.begin(); return (int)i; }
		}
		return -1;
	}
	void write(size_t i)
	{
		int k = act[i];
		auto r = app.write(*t, sc.sizes[i], k == A_START50 ? 0.05 : INFINITY, k == A_FINISH160 ? 0.16 : k == A_FINISH700 ? 0.7 : INFINITY);
		if(not r) { ctx.fail("write refused on an open flow"); return; }
		startBy.push_back(r->startBy); finishBy.push_back(r->finishBy); dataSent.push_back(0); parentDead.push_back(false);
		if(sc.parent.size() > i and sc.parent[i] >= 0) r->parent = t->receipts[sc.parent[i]];
		if(k == A_NORTX) r->retransmit = false;
		if(k == A_NOW) r->abandon();
		double d = k == A_110 ? 0.11 : k == A_300 ? 0.3 : k == A_1200 ? 1.2 : 0;
		if(d > 0) s.after(d, [this, i] { t->receipts[i]->abandon(); });
	}
	void run(FaultPlan plan)
	{
		plan.install(s);
		for(size_t i = 0; i < sc.sizes.size(); i++) act.push_back(sc.fixed.size() > i and sc.fixed[i] >= 0 ? sc.fixed[i] : ctx.choose(A_LAST, sc.actionCost, "abandon action"));
		app.onNew = [&] (Rx &r) { if(S(r.meta) != "f") return; rx = &r; if(sc.rxBuf) r.flow->setBufferCapacity(sc.rxBuf); if(sc.network) r.flow->setReceiveOrder(RO_NETWORK); if(sc.hold) { r.flow->setReceiveOrder(RO_HOLD); s.after(1.5, [this] { rx->flow->setReceiveOrder(RO_SEQUENCE); }); } };
		app.acceptAll(b);
		s.onSend.push_back([&] (const Pkt &p) {
			if(p.from != a.idx) return;
			for(auto &u : userData(parsePacket(p.data)))
			{
				if(flowId == 0) { if(not u.hasMeta or S(u.meta) != "f") continue; flowId = u.flow; }
				if(u.flow != flowId) continue;
				if(u.flags & USERDATA_FLAG_ABN) { if(not u.data.empty()) ctx.count("abandoned chunks with data"); ctx.count("abandon markers sent"); continue; }
				if(u.data.size() < 8) continue;
				size_t off; int i = locate(u.data, off);
				if(i < 0) { ctx.fail("data on the wire that is not part of any message"); return; }
				onDataSent(i, off);
			}
		});
		s.onDeliver.push_back([&] (const Pkt &p) { if(p.dst == b.address) for(auto &u : userData(parsePacket(p.data))) if(flowId and u.flow == flowId) ref.arrive(u.sn, u.fsn, u.flags, u.data); });
		s.onStep.push_back([&] { step(); });
		t = &app.open(a, "bob", "f", &b.address);
		Tx *t2 = nullptr;
		if(sc.twoFlows) { t2 = &app.open(a, "bob", "g"); app.write(*t2, 700); app.write(*t2, 2500); }
		if(sc.preOpen and sc.gap == 0) for(size_t i = 0; i < sc.sizes.size(); i++) write(i);
		s.runUntil([&] { return not t->flow->getFarCanonicalEPD().empty(); }, s.now + 200);
		ctx.bail();
		ctx.require(not t->flow->getFarCanonicalEPD().empty(), "session did not open");
		if(not (sc.preOpen and sc.gap == 0)) for(size_t i = 0; i < sc.sizes.size(); i++) { if(sc.gap > 0) s.after(sc.gap * (i + 1), [this, i] { write(i); }); else write(i); }
		double closeAt = s.now + sc.gap * sc.sizes.size() + sc.closeAfter;
		s.at(closeAt, [this] { app.close(*t); });
		s.run(closeAt + 0.00001);
		if(t2) app.close(*t2);
		s.runUntil([&] { if(not s.script.empty() or not rx or not rx->completes) return false; for(auto f : t->finished) if(not f) return false; return t->flow->getBufferedSize() == 0; }, s.now + 400);
		step();
		ctx.bail();
		// final
		size_t abandoned = 0; for(auto f : t->finishedAbandoned) abandoned += f;
		for(size_t i = 0; i < t->finished.size(); i++)
		{
			ctx.require(t->finished[i] == 1, "receipt of message %zu finished %d times by the end of the transfer", i, t->finished[i]);
			ctx.require(t->receipts[i]->isFinished() and t->receipts[i]->isAbandoned() == bool(t->finishedAbandoned[i]) and t->receipts[i]->isDelivered() == not t->finishedAbandoned[i], "receipt of message %zu contradicts its callback", i);
		}
		ctx.require(t->flow->getBufferedSize() == 0 and t->flow->getOutstandingBytes() == 0, "sender still holds %zu bytes, %zu outstanding after the end", t->flow->getBufferedSize(), t->flow->getOutstandingBytes());
		ctx.require(rx, "flow never arrived at the receiver");
		ctx.require(rx->completes == 1 and rx->errors == 0, "flow did not end cleanly at the receiver (%d completions, %d errors)", rx->completes, rx->errors);
		for(size_t i = 0; i < t->msgs.size(); i++) if(not t->finishedAbandoned[i]) ctx.require(deliveredSet.count(i), "message %zu was not abandoned but was never delivered", i);
		if(t2)
		{
			Rx *g = app.find("g");
			s.runUntil([&] { g = app.find("g"); return g and g->completes; }, s.now + 100);
			checkExact(ctx, app, *t2, "g", b.idx);
		}
		ctx.count("messages abandoned", abandoned); ctx.count("abandoned but delivered whole", deliveredSet.size() - (t->msgs.size() - abandoned));
		ctx.summary = fmt("%zu messages, %zu abandoned, %zu delivered", t->msgs.size(), abandoned, deliveredSet.size());
	}
	std::set<size_t> deliveredSet; size_t orderNext = 0;
	void onDataSent(int i, size_t off)
	{
		dataSent[i]++;
		int n = ++sent[{ i, off }];
		if(t->finishedAbandoned[i]) ctx.fail("data of abandoned message %d was transmitted", i);
		if(act[i] == A_NORTX and n > 1) ctx.fail("message %d must not be retransmitted but the data at %zu was sent %d times", i, off, n);
		if(dataSent[i] == 1 and s.now > startBy[i] + 1e-6) ctx.fail("message %d was first transmitted %.3f s after its start deadline", i, s.now - startBy[i]);
		if(s.now > finishBy[i] + 1e-6) ctx.fail("message %d was transmitted %.3f s after its finish deadline", i, s.now - finishBy[i]);
		if(sc.parent.size() > size_t(i) and sc.parent[i] >= 0 and t->finishedAbandoned[sc.parent[i]]) ctx.fail("message %d was transmitted although its parent %d was abandoned", i, sc.parent[i]);
		auto &r = t->receipts[i];
		if(r->isFinished()) ctx.fail("message %d was transmitted after it finished", i);
	}
	std::vector<int> wasDone;
	void step()
	{
		wasDone.resize(t->finished.size());
		for(size_t i = 0; i < t->finished.size(); i++)
		{
			auto &r = t->receipts[i];
			if(r->isFinished() != bool(t->finished[i])) { ctx.fail("receipt of message %zu: isFinished()=%d but the callback fired %d times", i, r->isFinished(), t->finished[i]); return; }
			if(r->isAbandoned() != bool(t->finishedAbandoned[i])) { ctx.fail("receipt of message %zu: isAbandoned()=%d disagrees with the callback", i, r->isAbandoned()); return; }
			if(r->isDelivered() != (t->finished[i] and not t->finishedAbandoned[i])) { ctx.fail("receipt of message %zu: isDelivered() disagrees with the callback", i); return; }
			if(dataSent[i] and not r->isStarted()) { ctx.fail("message %zu was transmitted but isStarted() is false", i); return; }
			if(not wasDone[i] and t->finished[i])
			{
				wasDone[i] = 1;
				if(not t->finishedAbandoned[i] and not arrivedWhole(i)) { ctx.fail("receipt of message %zu says delivered but the far end has not received all of it", i); return; }
			}
		}
		if(not rx) return;
		for(; checkedRx < rx->msgs.size(); checkedRx++)
		{
			auto &m = rx->msgs[checkedRx];
			size_t i;
			if(not sc.network) { for(i = orderNext; i < t->msgs.size() and t->msgs[i] != m.data; i++) { } if(i >= t->msgs.size()) { ctx.fail("delivery %zu (%zu bytes) is not a whole later message (corrupted, duplicated or out of order)", checkedRx, m.data.size()); return; } orderNext = i + 1; }
			else { for(i = 0; i < t->msgs.size() and (t->msgs[i] != m.data or deliveredSet.count(i)); i++) { } if(i >= t->msgs.size()) { ctx.fail("delivery %zu (%zu bytes) is not a whole message (corrupted or duplicated)", checkedRx, m.data.size()); return; } }
			deliveredSet.insert(i);
			if(not sc.network) for(size_t j = 0; j < i; j++) if(not deliveredSet.count(j) and not t->finishedAbandoned[j]) { ctx.fail("message %zu was delivered before message %zu, which was not abandoned", i, j); return; }
		}
	}
	bool arrivedWhole(size_t i)
	{
		for(auto &g : ref.got) { uintmax_t e = ref.runEnd(g.first); if(e and ref.runData(g.first, e) == t->msgs[i]) return true; }
		return false;
	}
};

} // namespace sim
