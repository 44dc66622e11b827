// C04: receipts are truthful and finish exactly once: (a) receipt/chain operation sequences against a model,
// (b) transfers with abandonments, deadlines and faults, (c) every way a flow or session can end under pending receipts.
#include "abandon.hpp"
using namespace sim;

// ---- (a)
struct MReceipt { int use = 0; bool started = false, abandoned = false; double startBy, finishBy; int parent = -1; int fired = 0, firedAb = 0; };
struct RModel {
	double now = 100; std::vector<MReceipt> r; std::vector<int> chain;
	bool fin(int i) const { return r[i].use == 0 or r[i].abandoned; }
	void abandon(int i) { auto &x = r[i]; if(x.use and not x.abandoned) { x.abandoned = true; x.parent = -1; x.fired++; x.firedAb++; } }
	void sweep(int i) { auto &x = r[i]; if(x.abandoned) return; if(now > x.finishBy or (not x.started and now > x.startBy) or (x.parent >= 0 and r[x.parent].abandoned)) abandon(i); }
	void ack(int i) { auto &x = r[i]; if(not x.use) return; if(0 == --x.use) { x.parent = -1; if(not x.abandoned) x.fired++; } }
};
static const int FR[3] = { 1, 2, 1 };
enum { OP_TICK, OP_START, OP_ACK = 4, OP_ABANDON = 7, OP_SWEEP = 10, OP_APPEND = 13, OP_EXPIRE2 = 16, OP_EXPIREINF, OP_EXPIRE_START, OP_STARTWITHIN, OP_FINISHWITHIN, OP_N };
static std::string receiptSeq(const std::vector<int> &ops)
{
	RModel m; std::vector<std::shared_ptr<IssuerWriteReceipt>> r; WriteReceiptChain *chain = new WriteReceiptChain; std::vector<int> fired(3, 0), firedAb(3, 0);
	auto own = share_ref(chain, false);
	for(int i = 0; i < 3; i++)
	{
		double sw = i == 1 ? 1 : INFINITY, fw = i == 2 ? 2 : INFINITY;
		r.push_back(share_ref(new IssuerWriteReceipt(m.now, sw, fw), false));
		m.r.push_back(MReceipt()); m.r[i].startBy = m.now + sw; m.r[i].finishBy = m.now + fw;
		for(int k = 0; k < FR[i]; k++) { r[i]->useCountUp(); m.r[i].use++; }
		r[i]->onFinished = [&fired, &firedAb, i] (bool ab) { fired[i]++; firedAb[i] += ab; };
	}
	double origin = m.now;
	std::string err;
	for(int o : ops)
	{
		if(o == OP_TICK) m.now += 1.5;
		else if(o < OP_ACK) { r[o - OP_START]->start(); m.r[o - OP_START].started = true; }
		else if(o < OP_ABANDON) { int i = o - OP_ACK; if(m.r[i].use) { r[i]->useCountDown(); m.ack(i); } }
		else if(o < OP_SWEEP) { r[o - OP_ABANDON]->abandon(); m.abandon(o - OP_ABANDON); }
		else if(o < OP_APPEND) { r[o - OP_SWEEP]->abandonIfNeeded(m.now); m.sweep(o - OP_SWEEP); }
		else if(o < OP_EXPIRE2)
		{
			int i = o - OP_APPEND; bool in = false; for(int c : m.chain) in |= c == i;
			if(in) continue; // a receipt is chained once
			// no cycles: only append if i is not an ancestor of the last
			bool anc = false; if(not m.chain.empty()) for(int c = m.chain.back(); c >= 0; c = m.r[c].parent) anc |= c == i;
			if(anc) continue;
			chain->append(r[i]);
			if(not m.chain.empty()) m.r[i].parent = m.chain.back();
			m.chain.push_back(i);
			while(m.chain.size() > 1 and m.fin(m.chain[0])) m.chain.erase(m.chain.begin());
		}
		else if(o == OP_EXPIRE2 or o == OP_EXPIREINF) { double d = o == OP_EXPIRE2 ? m.now + 1 : INFINITY; chain->expire(d); for(int c : m.chain) { m.r[c].startBy = std::min(m.r[c].startBy, d); m.r[c].finishBy = std::min(m.r[c].finishBy, d); } m.chain.clear(); }
		else if(o == OP_EXPIRE_START) { double d = m.now - 0.25; chain->expire(d, INFINITY); for(int c : m.chain) m.r[c].startBy = std::min(m.r[c].startBy, d); m.chain.clear(); }
		else if(o == OP_STARTWITHIN) { r[0]->setStartWithin(2); m.r[0].startBy = origin + 2; }
		else { r[1]->setFinishWithin(2); m.r[1].finishBy = origin + 2; }
		for(int i = 0; i < 3 and err.empty(); i++)
		{
			auto &x = m.r[i];
			if(fired[i] != x.fired or firedAb[i] != x.firedAb) err = fmt("receipt %d: finish callback fired %d times (%d abandoned), expected %d (%d)", i, fired[i], firedAb[i], x.fired, x.firedAb);
			else if(r[i]->isAbandoned() != x.abandoned or r[i]->isStarted() != x.started or r[i]->isFinished() != m.fin(i) or r[i]->isDelivered() != (m.fin(i) and not x.abandoned)) err = fmt("receipt %d: queries started/delivered/abandoned/finished = %d%d%d%d, expected %d%d%d%d", i, r[i]->isStarted(), r[i]->isDelivered(), r[i]->isAbandoned(), r[i]->isFinished(), x.started, m.fin(i) and not x.abandoned, x.abandoned, m.fin(i));
			else if(r[i]->startBy != x.startBy or r[i]->finishBy != x.finishBy) err = fmt("receipt %d: deadlines %g/%g, expected %g/%g", i, r[i]->startBy, r[i]->finishBy, x.startBy, x.finishBy);
			else if(r[i]->createdAt() != origin) err = "creation time changed";
		}
		if(not err.empty()) break;
	}
	for(auto &x : r) { x->onFinished = nullptr; x->parent.reset(); }
	return err;
}

// ---- (c) endings
enum Ending { E_CLOSE, E_SESSION_A, E_SESSION_B, E_SHUT_A, E_SHUTNOW_A, E_SHUTNOW_B, E_REJECT, E_DEAD, E_RELEASE, E_SESSION_THEN_CLOSE, E_LAST };
static const char *endName[] = { "close", "session-close", "peer-session-close", "shutdown", "shutdown-now", "peer-shutdown-now", "reject", "peer-dead", "close-and-release", "session-close-then-close" };
static void ending(Ctx &ctx, int e, double when, bool unreachable, FaultPlan plan)
{
	Sim s(ctx); App app(s); Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	plan.install(s);
	if(unreachable) b.muted = true;
	RefRecv ref; uintmax_t flowId = 0;
	Rx *rx = nullptr; app.onNew = [&] (Rx &r) { rx = &r; };
	app.acceptAll(b);
	a.rtmfp->setDefaultSessionRetransmitLimit(20);
	Tx &t = app.open(a, "bob", "f", &b.address);
	s.onSend.push_back([&] (const Pkt &p) { if(p.from == a.idx) for(auto &u : userData(parsePacket(p.data))) { if(not flowId and u.hasMeta and S(u.meta) == "f") flowId = u.flow; if(u.flow == flowId and not (u.flags & USERDATA_FLAG_ABN) and u.data.size() > 8) for(size_t i = 0; i < t.msgs.size(); i++) if(t.finishedAbandoned[i] and std::search(t.msgs[i].begin(), t.msgs[i].end(), u.data.begin(), u.data.end()) != t.msgs[i].end()) ctx.fail("data of abandoned message %zu was transmitted", i); } });
	s.onDeliver.push_back([&] (const Pkt &p) { if(p.dst == b.address) for(auto &u : userData(parsePacket(p.data))) if(flowId and u.flow == flowId) ref.arrive(u.sn, u.fsn, u.flags, u.data); });
	auto whole = [&] (size_t i) { for(auto &g : ref.got) { uintmax_t en = ref.runEnd(g.first); if(en and ref.runData(g.first, en) == t.msgs[i]) return true; } return false; };
	std::vector<bool> was;
	s.onStep.push_back([&] {
		was.resize(t.finished.size());
		for(size_t i = 0; i < t.finished.size(); i++)
		{
			auto &r = t.receipts[i];
			if(r->isFinished() != bool(t.finished[i]) or r->isAbandoned() != bool(t.finishedAbandoned[i]) or r->isDelivered() != (t.finished[i] and not t.finishedAbandoned[i])) { ctx.fail("receipt of message %zu disagrees with its callback", i); return; }
			if(t.finished[i] and not was[i]) { was[i] = true; if(not t.finishedAbandoned[i] and not whole(i)) { ctx.fail("receipt of message %zu says delivered but the far end has not received all of it", i); return; } }
		}
	});
	for(size_t n : { 40, 2600, 30 }) app.write(t, n);
	for(int i = 0; i < 3; i++) s.after(0.09 + 0.02 * i, [&] { if(t.flow and t.flow->isOpen()) { app.write(t, 1900); app.write(t, 50); } });
	auto endIt = [&] {
		switch(e)
		{
		case E_CLOSE: app.close(t); break;
		case E_SESSION_A: t.flow->closeSession(); break;
		case E_SESSION_THEN_CLOSE: t.flow->closeSession(); app.close(t); break;
		case E_SESSION_B: if(rx) rx->flow->closeSession(); else b.muted = true; break;
		case E_SHUT_A: a.rtmfp->shutdown(false); break;
		case E_SHUTNOW_A: a.rtmfp->shutdown(true); break;
		case E_SHUTNOW_B: b.rtmfp->shutdown(true); break;
		case E_REJECT: if(rx) { rx->closedByApp = true; rx->flow->close(7); } else b.rtmfp->onRecvFlow = nullptr; break;
		case E_DEAD: b.muted = true; break;
		case E_RELEASE: { app.close(t); t.flow.reset(); break; }
		}
	};
	s.at(1000 + when, endIt);
	s.runUntil([&] { if(not s.script.empty()) return false; for(auto f : t.finished) if(not f) return false; return true; }, 1000 + 400);
	ctx.bail();
	size_t ab = 0; for(auto x : t.finishedAbandoned) ab += x;
	for(size_t i = 0; i < t.finished.size(); i++)
		ctx.require(t.finished[i] == 1, "receipt of message %zu of %zu never finished after '%s' at +%.3f", i, t.finished.size(), endName[e], when);
	s.run(s.now + 200);
	ctx.bail();
	ctx.count("receipts finished", t.finished.size()); ctx.count("receipts abandoned", ab);
	ctx.summary = fmt("%s at +%.3f: %zu receipts, %zu abandoned", endName[e], when, t.finished.size(), ab);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C04";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "operation sequences on three receipts and one chain; transfers of a handful of messages" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		v.push_back({ "receipt-operations", 0, [=] (Ctx &c) { mc::allSequences(c, OP_N, th ? 6 : 5, 2, receiptSeq); } });
		std::vector<AbandonScript> scripts {
			{ "deadlines", { 30, 2600, 1700, 50 }, {}, true, 0, 0, false, 0.3, false, { -1, -1, A_FINISH160, A_START50 } },
			{ "chain", { 30, 1500, 1600, 40 }, { -1, 0, 1, 2 } },
			{ "no-retransmit", { 30, 2600, 1700, 2500, 20 }, {}, true, 0, 0, false, 0.4, false, { -1, A_NORTX, A_NORTX, -1, A_NONE } },
			{ "late-chain", { 20, 2400, 1300, 60 }, { -1, -1, 1, 2 }, false, 0.05 },
			{ "small-window", { 1500, 2600, 40, 1700 }, {}, true, 0, 2200, false, 0.4, false, { -1, A_FINISH160, A_START50, -1 } },
		};
		FaultPlan p; p.window = 10; p.skip = 4; p.faults = { F_DROP, F_DELAY_LONG, F_DELAY_SHORT }; p.longDelay = 0.45;
		for(auto &sc : scripts) v.push_back({ sc.name, th ? 3 : 2, [=] (Ctx &c) { AbandonRun r(c, sc); r.run(p); } });
		FaultPlan l; l.window = th ? 12 : 8; l.skip = 4; l.faults = { F_DROP }; l.cost = 0;
		AbandonScript m { "x", { 30, 2600, 1700, 50, 1200 }, { -1, -1, -1, 2, -1 } }; m.fixed = { A_NONE, A_NORTX, A_FINISH700, A_NONE, A_NONE };
		v.push_back({ "all-losses", 0, [=] (Ctx &c) { AbandonRun r(c, m); r.run(l); } });
		FaultPlan q; q.window = 14; q.faults = { F_DROP, F_DELAY_LONG };
		for(int e = 0; e < E_LAST; e++)
			for(double w : { 0.0, 0.06, 0.0999, 0.1001, 0.126, 0.155, 0.3 })
				v.push_back({ fmt("ending/%s@%.4f", endName[e], w), th ? 2 : 1, [=] (Ctx &c) { ending(c, e, w, false, q); } });
		for(int e : { E_CLOSE, E_SHUT_A, E_SHUTNOW_A, E_DEAD, E_RELEASE }) v.push_back({ fmt("unreachable/%s", endName[e]), 0, [=] (Ctx &c) { ending(c, e, 3.0, true, q); } });
		return v;
	});
}
