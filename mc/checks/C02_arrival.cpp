// C02: arrival-order delivery. (a) all permutations of fragment sets with duplicates, (b) end-to-end with faults and mode switches.
#include "reasm.hpp"
using namespace sim;

static std::vector<ReasmFrag> fragments(const std::vector<int> &sizes, bool fin)
{
	std::vector<ReasmFrag> v; uintmax_t sn = 1;
	for(size_t m = 0; m < sizes.size(); m++)
		for(int i = 0; i < sizes[m]; i++, sn++)
		{
			uint8_t fl = sizes[m] == 1 ? USERDATA_FRA_WHOLE : i == 0 ? USERDATA_FRA_BEGIN : i == sizes[m] - 1 ? USERDATA_FRA_END : USERDATA_FRA_MIDDLE;
			v.push_back({ sn, 0, fl, payload((int)m, i, (m + i) % 4 == 1 ? 0 : 5 + i) });
		}
	if(fin) v.back().flags |= USERDATA_FLAG_FIN;
	return v;
}

// permutations: first two positions chosen by the explorer, the rest enumerated here; every fragment may also be repeated once at the end
static void permBody(Ctx &ctx, const std::vector<int> &sizes, bool fin, ReceiveOrder order, int sw, int swAt, int fsnMode)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(b.idx, f); };
	RawPeer peer(s, app, a, b);
	app.forgetRx();
	auto fr = fragments(sizes, fin); int n = (int)fr.size();
	int c0 = ctx.choose(n, 0, "first"), c1 = ctx.choose(n - 1, 0, "second"); if(c1 >= c0) c1++;
	std::vector<int> rest; for(int i = 0; i < n; i++) if(i != c0 and i != c1) rest.push_back(i);
	uintmax_t flow = 100; unsigned long runs = 0;
	do
	{
		std::vector<int> perm { c0, c1 }; perm.insert(perm.end(), rest.begin(), rest.end());
		for(int dup = -1; dup < n; dup += (n > 5 ? 3 : 1))
		{
			s.maxSteps = s.steps + 10000;
			ReasmRun r { peer, flow++, {}, {} };
			r.order0 = order;
			for(size_t i = 0; i < perm.size(); i++)
			{
				r.frags.push_back(fr[perm[i]]);
				if(dup == (int)i) r.frags.push_back(fr[perm[i / 2]]);
			}
			// a sender whose earliest messages were all acknowledged announces them as no longer coming
			if(fsnMode) { uintmax_t c = 0; std::set<uintmax_t> have; for(auto &f : r.frags) { have.insert(f.sn); while(have.count(c + 1)) c++; f.fsn = std::min(c, f.sn - 1); } }
			if(sw >= 0) { r.modes.assign(r.frags.size(), -1); r.modes[swAt] = sw; }
			r.run(ctx); runs++;
		}
	} while(std::next_permutation(rest.begin(), rest.end()));
	ctx.count("arrival orders", runs);
	ctx.summary = fmt("%lu arrival orders of %d fragments", runs, n);
}

static void e2e(Ctx &ctx, const std::vector<size_t> &sizes, FaultPlan plan, int order1, int order2, bool useHold)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	plan.install(s);
	Rx *rx = nullptr; ReceiveOrder order = (ReceiveOrder)order1; bool switched = order1 != RO_NETWORK;
	RefRecv ref; std::set<uintmax_t> done; double holdUntil = -1;
	app.onNew = [&] (Rx &r) {
		rx = &r; r.flow->setReceiveOrder(order);
		r.flow->onCumulativeAckDidMerge = [&] {
			rx->merges++;
			uintmax_t csn = rx->flow->getCumulativeAckSequenceNumber(), c = 0;
			std::map<uintmax_t, uintmax_t> cover; for(auto &m : rx->msgs) cover[m.sn] = m.sn + m.frags - 1;
			for(auto &x : cover) { if(x.first != c + 1) break; c = x.second; }
			// an unfinished message may straddle the cumulative acknowledgement
			for(auto &g : ref.got) if(g.first > c and g.first <= csn) { uintmax_t e = ref.runEnd(g.first); if(e and e <= csn and not cover.count(g.first)) ctx.fail("gap closed through %lu but message %lu was not handed over", (unsigned long)csn, (unsigned long)g.first); }
			if(order != RO_NETWORK) ctx.fail("gap-closed notification outside arrival order mode");
		};
	};
	app.acceptAll(b);
	s.onDeliver.push_back([&] (const Pkt &p) { if(p.dst == b.address) for(auto &u : userData(parsePacket(p.data))) ref.arrive(u.sn, u.fsn, u.flags, u.data); });
	s.onStep.push_back([&] {
		if(not rx) return;
		size_t seen = done.size();
		for(; seen < rx->msgs.size(); seen++)
		{
			auto &m = rx->msgs[seen]; uintmax_t e = ref.runEnd(m.sn);
			if(not e or m.data != ref.runData(m.sn, e) or m.frags != e - m.sn + 1) { ctx.fail("delivered message %lu is not what arrived", (unsigned long)m.sn); return; }
			if(not done.insert(m.sn).second) { ctx.fail("message %lu delivered twice", (unsigned long)m.sn); return; }
		}
		if(order == RO_NETWORK and not switched)
			for(auto &g : ref.got) if(ref.runEnd(g.first) and not done.count(g.first)) { ctx.fail("message %lu has completely arrived but was not delivered", (unsigned long)g.first); return; }
	});
	Tx &t = app.open(a, "bob", "f", &b.address);
	for(auto n : sizes) app.write(t, n);
	if(order2 >= 0)
	{
		double at[] = { 0.13, 0.16, 0.21, 0.5, 1.1 };
		int w = ctx.choose(5, 0, "switch time");
		s.at(s.now + at[w], [&, order2, useHold] {
			if(not rx) { order = (ReceiveOrder)order2; return; }
			switched = true;
			order = (ReceiveOrder)order2; rx->flow->setReceiveOrder(order);
			if(useHold) s.after(0.7, [&] { order = RO_NETWORK; rx->flow->setReceiveOrder(order); });
		});
	}
	s.runUntil([&] { return t.flow->isWritable(); }, s.now + 200);
	app.close(t);
	s.runUntil([&] { return rx and rx->completes and rx->msgs.size() >= t.msgs.size() and s.script.empty(); }, s.now + 250);
	ctx.bail();
	ctx.require(rx, "flow never arrived");
	ctx.require(rx->completes == 1 and rx->errors == 0, "flow did not complete cleanly (%d, %d errors), %zu of %zu messages", rx->completes, rx->errors, rx->msgs.size(), t.msgs.size());
	auto sorted = rx->msgs; std::sort(sorted.begin(), sorted.end(), [] (const RxMsg &x, const RxMsg &y) { return x.sn < y.sn; });
	ctx.require(sorted.size() == t.msgs.size(), "%zu messages delivered, %zu written", sorted.size(), t.msgs.size());
	for(size_t i = 0; i < sorted.size(); i++)
	{
		ctx.require(sorted[i].data == t.msgs[i], "sorting deliveries by sequence number does not restore message %zu", i);
		if(i) ctx.require(sorted[i].sn == sorted[i - 1].sn + sorted[i - 1].frags, "fragment count of message %zu is untruthful", i - 1);
	}
	bool ooo = false; for(size_t i = 1; i < rx->msgs.size(); i++) ooo |= rx->msgs[i].sn < rx->msgs[i - 1].sn;
	ctx.count(ooo ? "transfers delivered out of order" : "transfers delivered in order");
	ctx.count("gap-closed notifications", rx->merges);
	ctx.summary = fmt("%zu messages, %s, %d gap notifications", sorted.size(), ooo ? "out of order" : "in order", rx->merges);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C02";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "permutations: one fragment per packet; end-to-end: bounded number of faults" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		std::vector<std::pair<std::string, std::vector<int>>> sets { { "w-be-w-be", { 1, 2, 1, 2 } }, { "bme-be-w", { 3, 2, 1 } }, { "bmme-w", { 4, 1 } }, { "w5", { 1, 1, 1, 1, 1 } } };
		if(th) { sets.push_back({ "be-be-bme", { 2, 2, 3 } }); sets.push_back({ "w-bme-w-be", { 1, 3, 1, 2 } }); sets.push_back({ "be-w-bme-be", { 2, 1, 3, 2 } }); }
		for(auto &x : sets)
		{
			auto sz = x.second;
			for(int fsn : { 0, 1 })
			{
				v.push_back({ "perm/" + x.first + (fsn ? "/fsn" : ""), 0, [=] (Ctx &c) { permBody(c, sz, false, RO_NETWORK, -1, 0, fsn); } });
				v.push_back({ "perm-fin/" + x.first + (fsn ? "/fsn" : ""), 0, [=] (Ctx &c) { permBody(c, sz, true, RO_NETWORK, -1, 0, fsn); } });
			}
			for(int at : { 2, 3, 4 })
			{
				v.push_back({ fmt("perm-switch/%s/seq-net@%d", x.first.c_str(), at), 0, [=] (Ctx &c) { permBody(c, sz, false, RO_SEQUENCE, RO_NETWORK, at, 0); } });
				v.push_back({ fmt("perm-switch/%s/net-seq@%d", x.first.c_str(), at), 0, [=] (Ctx &c) { permBody(c, sz, true, RO_NETWORK, RO_SEQUENCE, at, 0); } });
				v.push_back({ fmt("perm-switch/%s/hold-net@%d", x.first.c_str(), at), 0, [=] (Ctx &c) { permBody(c, sz, true, RO_HOLD, RO_NETWORK, at, 0); } });
			}
		}
		int k = th ? 3 : 2;
		FaultPlan p; p.window = 18; p.skip = 4; p.faults = { F_DROP, F_DELAY_SHORT, F_DELAY_LONG, F_DUP_LATE };
		std::vector<size_t> mix { 10, 2600, 0, 1164, 20, 3000, 5 };
		v.push_back({ "e2e/network", k, [=] (Ctx &c) { e2e(c, mix, p, RO_NETWORK, -1, false); } });
		FaultPlan q = p; q.window = 12;
		v.push_back({ "e2e/network-to-sequence", k, [=] (Ctx &c) { e2e(c, mix, q, RO_NETWORK, RO_SEQUENCE, false); } });
		v.push_back({ "e2e/sequence-to-network", k, [=] (Ctx &c) { e2e(c, mix, q, RO_SEQUENCE, RO_NETWORK, false); } });
		v.push_back({ "e2e/network-hold-network", k, [=] (Ctx &c) { e2e(c, mix, q, RO_NETWORK, RO_HOLD, true); } });
		FaultPlan l; l.window = th ? 13 : 9; l.skip = 4; l.faults = { F_DROP }; l.cost = 0;
		v.push_back({ "e2e/all-losses", 0, [=] (Ctx &c) { e2e(c, mix, l, RO_NETWORK, -1, false); } });
		FaultPlan d = l; d.faults = { F_DELAY_SHORT }; d.shortDelay = 0.04;
		v.push_back({ "e2e/all-delays", 0, [=] (Ctx &c) { e2e(c, mix, d, RO_NETWORK, -1, false); } });
		return v;
	});
}
