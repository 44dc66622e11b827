// C13: a session follows its peer to a new address, and only after that address answered a fresh probe.
#include "flows.hpp"
using namespace sim;

enum Traffic { BOTH, MOVER, OTHER };
struct Spec { std::string name; int mover = 0, traffic = BOTH, nMoves = 1, backTo = -1; std::vector<double> gaps { 1.3 }; int events = 30, stride = 1; int inject = 0, injFrom = 24, injStride = 1; bool carol = false, flap = false; double latency = 0.02; double start = 0; double blackout = 0; bool keepOld = false; };

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s); s.latency = sp.latency;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); Host *hs[] = { &a, &b };
	Host &carol = s.add("carol", "10.0.0.3:1935"); app.acceptAll(carol);
	app.acceptAll(a); app.acceptAll(b);
	Host &mv = *hs[sp.mover], &st = *hs[1 - sp.mover];
	auto addr = [] (const char *x) { Address r; r.setFromPresentation(x); return r; };
	std::vector<Address> places { mv.address, addr("10.0.1.1:5001"), addr("10.0.1.1:5002"), addr("10.0.2.1:6000") };
	Address nobody = addr("10.9.9.9:9");
	bool armed = false, moved = false; auto fp = std::make_shared<FaultPlan>(plan); double darkTo = -1; int faults = 0;
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) {
		if(p.from > 1) { for(auto &x : d) x += 0.0031; return; }
		if(s.now < darkTo) { d.clear(); return; }
		if(armed and moved) { fp->apply(ctx, p, d); if(d.size() != 1 or d[0] != 0) faults++; }
	};
	// the verified address of the peer of each end, recomputed from the wire
	struct Probe { Bytes what; Address to; double at; int n; };
	struct V { Address cur; bool known = false; std::vector<Probe> probes; int lastAccepted = -1; int changes = 0, callbacks = 0; Address before; std::vector<double> at; bool may = false, must = false; Address next; } v[2];
	std::vector<Pkt> captured[2]; Host *squat = nullptr;
	auto isMob = [] (const Chunk &c) { return not c.payload.empty() and c.payload[0] == 'M'; };
	auto farOf = [&] (int w, Address &out) { for(auto &t : app.tx) if(t->host == w and not t->flow->getFarCanonicalEPD().empty() and S(t->flow->getFarCanonicalEPD()) != "carol" and not t->exceptions) { out = t->flow->getFarAddress(); return true; } for(auto &r : app.rx) if(r->host == w and not r->completes and S(r->flow->getFarCanonicalEPD()) != "carol" and not r->closedByApp) { out = r->flow->getFarAddress(); return true; } return false; };
	s.onSend.push_back([&] (const Pkt &p) {
		if(p.from > 1) return;
		auto q = parsePacket(p.data); if(q.mode() == 3) return;
		if(not (p.dst == carol.address)) captured[p.from].push_back(p);
		V &x = v[p.from]; if(not x.known) return; bool mob = false; Address bound = x.cur;
		for(auto &c : q.chunks) if(c.type == CHUNK_PING and isMob(c))
		{
			mob = true; x.probes.push_back({ c.payload, p.dst, s.now, (int)x.probes.size() }); x.at.push_back(s.now);
			size_t n = x.at.size();
			if(n > 2) ctx.require(x.at[n - 1] - x.at[n - 3] >= 1 - 1e-6, "three verification probes within %.3f s", x.at[n - 1] - x.at[n - 3]);
			if(n > 6) ctx.require(x.at[n - 1] - x.at[n - 7] >= 5 - 1e-6, "seven verification probes within %.3f s", x.at[n - 1] - x.at[n - 7]);
			ctx.require(not (p.dst == x.cur), "verification probe to the address already in use");
		}
		if(not mob and not (p.dst == carol.address) and not (squat and p.dst == places[0])) ctx.require(p.dst == bound or (x.may and p.dst == x.next), "%s sends session traffic to %s which is not the verified address %s", hs[p.from]->name.c_str(), p.dst.toPresentation().c_str(), bound.toPresentation().c_str());
	});
	s.onDeliver.push_back([&] (const Pkt &p) {
		auto it = s.route.find(p.dst); if(it == s.route.end() or it->second > 1 or it->second < 0) return; V &x = v[it->second];
		auto q = parsePacket(p.data); if(q.mode() == 3) return;
		for(auto &c : q.chunks) if(c.type == CHUNK_PING_REPLY and isMob(c))
			for(auto &pr : x.probes) if(pr.what == c.payload and pr.to == p.src and pr.n > x.lastAccepted and s.now <= pr.at + 121.5)
			{
				x.may = true; x.next = p.src; x.lastAccepted = pr.n; if(s.now <= pr.at + 119) x.must = true;
				break;
			}
	});
	s.onStep.push_back([&] {
		for(int w : { 0, 1 })
		{
			V &x = v[w]; Address now; if(not farOf(w, now)) { x.may = x.must = false; continue; }
			if(not x.known) { x.known = true; x.cur = now; continue; }
			if(not (now == x.cur))
			{
				ctx.require(x.may and now == x.next, "%s moved its session from %s to %s which had not answered a fresh probe", hs[w]->name.c_str(), x.cur.toPresentation().c_str(), now.toPresentation().c_str());
				x.cur = now; x.changes++; ctx.count("address changes followed");
				for(auto &t : app.tx) if(t->host == w and not t->flow->getFarCanonicalEPD().empty() and S(t->flow->getFarCanonicalEPD()) != "carol" and not t->exceptions and not t->closed) ctx.require(t->flow->getFarAddress() == now, "flows of one session disagree on the peer's address");
			}
			else ctx.require(not x.must or x.next == now, "%s did not follow its peer to %s although that address answered a fresh probe", hs[w]->name.c_str(), x.next.toPresentation().c_str());
			x.may = x.must = false;
		}
	});
	std::map<std::pair<int, void *>, int> cb;
	auto watch = [&] (int w, Flow *f) { f->onFarAddressDidChange = [&, w, f] { cb[{ w, f }]++; }; };
	if(sp.start) s.run(s.now + sp.start);
	std::vector<Tx *> tm, to;
	app.onNew = [&] (Rx &r) { if(r.host < 2 and S(r.meta) != "car") watch(r.host, r.flow.get()); };
	Tx &t0 = app.open(a, "bob", "f", &b.address); watch(0, t0.flow.get()); app.write(t0, 500);
	s.runUntil([&] { return app.find("f", b.idx); }, s.now + 30); ctx.bail();
	Tx &t1 = app.wrap(b.idx, app.find("f", b.idx)->flow->openFlow(B("g"))); watch(1, t1.flow.get()); app.write(t1, 500);
	(sp.mover ? to : tm).push_back(&t0); (sp.mover ? tm : to).push_back(&t1);
	s.run(s.now + 0.35); ctx.bail();
	if(sp.traffic == OTHER) { for(auto t : tm) t->flow->setSessionKeepalivePeriod(1.5); }
	double gap = sp.gaps[ctx.choose((int)sp.gaps.size(), 0, "gap")];
	double T0 = s.now, horizon = std::max(9., gap * sp.nMoves + 5 + 3 * sp.latency);
	for(double d = 0; d < horizon; d += 0.19) s.at(T0 + d, [&, d] { if(sp.traffic != OTHER) for(auto t : tm) app.write(*t, 200 + int(d * 1000) % 1500); if(sp.traffic != MOVER) for(auto t : to) app.write(*t, 700); });
	int place = 0;
	auto move = [&] (int k) { if(not sp.keepOld) s.route[mv.address] = -1; mv.address = places[k]; s.route[mv.address] = mv.idx; place = k; moved = true; if(sp.blackout) darkTo = s.now + sp.blackout; ctx.log("        %s is now at %s", mv.name.c_str(), mv.address.toPresentation().c_str()); };
	armed = true;
	int at = ctx.choose(sp.events, 0, "move at") * sp.stride, n = 0; bool done = false; int moves = 0;
	s.onStep.push_back([&] { if(sp.nMoves and not done and n++ == at) { done = true; s.after(0, [&] { move(1); moves++; }); } });
	s.runUntil([&] { return done or not sp.nMoves; }, T0 + 5); ctx.bail();
	for(int i = 1; i < sp.nMoves; i++) s.after(gap * i, [&, i] { move(i == sp.nMoves - 1 and sp.backTo >= 0 ? sp.backTo : (i + 1) % 4); moves++; });
	if(sp.flap) for(int i = 1; i < 60; i++) s.after(0.05 * i, [&, i] { move(i % 2); });
	// an eavesdropper sends captured packets again from elsewhere
	int inj = 0, m = 0; bool fired = false;
	if(sp.inject)
	{
		s.run(s.now + 0.01);
		int when = ctx.choose(sp.injFrom, 0, "inject at") * sp.injStride; 
		s.onStep.push_back([&, when] () mutable {
			if(fired or m++ != when) return;
			fired = true;
			s.after(0, [&] {
				int w = ctx.choose(2, 0, "of");
				{ int c = (int)captured[w].size(); if(not c) return;
					int pick = ctx.choose(std::min(c, 4), 0, "which"), src = ctx.choose(4, 0, "from");
					Pkt p = captured[w][c - 1 - pick]; Address from[] = { nobody, carol.address, places[0], places[2] };
					for(int k = 0; k < sp.inject; k++) { s.inject(p.data, from[src], hs[1 - w]->address, 0.001 + 0.05 * k); inj++; }
					// every reply to a probe so far comes again too, from there
					for(auto &q : captured[w]) { auto z = parsePacket(q.data); for(auto &ch : z.chunks) if(ch.type == CHUNK_PING_REPLY) { s.inject(q.data, from[src], hs[1 - w]->address, 0.4); s.inject(q.data, from[src], hs[1 - w]->address, 2.9); } }
				}
				ctx.count("captured packets sent from elsewhere");
			});
		});
	}
	Tx *tc = nullptr; bool squatted = false;
	if(sp.carol) s.after(gap, [&] { // somebody else gets the old address
		squat = &s.add("zed", "10.0.0.77:1935"); s.route[squat->address] = -1; squat->address = places[0]; s.route[places[0]] = squat->idx; app.acceptAll(*squat);
		tc = &app.open(*squat, st.name, "car", &st.address); app.write(*tc, 900); squatted = true; });
	double last = s.now + gap * sp.nMoves + (sp.flap ? 3 : 0) + sp.blackout;
	s.run(std::max(last, T0 + horizon + 0.5)); ctx.bail();
	bool ok = s.runUntil([&] { for(auto &t : app.tx) if(t->flow->getBufferedSize()) return false; return true; }, s.now + 45); ctx.bail();
	double settled = s.now;
	s.run(s.now + 4); ctx.bail();
	ctx.require(ok, "transfer stuck after the peer moved (%d moves)", moves);
	if(not sp.flap or sp.nMoves) { if(sp.nMoves and sp.traffic != OTHER) ctx.require(v[st.idx].cur == mv.address, "%s still sends to %s but its peer is at %s", st.name.c_str(), v[st.idx].cur.toPresentation().c_str(), mv.address.toPresentation().c_str()); }
	checkExact(ctx, app, t0, "f", b.idx); checkExact(ctx, app, t1, "g", a.idx);
	ctx.require(t0.exceptions + t1.exceptions == 0, "a flow failed because its peer moved");
	for(auto &r : app.rx) ctx.require(r->completes == 0, "a receiving flow ended because the peer moved");
	if(tc) { checkExact(ctx, app, *tc, "car", st.idx); ctx.require(tc->exceptions == 0, "the new user of the old address cannot open a session"); }
	for(int w : { 0, 1 })
	{
		std::vector<Flow *> fs; fs.push_back(w ? t1.flow.get() : t0.flow.get()); for(auto &r : app.rx) if(r->host == w and S(r->meta) != "car") fs.push_back(r->flow.get());
		for(auto f : fs) { int c = cb[{ w, f }]; ctx.require(c >= v[w].changes - (f == fs[0] ? 0 : v[w].changes), "address change callback fired %d times for %d changes", c, v[w].changes); ctx.require(c <= v[w].lastAccepted + 1, "address change callback fired %d times although at most %d probes were answered", c, v[w].lastAccepted + 1); if(f != fs[0] and v[w].changes) ctx.require(c >= v[w].changes, "address change callback fired %d times on a receiving flow for %d changes", c, v[w].changes); }
	}
	// later flows find the same session
	Bytes nonce = t0.flow->getNearNonce();
	Tx &u = app.open(a, "bob", "late-a", &b.address); app.write(u, 100); Tx &w = app.open(b, "alice", "late-b", &a.address); app.write(w, 100);
	s.run(s.now + 4); ctx.bail();
	checkExact(ctx, app, u, "late-a", b.idx); checkExact(ctx, app, w, "late-b", a.idx);
	ctx.require(u.flow->getNearNonce() == nonce and w.flow->getFarNonce() == nonce, "a flow opened after the move got another session");
	ctx.summary = fmt("%s: moved at event %d, settled %.1f s later, %d probes, %d changes", sp.name.c_str(), at, settled - T0, (int)(v[0].probes.size() + v[1].probes.size()), v[0].changes + v[1].changes);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C13";
	meta.assumptions = { "virtual network and time", "the adversary can capture and re-send packets from any address but does not relay the probe that is being answered (an on-path relay is indistinguishable from a NAT)", "one end moves at a time and the moving end has something to send" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 2 : 1;
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 12; p.faults = { F_DROP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG }; p.shortDelay = 0.05;
		auto add = [&] (Spec x, int budget) { FaultPlan pl = p; v.push_back({ x.name, budget, [=] (Ctx &c) { body(c, x, pl); } }); };
		const char *tn[] = { "both", "mover", "other" };
		for(int m : { 0, 1 }) for(int tr : { BOTH, MOVER, OTHER })
		{
			std::string nm = fmt("%s-%s", m ? "bob" : "alice", tn[tr]);
			Spec x; x.mover = m; x.traffic = tr;
			x.name = nm; x.events = 14; x.stride = 3; add(x, k);
			x.name = nm + "-black"; x.blackout = 3.2; x.events = 6; add(x, 0);
			x = Spec(); x.mover = m; x.traffic = tr; x.events = 5; x.stride = 7;
			x.nMoves = 2; x.gaps = { 0.005, 0.03, 0.07, 0.5, 1.01, 2.3 }; x.name = nm + "-twice"; add(x, k);
			x.backTo = 0; x.name = nm + "-back"; add(x, k);
			x.keepOld = true; x.name = nm + "-back-kept"; add(x, k); x.keepOld = false;
			x.nMoves = 5; x.backTo = -1; x.name = nm + "-five"; add(x, 0);
			x.latency = 0.7; x.name = nm + "-five-far"; add(x, 0);
			x = Spec(); x.mover = m; x.traffic = tr; x.events = 8; x.stride = 5; x.start = 3.3; x.name = nm + "-older"; add(x, k);
			x.flap = true; x.events = 3; x.name = nm + "-flapping"; add(x, 0); x.keepOld = true; x.name = nm + "-flapping-kept"; add(x, 0);
			x = Spec(); x.mover = m; x.traffic = tr; x.carol = true; x.events = 4; x.stride = 6; x.gaps = { 0.0, 0.03, 0.6, 3. }; x.name = nm + "-oldaddress"; add(x, k);
			x = Spec(); x.mover = m; x.traffic = tr; x.inject = 1; x.events = 1; x.start = 2; x.injFrom = th ? 60 : 20; x.injStride = th ? 1 : 3; x.name = nm + "-inject"; add(x, 0);
			x.inject = 5; x.name = nm + "-inject5"; if(tr == BOTH) add(x, 0);
			x.inject = 1; x.nMoves = 0; x.name = nm + "-inject-unmoved"; add(x, 0);
			x.inject = 1; x.nMoves = 3; x.gaps = { 0.4, 1.5 }; x.name = nm + "-inject-thrice"; add(x, 0);
		}
		return v;
	});
}
