// C08: session establishment under every fault pattern, crypto completion order and address change within bounds.
#include "flows.hpp"
using namespace sim;

struct Spec {
	std::string name; std::vector<std::string> epds { "bob" }; int bobFlows = 0; bool threads = false; int moveWindow = 0; double deadFrom = -1, deadTo = -1; int dead = 3; bool viaAlt = false, decoys = false; bool lateFlow = false; bool echo = false; double prop = 0.025; int bigBack = 0;
};

static void body(Ctx &ctx, const Spec &sp, FaultPlan plan, std::vector<double> threadDelays)
{
	Sim s(ctx); App app(s); s.latency = sp.prop;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	Address bobAlt; bobAlt.setFromPresentation("10.0.9.2:77");
	Address nowhere; nowhere.setFromPresentation("10.9.9.9:9");
	Address moved; moved.setFromPresentation("10.0.1.1:4444");
	s.route[bobAlt] = b.idx;
	Host *carol = nullptr;
	if(sp.decoys) { carol = &s.add("carol", "10.0.0.3:1935"); app.acceptAll(*carol); }
	auto fp = std::make_shared<FaultPlan>(plan);
	int sent = 0, moveAt = sp.moveWindow ? ctx.choose(sp.moveWindow, 0, "move") : -1;
	std::set<uint32_t> responderSids; std::map<std::pair<int, std::pair<uintmax_t, uintmax_t>>, int> sends; bool faultFree = true; int resends = 0;
	s.onSend.push_back([&] (const Pkt &p) {
		auto q = parsePacket(p.data);
		for(auto &c : q.chunks) if(c.type == CHUNK_RIKEYING and p.from == b.idx and c.payload.size() > 4) { uint32_t sid; memcpy(&sid, c.payload.data(), 4); responderSids.insert(sid); }
		for(auto &u : userData(q)) if(sends[{ p.from, { u.flow, u.sn } }]++) resends++;
	});
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) {
		if(sent++ == moveAt) { s.route[a.address] = -1; a.address = moved; s.route[moved] = a.idx; ctx.log("        alice moved"); }
		double t = s.now - 1000;
		if(t >= sp.deadFrom and t < sp.deadTo and (sp.dead & (p.from == a.idx ? 1 : 2))) { d.clear(); return; }
		fp->apply(ctx, p, d); if(d.size() != 1 or d[0] != 0) faultFree = false;
	};
	int slow = 0;
	if(sp.threads) s.taskDelay = [&] (Host &, unsigned long) -> double { if(slow > 14) return 0; slow++; int c = ctx.choose((int)threadDelays.size() + 1, 1, "crypto"); if(c) ctx.count("crypto tasks delayed"); return c ? threadDelays[c - 1] : 0; };
	app.acceptAll(a); app.acceptAll(b);
	std::map<std::string, Tx *> echoes;
	if(sp.echo) app.onNew = [&] (Rx &r) { if(r.host == b.idx and S(r.meta) == "a0") { Tx &t = app.wrap(b.idx, r.flow->openReturnFlow(B("ret"))); echoes["ret"] = &t; app.write(t, 700); } };
	std::vector<Tx *> ta, tb;
	for(int i = 0; i < sp.bobFlows; i++) { tb.push_back(&app.open(b, "alice", fmt("b%d", i))); app.write(*tb.back(), 900 * (1 + sp.bigBack)); app.write(*tb.back(), 10); }
	for(size_t i = 0; i < sp.epds.size(); i++)
	{
		Tx &t = app.open(a, sp.epds[i], fmt("a%zu", i), nullptr); ta.push_back(&t);
		if(sp.decoys) { t.flow->addCandidateAddress(nowhere); t.flow->addCandidateAddress(carol->address, 0.001 + 0.0001 * i); }
		t.flow->addCandidateAddress(sp.viaAlt ? bobAlt : b.address, sp.decoys ? 0.002 + 0.0001 * i : 0);
		if(sp.viaAlt) t.flow->addCandidateAddress(b.address, 0.01);
		app.write(t, 1500); app.write(t, 20);
		if(sp.echo and i == 0) t.flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(a.idx, f); };
	}
	if(sp.lateFlow) for(double d : { 0.06, 0.12, 1.5 }) s.after(d, [&] { Tx &t = app.open(a, "bob", fmt("a%zu", ta.size()), nullptr); ta.push_back(&t); app.write(t, 300); });
	auto done = [&] {
		if(not s.script.empty()) return false;
		for(auto v : { &ta, &tb }) for(auto t : *v) if(t->flow->getBufferedSize()) return false;
		if(sp.echo and (not echoes.count("ret") or echoes["ret"]->flow->getBufferedSize())) return false;
		return true;
	};
	bool ok = s.runUntil(done, 1000 + 200);
	double took = s.now - 1000;
	ctx.bail();
	ctx.require(ok, "flows not established and delivered %.0f s after opening", took);
	s.run(s.now + 3); ctx.bail();
	for(size_t i = 0; i < ta.size(); i++) { checkExact(ctx, app, *ta[i], fmt("a%zu", i), b.idx); ctx.require(ta[i]->exceptions == 0, "a flow failed while opening"); }
	for(size_t i = 0; i < tb.size(); i++) { checkExact(ctx, app, *tb[i], fmt("b%zu", i), a.idx); ctx.require(tb[i]->exceptions == 0, "a flow of the responder failed"); }
	if(sp.echo) checkExact(ctx, app, *echoes["ret"], "ret", a.idx);
	// one session, agreed on by both ends
	Bytes an = ta[0]->flow->getNearNonce(), af = ta[0]->flow->getFarNonce();
	ctx.require(not an.empty() and not af.empty() and an != af, "open session without nonces");
	for(auto t : ta)
	{
		ctx.require(t->flow->getNearNonce() == an and t->flow->getFarNonce() == af, "flows opened to one endpoint ended up in different sessions");
		ctx.require(S(t->flow->getFarCanonicalEPD()) == "bob", "flow is connected to '%s'", S(t->flow->getFarCanonicalEPD()).c_str());
		ctx.require(t->flow->isOpen(), "a flow is not open");
	}
	for(auto t : tb) ctx.require(t->flow->getNearNonce() == af and t->flow->getFarNonce() == an and S(t->flow->getFarCanonicalEPD()) == "alice", "the responder's flow is in another session");
	for(auto &r : app.rx)
	{
		bool atBob = r->host == b.idx;
		ctx.require(r->host != (carol ? carol->idx : -1), "a flow reached the wrong endpoint");
		ctx.require(r->flow->getNearNonce() == (atBob ? af : an) and r->flow->getFarNonce() == (atBob ? an : af), "the two ends disagree on the session's nonces");
		ctx.require(S(r->flow->getFarCanonicalEPD()) == (atBob ? "alice" : "bob"), "receiver believes the peer is '%s'", S(r->flow->getFarCanonicalEPD()).c_str());
	}
	if(moveAt < 0) ctx.require(responderSids.size() == 1, "the responder answered with %zu different sessions", responderSids.size());
	if(faultFree and sp.deadTo < 0 and moveAt < 0 and took < 1.5) ctx.require(resends == 0, "%d fragments had to be sent again although nothing was lost (session traffic overtook the handshake)", resends);
	if(slow and resends == 0) ctx.count("early session traffic kept");
	ctx.summary = fmt("%s: delivered after %.2f s, %d resends", sp.name.c_str(), took, resends);
}

// unreachable or impostor endpoints
struct Neg { std::string name; std::string epd = "bob"; int what = 0; double closeAt = -1; int flows = 1; double healAt = -1; };
static void negative(Ctx &ctx, const Neg &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	switch(sp.what)
	{
	case 0: b.muted = true; break;                        // unreachable
	case 1: break;                                        // wrong name
	case 2: b.crypto->m_kind = "FAKE"; break;             // certificate is not authentic
	case 3: b.crypto->m_signAs = "mallory"; break;        // signs with another key
	case 4: b.crypto->m_name = "mallory"; b.crypto->m_kind = "CERT"; break; // claims another certificate, still answers (see below)
	case 5: a.crypto->m_signAs = "mallory"; break;        // the initiator cannot prove itself
	case 6: a.crypto->m_kind = "FAKE"; break;
	}
	plan.install(s);
	app.acceptAll(b); app.acceptAll(a);
	int hellosAfterClose = 0; bool closedAll = false, reachedKeying = false; bool data = false;
	s.onSend.push_back([&] (const Pkt &p) {
		if(p.from != a.idx) return;
		auto q = parsePacket(p.data);
		if(q.has(CHUNK_IIKEYING)) reachedKeying = true;
		if(closedAll and q.has(CHUNK_IHELLO)) hellosAfterClose++;
		if(not userData(q).empty()) data = true;
	});
	std::vector<Tx *> ts;
	for(int i = 0; i < sp.flows; i++) { Tx &t = app.open(a, sp.epd, fmt("f%d", i), nullptr); ts.push_back(&t); t.flow->addCandidateAddress(b.address); app.write(t, 100); }
	if(sp.what == 4) // bob answers hellos for "bob" with mallory's certificate
	{
		auto c = std::make_shared<Bytes>(); (void)c;
		b.rtmfp->onUnmatchedIHello = [&] (const void *, size_t, const void *tag, size_t n, int id, const struct sockaddr *addr) {
			Bytes cookie(65, 7), tg((const uint8_t *)tag, (const uint8_t *)tag + n);
			Bytes pl = vlu(tg.size()); pl.insert(pl.end(), tg.begin(), tg.end()); auto l = vlu(cookie.size()); pl.insert(pl.end(), l.begin(), l.end()); pl.insert(pl.end(), cookie.begin(), cookie.end()); Bytes ce = b.crypto->cert(); pl.insert(pl.end(), ce.begin(), ce.end());
			Bytes clear { HEADER_MODE_STARTUP }; auto ch = chunk(CHUNK_RHELLO, pl); clear.insert(clear.end(), ch.begin(), ch.end());
			s.inject(makePacket(0, defaultKey(), clear), b.address, Address(addr), 0.01); (void)id;
		};
	}
	if(sp.closeAt >= 0) s.after(sp.closeAt, [&] { for(auto t : ts) app.close(*t); closedAll = not reachedKeying; });
	if(sp.healAt >= 0) s.after(sp.healAt, [&] { b.muted = false; });
	bool opened = false;
	s.onStep.push_back([&] { for(auto t : ts) if(not t->flow->getFarCanonicalEPD().empty()) opened = true; });
	double t0 = s.now;
	s.run(t0 + 130); ctx.bail();
	ctx.require(not opened and not data, "a session opened to an endpoint that is not the one asked for");
	ctx.require(app.rx.empty(), "a flow was delivered without a proven session");
	for(auto t : ts)
	{
		if(sp.closeAt >= 0) { ctx.require(t->exceptions == 0, "exception on a flow the application closed"); continue; }
		ctx.require(t->exceptions == 1, "%d exceptions on a flow that could not open", t->exceptions);
		ctx.require(t->exceptionAt <= t0 + 96.5, "exception only after %.1f s", t->exceptionAt - t0);
		ctx.require(t->exceptionAt >= t0 + 90, "gave up after only %.1f s", t->exceptionAt - t0);
		ctx.require(not t->flow->isOpen(), "flow still open after its exception");
	}
	ctx.require(hellosAfterClose == 0, "%d hellos after every flow was closed", hellosAfterClose);
	ctx.count(opened ? "opened" : "attempts refused or timed out");
	// the same endpoint can be reached later once the cause is gone
	if(sp.what == 0)
	{
		b.muted = false; s.policy = nullptr;
		Tx &t = app.open(a, "bob", "again", &b.address); app.write(t, 50);
		bool ok = s.runUntil([&] { Rx *r = app.find("again", b.idx); return r and r->msgs.size() == 1; }, s.now + 20); ctx.bail();
		ctx.require(ok, "endpoint cannot be reached again after an earlier attempt failed");
	}
	ctx.summary = fmt("%s", sp.name.c_str());
}

// a session ends, another to the same endpoint is opened while the old one is still winding down, and flows opened later join it
struct Reopen { std::string name; int closer = 0, opener = 0; double gap = 0, gap2 = 1; };
static void reopen(Ctx &ctx, const Reopen &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); Host *hs[] = { &a, &b };
	app.acceptAll(a); app.acceptAll(b);
	Tx &t0 = app.open(a, "bob", "f", &b.address); app.write(t0, 300); s.run(s.now + 3); ctx.bail();
	Bytes oldNonce = t0.flow->getNearNonce();
	plan.install(s);
	if(sp.closer == 0) t0.flow->closeSession(); else app.find("f", b.idx)->flow->closeSession();
	s.run(s.now + sp.gap); ctx.bail();
	int far = 1 - sp.opener;
	Tx &t1 = app.open(*hs[sp.opener], hs[far]->name, "g", &hs[far]->address); app.write(t1, 1500);
	auto arrived = [&] (Tx &t, const char *n, int at) { bool ok = s.runUntil([&] { Rx *r = app.find(n, at); return (r and r->msgs.size()) or t.exceptions; }, s.now + 60); ctx.bail(); ctx.require(t.exceptions or ok, "flow '%s' opened after a close was not delivered", n); };
	arrived(t1, "g", far);
	if(t1.exceptions) { ctx.require(t1.exceptionAt < s.now + 1 and sp.gap < 6, "a flow opened %.1f s after the old session closed failed", sp.gap); ctx.count("closed together with the old session"); return; } // joined the session before this end heard of the close
	Bytes n1 = t1.flow->getNearNonce(), f1 = t1.flow->getFarNonce();
	s.run(s.now + sp.gap2); ctx.bail();
	if(t1.exceptions) { ctx.require(n1 == oldNonce or f1 == oldNonce, "the new session failed"); ctx.count("closed together with the old session"); return; }
	ctx.require(n1 != oldNonce and f1 != oldNonce, "a flow works in a session that was closed %.1f s ago", sp.gap + sp.gap2);
	Tx &t2 = app.open(*hs[sp.opener], hs[far]->name, "h", &hs[far]->address); app.write(t2, 100);
	Tx &t3 = app.open(*hs[far], hs[sp.opener]->name, "i", &hs[sp.opener]->address); app.write(t3, 100);
	arrived(t2, "h", far); arrived(t3, "i", sp.opener);
	s.run(s.now + 3); ctx.bail();
	checkExact(ctx, app, t1, "g", far); checkExact(ctx, app, t2, "h", far); checkExact(ctx, app, t3, "i", sp.opener);
	ctx.require(t1.exceptions + t2.exceptions + t3.exceptions == 0, "a flow of the new session failed");
	ctx.require(t2.flow->getNearNonce() == n1 and t2.flow->getFarNonce() == f1, "a second session was opened to an endpoint that already has one");
	ctx.require(t3.flow->getNearNonce() == f1 and t3.flow->getFarNonce() == n1, "the far end opened a second session although it has one");
	ctx.count("reopened after a close");
	ctx.summary = sp.name;
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C08";
	meta.assumptions = { "virtual network and time", "transparent crypto adapter with keyed tags, name-based certificates and signatures; real crypto adapters are covered by C17" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 2 : 1;
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 12; p.faults = { F_DROP, F_DUP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG }; p.shortDelay = 0.07; p.dupDelay = 0.03;
		FaultPlan p2 = p; p2.faults = { F_DROP, F_DUP_LATE, F_DELAY_LONG }; p2.window = 14;
		FaultPlan none; none.window = 0;
		std::vector<double> td { 0.04, 1.3, 4.1 };
		auto add = [&] (Spec sp, int budget, const FaultPlan &pl, std::vector<double> d = {}) { v.push_back({ sp.name, budget, [=] (Ctx &c) { body(c, sp, pl, d); } }); };
		Spec x;
		x.name = "one-flow"; add(x, 2 + k, p);
		x.name = "three-flows"; x.epds = { "bob", "bob", "bob" }; add(x, 2 + k, p);
		x.name = "mixed-epds"; x.epds = { "any", "bob", "grp:bo" }; add(x, 2 + k, p);
		x = Spec(); x.name = "late-flows"; x.lateFlow = true; add(x, 2 + k, p);
		x = Spec(); x.name = "responder-flows"; x.bobFlows = 2; x.echo = true; add(x, 2 + k, p);
		x = Spec(); x.name = "two-addresses"; x.viaAlt = true; add(x, 2 + k, p);
		x = Spec(); x.name = "decoys"; x.decoys = true; add(x, 2 + k, p2);
		x = Spec(); x.name = "decoys-any"; x.decoys = true; x.epds = { "grp:b" }; add(x, 2 + k, p2);
		x = Spec(); x.name = "slow-crypto"; x.threads = true; x.bobFlows = 1; add(x, 3 + k, none, td);
		x.name = "slow-crypto-big"; x.bigBack = 14; add(x, 2 + k, none, { 0.1, 0.5 });
		x.bigBack = 0; x.name = "slow-crypto-faults"; x.epds = { "bob", "any" }; add(x, 2 + k, p2, td);
		x.name = "slow-crypto-dups"; { FaultPlan d = p; d.faults = { F_DUP, F_DUP_LATE }; x.epds = { "bob" }; add(x, 2 + k, d, { 0.05, 2.9 }); }
		x = Spec(); x.name = "moved"; x.moveWindow = 9; add(x, 1 + k, p2);
		x.name = "moved-far"; x.prop = 0.6; add(x, 1 + k, p2);
		for(double d : { 0.9, 5., 30., 60. }) for(int dir : { 1, 2, 3 }) { x = Spec(); x.name = fmt("dead-%.1f-dir%d", d, dir); x.deadFrom = 0; x.deadTo = d; x.dead = dir; add(x, 1, p2); x.name += "-mid"; x.deadFrom = 0.03; add(x, 1, p2); }
		FaultPlan l; l.window = th ? 13 : 10; l.faults = { F_DROP }; l.cost = 0;
		x = Spec(); x.name = "all-losses"; x.epds = { "bob", "any" }; x.bobFlows = 1; add(x, 0, l);
		auto neg = [&] (Neg n, int budget, const FaultPlan &pl) { v.push_back({ "neg/" + n.name, budget, [=] (Ctx &c) { negative(c, n, pl); } }); };
		FaultPlan n1 = p2; n1.window = 10;
		int w = 0;
		for(const char *nm : { "unreachable", "wrong-name", "fake-cert", "bad-signature", "other-cert", "initiator-bad-signature", "initiator-fake-cert" })
		{
			Neg n; n.what = w++; n.name = nm; if(n.what == 1) n.epd = "carol";
			n.flows = 2;
			neg(n, n.what == 0 ? 0 : 1 + k, n1);
			for(double c : { 0.01, 0.3, 2.2, 50. }) { Neg m = n; m.closeAt = c; m.name += fmt("-closed-%.2f", c); if(m.what < 2) neg(m, 1, n1); }
		}
		for(int cl : { 0, 1 }) for(int op : { 0, 1 }) for(double g : { 0.0, 0.03, 0.2, 2., 12., 17.5, 25. }) for(double g2 : { 0.5, 6., 20., 100. })
		{
			Reopen r; r.closer = cl; r.opener = op; r.gap = g; r.gap2 = g2; r.name = fmt("reopen/closer%d-opener%d-%.2f-%.1f", cl, op, g, g2);
			FaultPlan pl = p2; pl.window = 8; v.push_back({ r.name, k, [=] (Ctx &c) { reopen(c, r, pl); } });
		}
		return v;
	});
}
