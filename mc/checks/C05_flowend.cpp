// C05: flow completion, rejection and return flows: every placement of the decisions, with every pattern of up to K faults.
#include <climits>
#include "flows.hpp"
using namespace sim;

enum Decision { D_ACCEPT, D_DECLINE, D_CLOSE_IN_CALLBACK, D_CLOSE_ON_MESSAGE, D_CLOSE_LATER, D_CLOSE_UNACCEPTED, D_LAST };
enum Sender { S_CLOSE_NOW, S_CLOSE_LATER, S_NEVER, S_LAST };
enum Ret { R_NONE, R_ACCEPT, R_DECLINE, R_NOHANDLER, R_LATE, R_LAST };

static void body(Ctx &ctx, int dec, int snd, int ret, FaultPlan plan, ReceiveOrder order)
{
	Sim s(ctx); App app(s); Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	plan.install(s);
	const uintmax_t REASON = 9;
	Rx *rf = nullptr; std::shared_ptr<RecvFlow> declined; Tx *r = nullptr, *rr = nullptr; Rx *rRx = nullptr, *rrRx = nullptr;
	int offeredF = 0, offeredR = 0, offeredRR = 0, instanceAlice = 0; bool rejectedByBob = false, fOpenAtClose = false; uintmax_t expectReason = 0;
	Tx *t = nullptr;
	a.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { instanceAlice++; if(S(f->getMetadata()) != "h") ctx.fail("return flow '%s' was offered to the instance handler", S(f->getMetadata()).c_str()); if(f->getAssociatedSendFlow()) ctx.fail("an unassociated flow names an associated flow"); app.accept(a.idx, f); };
	auto reject = [&] (Rx &x, bool viaClose) { if(x.completes) return; x.closedByApp = true; rejectedByBob = true; expectReason = REASON; x.flow->close(REASON); };
	auto openReturn = [&] {
		if(not rf or r) return;
		auto sf = rf->flow->openReturnFlow(B("r"));
		if(not sf) return; // nothing to answer any more
		r = &app.wrap(b.idx, sf);
		sf->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) {
			offeredRR++;
			if(S(f->getMetadata()) != "rr") ctx.fail("flow '%s' offered to the wrong flow's handler", S(f->getMetadata()).c_str());
			if(f->getAssociatedSendFlow() != r->flow) ctx.fail("return flow names the wrong flow");
			rrRx = &app.accept(b.idx, f);
		};
		app.write(*r, 20); app.write(*r, 1500);
		s.after(1.5, [&] { if(not r->exceptions) app.close(*r); });
	};
	app.onNew = [&] (Rx &x) { if(x.host == b.idx) x.flow->setReceiveOrder(order); };
	app.onMsg = [&] (Rx &x, RxMsg &) { if(&x == rf and dec == D_CLOSE_ON_MESSAGE and not x.closedByApp) reject(x, true); };
	b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) {
		if(f->getAssociatedSendFlow()) ctx.fail("an unassociated flow names an associated flow");
		if(S(f->getMetadata()) != "f") { app.accept(b.idx, f); return; }
		if(offeredF++) ctx.fail("flow 'f' was offered twice");
		if(dec == D_DECLINE or dec == D_CLOSE_UNACCEPTED)
		{
			declined = f; rejectedByBob = true;
			f->onMessage = [&] (const uint8_t *, size_t, uintmax_t, size_t) { ctx.fail("message delivered on a flow that was not accepted"); };
			f->onComplete = [&] (bool) { ctx.fail("completion signalled on a flow that was not accepted"); };
			if(dec == D_CLOSE_UNACCEPTED) { expectReason = REASON; f->close(REASON); }
			return;
		}
		rf = &app.accept(b.idx, f);
		if(ret == R_ACCEPT or ret == R_DECLINE or ret == R_NOHANDLER) openReturn();
		if(dec == D_CLOSE_IN_CALLBACK) reject(*rf, true);
		if(dec == D_CLOSE_LATER) s.after(0.21, [&] { reject(*rf, true); });
		if(ret == R_LATE) s.after(0.16, openReturn);
	};
	t = &app.open(a, "bob", "f", &b.address);
	Tx &g = app.open(a, "bob", "g");
	if(ret != R_NOHANDLER)
		t->flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) {
			if(offeredR++) ctx.fail("return flow offered twice");
			if(t->closed or t->exceptions or not t->flow->isOpen()) ctx.fail("return flow offered on a closed flow");
			if(S(f->getMetadata()) != "r") ctx.fail("flow '%s' offered to the wrong flow's handler", S(f->getMetadata()).c_str());
			if(f->getAssociatedSendFlow() != t->flow) ctx.fail("return flow names the wrong flow");
			if(ret == R_DECLINE) return;
			rRx = &app.accept(a.idx, f);
			auto q = f->openReturnFlow(B("rr"));
			if(q) { rr = &app.wrap(a.idx, q); app.write(*rr, 33); s.after(0.4, [&] { if(not rr->exceptions) app.close(*rr); }); }
		};
	for(size_t n : { 30, 1500 }) app.write(*t, n);
	for(size_t n : { 25, 1300 }) app.write(g, n);
	auto moreLater = [&] (double d, size_t n) { s.after(d, [&, n] {
		if(t->closed or t->exceptions) { if(t->flow->isOpen()) ctx.fail("flow reports open after it was closed"); if(t->flow->write(B("xxxxx"))) ctx.fail("write accepted on a closed flow"); return; }
		app.write(*t, n); }); };
	if(snd == S_CLOSE_NOW) { s.runUntil([&] { return not t->flow->getFarCanonicalEPD().empty() or t->exceptions; }, s.now + 60); if(not t->exceptions) { fOpenAtClose = true; app.close(*t); } }
	else if(snd == S_CLOSE_LATER) s.after(0.3, [&] { if(not t->exceptions) { if(t->flow->getFarCanonicalEPD().empty()) { s.after(5, [&] { if(not t->exceptions) app.close(*t); }); return; } app.close(*t); } });
	moreLater(0.19, 40);
	for(double d : { 0.6, 8.0, 25.0, 50.0 }) moreLater(d, 60);
	s.after(0.5, [&] { if(rf) { auto h = rf->flow->openFlow(B("h")); if(h) { Tx &x = app.wrap(b.idx, h); app.write(x, 44); s.after(0.1, [&] { app.close(x); }); } } });
	s.after(1.0, [&] { if(g.flow->getFarCanonicalEPD().empty()) s.after(20, [&] { app.close(g); }); else app.close(g); });
	s.run(1000 + 90);
	ctx.bail();
	if(order == RO_NETWORK) for(auto &x : app.rx) std::sort(x->msgs.begin(), x->msgs.end(), [] (const RxMsg &m, const RxMsg &n) { return m.sn < n.sn; });
	// f
	if(not rejectedByBob)
	{
		ctx.require(rf, "flow 'f' never offered");
		ctx.require(t->exceptions == 0, "flow 'f' got an exception although nobody rejected it");
		ctx.require(rf->completes == (t->closed ? 1 : 0) and rf->errors == 0, "flow 'f' completions %d (errors %d), expected %d", rf->completes, rf->errors, t->closed);
		ctx.require(rf->msgs.size() == t->msgs.size(), "%zu of %zu messages delivered on 'f'", rf->msgs.size(), t->msgs.size());
		for(size_t i = 0; i < rf->msgs.size(); i++) ctx.require(rf->msgs[i].data == t->msgs[i], "message %zu of 'f' differs", i);
	}
	else
	{
		if(not t->closed) ctx.require(t->exceptions == 1, "flow 'f' was rejected but the sender was told %d times", t->exceptions);
		ctx.require(t->exceptions <= 1, "sender told %d times", t->exceptions);
		if(t->exceptions) ctx.require(t->reason == expectReason, "rejection reason %lu arrived as %lu", (unsigned long)expectReason, (unsigned long)t->reason);
	}
	checkExact(ctx, app, g, "g", b.idx);
	Rx *gr = app.find("g", b.idx);
	ctx.require(gr and gr->completes == 1 and not gr->errors and not g.exceptions, "bystander flow 'g' disturbed");
	for(auto &x : app.tx) if(x->host == b.idx and x.get() != r) { Rx *h = app.find("h", a.idx); ctx.require(h and h->msgs.size() == 1 and h->completes == 1 and not x->exceptions, "unassociated flow 'h' disturbed"); }
	if(r)
	{
		bool fOpenThroughout = not t->closed and not rejectedByBob;
		if(ret == R_DECLINE or ret == R_NOHANDLER or not offeredR) ctx.require(r->exceptions == 1 and r->reason == 0, "return flow not accepted but its sender got %d exceptions (reason %lu)", r->exceptions, (unsigned long)r->reason);
		else
		{
			ctx.require(r->exceptions == 0, "accepted return flow got an exception");
			checkExact(ctx, app, *r, "r", a.idx);
			ctx.require(rRx->completes == 1 and not rRx->errors, "return flow did not complete");
			if(rr and offeredRR) { checkExact(ctx, app, *rr, "rr", b.idx); ctx.require(rrRx and rrRx->completes == 1 and rr->exceptions == 0, "nested return flow did not complete"); }
			else if(rr) ctx.require(rr->exceptions == 1 or rr->closed, "nested return flow neither offered nor rejected");
		}
		if(fOpenThroughout and ret != R_NOHANDLER) ctx.require(offeredR == 1, "return flow never offered although the flow it answers stayed open");
		if(ret == R_NOHANDLER) ctx.require(offeredR == 0, "offered");
	}
	ctx.require(t->receipts.empty() or t->flow->isOpen() == not (t->closed or t->exceptions), "flow reports open=%d", t->flow->isOpen());
	ctx.count(rejectedByBob ? "rejections" : "completions"); if(offeredR) ctx.count("return flows offered"); if(offeredRR) ctx.count("nested return flows"); if(r and not offeredR) ctx.count("return flows refused");
	ctx.summary = fmt("f delivered %zu, exceptions %d, offered return %d/%d", rf ? rf->msgs.size() : 0, t->exceptions, offeredR, offeredRR);
}

// hand-made associations: every small flow number and extremes, with and without metadata or unknown options
static void association(Ctx &ctx)
{
	Sim s(ctx); App app(s); Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	int instance = 0, handler = 0, wrong = 0; std::shared_ptr<RecvFlow> base; std::shared_ptr<RecvFlow> last; bool acceptIt = ctx.choose(2, 0, "accept") == 0;
	b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { instance++; last = f; if(not base) { base = f; f->accept(); } else if(acceptIt) f->accept(); };
	RawPeer peer(s, app, a, b);
	ctx.require(base.get(), "no base flow");
	std::map<std::string, uintmax_t> id;
	s.onSend.push_back([&] (const Pkt &p) { if(p.from == b.idx) for(auto &u : userData(parsePacket(p.data))) if(u.hasMeta) id[S(u.meta)] = u.flow; });
	auto open = base->openFlow(B("open")), nohandler = base->openFlow(B("nohandler")), closing = base->openFlow(B("closing"));
	auto ret = base->openReturnFlow(B("ret"));
	for(auto f : { open, nohandler, closing, ret }) f->write(B("hello"));
	open->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { handler++; last = f; if(f->getAssociatedSendFlow() != open) wrong++; if(acceptIt) f->accept(); };
	ret->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { handler++; last = f; if(f->getAssociatedSendFlow() != ret) wrong++; if(acceptIt) f->accept(); };
	closing->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { ctx.fail("return flow offered to a closed flow"); };
	s.run(s.now + 0.1); closing->close(); s.run(s.now + 0.1);
	ctx.require(id.size() == 4, "flows did not start");
	int ai = ctx.choose(12, 0, "association"), opt = ctx.choose(5, 0, "options");
	uintmax_t as = ai < 8 ? ai : ai == 8 ? UINTMAX_MAX : ai == 9 ? (uintmax_t)LONG_MAX : ai == 10 ? (uintmax_t)LONG_MAX + 1 : 200;
	auto option = [] (uintmax_t type, const Bytes &v) { Bytes o = vlu(vlu(type).size() + v.size()); for(uint8_t c : vlu(type)) o.push_back(c); o.insert(o.end(), v.begin(), v.end()); return o; };
	Bytes o;
	if(opt != 1) o = option(USERDATA_OPTION_METADATA, B("x"));
	Bytes ra = option(USERDATA_OPTION_RETURN_ASSOCIATION, vlu(as)); o.insert(o.end(), ra.begin(), ra.end());
	if(opt == 2) { Bytes u = option(0x1000, B("q")); o.insert(o.end(), u.begin(), u.end()); } // unknown mandatory
	if(opt == 3) { Bytes u = option(0x2001, B("q")); o.insert(o.end(), u.begin(), u.end()); } // unknown ignorable
	o.push_back(0);
	if(opt == 4) { o = option(USERDATA_OPTION_METADATA, B("x")); o.push_back(0); } // no association
	int i0 = instance; last.reset(); peer.clear(); int msgs = 0, completes = 0;
	peer.raw(RawPeer::dataChunk(77, 1, 1, USERDATA_FRA_WHOLE, B("zz"), o));
	if(last) { last->onMessage = [&] (const uint8_t *, size_t, uintmax_t, size_t) { msgs++; }; last->onComplete = [&] (bool) { completes++; }; }
	peer.raw(RawPeer::dataChunk(77, 2, 1, USERDATA_FRA_WHOLE, B("yy")));
	s.run(s.now + 0.3);
	bool exc = false; for(auto &q : peer.out) for(auto &c : q.chunks) if(c.type == CHUNK_EXCEPTION) { Rd rd(c.payload); if(rd.vlu() == 77 and rd.vlu() == 0) exc = true; }
	bool assocOk = as == id["open"] or as == id["ret"];
	bool offer = opt == 4 ? true : assocOk and opt != 1 and opt != 2;
	ctx.bail();
	ctx.require(wrong == 0, "return flow names the wrong flow");
	if(opt == 4) ctx.require(instance == i0 + 1 and handler == 0, "unassociated flow: offered to instance %d, to handlers %d", instance - i0, handler);
	else ctx.require(instance == i0 and handler == offer, "association %lu (options %d): offered to the instance %d times and to handlers %d times", (unsigned long)as, opt, instance - i0, handler);
	ctx.require(exc == not (offer and acceptIt), "association %lu (options %d): rejection sent=%d", (unsigned long)as, opt, exc);
	ctx.require(msgs == (offer and acceptIt ? 1 : 0), "%d messages after offer", msgs);
	if(last) { last->onMessage = nullptr; last->onComplete = nullptr; }
	for(auto f : { open, nohandler, closing, ret }) { f->onRecvFlow = nullptr; f->close(); }
	last.reset(); b.rtmfp->onRecvFlow = nullptr;
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C05";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "one sending flow with decisions, one bystander, one return flow and its own return flow" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 14; p.skip = 3; p.faults = { F_DROP, F_DELAY_LONG }; p.longDelay = 0.35;
		FaultPlan l; l.window = th ? 11 : 8; l.skip = 4; l.faults = { F_DROP }; l.cost = 0;
		static const char *dn[] = { "accept", "decline", "close-in-callback", "close-on-message", "close-later", "close-unaccepted" }, *sn[] = { "close-now", "close-later", "never-close" }, *rn[] = { "none", "accepted", "declined", "no-handler", "late" };
		for(int d = 0; d < D_LAST; d++)
			for(int n = 0; n < S_LAST; n++)
				for(int r = 0; r < R_LAST; r++)
				{
					if((d == D_DECLINE or d == D_CLOSE_UNACCEPTED) and r) continue;
					v.push_back({ fmt("%s/%s/%s", dn[d], sn[n], rn[r]), th ? 3 : 2, [=] (Ctx &c) { body(c, d, n, r, p, RO_SEQUENCE); } });
					if(d == D_ACCEPT or r == R_NONE) v.push_back({ fmt("%s/%s/%s/network", dn[d], sn[n], rn[r]), th ? 2 : 1, [=] (Ctx &c) { body(c, d, n, r, p, RO_NETWORK); } });
					if(n == S_NEVER and r != R_NONE) v.push_back({ fmt("all-losses/%s/%s/%s", dn[d], sn[n], rn[r]), 0, [=] (Ctx &c) { body(c, d, n, r, l, RO_SEQUENCE); } });
				}
		v.push_back({ "associations", 0, association });
		return v;
	});
}
