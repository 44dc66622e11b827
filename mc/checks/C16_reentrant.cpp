// C16: any API call may be made from inside any callback.
#include "flows.hpp"
using namespace sim;

enum Act { A_NONE, A_CLOSE, A_CLOSE_OTHERS, A_CLOSE_SESSION, A_SHUTDOWN, A_SHUTDOWN_NOW, A_WRITE, A_ABANDON, A_OPEN_SAME, A_REOPEN, A_OPEN_OTHER, A_RETURN, A_ORDER, A_BUFFERS, A_LIMITS, A_CLOSE_BOTH, A_RELEASE, A_CLOSE_ALL_REOPEN, A_WRITE_CLOSE, A_EXPIRE, NACT };
static const char *actName[] = { "nothing", "close this flow", "close the other flows", "close the session", "shut down orderly", "shut down now", "write", "abandon", "open a flow in the session", "open a flow by endpoint", "open a flow to another endpoint", "open a return flow / change priority", "change receive orders", "change buffers", "change session limits", "close the flow and the session", "close the flow and release it", "close everything and reopen", "write then close", "set deadlines in the past" };

struct World;
struct SF { std::shared_ptr<SendFlow> f; std::string name; int host, idx; bool closed = false, disturbed = false, reject = false; int exceptions = 0, writesLeft = 0; size_t writeLen = 0; std::vector<Bytes> msgs; struct Rec { std::shared_ptr<WriteReceipt> r; int finished = 0, abandoned = 0; }; std::vector<std::unique_ptr<Rec> > recs; double openedAt = 0, exceptionAt = -1; std::string toName; bool closeWhenWritten = false; };
struct RF { std::shared_ptr<RecvFlow> f; std::string name; int host; bool closed = false; int completes = 0; std::vector<Bytes> msgs; double at = 0; };

struct World {
	Ctx &ctx; Sim s; Host &a, &b, &c; std::vector<std::unique_ptr<SF> > sf; std::vector<std::unique_ptr<RF> > rf;
	int window = 0, calls = 0, cost = 1, depth = 0; bool down[3] = { false, false, false }; bool sessionTouched = false, anyAct = false; int opened = 0; std::vector<int> sites; std::string did; std::set<int> only; bool quiet = false, downByScenario = false;
	int order = RO_SEQUENCE, acts = 0;
	World(Ctx &ctx) : ctx(ctx), s(ctx), a(s.add("alice", "10.0.0.1:1935")), b(s.add("bob", "10.0.0.2:1935")), c(s.add("carol", "10.0.0.3:1935"))
	{
		for(auto h : { &a, &b, &c })
		{
			Host *hp = h; std::vector<int> canary(16, 5);
			h->rtmfp->onRecvFlow = [this, hp, canary] (std::shared_ptr<RecvFlow> f) { accept(hp->idx, f, false); check(canary, 5); };
			h->rtmfp->onUnmatchedIHello = [this, hp, canary] (const void *, size_t, const void *, size_t, int, const struct sockaddr *) { hook("unmatched hello", nullptr, nullptr, hp->idx); check(canary, 5); };
			h->rtmfp->onUnmatchedRHello = [this, hp, canary] (const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, int, const struct sockaddr *) { hook("unmatched answer", nullptr, nullptr, hp->idx); check(canary, 5); };
		}
		s.fingerprint = [this] (Hash &h) { for(auto &x : sf) { h.mix(x->msgs.size()); h.mix(x->exceptions + 2 * x->closed); if(x->f) { h.mix(x->f->getBufferedSize()); h.mix(x->f->getOutstandingBytes()); } } for(auto &x : rf) { h.mix(x->msgs.size()); h.mix(x->completes + 2 * x->closed); } };
		s.atTeardown.push_back([this] { quiet = true; for(auto &x : sf) { for(auto &r : x->recs) r->r->onFinished = nullptr; if(x->f) { x->f->onWritable = nullptr; x->f->onException = nullptr; x->f->onRecvFlow = nullptr; x->f->close(); } } for(auto &x : rf) if(x->f) { x->f->onComplete = nullptr; x->f->close(); } for(auto &h : s.hosts) if(h->rtmfp) { h->rtmfp->onRecvFlow = nullptr; h->rtmfp->onUnmatchedIHello = nullptr; h->rtmfp->onUnmatchedRHello = nullptr; } });
	}
	~World() { s.teardown(); }
	void check(const std::vector<int> &canary, int v) { int n = 0; for(auto x : canary) n += x; if(n != 16 * v) ctx.fail("the callback's own data was destroyed while it ran"); }

	SF *wrap(int host, std::shared_ptr<SendFlow> f, const std::string &name, int writes = 0, size_t len = 0)
	{
		sf.emplace_back(new SF); SF *x = sf.back().get(); x->f = f; x->name = name; x->host = host; x->idx = (int)sf.size() - 1; x->writesLeft = writes; x->writeLen = len; x->openedAt = s.now;
		std::vector<int> canary(16, 7);
		f->onWritable = [this, x, canary] () -> bool {
			if(x->closed) ctx.fail("writable signalled on closed flow %s", x->name.c_str());
			bool more = false;
			if(x->writesLeft > 0 and not x->closed) { x->writesLeft--; write(x, x->writeLen); more = x->writesLeft > 0; }
			hook("writable", x, nullptr, x->host); check(canary, 7);
			if(x->closeWhenWritten and not more and not x->closed) close(x);
			check(canary, 7);
			return more;
		};
		f->onException = [this, x, canary] (uintmax_t) {
			if(x->closed) ctx.fail("exception signalled on closed flow %s", x->name.c_str());
			if(x->exceptions++) ctx.fail("exception signalled twice on flow %s", x->name.c_str());
			x->exceptionAt = s.now;
			if(ctx.verbose) ctx.log("%.4f  * exception on %s", s.now, x->name.c_str());
			hook("exception", x, nullptr, x->host); check(canary, 7);
		};
		f->onRecvFlow = [this, x, canary] (std::shared_ptr<RecvFlow> r) { if(x->closed) ctx.fail("return flow signalled on closed flow %s", x->name.c_str()); accept(x->host, r, true); check(canary, 7); };
		f->onFarAddressDidChange = [this, x, canary] { if(x->closed) ctx.fail("address change signalled on closed flow %s", x->name.c_str()); hook("address change", x, nullptr, x->host); check(canary, 7); };
		if(writes) f->notifyWhenWritable();
		return x;
	}
	SF *open(Host &h, Host &to, const std::string &name, int writes, size_t len) { auto f = h.rtmfp->openFlow(B(to.name), B(name)); if(not f) return nullptr; f->addCandidateAddress(to.address); SF *x = wrap(h.idx, f, name, writes, len); x->toName = to.name; return x; }
	void write(SF *x, size_t len, Duration finishWithin = INFINITY)
	{
		Bytes d = payload(x->idx, (int)x->msgs.size(), len);
		auto r = x->f->write(d, INFINITY, finishWithin); if(not r) return;
		x->msgs.push_back(d); x->recs.emplace_back(new SF::Rec); SF::Rec *rp = x->recs.back().get(); rp->r = r; std::vector<int> canary(16, 9);
		r->onFinished = [this, x, rp, canary] (bool ab) { if(rp->finished++) ctx.fail("a receipt of flow %s finished twice", x->name.c_str()); rp->abandoned += ab; hook("receipt", x, nullptr, x->host); check(canary, 9); };
	}
	void close(SF *x) { x->closed = true; if(x->f) x->f->close(); }
	void close(RF *x) { x->closed = true; if(x->f) x->f->close(7); }
	void accept(int host, std::shared_ptr<RecvFlow> f, bool ret)
	{
		rf.emplace_back(new RF); RF *x = rf.back().get(); x->f = f; x->name = S(f->getMetadata()); x->host = host; x->at = s.now;
		f->accept();
		if(x->name == "net") f->setReceiveOrder(RO_NETWORK);
		std::vector<int> canary(16, 3);
		f->onMessage = [this, x, canary] (const uint8_t *d, size_t n, uintmax_t, size_t) {
			if(x->closed) ctx.fail("message on closed flow %s", x->name.c_str());
			if(x->completes) ctx.fail("message after completion on flow %s", x->name.c_str());
			Bytes before(d, d + n); x->msgs.push_back(before);
			if(ctx.verbose) ctx.log("%.4f  * message %zu on %s len %zu", s.now, x->msgs.size(), x->name.c_str(), n);
			hook("message", nullptr, x, x->host); check(canary, 3);
			if(Bytes(d, d + n) != before) ctx.fail("a message changed during its callback");
		};
		f->onComplete = [this, x, canary] (bool e) { if(x->closed) ctx.fail("completion on closed flow %s", x->name.c_str()); if(x->completes++) ctx.fail("completion twice on flow %s", x->name.c_str()); if(ctx.verbose) ctx.log("%.4f  * complete %s %d", s.now, x->name.c_str(), e); hook("complete", nullptr, x, x->host); check(canary, 3); };
		f->onCumulativeAckDidMerge = [this, x, canary] { if(x->closed) ctx.fail("merge on closed flow %s", x->name.c_str()); hook("merge", nullptr, x, x->host); check(canary, 3); };
		f->onFarAddressDidChange = [this, x, canary] { if(x->closed) ctx.fail("address change on closed flow %s", x->name.c_str()); hook("address change", nullptr, x, x->host); check(canary, 3); };
		hook(ret ? "return flow" : "new flow", nullptr, x, host);
		if(x->name == "main" and not x->closed) { auto r = f->openReturnFlow(B("back")); if(r) wrap(host, r, "back", 2, 1700); }
		if(x->name == "rej" and not x->closed) { x->closed = true; f->close(9); }
	}
	void hook(const char *site, SF *x, RF *r, int host)
	{
		if(s.tearing or quiet or ctx.failed()) return;
		ctx.count(site);
		int i = calls++; if(i < 0 or i >= window or (down[host] and not downByScenario)) return;
		if(depth > 2) return;
		int act = ctx.choose(NACT, cost, site);
		if(act == A_NONE) return;
		anyAct = true; acts++; did += fmt("%s in %s of %s on %s; ", actName[act], site, x ? x->name.c_str() : r ? r->name.c_str() : "the instance", s.hosts[host]->name.c_str());
		depth++; perform(act, x, r, host); depth--;
	}
	SF *anySF(int host) { for(auto &x : sf) if(x->host == host and x->f and not x->closed and not x->exceptions) return x.get(); return nullptr; }
	void perform(int act, SF *x, RF *r, int host)
	{
		Host &h = *s.hosts[host]; ctx.count("re-entrant calls");
		if(x and not x->f) x = nullptr; // released
		if(r and not r->f) r = nullptr;
		std::vector<SF *> mine; for(auto &y : sf) if(y->host == host and y->f) mine.push_back(y.get());
		std::vector<RF *> mineR; for(auto &y : rf) if(y->host == host and y->f) mineR.push_back(y.get());
		auto ctl = [] (const std::string &n) { return n == "ctl"; };
		auto closeSession = [&] { touchAll(host); if(r) { auto f = r->f; f->closeSession(); } else if(x) { auto f = x->f; f->closeSession(); } else for(auto m : mine) { auto f = m->f; f->closeSession(); break; } };
		switch(act)
		{
		case A_CLOSE: if(x) { disturbSF(x); close(x); } if(r) { disturb(r->name); close(r); } break;
		case A_CLOSE_OTHERS: for(auto m : mine) if(m != x and not m->closed and not ctl(m->name)) { disturbSF(m); close(m); } for(auto m : mineR) if(m != r and not m->closed and not ctl(m->name)) { disturb(m->name); close(m); } break;
		case A_CLOSE_SESSION: closeSession(); break;
		case A_SHUTDOWN: case A_SHUTDOWN_NOW: down[host] = true; touchAll(host); h.rtmfp->shutdown(act == A_SHUTDOWN_NOW); break;
		case A_WRITE: for(auto m : mine) if(not m->closed and not m->exceptions) write(m, 3000); break;
		case A_ABANDON: for(auto m : mine) if(not ctl(m->name)) { m->disturbed = true; for(size_t i = 0; i < m->recs.size(); i++) m->recs[i]->r->abandon(); } break;
		case A_OPEN_SAME: { std::shared_ptr<SendFlow> f; std::string n = fmt("same%d", opened++); if(x) f = x->f->openFlow(B(n)); else if(r) f = r->f->openFlow(B(n)); if(f) { SF *y = wrap(host, f, n); write(y, 200); } break; }
		case A_REOPEN: { Host &to = host == 0 ? b : a; SF *y = open(h, to, fmt("again%d", opened++), 0, 0); if(y) write(y, 2500); break; }
		case A_OPEN_OTHER: { if(host == 2) break; SF *y = open(h, c, fmt("other%d", opened++), 0, 0); if(y) write(y, 200); break; }
		case A_RETURN: if(r) { std::string n = fmt("ret%d", opened++); auto f = r->f->openReturnFlow(B(n)); if(f) { SF *y = wrap(host, f, n); write(y, 200); } } for(auto m : mine) m->f->setPriority(m->f->getPriority() == PRI_7 ? PRI_1 : PRI_7); break;
		case A_ORDER: for(auto m : mineR) if(not m->closed and not ctl(m->name)) { m->f->setReceiveOrder(m->f->getReceiveOrder() == RO_SEQUENCE ? RO_HOLD : m->f->getReceiveOrder() == RO_HOLD ? RO_NETWORK : RO_SEQUENCE); disturb(m->name); } break;
		case A_BUFFERS: for(auto m : mineR) if(not m->closed) m->f->setBufferCapacity(m->f->getBufferCapacity() > 3000 ? 2000 : 65536); for(auto m : mine) if(not m->closed) { m->f->setBufferCapacity(1000); m->f->notifyWhenWritable(); } break;
		case A_LIMITS: touchAll(host); { Flow *f = r ? (Flow *)r->f.get() : x ? (Flow *)x->f.get() : nullptr; if(f) { f->setSessionKeepalivePeriod(1); f->setSessionRetransmitLimit(1); f->setSessionIdleLimit(1); f->setSessionCongestionDelay(0.01); f->setSessionTrafficClass(8); } } break;
		case A_CLOSE_BOTH: if(x) close(x); if(r) close(r); closeSession(); break;
		case A_RELEASE: if(x) { disturbSF(x); close(x); x->f.reset(); } if(r) { disturb(r->name); close(r); r->f.reset(); } break;
		case A_CLOSE_ALL_REOPEN: for(auto m : mine) if(not m->closed and not ctl(m->name)) { disturbSF(m); close(m); } closeSession(); { SF *y = open(h, host == 0 ? b : a, fmt("again%d", opened++), 0, 0); if(y) write(y, 2500); } break;
		case A_WRITE_CLOSE: if(x and not x->closed and not x->exceptions) { write(x, 1500); x->writesLeft = 0; close(x); } break;
		case A_EXPIRE: for(auto m : mine) if(not ctl(m->name)) { m->disturbed = true; for(size_t i = 0; i < m->recs.size(); i++) { m->recs[i]->r->startBy = 0; m->recs[i]->r->finishBy = 0; } } break;
		}
	}
	void disturb(const std::string &name) { for(auto &y : sf) if(y->name == name) y->disturbed = true; }
	void disturbSF(SF *x) { if(x->closed) return; /* an orderly close still delivers what was written */ x->writesLeft = 0; }
	void touchAll(int host) { sessionTouched = true; if(host == 2 or down[host]) ; }

	void standard()
	{
		s.policy = [this] (Pkt &p, std::vector<double> &d) { if(p.from == 2 or p.dst == c.address) return; int k = n++; for(int l : lost) if(k == l) d.clear(); };
		SF *ctl = open(c, b, "ctl", 0, 0); write(ctl, 100);
		s.run(s.now + 0.3);
		SF *m = open(a, b, "main", 3, 2500); open(a, b, "net", 4, 1900); SF *r = open(a, b, "rej", 0, 0); r->reject = true; write(r, 10);
		ctlFlow = ctl; mainFlow = m;
	}
	int n = 0; std::vector<int> lost { 9, 13 }; SF *ctlFlow = nullptr, *mainFlow = nullptr;

	void finish()
	{
		if(ctx.failed()) return;
		quietActs();
		bool bobUp = not down[1];
		if(bobUp and not down[2] and not ctlFlow->closed and ctlFlow->exceptions == 0 and ctlFlow->f) write(ctlFlow, 4000);
		s.run(s.now + 12); ctx.bail();
		if(bobUp and not down[2] and not bobTouchedCtl()) { ctx.require(delivered(ctlFlow), "another session lost data after: %s", did.c_str()); }
		s.run(s.now + 250); ctx.bail();
		// every flow ended up somewhere
		for(auto &x : sf)
		{
			if(x->closed or x->exceptions or not x->f) continue;
			if(down[x->host]) { ctx.fail("flow %s was never told that its session ended, after: %s", x->name.c_str(), did.c_str()); continue; }
			if(x->disturbed or x->reject or x->writesLeft) continue;
			ctx.require(delivered(x.get()), "flow %s on %s neither delivered everything nor failed, after: %s", x->name.c_str(), s.hosts[x->host]->name.c_str(), did.c_str());
			if(x->f) ctx.require(x->f->getBufferedSize() == 0, "flow %s keeps %zu bytes for ever, after: %s", x->name.c_str(), x->f->getBufferedSize(), did.c_str());
		}
		ctx.bail();
		// nothing is left behind: a new session opens, and both instances shut down cleanly
		if(not down[0] and not down[1])
		{
			SF *y = open(a, b, "last", 0, 0); write(y, 3000); s.run(s.now + 130); ctx.bail();
			if(y->exceptions and not delivered(y)) { y = open(a, b, "last again", 0, 0); write(y, 3000); s.run(s.now + 130); ctx.bail(); } // found out that the old session was dead
			ctx.require(delivered(y), "no new flow between the endpoints works, after: %s", did.c_str());
		}
		for(auto &x : rf) if(x->f and not x->closed and x->f->getReceiveOrder() == RO_HOLD) x->f->setReceiveOrder(RO_SEQUENCE); // a suspended flow completes when it is resumed
		s.run(s.now + 0.1); ctx.bail();
		for(auto h : { &a, &b, &c }) { down[h->idx] = true; h->rtmfp->shutdown(false); }
		s.run(s.now + 150); ctx.bail();
		for(auto h : { &a, &b, &c }) ctx.require(h->shutdownCompletes == 1, "shutdown of %s was completed %d times, after: %s", h->name.c_str(), h->shutdownCompletes, did.c_str());
		for(auto &x : sf)
		{
			for(auto &r : x->recs) ctx.require(r->finished == 1, "a receipt of flow %s finished %d times, after: %s", x->name.c_str(), r->finished, did.c_str());
			ctx.require(x->closed or x->exceptions == 1, "flow %s was never told that its session ended, after: %s", x->name.c_str(), did.c_str());
		}
		for(auto &x : rf) ctx.require(x->closed or x->completes == 1, "received flow %s on %s completed %d times, after: %s", x->name.c_str(), s.hosts[x->host]->name.c_str(), x->completes, did.c_str());
		ctx.summary = did;
	}
	void quietActs() { quiet = true; }
	bool bobTouchedCtl() { RF *r = nullptr; for(auto &x : rf) if(x->name == "ctl") r = x.get(); return ctlFlow->closed or ctlFlow->exceptions or (r and (r->closed or r->completes)); }
	bool delivered(SF *x)
	{
		std::vector<Bytes> got; for(auto &r : rf) if(r->name == x->name and r->host != x->host) { if(r->closed) return true; got.insert(got.end(), r->msgs.begin(), r->msgs.end()); }
		if(x->name == "net") { auto w = x->msgs; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); return w == got; }
		return got == x->msgs;
	}
};

struct Spec { const char *name; int kind; int window; int k; bool big; };
static void scenario(Ctx &ctx, int kind, int window, int skip, int afterClose)
{
	World w(ctx);
	w.standard();
	w.window = window;
	if(skip) w.calls = -skip; // negative: not offered
	switch(kind)
	{
	case 0: // a whole transfer, closed in order
		w.s.run(w.s.now + 4); if(not w.mainFlow->closed and not w.mainFlow->exceptions and not w.down[0]) w.close(w.mainFlow); w.s.run(w.s.now + 1); break;
	case 1: // the receiver closes the session in the middle
		w.s.run(w.s.now + 0.5); for(auto &r : w.rf) if(r->name == "main" and r->f and not w.down[1]) { auto f = r->f; f->closeSession(); break; } w.s.run(w.s.now + 8); break;
	case 2: // the sender closes it
		w.s.run(w.s.now + 0.5); if(w.mainFlow->f and not w.down[0]) { auto f = w.mainFlow->f; f->closeSession(); } w.s.run(w.s.now + 8); break;
	case 3: // the path dies for a while: both ends time out
		w.s.run(w.s.now + 0.4); for(auto &x : w.sf) if(x->f and not x->closed and not x->exceptions and x->name != "ctl") { x->f->setSessionRetransmitLimit(3); x->f->setSessionKeepalivePeriod(2); x->f->setSessionIdleLimit(5); if(not x->closed) w.write(x.get(), 2000); }
		for(auto &r : w.rf) if(r->f and not r->closed and r->name != "ctl") { r->f->setSessionRetransmitLimit(3); r->f->setSessionKeepalivePeriod(2); }
		{ auto p = w.s.policy; double until = w.s.now + 20; w.s.policy = [&w, p, until] (Pkt &q, std::vector<double> &d) { p(q, d); if(q.from != 2 and not (q.dst == w.c.address) and w.s.now < until) d.clear(); }; w.s.run(until + 1); w.s.policy = p; }
		break;
	case 4: // the sender moves
		w.s.run(w.s.now + 0.35); { Address to; to.setFromPresentation("10.0.9.9:999", true); w.s.route[w.a.address] = -1; w.a.address = to; w.s.route[to] = 0; } for(auto &x : w.sf) if(x->host == 0 and not x->closed and not x->exceptions and x->f and x->name == "net") w.write(x.get(), 6000); w.s.run(w.s.now + 5); break;
	case 5: // strangers' hellos arrive meanwhile
		for(int i = 0; i < 4; i++) { w.s.run(w.s.now + 0.11); if(i % 2) w.c.rtmfp->sendIHello("nobody", 6, "stranger", 8, INTERFACE_ID_ALL, w.b.address.getSockaddr()); else w.a.rtmfp->sendIHello("bob", 3, "probing", 7, INTERFACE_ID_ALL, w.b.address.getSockaddr()); } w.s.run(w.s.now + 4); break;
	case 6: // an instance shuts down in order while data is under way
		w.s.run(w.s.now + 0.45); if(not w.down[0]) { w.down[0] = true; w.sessionTouched = true; w.downByScenario = true; w.a.rtmfp->shutdown(false); } w.s.run(w.s.now + 8); break;
	}
	ctx.bail();
	w.finish();
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C16";
	meta.assumptions = { "callbacks hold data by value in closures too large for small-object storage, so that destroying a running closure is seen" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		static const char *kinds[] = { "transfer", "receiver-closes", "sender-closes", "dead-path", "moves", "strangers", "shutdown" };
		for(int k = 0; k < 7; k++) v.push_back({ fmt("one/%s", kinds[k]), 1, [=] (Ctx &c) { scenario(c, k, 400, 0, 0); } });
		for(int k = 0; k < 7; k++) v.push_back({ fmt("two/%s", kinds[k]), 2, [=] (Ctx &c) { scenario(c, k, th ? 60 : k ? 5 : 14, k ? 12 : 0, 0); } });
		if(th) v.push_back({ "three/transfer", 3, [=] (Ctx &c) { scenario(c, 0, 10, 0, 0); } });
		return v;
	});
}
