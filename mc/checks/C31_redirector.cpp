// C31: a redirector client keeps itself registered and reports load without flooding.
#include "flows.hpp"
#include "rtmfp/RedirectorClient.hpp"
using namespace sim; using RC = RedirectorClient;

static Bytes hmacOf(const Bytes &key, const Bytes &msg) { return H(32, { B("hmac"), key, msg }); }
// an application closure that notices being destroyed while it runs
struct Live { bool running = false; bool *bad; Live(bool *b) : bad(b) {} Live(const Live &o) : bad(o.bad) {} ~Live() { if(running) *bad = true; } };

struct Rig;
struct Client : RedirectorClient {
	Client(Rig *r, RTMFP *rtmfp, const Bytes &epd) : RedirectorClient(rtmfp, epd), rig(r) {}
	std::shared_ptr<Timer> scheduleTimer(Time when) override;
	void hmacSHA256(void *dst, const void *key, size_t kn, const void *msg, size_t mn) override { Bytes r = hmacOf(Bytes((const uint8_t *)key, (const uint8_t *)key + kn), Bytes((const uint8_t *)msg, (const uint8_t *)msg + mn)); memcpy(dst, r.data(), 32); }
	Rig *rig;
};
struct Conn { Rx *rx; std::shared_ptr<SendFlow> back; double at; bool gone = false; int host; };

struct Rig {
	Ctx &ctx; Sim s; App app; Host *a, *r[2]; TimerList timers; std::shared_ptr<Client> c; std::vector<Conn> conns;
	// what the application asked for
	bool active = true, paused = false, adv = true, closed = false; std::set<Address> addrs; uintmax_t load = 0; bool everChangedWhilePaused = false; std::map<Bytes, Bytes> auth; double interval = 0, loadAt = -1; std::vector<Bytes> sentUser; FIHelloResponseMode mode = FI_SEND_RHELLO; double rtx = 10, keep = 10;
	std::vector<std::pair<double, RC::Status>> status; double lastConnecting = -1e9; bool destroyedRunning = false; int callbacks = 0; double closedAt = -1; std::vector<std::pair<double, Address>> reflexive; std::vector<Bytes> user; double minReconnect = 30;
	std::function<void(int)> inCallback; // told the index of the callback
	int retunedAt = 0; std::vector<double> loadTimes, retunes, connectTimes; bool poke = false, minimal = false;

	Rig(Ctx &ctx) : ctx(ctx), s(ctx), app(s)
	{
		timers.onHowLongToSleepDidChange = [this] { wake(); };
		a = &s.add("alice", "10.0.0.1:1"); r[0] = &s.add("red0", "10.0.0.2:2"); r[1] = &s.add("red1", "10.0.0.3:3");
		for(auto h : r) { int i = h->idx; h->rtmfp->onRecvFlow = [this, i] (std::shared_ptr<RecvFlow> f) { serve(i, f); }; }
		c = share_ref(new Client(this, a->rtmfp.get(), B("grp:red")), false);
		hook();
		c->addRedirectorAddress(r[0]->address);
	}
	~Rig() { s.policy = nullptr; c->close(); c.reset(); timers.clear(); timers.onHowLongToSleepDidChange = nullptr; conns.clear(); s.teardown(); }
	void hook()
	{
		Live l(&destroyedRunning); auto big = std::make_shared<int>(1);
		c->onStatus = [this, l, big] (RC::Status st) mutable { l.running = true; auto keepMe = big; onStatus(st); l.running = false; };
		c->onReflexiveAddress = [this, l, big] (const Address &x) mutable { l.running = true; ctx.require(not closed, "a callback after close"); reflexive.push_back({ s.now, x }); ctx.require(c->isReflexiveAddressValid() and c->getReflexiveAddress() == x, "reflexive address"); cb(); l.running = false; };
		c->onUserData = [this, l, big] (const uint8_t *b, size_t n) mutable { l.running = true; ctx.require(not closed, "a callback after close"); Bytes d(b, b + n); user.push_back(d); cb(); l.running = false; };
	}
	void cb() { int i = callbacks++; if(inCallback) inCallback(i); }
	void wake() { if(s.tearing) return; Duration d = timers.howLongToNextFire(s.now, INFINITY); if(d < 1e8) s.at(s.now + std::max<double>(0, d) + 1e-9, [this] { timers.fireDueTimers(s.now); wake2(); }); }
	void wake2() { Duration d = timers.howLongToNextFire(s.now, INFINITY); if(d < 1e8) s.at(s.now + std::max<double>(0, d) + 1e-9, [this] { timers.fireDueTimers(s.now); wake2(); }); }
	void onStatus(RC::Status st)
	{
		ctx.log("%.3f  status %d", s.now, (int)st); ctx.require(not closed, "status %d reported after close", (int)st); ctx.require(c->getStatus() == st, "status callback and status differ");
		RC::Status prev = status.empty() ? RC::STATUS_IDLE : status.back().second; bool dis = st == RC::STATUS_DISCONNECTED or st == RC::STATUS_DISCONNECTED_BAD_AUTH, pd = prev == RC::STATUS_DISCONNECTED or prev == RC::STATUS_DISCONNECTED_BAD_AUTH;
		if(st == RC::STATUS_CONNECTING) { ctx.require(prev == RC::STATUS_IDLE or pd, "connecting from status %d", (int)prev); double gap = s.now - lastConnecting; ctx.require(gap >= std::max(minReconnect, 5.0) - 1e-3, "reconnecting after only %.2f s", gap); lastConnecting = s.now; ctx.count("attempts"); }
		else if(st == RC::STATUS_CONNECTED) { ctx.require(prev == RC::STATUS_CONNECTING, "connected from status %d", (int)prev); connectTimes.push_back(s.now); ctx.require(c->isConnected(), "not connected"); }
		else { ctx.require(dis, "status %d", (int)st); ctx.require(not pd, "disconnection reported twice"); ctx.require(not c->isReflexiveAddressValid(), "reflexive address of a lost connection is valid"); }
		status.push_back({ s.now, st }); cb();
	}
	void serve(int host, std::shared_ptr<RecvFlow> f)
	{
		ctx.require(RC::checkFlowMetadata(f->getMetadata()) and not (closed and s.now > closedAt + 0.9), closed ? "a connection after close" : "flow metadata");
		Rx &x = app.accept(host, f); conns.push_back({ &x, f->openReturnFlow(RC::makeFlowMetadata()), s.now, false, host }); auto b = conns.back().back; b->onException = [this, b] (uintmax_t) {};
		ctx.count("connections");
	}
	Conn *current() { for(size_t i = conns.size(); i--; ) if(not conns[i].gone and not conns[i].rx->completes) return &conns[i]; return nullptr; }
	// the redirector's understanding after reading what came on a connection
	struct View { bool registered = false, draining = false, adv = false; std::set<Address> addrs; bool hasLoad = false; uintmax_t load = 0; std::vector<Bytes> user; int settings = 0; };
	View read(Conn &k)
	{
		View v; size_t auths = 0; bool other = false; Bytes nonce = k.rx->flow->getNearNonce(); std::set<Bytes> keys; std::map<Bytes, Bytes> want = auth;
		for(auto &m : k.rx->msgs)
		{
			ctx.require(not m.data.empty(), "an empty message"); if(m.data.empty()) return v; uint8_t cmd = m.data[0]; Bytes rest(m.data.begin() + 1, m.data.end());
			if(cmd == RC::CMD_SIMPLE_AUTH) { ctx.require(not other, "authentication after other commands"); ctx.require(rest.size() >= 32, "short authentication"); if(rest.size() < 32) return v; Bytes id(rest.begin() + 32, rest.end()); ctx.require(auth.count(id) and Bytes(rest.begin(), rest.begin() + 32) == hmacOf(auth[id], nonce), "wrong authentication"); keys.insert(id); auths++; continue; }
			other = true;
			if(cmd == RC::CMD_SETTINGS) { v.registered = true; v.draining = false; v.adv = false; v.addrs.clear(); v.settings++; Rd q(rest); while(q.ok and q.c < q.lim) { uintmax_t l = q.vlu(); Bytes o = q.take(l); Rd p(o); uintmax_t t = p.vlu(); if(t == RC::SETTINGS_OPT_INCLUDE_REFLEXIVE) v.adv = true; else if(t == RC::SETTINGS_OPT_ADD_ADDRESS) { Address x; Bytes e = p.rest(); ctx.require(x.setFromEncoding(e.data(), e.data() + e.size()), "address encoding"); v.addrs.insert(x); } else ctx.fail("unknown setting"); } ctx.require(q.ok, "malformed settings"); }
			else if(cmd == RC::CMD_DRAINING) v.draining = true;
			else if(cmd == RC::CMD_LOAD_FACTOR) { Rd q(rest); v.load = q.vlu(); v.hasLoad = true; ctx.require(q.ok and q.c == q.lim, "load factor encoding"); }
			else if(cmd == RC::CMD_USER_DATA) v.user.push_back(rest);
			else ctx.fail("unknown command %d", cmd);
		}
		ctx.require(keys.size() == auth.size() and auths == auth.size(), "%zu authentications on a connection, %zu identities set", auths, auth.size());
		return v;
	}
	// the application's calls
	void doClose() { c->close(); closed = true; closedAt = s.now; hookless(); }
	void hookless() { ctx.require(c->getStatus() == RC::STATUS_CLOSED, "status after close"); }
};
std::shared_ptr<Timer> Client::scheduleTimer(Time when) { return rig->timers.schedule(when); }

static const int NOPS = 24;
static const char *opNames[NOPS] = { "nothing", "inactive", "active", "pause", "unpause", "load 1", "load 500", "load 70000", "interval 2", "add address", "add another", "remove address", "clear addresses", "no reflexive", "reflexive", "other redirector", "user data", "server closes session", "server says bad auth", "server vanishes 40 s", "server reports address", "server sends junk", "close", "ignore introductions" };
static void op(Rig &g, int k)
{
	Address x1, x2; x1.setFromPresentation("1.2.3.4:5"); x2.setFromPresentation("[2001::5]:6"); Conn *cur = g.current(); Client &c = *g.c; bool ok = not g.closed; g.ctx.log("%.3f  op %s", g.s.now, opNames[k]);
	auto touched = [&] { if(g.paused) g.everChangedWhilePaused = true; };
	switch(k)
	{
	case 1: c.setActive(false); if(ok) g.active = false; break;
	case 2: c.setActive(true); if(ok) g.active = true; break;
	case 3: c.setPaused(true); g.paused = true; break;
	case 4: c.setPaused(false); g.paused = false; g.everChangedWhilePaused = false; break;
	case 5: case 6: case 7: { uintmax_t v = k == 5 ? 1 : k == 6 ? 500 : 70000; c.setLoadFactor(v); g.load = v; g.loadAt = g.s.now; g.ctx.require(c.getLoadFactor() == v, "load factor"); break; }
	case 8: c.setLoadFactorUpdateInterval(2); g.interval = 2; g.retunes.push_back(g.s.now); g.ctx.require(c.getLoadFactorUpdateInterval() == 2, "interval"); break;
	case 9: c.addAdditionalAddress(x1); g.addrs.insert(x1); touched(); break;
	case 10: c.addAdditionalAddress(x2); g.addrs.insert(x2); touched(); break;
	case 11: c.removeAdditionalAddress(x1); g.addrs.erase(x1); touched(); break;
	case 12: c.clearAdditionalAddresses(); g.addrs.clear(); touched(); break;
	case 13: c.setAdvertiseReflexiveAddress(false); g.adv = false; touched(); break;
	case 14: c.setAdvertiseReflexiveAddress(true); g.adv = true; touched(); break;
	case 15: c.addRedirectorAddress(g.r[1]->address); break;
	case 16: { bool conn = c.isConnected(); Bytes d = B(fmt("u%zu", g.sentUser.size())); auto w = c.sendUserData(d.data(), d.size()); g.ctx.require(bool(w) == conn and (conn or not w), "user data %s", w ? "accepted without a connection" : "refused while connected"); if(w) g.sentUser.push_back(d); break; }
	case 17: if(cur) { cur->gone = true; g.app.sim.ctx.count("server closes"); auto f = cur->rx->flow; f->closeSession(); } break;
	case 18: if(cur) { cur->gone = true; cur->rx->closedByApp = true; cur->rx->flow->close(RC::EXCEPTION_BAD_AUTH); g.ctx.count("server closes"); } break;
	case 19: g.r[0]->muted = true; { auto gp = &g; g.s.after(40, [gp] { gp->r[0]->muted = false; }); } break;
	case 20: if(cur and cur->back) { Bytes m { RC::CMD_REFLEXIVE_ADDR_REPORT }; Bytes e = x2.encode(); m.insert(m.end(), e.begin(), e.end()); cur->back->write(m); cur->back->write(Bytes { RC::CMD_USER_DATA, 'h', 'i' }); } break;
	case 21: if(cur and cur->back) for(auto &m : std::vector<Bytes> { {}, { 0x77 }, { RC::CMD_REFLEXIVE_ADDR_REPORT }, { RC::CMD_REFLEXIVE_ADDR_REPORT, 1, 2, 3 }, { RC::CMD_USER_DATA }, { RC::CMD_SETTINGS, 1 }, { RC::CMD_SIMPLE_AUTH } }) cur->back->write(m); break;
	case 22: g.doClose(); break;
	case 23: c.setFIHelloMode(FI_IGNORE); g.mode = FI_IGNORE; g.ctx.require(c.getFIHelloMode() == FI_IGNORE, "introduction mode"); break;
	}
}
// let everything settle, then compare what the redirector knows with what the application asked for
static void settle(Rig &g)
{
	Ctx &ctx = g.ctx; g.s.policy = nullptr; Rig *gp = &g;
	g.s.run(g.s.now + 1); ctx.bail(); ctx.require(not g.destroyedRunning, "a callback was destroyed while running");
	double limit = g.s.now + 110 + std::max(5., g.minReconnect);
	if(g.closed)
	{
		size_t conns = g.conns.size(), st = g.status.size(), hellos = 0; std::vector<size_t> n; for(auto &k : g.conns) n.push_back(k.rx->msgs.size());
		g.s.onSend.push_back([gp, &hellos] (const Pkt &p) { if(p.from == gp->a->idx) { auto q = parsePacket(p.data); if(q.has(CHUNK_IHELLO)) hellos++; } });
		g.c->setLoadFactor(12345); g.c->setActive(true); g.c->setAdvertiseReflexiveAddress(false); g.c->addRedirectorAddress(g.r[1]->address); g.c->connect(); Bytes u = B("late"); ctx.require(not g.c->sendUserData(u.data(), 4), "user data accepted after close"); g.s.run(limit); ctx.bail(); g.s.onSend.pop_back();
		ctx.require(g.conns.size() == conns and g.status.size() == st and hellos == 0 and g.c->getStatus() == RC::STATUS_CLOSED, "activity after close"); for(size_t i = 0; i < n.size(); i++) ctx.require(g.conns[i].rx->msgs.size() == n[i], "a command was sent after close"); ctx.count("closed"); return;
	}
	if(g.poke) { g.c->setLoadFactor(++g.load); g.s.run(g.s.now + 3); ctx.bail(); } // a rejection whose packet was lost is told again when something is sent
	auto settled = [gp] { Conn *k = gp->current(); return gp->c->isConnected() and k and not gp->r[0]->muted and k->rx->flow->getFarNonce().size() and gp->s.now - k->at > 3 and gp->s.now - (gp->connectTimes.empty() ? 0 : gp->connectTimes.back()) > 3; };
	bool ok = g.s.runUntil(settled, limit); ctx.bail(); ctx.require(ok, "not connected again %.0f s later (status %d)", limit - g.s.now + 110, (int)g.c->getStatus());
	g.s.run(g.s.now + 1 + g.interval); ctx.bail(); if(not g.c->isConnected()) return;
	Conn &k = *g.current(); auto v = g.read(k); ctx.bail();
	ctx.require(v.hasLoad and v.load == g.load, "the redirector thinks the load is %lu, it is %lu", (unsigned long)v.load, (unsigned long)g.load);
	if(not g.active) ctx.require(v.draining, "inactive, and the redirector was not told");
	else if(not g.paused) { ctx.require(v.registered and not v.draining, "not registered"); ctx.require(v.addrs == g.addrs and v.adv == g.adv, "registered with %zu addresses%s, asked for %zu%s", v.addrs.size(), v.adv ? " and its own" : "", g.addrs.size(), g.adv ? " and its own" : ""); }
	ctx.require(g.c->isActive() == g.active and g.c->getAdvertiseReflexiveAddress() == g.adv, "settings read back"); ctx.require(g.c->getRedirectorAddress() == g.r[k.host - g.r[0]->idx]->address, "redirector address"); 
	std::vector<Bytes> all; for(auto &x : g.conns) { auto w = g.read(x); all.insert(all.end(), w.user.begin(), w.user.end()); } size_t at = 0; for(auto &d : all) { while(at < g.sentUser.size() and g.sentUser[at] != d) at++; ctx.require(at < g.sentUser.size(), "user data out of order, twice or never sent"); at++; }
	// load reports: never closer together than the interval, except for the one that comes with each connection
	for(auto &x : g.conns) { double prev = -1; int n = 0; for(auto &m : x.rx->msgs) if(m.data.size() and m.data[0] == RC::CMD_LOAD_FACTOR) { if(n >= 2) { bool retuned = false; for(double t : g.retunes) if(t >= prev - 0.6) retuned = true; if(not retuned) ctx.require(m.at - prev >= g.interval - 0.03, "load reports %.3f s apart, the interval is %.1f s", m.at - prev, g.interval); } prev = m.at; n++; } }
	// what the redirector reports and says now reaches the application
	if(not g.minimal and k.back and k.back->isOpen()) { size_t nr = g.reflexive.size(), nu = g.user.size(); Address x; x.setFromPresentation("7.8.9.1:23"); Bytes m { RC::CMD_REFLEXIVE_ADDR_REPORT }, e = x.encode(); m.insert(m.end(), e.begin(), e.end()); k.back->write(m); k.back->write(Bytes { RC::CMD_USER_DATA, 'o', 'k' }); g.s.run(g.s.now + 1); ctx.bail(); if(g.c->isConnected()) { ctx.require(g.reflexive.size() == nr + 1 and g.reflexive.back().second == x and g.c->getReflexiveAddress() == x, "the reported address did not arrive"); ctx.require(g.user.size() == nu + 1 and g.user.back() == B("ok"), "user data from the redirector did not arrive"); } }
	ctx.count("settled");
}
static void watchConn(Rig &g) { for(auto &k : g.conns) if(k.rx->completes) k.gone = true; }

// sequences of calls and events
static void sequence(Ctx &ctx, int depth, std::vector<double> steps, int phase, int authKeys, FaultPlan *plan)
{
	Rig g(ctx); if(authKeys > 0) { g.c->addSimpleAuth("key", "secret"); g.auth[B("key")] = B("secret"); } if(authKeys > 1) { g.c->addSimpleAuth("", "other"); g.auth[Bytes()] = B("other"); }
	g.minReconnect = phase & 1 ? 7 : 2; g.c->minimumReconnectInterval = g.minReconnect;
	if(phase >= 2) { g.c->setLoadFactorUpdateInterval(2); g.interval = 2; }
	if(phase != 1) { g.c->connect(); g.c->connect(); g.s.run(g.s.now + (phase == 3 ? 0.04 : 1)); ctx.bail(); }
	if(plan) { plan->install(g.s); g.poke = true; }
	for(int i = 0; i < depth; i++) { int k = ctx.choose(NOPS, 0, "op"); if(k == 0 and i + 1 < depth) break; op(g, k); double d = steps[ctx.choose(steps.size(), 0, "step")]; if(d) g.s.run(g.s.now + d); ctx.bail(); watchConn(g); }
	if(phase == 1) g.c->connect();
	settle(g); ctx.summary = fmt("%zu connections, %zu status changes", g.conns.size(), g.status.size());
}
// calls from inside callbacks
static void reentrant(Ctx &ctx)
{
	Rig g(ctx); g.c->addSimpleAuth("key", "secret"); g.auth[B("key")] = B("secret"); g.minReconnect = 5; g.c->minimumReconnectInterval = 5;
	int at = ctx.choose(8, 0, "callback"), k = ctx.choose(NOPS, 0, "op"), k2 = ctx.choose(NOPS, 0, "op"); Rig *gp = &g;
	g.inCallback = [=] (int i) { if(i == at) { op(*gp, k); if(not gp->closed or k2 != 22) op(*gp, k2); } };
	g.c->connect(); g.s.run(g.s.now + 1); ctx.bail();
	op(g, 20); g.s.run(g.s.now + 1); ctx.bail(); watchConn(g); if(not g.closed) { op(g, 17); g.s.run(g.s.now + 12); ctx.bail(); watchConn(g); op(g, 20); g.s.run(g.s.now + 1); watchConn(g); }
	ctx.require(not g.destroyedRunning, "a callback was destroyed while running"); settle(g);
}
// load factor: many changes are coalesced, the last one arrives
static void coalesce(Ctx &ctx)
{
	Rig g(ctx); static const double ivs[] = { 0, 0.5, 2 }, gaps[] = { 0, 0.3, 1.1, 2.5 }; g.interval = ivs[ctx.choose(3, 0, "interval")]; g.c->setLoadFactorUpdateInterval(g.interval); g.c->connect(); int early = ctx.choose(2, 0, "early"); if(not early) g.s.run(g.s.now + 3); ctx.bail();
	for(int i = 0; i < 7; i++) { int k = ctx.choose(4, 0, "gap"); g.load = 10 + i % 3; g.c->setLoadFactor(g.load); if(gaps[k]) g.s.run(g.s.now + gaps[k]); ctx.bail(); }
	g.s.run(g.s.now + g.interval + 2); ctx.bail(); settle(g);
}
// a redirector that dies is given up within the limits the application set; introductions work on every connection
static void limits(Ctx &ctx)
{
	Rig g(ctx); int live = ctx.choose(2, 0, "set while connected"), second = ctx.choose(2, 0, "second connection"), mode = ctx.choose(3, 0, "mode"), when = ctx.choose(2, 0, "mode set"); double rtx = (double[]) { 10, 4, 20 }[ctx.choose(3, 0, "rtx")], keep = (double[]) { 10, 3, 25 }[ctx.choose(3, 0, "keepalive")];
	FIHelloResponseMode m = (FIHelloResponseMode[]) { FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE }[mode]; g.minReconnect = 5; g.c->minimumReconnectInterval = 5;
	auto set = [&] { g.c->setRetransmitLimit(rtx); g.c->setKeepalivePeriod(keep); ctx.require(g.c->getRetransmitLimit() == rtx and g.c->getKeepalivePeriod() == keep, "limits read back"); }; if(not live) set(); if(not when) g.c->setFIHelloMode(m);
	g.c->connect(); g.s.run(g.s.now + 2); ctx.bail(); if(live) set(); if(when) g.c->setFIHelloMode(m);
	if(second) { op(g, 17); g.s.run(g.s.now + 8); watchConn(g); ctx.bail(); ctx.require(g.c->isConnected(), "not connected again"); }
	// introduce someone
	Host &d = g.s.add("dave", "10.0.0.9:9"); int rh = 0, red = 0, ih = 0; g.s.onSend.push_back([&] (const Pkt &p) { auto q = parsePacket(p.data); if(p.from == g.a->idx and p.dst == d.address and q.has(CHUNK_RHELLO)) rh++; if(p.from == g.a->idx and q.has(CHUNK_REDIRECT)) red++; (void)ih; });
	Bytes tag = B("tagtagtag"), epd = B("alice"); Conn *k = g.current(); ctx.require(k, "no connection"); if(not k) return; k->rx->flow->forwardIHello(epd.data(), epd.size(), d.address, tag.data(), tag.size()); g.s.run(g.s.now + 0.5); ctx.bail();
	ctx.require((rh > 0) == (m == FI_SEND_RHELLO) and (red > 0) == (m == FI_SEND_REDIRECT), "introduction mode %d: %d answers, %d redirects", (int)m, rh, red); g.s.onSend.pop_back();
	// the redirector vanishes
	g.s.run(g.s.now + 30); ctx.bail(); g.r[0]->muted = true; double t0 = g.s.now; size_t n = g.status.size(); bool ok = g.s.runUntil([&] { return g.status.size() > n; }, t0 + 100); ctx.bail(); double took = g.s.now - t0;
	ctx.require(ok and took <= keep + rtx + 12 and took >= std::min(rtx, 4.) - 1, "the client noticed a dead redirector after %.1f s (retransmit limit %.0f, keepalive %.0f)", took, rtx, keep); g.r[0]->muted = false; settle(g);
}

// what counts as a redirector's flow
static void metadata(Ctx &ctx)
{
	Bytes m = RC::makeFlowMetadata(); int n = 0;
	auto is = [&] (const Bytes &b, bool expect, const char *what) { Bytes exact(b.begin(), b.end()); ctx.require(RC::checkFlowMetadata(exact) == expect, "%s of %zu bytes is %staken for a redirector's", what, exact.size(), expect ? "not " : ""); n++; };
	is(m, true, "the made metadata"); for(size_t l = 0; l < m.size(); l++) is(Bytes(m.begin(), m.begin() + l), false, "a prefix");
	for(size_t l = 1; l < 5; l++) for(int first : { 0, 1, 120, 255 }) for(int rest : { 0, 121 }) { Bytes b = m; b.push_back(first); b.insert(b.end(), l - 1, rest); is(b, first == 0, "an extension"); }
	for(size_t i = 0; i < m.size(); i++) for(int x = 1; x < 256; x++) for(int more = 0; more < 2; more++) { Bytes b = m; b[i] ^= x; if(more) b.push_back(0); is(b, false, "an alteration"); }
	ctx.step(n);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C31";
	meta.assumptions = { "virtual network and time; transparent crypto", "while paused, what the redirector knows may be older", "load reports: the one that comes with a new connection, and one after a change of the interval, may come early" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		static const char *ph[] = { "connected", "before-connect", "interval", "connecting" };
		for(int p = 0; p < 4; p++) { v.push_back({ fmt("sequence/%s", ph[p]), 0, [=] (Ctx &c) { sequence(c, th ? 3 : 2, { 0, 0.5, 12 }, p, p % 3, nullptr); } }); if(th) v.push_back({ fmt("sequence-short/%s", ph[p]), 0, [=] (Ctx &c) { sequence(c, 4, { 0.5 }, p, 2 - p % 3, nullptr); } }); }
		v.push_back({ "sequence-fast", 0, [=] (Ctx &c) { sequence(c, 3, { 0.2 }, 2, 1, nullptr); } });
		FaultPlan fp; fp.window = 10; fp.faults = { F_DROP, F_DUP_LATE, F_DELAY_LONG };
		for(int p : { 0, 3 }) v.push_back({ fmt("faults/%s", ph[p]), th ? 2 : 1, [=] (Ctx &c) { FaultPlan q = fp; sequence(c, 1, { 0.5 }, p, 1, &q); } });
		v.push_back({ "metadata", 0, metadata }); v.push_back({ "reentrant", 0, reentrant }); v.push_back({ "coalesce", 0, coalesce }); v.push_back({ "limits", 0, limits });
		return v;
	});
}
