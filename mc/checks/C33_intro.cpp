// C33: redirects, forwarded hellos and unmatched hellos. Every hello an endpoint sends is checked against the addresses it
// was given (by the application, or by a redirect for an attempt it has outstanding), every answer and every callback of
// the other endpoints against the hellos that reached them.
#include "flows.hpp"
using namespace sim;

static Bytes startup(uint8_t type, const Bytes &pl) { Bytes c { HEADER_MODE_STARTUP }; Bytes k = chunk(type, pl); c.insert(c.end(), k.begin(), k.end()); return makePacket(0, defaultKey(), c); }
static Bytes field(const Bytes &b) { Bytes r = vlu(b.size()); r.insert(r.end(), b.begin(), b.end()); return r; }
static Address A(const char *s, Address::Origin o = Address::ORIGIN_UNKNOWN) { Address a; a.setFromPresentation(s); a.setOrigin(o); return a; }
static Bytes encAddrs(const std::vector<Address> &v) { Bytes r; for(auto &a : v) { Bytes e { uint8_t((a.getFamily() == AF_INET6 ? 0x80 : 0) | a.getOrigin()) }; Bytes ip = a.getIPAddress(); e.insert(e.end(), ip.begin(), ip.end()); e.push_back(a.getPort() >> 8); e.push_back(a.getPort()); r.insert(r.end(), e.begin(), e.end()); } return r; }
static bool decAddr(Rd &r, Address &a)
{
	uint8_t f = r.u8(); Bytes ip = r.take(f & 0x80 ? 16 : 4); uint8_t h = r.u8(), l = r.u8(); if(not r.ok) return false;
	a.setFamily(f & 0x80 ? AF_INET6 : AF_INET); a.setIPAddress(ip.data(), ip.size()); a.setPort(h << 8 | l); return true;
}

struct Told { Bytes epd, tag; int ifid; Address from; };
struct Answered { uint8_t type; Bytes tag; Address to; };

// what one endpoint owes for every hello that reaches it
struct Answers {
	Ctx &ctx; Sim &s; Host &h; std::vector<Told> told, owedTold; std::vector<Answered> sent, owed; std::function<FIHelloResponseMode()> mode; std::function<bool()> sessionUp; std::function<void(const Told &)> onTold; std::set<Bytes> cookies;
	Answers(Ctx &c, Sim &s, Host &h) : ctx(c), s(s), h(h)
	{
		h.rtmfp->onUnmatchedIHello = [this] (const void *e, size_t en, const void *t, size_t tn, int id, const struct sockaddr *sa) {
			const uint8_t *eb = (const uint8_t *)e, *tb = (const uint8_t *)t;
			told.push_back({ Bytes(eb, eb + en), Bytes(tb, tb + tn), id, Address(sa) });
			this->ctx.log("%.4f  * %s: unmatched hello for '%s' from %s", this->s.now, this->h.name.c_str(), S(told.back().epd).c_str(), told.back().from.toPresentation().c_str());
			Told k = told.back(); if(onTold) onTold(k);
		};
		s.onDeliver.push_back([this] (const Pkt &p) {
			settle();
			auto it = this->s.route.find(p.dst); if(it == this->s.route.end() or it->second != this->h.idx) return;
			auto q = parsePacket(p.data); bool st = q.sid == 0 and q.mode() == HEADER_MODE_STARTUP, seen = false;
			for(auto &c : q.chunks)
			{
				Rd r(c.payload);
				if(st and c.type == CHUNK_IHELLO) { if(seen) continue; seen = true; uintmax_t n = r.vlu(); Bytes e = r.take(n); if(not r.ok) continue; owe(e, r.rest(), 1, p.src, FI_SEND_RHELLO); }
				if(q.sid and c.type == CHUNK_FIHELLO and (not sessionUp or sessionUp())) { uintmax_t n = r.vlu(); Bytes e = r.take(n); Address a; if(not r.ok or not decAddr(r, a)) continue; owe(e, r.rest(), -1, a, mode()); this->ctx.count("forwarded hellos received"); }
			}
		});
		s.onSend.push_back([this] (const Pkt &p) {
			if(p.from != this->h.idx) return;
			auto q = parsePacket(p.data);
			for(auto &c : q.chunks)
			{
				if(c.type != CHUNK_RHELLO and c.type != CHUNK_REDIRECT) continue;
				this->ctx.require(q.sid == 0 and q.mode() == HEADER_MODE_STARTUP, "an answer outside of the startup session");
				Rd r(c.payload); uintmax_t n = r.vlu(); Bytes tag = r.take(n); this->ctx.require(r.ok, "malformed answer");
				if(c.type == CHUNK_RHELLO) { n = r.vlu(); Bytes ck = r.take(n); this->ctx.require(r.ok and not ck.empty() and r.rest() == this->h.crypto->cert(), "an answer without cookie or with another certificate"); cookies.insert(ck); }
				else
				{
					auto it = std::find(manual.begin(), manual.end(), cat({ c.payload, encAddrs({ p.dst }) }));
					if(it != manual.end()) { manual.erase(it); continue; }
					this->ctx.require(r.c == r.lim, "an implied redirect names addresses");
				}
				sent.push_back({ c.type, tag, p.dst });
			}
		});
	}
	std::vector<Bytes> manual; // redirects the application asked for
	void owe(const Bytes &e, const Bytes &tag, int id, const Address &from, FIHelloResponseMode m)
	{
		if(m == FI_IGNORE) return;
		if(not SimCert::sel(h.name, S(e))) { owedTold.push_back({ e, tag, id, from }); return; }
		owed.push_back({ uint8_t(m == FI_SEND_REDIRECT ? CHUNK_REDIRECT : CHUNK_RHELLO), tag, from });
	}
	// what was owed up to now must have been done, and nothing else
	void settle()
	{
		ctx.require(told.size() == owedTold.size(), "%s: %zu unmatched hellos reported, %zu received", h.name.c_str(), told.size(), owedTold.size());
		if(told.size() == owedTold.size()) for(size_t i = 0; i < told.size(); i++) ctx.require(told[i].epd == owedTold[i].epd and told[i].tag == owedTold[i].tag and told[i].from == owedTold[i].from and told[i].ifid == owedTold[i].ifid, "%s: an unmatched hello was reported with wrong contents", h.name.c_str());
		ctx.require(sent.size() == owed.size(), "%s: %zu answers for %zu hellos", h.name.c_str(), sent.size(), owed.size());
		if(sent.size() == owed.size()) for(size_t i = 0; i < sent.size(); i++) ctx.require(sent[i].type == owed[i].type and sent[i].tag == owed[i].tag and sent[i].to == owed[i].to, "%s: a hello was answered with the wrong message, tag or to the wrong address (type %02x instead of %02x, to %s)", h.name.c_str(), sent[i].type, owed[i].type, sent[i].to.toPresentation().c_str());
		ctx.count("hellos answered", sent.size()); ctx.count("unmatched hellos reported", told.size());
		ctx.require(manual.empty(), "a redirect the application asked for was not sent, or another one");
		told.clear(); owedTold.clear(); sent.clear(); owed.clear();
	}
};

// the hellos an initiator may and must send
struct Attempt { std::string epd; Bytes tag; std::map<Address, double> given; std::set<Address> redirected, tried; std::map<Address, double> must; bool over = false; double startedAt; };
struct Hellos {
	Ctx &ctx; Sim &s; Host &h; std::vector<Attempt> at; std::set<Bytes> probes; size_t unmatched = 0; std::vector<Bytes> owedR, toldR; std::vector<Bytes> maybeR;
	Hellos(Ctx &c, Sim &s, Host &h) : ctx(c), s(s), h(h)
	{
		s.onSend.push_back([this] (const Pkt &p) {
			if(p.from != this->h.idx) return;
			auto q = parsePacket(p.data);
			for(auto &c : q.chunks)
			{
				if(c.type != CHUNK_IHELLO) continue;
				Rd r(c.payload); uintmax_t n = r.vlu(); std::string e = S(r.take(n)); Bytes tag = r.rest();
				this->ctx.require(q.sid == 0 and q.mode() == HEADER_MODE_STARTUP, "a hello outside of the startup session");
				if(probes.count(tag)) continue;
				Attempt *a = nullptr; for(auto &x : at) if(not x.tag.empty() and x.tag == tag) a = &x;
				if(not a) for(auto &x : at) if(x.tag.empty() and x.epd == e) { a = &x; a->tag = tag; break; }
				this->ctx.require(a, "a hello for '%s' with the tag of no attempt", e.c_str()); if(not a) return;
				for(auto &x : at) if(&x != a) this->ctx.require(x.tag != a->tag, "two attempts share a tag");
				this->ctx.require(a->epd == e, "a hello for '%s' in the attempt to open '%s'", e.c_str(), a->epd.c_str());
				this->ctx.require(not a->over, "a hello after the attempt to open '%s' was over", e.c_str());
				auto g = a->given.find(p.dst); bool ok = (g != a->given.end() and this->s.now >= g->second - 1e-6) or a->redirected.count(p.dst);
				this->ctx.require(ok, "a hello for '%s' to %s, which neither the application nor a redirect for this attempt named", e.c_str(), p.dst.toPresentation().c_str());
				a->tried.insert(p.dst); this->ctx.count("hellos sent");
				size_t extra = 0; for(auto &t : a->tried) if(not a->given.count(t)) extra++;
				this->ctx.require(extra <= REDIRECT_THRESHOLD, "%zu addresses tried because of redirects", extra);
			}
		});
		s.onDeliver.push_back([this] (const Pkt &p) {
			settle();
			auto it = this->s.route.find(p.dst); if(it == this->s.route.end() or it->second != this->h.idx) return;
			auto q = parsePacket(p.data); if(q.sid or q.mode() != HEADER_MODE_STARTUP) return;
			for(auto &c : q.chunks)
			{
				if(c.type == CHUNK_RHELLO)
				{
					Rd r(c.payload); uintmax_t n = r.vlu(); Bytes tag = r.take(n); n = r.vlu(); r.take(n); if(not r.ok) continue; Bytes cert = r.rest();
					Attempt *a = byTag(tag); Bytes key = cat({ c.payload, encAddrs({ p.src }) });
					if(not a or (a->over and tagForgotten(*a))) owedR.push_back(key); else if(a->over) maybeR.push_back(key);
					else { std::string nm = S(cert); if(SimCert::ok(cert) and SimCert(cert).m_kind == "CERT" and SimCert::sel(SimCert(cert).m_name, a->epd)) { a->over = true; a->must.clear(); this->ctx.count("attempts answered"); } }
				}
				if(c.type == CHUNK_REDIRECT)
				{
					Rd r(c.payload); uintmax_t n = r.vlu(); Bytes tag = r.take(n); if(not r.ok) continue; std::vector<Address> l; bool bad = false;
					while(r.c < r.lim and not bad) { Address x; if(decAddr(r, x)) l.push_back(x); else bad = true; }
					if(not bad and l.empty()) l.push_back(p.src);
					Attempt *a = byTag(tag); if(not a or a->over) { this->ctx.count("redirects to ignore"); continue; }
					this->ctx.count(bad ? "malformed redirects" : "redirects followed");
					for(auto &x : l) { a->redirected.insert(x); std::set<Address> all(a->redirected); for(auto &g : a->given) all.insert(g.first); if(not bad and not a->given.count(x) and all.size() <= REDIRECT_THRESHOLD) a->must.insert({ x, this->s.now }); }
				}
			}
		});
		h.rtmfp->onUnmatchedRHello = [this] (const uint8_t *t, size_t tn, const uint8_t *ck, size_t ckn, const uint8_t *ce, size_t cen, int id, const struct sockaddr *sa) {
			this->ctx.require(id == 1, "interface %d", id); Bytes tag(t, t + tn);
			Attempt *a = byTag(tag); this->ctx.require(not a or a->over, "an answer to an outstanding attempt was reported as unmatched");
			toldR.push_back(cat({ field(tag), field(Bytes(ck, ck + ckn)), Bytes(ce, ce + cen), encAddrs({ Address(sa) }) })); this->ctx.count("unmatched answers reported");
		};
	}
	std::function<bool(Attempt &)> tagForgotten = [] (Attempt &) { return false; };
	Attempt *byTag(const Bytes &t) { for(auto &x : at) if(not x.tag.empty() and x.tag == t) return &x; return nullptr; }
	void settle()
	{
		for(auto &a : at) { if(not a.over) for(auto &x : a.must) if(s.now > x.second + 0.001) ctx.require(a.tried.count(x.first), "the address %s named by a redirect for '%s' was not tried", x.first.toPresentation().c_str(), a.epd.c_str()); for(auto i = a.must.begin(); i != a.must.end(); ) if(s.now > i->second + 0.001) i = a.must.erase(i); else ++i; }
		for(auto &k : owedR) { auto it = std::find(toldR.begin(), toldR.end(), k); ctx.require(it != toldR.end(), "an answer to no outstanding attempt was not reported, or with wrong contents"); if(it == toldR.end()) return; toldR.erase(it); }
		for(auto &k : toldR) ctx.require(std::find(maybeR.begin(), maybeR.end(), k) != maybeR.end(), "an unmatched answer was reported that did not arrive");
		owedR.clear(); toldR.clear(); maybeR.clear();
	}
	Attempt &add(const std::string &epd) { at.push_back({}); at.back().epd = epd; at.back().startedAt = s.now; return at.back(); }
};

struct Spec { std::string name; int mode = 0; bool second = false, probes = false; int late = 0; };

static void intro(Ctx &ctx, const Spec &sp, FaultPlan plan)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"), &r = s.add("red", "10.0.0.3:1935"), &c = s.add("carol", "10.0.0.4:1935");
	Address bobAlt = A("10.0.9.2:77"), nowhere = A("10.9.9.9:9"); s.route[bobAlt] = b.idx;
	for(auto h : { &a, &b, &r, &c }) app.acceptAll(*h);
	FIHelloResponseMode modes[] = { FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE }, mode = FI_IGNORE, cmode = FI_SEND_RHELLO;
	// bob and carol are registered with the redirector
	Tx &reg = app.open(b, "red", "reg", &r.address), &regc = app.open(c, "red", "regc", &r.address); app.write(reg, 20); app.write(regc, 20);
	s.runUntil([&] { return app.find("reg") and app.find("regc") and not reg.flow->getBufferedSize() and not regc.flow->getBufferedSize(); }, s.now + 5); s.run(s.now + 1); ctx.bail();
	ctx.require(reg.flow->getSessionFIHelloMode() == FI_IGNORE, "forwarded hellos are not ignored by default");
	Rx *atRed[] = { app.find("reg"), app.find("regc") };
	// bob's session with the redirector answers forwarded hellos as configured; 3 keeps the default
	if(sp.mode < 3) { mode = modes[sp.mode]; reg.flow->setSessionFIHelloMode(mode); ctx.require(reg.flow->getSessionFIHelloMode() == mode, "mode not kept"); }
	regc.flow->setSessionFIHelloMode(cmode);
	Answers ab(ctx, s, b), ar(ctx, s, r), ac(ctx, s, c); ab.mode = [&] { return mode; }; ac.mode = [&] { return cmode; }; ar.mode = [&] { return FI_IGNORE; };
	Hellos hs(ctx, s, a); hs.at.reserve(4);
	hs.tagForgotten = [&] (Attempt &x) { return s.now > x.startedAt + 6; };
	s.onStep.push_back([&] { ab.settle(); ar.settle(); ac.settle(); hs.settle(); });
	// what the redirector does with a hello
	int act = ctx.choose(11, 0, "redirector"), nth = 0; bool reach = false, answered = false;
	static const char *actName[] = { "nothing", "forward", "redirect to bob", "redirect to nowhere, bobAlt", "redirect to carol, bob", "empty redirect", "redirect to bob and forward", "redirect with another tag", "truncated redirect", "redirect to bob twice with origins", "forward to everyone" };
	ctx.log("redirector: %s, bob's mode %d", actName[act], sp.mode);
	ar.onTold = [&] (const Told &t) {
		bool forCarol = S(t.epd) == "carol"; Rx *to = atRed[forCarol]; Host &dst = forCarol ? c : b;
		auto fwd = [&] (Rx *x) { bool ok = x->flow->forwardIHello(t.epd.data(), t.epd.size(), t.from, t.tag.data(), t.tag.size()); ctx.require(ok, "a hello was not forwarded over an open session"); };
		auto red = [&] (const Bytes &tag, const std::vector<Address> &v) { ar.manual.push_back(cat({ field(tag), encAddrs(v), encAddrs({ t.from }) })); r.rtmfp->sendResponderRedirect(tag.data(), tag.size(), v, t.ifid, t.from.getSockaddr()); };
		FIHelloResponseMode m = forCarol ? cmode : mode;
		nth++;
		switch(act)
		{
		case 1: case 10: fwd(to); if(act == 10) fwd(atRed[not forCarol]); if(not forCarol and m != FI_IGNORE) reach = true; break;
		case 2: red(t.tag, { dst.address }); reach = true; break;
		case 3: red(t.tag, { nowhere, forCarol ? c.address : bobAlt }); reach = true; break;
		case 4: red(t.tag, { c.address, b.address }); reach = true; break;
		case 5: red(t.tag, {}); break;
		case 6: red(t.tag, { dst.address }); fwd(to); reach = true; break;
		case 7: { Bytes x = t.tag; x.back() ^= 1; red(x, { dst.address }); x = t.tag; x.pop_back(); red(x, { dst.address }); x = t.tag; x.push_back(0); red(x, { dst.address }); red(Bytes(), { dst.address }); break; }
		case 8: { Bytes pl = cat({ field(t.tag), encAddrs({ dst.address }) }); pl.pop_back(); s.inject(startup(CHUNK_REDIRECT, pl), r.address, t.from, s.latency); pl = cat({ field(t.tag), { 0x42, 1, 2 } }); s.inject(startup(CHUNK_REDIRECT, pl), r.address, t.from, s.latency); break; }
		case 9: { Address x = dst.address; x.setOrigin(Address::ORIGIN_OBSERVED); Address y = dst.address; y.setOrigin(Address::ORIGIN_RELAY); red(t.tag, { x, y, dst.address }); reach = true; break; }
		default: break;
		}
	};
	int cand = ctx.choose(4, 0, "candidates");
	Attempt &at = hs.add("bob"); at.given[r.address] = s.now; if(cand == 1) at.given[b.address] = s.now + 0.5; if(cand == 2) at.given[nowhere] = s.now; if(cand == 3) at.given[b.address] = s.now + 9;
	auto fp = std::make_shared<FaultPlan>(plan); fp->match = [&] (const Pkt &p) { return not (p.src == r.address and (p.dst == b.address or p.dst == c.address) and not parsePacket(p.data).has(CHUNK_FIHELLO)) and not ((p.from == b.idx or p.from == c.idx) and p.dst == r.address); };
	s.policy = [&, fp] (Pkt &p, std::vector<double> &d) { fp->apply(ctx, p, d); };
	double t0 = s.now;
	Tx &f = app.open(a, "bob", "f"); f.flow->addCandidateAddress(r.address); app.write(f, 700);
	if(cand == 1 or cand == 3) f.flow->addCandidateAddress(b.address, cand == 1 ? 0.5 : 9); if(cand == 2) f.flow->addCandidateAddress(nowhere);
	Tx *g = nullptr;
	if(sp.second) { Attempt &a2 = hs.add("carol"); a2.given[r.address] = s.now; g = &app.open(a, "carol", "g"); g->flow->addCandidateAddress(r.address); app.write(*g, 100); }
	bool probed = false; 
	if(sp.probes)
	{
		// connectivity checks of the application's own
		for(double d : { 0.0, 0.03, 3.0 }) s.after(d, [&, d] {
			Bytes tag = B(fmt("probe%.2f", d)); hs.probes.insert(tag); std::string e[] = { "bob", "carol", "any", "nobody" };
			for(auto &x : e) for(auto to : { &b, &c, &r }) a.rtmfp->sendIHello(x.data(), x.size(), tag.data(), tag.size(), d == 0 ? INTERFACE_ID_ALL : 1, to->address.getSockaddr());
			a.rtmfp->sendIHello("bob", 3, tag.data(), tag.size(), 77, b.address.getSockaddr()); probed = true;
		});
	}
	int late = sp.late ? ctx.choose(6, 0, "late redirect") : 0; double lateAt[] = { 0, 0.02, 0.06, 0.11, 1.2, 4 };
	if(late) s.after(lateAt[late], [&] {
		if(at.tag.empty()) return; if(sp.late == 2) { app.close(f); at.over = true; at.must.clear(); }
		s.inject(startup(CHUNK_REDIRECT, cat({ field(at.tag), encAddrs({ A("10.6.6.6:6"), A("[2001:db8::1]:99"), bobAlt }) })), A("10.7.7.7:7"), a.address, 0.001); if(sp.late != 2) s.after(0.002, [&] { if(at.redirected.count(bobAlt)) reach = true; });
	});
	bool closes = sp.late == 2 and late;
	if(sp.late == 3) s.after(1.3, [&] { mode = modes[(sp.mode + 1) % 3]; reg.flow->setSessionFIHelloMode(mode); });
	double until = t0 + 20;
	auto got = [&] { return not f.flow->getFarCanonicalEPD().empty() and 0 == f.flow->getBufferedSize(); };
	bool ok = s.runUntil(got, until); ctx.bail(); answered = ok;
	if(not closes)
	{
		bool direct = cand == 1 or cand == 3;
		if(reach or direct) ctx.require(ok, "bob was not reached although the redirector pointed there");
		else if(sp.late != 3) ctx.require(not ok, "a session opened though bob was not reachable");
		if(ok) { ctx.require(S(f.flow->getFarCanonicalEPD()) == "bob", "opened a session with '%s'", S(f.flow->getFarCanonicalEPD()).c_str()); ctx.count("opened"); }
		else ctx.count("not opened");
	}
	s.run(s.now + 4); ctx.bail();
	if(ok and not closes) checkExact(ctx, app, f, "f", b.idx);
	if(g) { if(act == 2 or act == 6 or act == 1 or act == 10 or act == 9 or act == 3 or act == 4) { s.runUntil([&] { return g->flow->getBufferedSize() == 0; }, t0 + 24); ctx.bail(); ctx.require(S(g->flow->getFarCanonicalEPD()) == "carol", "carol was not reached"); s.run(s.now + 1); ctx.bail(); checkExact(ctx, app, *g, "g", c.idx); } }
	if(sp.probes) { s.run(s.now + 3); ctx.require(probed, "internal"); }
	ctx.bail();
	for(auto &x : app.rx) if(x->host == b.idx or x->host == c.idx) ctx.require(S(x->flow->getFarCanonicalEPD()) == "alice", "a session with '%s'", S(x->flow->getFarCanonicalEPD()).c_str());
	// after the end of the attempt its tag is forgotten
	ctx.summary = fmt("%s: redirector %d candidates %d: %s after %.2f s, %d hellos at the redirector", sp.name.c_str(), act, cand, answered ? "opened" : "not opened", s.now - t0, nth);
}

// many redirected addresses: bounded, while the application's own are never refused
static void flood(Ctx &ctx)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); app.acceptAll(b);
	static const int own[] = { 0, 1, 5, 22, 23, 24, 25, 40 }, per[] = { 1, 3, 23, 24, 25, 40 };
	int n = own[ctx.choose(8, 0, "own")], per1 = per[ctx.choose(6, 0, "per redirect")], bobAt = ctx.choose(4, 0, "bob's place"), dups = ctx.choose(2, 0, "repeated"), order = ctx.choose(2, 0, "own later");
	Hellos hs(ctx, s, a); hs.at.reserve(2); s.onStep.push_back([&] { hs.settle(); });
	Attempt &at = hs.add("bob"); Tx &f = app.open(a, "bob", "f"); app.write(f, 100);
	Address first = A("10.3.0.1:1"); at.given[first] = s.now; f.flow->addCandidateAddress(first);
	auto mine = [&] { for(int i = 0; i < n; i++) { Address x = A(fmt("10.2.0.%d:5", i + 1).c_str()); at.given[x] = s.now; f.flow->addCandidateAddress(x); if(dups) f.flow->addCandidateAddress(x); } };
	if(not order) mine();
	s.run(s.now + 0.01); ctx.bail(); ctx.require(not at.tag.empty(), "no hello was sent"); ctx.bail();
	std::vector<Address> all; for(int i = 0; i < 60; i++) all.push_back(i % 7 == 6 ? A(fmt("[fe80::%d]:7", i).c_str()) : A(fmt("10.1.%d.%d:7", i / 9, i).c_str()));
	static const int place[] = { 0, 10, 30, 59 }; all.insert(all.begin() + place[bobAt], b.address);
	for(size_t i = 0; i < all.size(); i += per1)
	{
		std::vector<Address> l(all.begin() + i, all.begin() + std::min<size_t>(all.size(), i + per1)); if(dups) l.insert(l.end(), l.begin(), l.end());
		s.inject(startup(CHUNK_REDIRECT, cat({ field(at.tag), encAddrs(l) })), A("10.7.7.7:7"), a.address, 0.0001 * i);
	}
	s.run(s.now + 0.02); ctx.bail();
	if(order and not at.over) { mine(); s.run(s.now + 0.01); ctx.bail(); }
	for(auto &g : at.given) if(not at.over) ctx.require(at.tried.count(g.first), "the application's own address %s was not tried", g.first.toPresentation().c_str());
	size_t extra = 0; for(auto &t : at.tried) if(not at.given.count(t)) extra++;
	ctx.require(extra <= REDIRECT_THRESHOLD, "%zu redirected addresses tried", extra);
	// the redirects leave no lasting mark: another attempt still opens
	bool bobTried = at.tried.count(b.address);
	s.run(s.now + 6); ctx.bail();
	ctx.require(bobTried == (not f.flow->getFarCanonicalEPD().empty()), bobTried ? "bob was tried but not opened" : "opened without trying");
	if(not bobTried) { at.given[b.address] = s.now; f.flow->addCandidateAddress(b.address); s.run(s.now + 3); ctx.bail(); ctx.require(S(f.flow->getFarCanonicalEPD()) == "bob", "the application's address did not open the session after a flood of redirects"); }
	ctx.count("floods"); ctx.summary = fmt("own %d, %d per redirect: %zu tried because of redirects", n, per1, extra);
}

// the argument space of forwardIHello, sendResponderRedirect and sendIHello
static void args(Ctx &ctx)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); app.acceptAll(b); app.acceptAll(a);
	Tx &f = app.open(a, "bob", "f", &b.address); app.write(f, 10); s.run(s.now + 2); ctx.bail();
	Rx *rx = app.find("f", b.idx); ctx.require(rx, "not open"); ctx.bail();
	int what = ctx.choose(3, 0, "call"); static const size_t lens[] = { 0, 1, 2, 127, 128, 300, 900, 1000, 1100, 1160, 1173, 1180, 1190, 1196, 1200, 2000 };
	size_t en = lens[ctx.choose(16, 0, "epd length")], tn = lens[ctx.choose(16, 0, "tag length")]; int ai = ctx.choose(6, 0, "address");
	Address addrs[] = { A("10.1.2.3:4"), A("[2001:db8::5]:65535"), A("0.0.0.0:0", Address::ORIGIN_REPORTED), A("255.255.255.255:1", Address::ORIGIN_OBSERVED), A("[::1]:80", Address::ORIGIN_RELAY), A("10.0.0.77:256") };
	Bytes epd = payload(1, 1, en), tag = payload(2, 1, tn); if(en > 0 and ctx.choose(2, 0, "named")) { epd = B("bob"); en = 3; }
	if(en == 2) epd = B("xx");
	Answers ab(ctx, s, b); Hellos hs(ctx, s, a); hs.probes.insert(tag); s.onStep.push_back([&] { ab.settle(); hs.settle(); });
	static const FIHelloResponseMode modes[] = { FI_SEND_RHELLO, FI_SEND_REDIRECT, FI_IGNORE }; FIHelloResponseMode mode = modes[what == 0 ? ctx.choose(3, 0, "mode") : 0]; ab.mode = [&] { return mode; }; rx->flow->setSessionFIHelloMode(mode);
	int sent = 0, arrived = 0; s.onSend.push_back([&] (const Pkt &p) { if(p.from == a.idx) { auto q = parsePacket(p.data); for(auto &c : q.chunks) if(c.type == CHUNK_FIHELLO or c.type == CHUNK_IHELLO or c.type == CHUNK_REDIRECT) {
		sent++; Rd r(c.payload); uintmax_t n = r.vlu();
		if(what == 0) { ctx.require(r.take(n) == epd and r.rest() == cat({ encAddrs({ addrs[ai] }), tag }), "a forwarded hello has other contents"); }
		if(what == 1) { ctx.require(r.take(n) == epd and r.rest() == tag, "a hello has other contents"); ctx.require(p.dst == b.address, "sent elsewhere"); }
		if(what == 2) { ctx.require(r.take(n) == tag, "redirect with another tag"); std::vector<Address> l; for(int i = 0; i < ai; i++) l.push_back(addrs[i]); ctx.require(r.rest() == encAddrs(l), "redirect names other addresses"); ctx.require(p.dst == b.address, "sent elsewhere"); } } } });
	(void)arrived;
	size_t need;
	if(what == 0) { bool ok = f.flow->forwardIHello(epd.data(), epd.size(), addrs[ai], tag.data(), tag.size()); need = field(epd).size() + encAddrs({ addrs[ai] }).size() + tag.size() + 3; s.run(s.now + 1); ctx.bail(); ctx.require(ok == (sent > 0), "forwarding reported %d but %d packets were sent", ok, sent); if(need <= 1100) ctx.require(ok, "a hello of %zu bytes was not forwarded", need); if(need > 1400) ctx.require(not ok, "too large"); }
	else if(what == 1) { a.rtmfp->sendIHello(epd.data(), epd.size(), tag.data(), tag.size(), ctx.choose(2, 0, "interface") ? 1 : INTERFACE_ID_ALL, b.address.getSockaddr()); need = field(epd).size() + tag.size() + 3; s.run(s.now + 1); ctx.bail(); if(need <= 4000) ctx.require(sent == 1, "a hello was not sent");  }
	else { std::vector<Address> l; for(int i = 0; i < ai; i++) l.push_back(addrs[i]); a.rtmfp->sendResponderRedirect(tag.data(), tag.size(), l, ctx.choose(2, 0, "interface") ? 1 : INTERFACE_ID_ALL, b.address.getSockaddr()); need = field(tag).size() + encAddrs(l).size() + 3; s.run(s.now + 1); ctx.bail(); if(need <= 4000) ctx.require(sent == 1, "a redirect was not sent");  }
	ctx.require(sent <= 1, "sent %d times", sent); ctx.count(sent ? "calls that sent" : "calls refused");
	// not over a session that is closed
	if(what == 0) { int before = sent; f.flow->closeSession(); s.run(s.now + 0.5); ctx.bail(); bool ok = f.flow->forwardIHello(epd.data(), epd.size(), addrs[ai], tag.data(), tag.size()); s.run(s.now + 0.5); ctx.require(not ok and sent == before, "a hello was forwarded over a closed session"); }
	ctx.summary = fmt("call %d, epd %zu, tag %zu bytes: %s", what, en, tn, sent ? "sent" : "refused");
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C33";
	meta.assumptions = { "virtual network and time, transparent crypto adapter with name-based certificates", "no claim for answers to an attempt that has moved on to keying (they may or may not be reported as unmatched)" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		FaultPlan p; p.window = 14; p.faults = { F_DROP, F_DUP, F_DUP_LATE, F_DELAY_LONG }; FaultPlan none; none.window = 0;
		for(int mode = 0; mode < 4; mode++)
		{
			auto add = [&] (Spec x, const std::string &n, int budget, const FaultPlan &pl) { x.mode = mode; x.name = fmt("%s-mode%d", n.c_str(), mode); v.push_back({ x.name, budget, [=] (Ctx &c) { intro(c, x, pl); } }); };
			Spec x; add(x, "intro", th ? 3 : mode == 1 ? 2 : 1, p);
			x.second = true; add(x, "two-attempts", th ? 2 : 1, p);
			x = Spec(); x.probes = true; add(x, "probes", th ? 2 : 1, p);
			x = Spec(); x.late = 1; add(x, "late-redirect", th ? 2 : 1, p);
			x = Spec(); x.late = 2; add(x, "closed", th ? 2 : 1, p);
			if(mode < 3) { x = Spec(); x.late = 3; add(x, "mode-change", th ? 2 : 1, p); }
		}
		v.push_back({ "flood", 0, [] (Ctx &c) { flood(c); } });
		v.push_back({ "arguments", 0, [] (Ctx &c) { args(c); } });
		return v;
	});
}
