// C10: packets of anyone without the session's key.
#include "flows.hpp"
using namespace sim;

static Bytes clearOf(const Bytes &d) { return d.size() > 4 + TAGLEN ? Bytes(d.begin() + 4 + TAGLEN, d.end()) : Bytes(); }
static bool underDefaultKey(const Bytes &d) { Bytes c = clearOf(d); return not c.empty() and H(TAGLEN, { defaultKey(), c }) == Bytes(d.begin() + 4, d.begin() + 4 + TAGLEN); }
static Bytes resid(const Bytes &d, uint32_t sid) { Bytes r = d; uint32_t w[3]; memcpy(w, r.data(), 12); w[0] = sid ^ w[1] ^ w[2]; memcpy(r.data(), w, 4); return r; }

struct Cap { Pkt p; bool earlier; };
enum Kind { REPLAY, FROM_ELSEWHERE, REFLECT, FLIP, FLIP_RETAG, TRUNCATE, TRUNCATE_RETAG, RESESSION, OTHER_KEY, NKINDS };
static const char *kindName[] = { "replay", "replay from elsewhere", "reflection", "altered", "altered, tag recomputed with the public key", "truncated", "truncated, tag recomputed", "another session number", "session chunks under the public key" };

static void attack(Ctx &ctx, int kind, double earlierGap, bool burst, int part, int parts)
{
	Sim s(ctx); App app(s); s.latency = 0.02;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	Address mallory; mallory.setFromPresentation("10.6.6.6:666"); s.route[mallory] = -1;
	app.acceptAll(a); app.acceptAll(b);
	std::vector<Cap> cap; bool main = false; int n = 0; bool injected = false, tolerated = false; std::string what;
	// earlier session between the same two, closed before
	uint64_t genuine = 0; (void)genuine;
	int at = -1;
	std::function<void()> fire;
	s.onSend.push_back([&] (const Pkt &p) {
		if(not (p.dst == a.address) and not (p.dst == b.address))
			for(auto &c : parsePacket(p.data).chunks)
				if(not (c.type == CHUNK_PING or c.type == CHUNK_RHELLO or c.type == CHUNK_RHELLO_COOKIE_CHANGE or c.type == CHUNK_IIKEYING)) ctx.fail("chunk %02x sent to an attacker's address after: %s", c.type, what.c_str());
		if(p.dst == mallory) return;
		cap.push_back({ p, not main });
		if(main and n++ == at) s.after(0, [&] { fire(); });
	});
	auto session = [&] (const std::string &tag, Tx *&t, Tx *&r) {
		t = &app.open(a, "bob", "a" + tag, &b.address); r = nullptr;
		Tx *tt = t; tt->flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(a.idx, f); };
		Tx **rr = &r;
		app.onNew = [&app, &b, rr, tag] (Rx &x) { if(x.host == b.idx and S(x.meta) == "a" + tag) { *rr = &app.wrap(b.idx, x.flow->openReturnFlow(B("r" + tag))); app.write(**rr, 300); } };
		app.write(*t, 200); app.write(*t, 30);
	};
	Tx *t = nullptr, *r = nullptr;
	if(earlierGap > 0)
	{
		Tx *t0, *r0; session("-old", t0, r0);
		s.runUntil([&] { return r0 and r0->flow->getBufferedSize() == 0 and t0->flow->getBufferedSize() == 0; }, s.now + 5);
		ctx.require(r0, "session did not open on a perfect network");
		t0->flow->closeSession(); s.run(s.now + earlierGap);
		t0->closed = r0->closed = true; app.forgetRx();
	}
	main = true; size_t base = cap.size();
	// what is injected, and when
	int who, when;
	if(earlierGap > 0) { who = ctx.choose((int)base, 0, "captured packet"); when = ctx.choose(12, 0, "time"); }
	else { who = ctx.choose(26, 0, "captured packet"); when = ctx.choose(burst ? 2 : 5, 0, "time"); }
	at = earlierGap > 0 ? when * 2 : who + (burst ? (when ? 6 : 1) : when * 3);
	fire = [&] {
		if(injected or (size_t)who >= cap.size()) return;
		injected = true;
		Pkt p = cap[who].p; bool dk = underDefaultKey(p.data); auto q = parsePacket(p.data);
		// an on-path observer of the hello may spoil the attempt (it knows tag and cookie), nothing more
		if(q.has(CHUNK_RHELLO) and not cap[who].earlier and kind != REPLAY) tolerated = true;
		// a keying packet of the same initiator within its cookie's lifetime is taken for a restart
		if(q.has(CHUNK_IIKEYING) and cap[who].earlier and earlierGap < 97) tolerated = true;
		std::vector<Bytes> out; Address src = p.src, dst = p.dst;
		Bytes clear = clearOf(p.data);
		switch(kind)
		{
		case REPLAY: out.push_back(p.data); break;
		case FROM_ELSEWHERE: out.push_back(p.data); src = mallory; break;
		case REFLECT: out.push_back(p.data); std::swap(src, dst); break;
		case FLIP: for(size_t i = part; i < p.data.size(); i += parts) for(uint8_t m : { 0x01, 0x80 }) { Bytes d = p.data; d[i] ^= m; out.push_back(d); } break;
		case FLIP_RETAG: if(dk) for(size_t i = part; i < clear.size(); i += parts) for(uint8_t m : { 0x01, 0x10 }) { Bytes c = clear; c[i] ^= m; out.push_back(makePacket(q.sid, defaultKey(), c)); } break;
		case TRUNCATE: for(size_t i = part; i < p.data.size(); i += parts) out.push_back(Bytes(p.data.begin(), p.data.begin() + i)); break;
		case TRUNCATE_RETAG: if(dk) for(size_t i = part; i < clear.size(); i += parts) out.push_back(makePacket(q.sid, defaultKey(), Bytes(clear.begin(), clear.begin() + i))); break;
		case RESESSION: for(uint32_t i = 0; i < 7; i++) if(i != q.sid) out.push_back(resid(p.data, i)); break;
		case OTHER_KEY: for(uint32_t i = 0; i < 6; i++) { out.push_back(makePacket(i, defaultKey(), clear)); out.push_back(makePacket(i, B("guess"), clear)); } break;
		}
		what = fmt("%s of packet %d (%s)", kindName[kind], who, Sim::describe(p).c_str());
		if(not burst) for(auto &d : out) s.inject(d, src, dst, 0.001);
		else for(auto &d : out) { s.inject(d, src, dst, 0.001); }
		ctx.count("forged packets", out.size());
	};
	session("", t, r);
	s.runUntil([&] { return r and r->flow->getBufferedSize() == 0 and t->flow->getBufferedSize() == 0; }, s.now + 8); ctx.bail();
	if(r) { s.run(s.now + 1); app.write(*t, 1700); app.write(*r, 60); }
	bool ok = s.runUntil([&] { return injected and r and r->flow->getBufferedSize() == 0 and t->flow->getBufferedSize() == 0; }, s.now + (tolerated ? 100 : 12)); ctx.bail();
	s.run(s.now + 3); ctx.bail();
	ctx.require(t->exceptions <= 1, "two exceptions");
	for(auto &x : app.rx) { bool atB = x->host == b.idx; ctx.require(S(x->flow->getFarCanonicalEPD()) == (atB ? "alice" : "bob"), "flow from '%s' after: %s", S(x->flow->getFarCanonicalEPD()).c_str(), what.c_str()); if(atB) checkPrefix(ctx, app, *t, "a", b.idx); else if(r) checkPrefix(ctx, app, *r, "r", a.idx); }
	ctx.bail();
	ctx.require(app.rx.size() <= 2, "%zu flows received instead of 2 after: %s", app.rx.size(), what.c_str());
	if(not t->flow->getFarCanonicalEPD().empty()) ctx.require(S(t->flow->getFarCanonicalEPD()) == "bob" , "session with '%s'", S(t->flow->getFarCanonicalEPD()).c_str());
	if(tolerated) { ctx.count("attempts spoiled or restarts allowed"); return; }
	(void)ok;
	ctx.require(r and t->exceptions == 0 and r->exceptions == 0, "a flow failed after: %s", what.c_str());
	checkExact(ctx, app, *t, "a", b.idx); checkExact(ctx, app, *r, "r", a.idx);
	ctx.require(t->flow->getBufferedSize() == 0 and r->flow->getBufferedSize() == 0, "transfer stalled after: %s", what.c_str());
	ctx.require(t->flow->getFarAddress() == b.address and r->flow->getFarAddress() == a.address, "traffic was moved to %s after: %s", r->flow->getFarAddress().toPresentation().c_str(), what.c_str());
	size_t keysWant = (earlierGap > 0 ? 3 : 2);
	ctx.require(b.crypto->keys.size() == keysWant, "the responder made %zu session keys instead of %zu after: %s", b.crypto->keys.size(), keysWant, what.c_str());
	for(auto &x : app.rx) ctx.require(x->completes == 0, "an incoming flow ended after: %s", what.c_str());
	if(not injected) ctx.count("injection point not reached");
	ctx.summary = what;
}

// Every combination of cookie, certificate, keying component, signature and source address in a keying packet.
static void keying(Ctx &ctx)
{
	Sim s(ctx); App app(s);
	Host &b = s.add("bob", "10.0.0.2:1935");
	Address m1, m2; m1.setFromPresentation("10.6.6.6:666"); m2.setFromPresentation("10.7.7.7:777"); s.route[m1] = s.route[m2] = -1;
	app.acceptAll(b);
	std::vector<Pkt> out; s.onSend.push_back([&] (const Pkt &p) { out.push_back(p); });
	auto startup = [&] (uint8_t type, const Bytes &pl, const Address &src) { Bytes c { HEADER_MODE_STARTUP }; auto ch = chunk(type, pl); c.insert(c.end(), ch.begin(), ch.end()); Pkt p; p.src = src; p.dst = b.address; p.data = makePacket(0, defaultKey(), c); s.deliver(p); s.drain(); s.net.clear(); };
	auto cookieFrom = [&] (uint8_t type) { Bytes r; for(auto &p : out) for(auto &c : parsePacket(p.data).chunks) if(c.type == type) { Rd rd(c.payload); size_t n = rd.vlu(); rd.take(n); if(type == CHUNK_RHELLO) { n = rd.vlu(); r = rd.take(n); } else r = rd.rest(); } return r; };
	auto field = [] (const Bytes &x) { Bytes r = vlu(x.size()); r.insert(r.end(), x.begin(), x.end()); return r; };
	s.run(s.now + 300.3);
	auto hello = [&] (const Address &src) { out.clear(); startup(CHUNK_IHELLO, cat({ field(B("bob")), B("tagtagtag") }), src); return cookieFrom(CHUNK_RHELLO); };
	double sleep0 = b.rtmfp->howLongToSleep(), now0 = s.now;
	int hellos = ctx.choose(3, 0, "hellos"); for(int i = 0; i < hellos * 40; i++) hello(i & 1 ? m1 : m2);
	Bytes cookie = hello(m1); ctx.require(not cookie.empty(), "a hello for this endpoint was not answered");
	ctx.require(out.size() == 1 and out[0].dst == m1, "the hello's answer did not go back to its source");
	ctx.require(b.crypto->keys.size() == 1 and b.rtmfp->howLongToSleep() >= sleep0 - (s.now - now0), "the responder keeps state after a hello");
	SimKey key(H(16, { B("m") })); Bytes skic; key.generateInitiatorKeyingComponent(nullptr, &skic);
	int ck = ctx.choose(9, 0, "cookie"), ce = ctx.choose(4, 0, "certificate"), sk = ctx.choose(3, 0, "keying component"), sg = ctx.choose(4, 0, "signature"), ad = ctx.choose(2, 0, "address"), age = ctx.choose(5, 0, "age");
	const double ages[] = { 0, 30, 94.5, 97.1, 4000 };
	double young = ages[age];
	Bytes c = cookie; bool cookieOk = true;
	switch(ck)
	{
	case 1: c[c.size() - 1] ^= 1; cookieOk = false; break; // address hash: looks like another address
	case 2: c[c.size() - 40] ^= 1; cookieOk = false; break;
	case 3: c[0] ^= 1; cookieOk = false; break;
	case 4: c.pop_back(); cookieOk = false; break;
	case 5: c.clear(); cookieOk = false; break;
	case 6: c.push_back(0); cookieOk = false; break;
	case 7: { Host &o = s.add("bob2", "10.0.0.9:1"); (void)o; c = Bytes(cookie.size(), 0x5a); cookieOk = false; break; }
	case 8: c = Bytes(66, 0xff); cookieOk = false; break;
	}
	bool mismatchOnly = (ck == 1);
	std::string certs[] = { "CERT|mallory|1", "FAKE|mallory|1", "nonsense", "CERT|bob2|" };
	Bytes cert = B(certs[ce]); std::string nm = ce == 3 ? "bob2" : "mallory"; bool certOk = ce == 0 or ce == 3;
	Bytes kc = skic; bool skOk = sk == 0; if(sk == 1) kc[0] = 'X'; if(sk == 2) kc.pop_back();
	uint32_t isid = 77; Bytes sid((uint8_t *)&isid, (uint8_t *)&isid + 4);
	Bytes params = cat({ sid, field(c), field(cert), field(kc) });
	Bytes sig; bool sigOk = sg == 0;
	switch(sg) { case 0: sig = SimCert::signature(nm, params.data(), params.size()); break; case 1: sig = SimCert::signature("alice", params.data(), params.size()); break; case 2: { Bytes o = params; o[0] ^= 1; sig = SimCert::signature(nm, o.data(), o.size()); break; } case 3: break; }
	Address src = ad ? m2 : m1;
	s.run(s.now + young);
	out.clear(); size_t keys0 = b.crypto->keys.size();
	startup(CHUNK_IIKEYING, cat({ params, sig }), src);
	bool fresh = young <= 95;
	int rikeying = 0, changes = 0, other = 0;
	for(auto &p : out) for(auto &x : parsePacket(p.data).chunks)
	{
		if(not (p.dst == src)) ctx.fail("answer to a keying packet went to %s", p.dst.toPresentation().c_str());
		if(x.type == CHUNK_RIKEYING) rikeying++; else if(x.type == CHUNK_RHELLO_COOKIE_CHANGE) changes++; else other++;
	}
	ctx.bail();
	bool wantOpen = cookieOk and fresh and not ad and certOk and skOk and sigOk;
	bool wantChange = fresh and ((cookieOk and ad) or mismatchOnly);
	ctx.require(rikeying == (wantOpen ? 1 : 0), "keying packet %s (cookie %d age %.0f, certificate %d, component %d, signature %d, address %d)", rikeying ? "was accepted" : "was not accepted", ck, young, ce, sk, sg, ad);
	ctx.require(changes == (wantChange ? 1 : 0) and not other, "keying packet earned %d replacement cookies, expected %d (cookie %d age %.0f address %d)", changes, wantChange, ck, young, ad);
	if(not wantOpen and not (cookieOk and fresh and not ad)) ctx.require(b.crypto->keys.size() == keys0, "session state was made for a bad cookie");
	if(wantChange and certOk and skOk and sg < 1)
	{
		Bytes c2 = cookieFrom(CHUNK_RHELLO_COOKIE_CHANGE); Bytes p2 = cat({ sid, field(c2), field(cert), field(kc) });
		out.clear(); startup(CHUNK_IIKEYING, cat({ p2, SimCert::signature(nm, p2.data(), p2.size()) }), src);
		rikeying = 0; for(auto &p : out) rikeying += parsePacket(p.data).has(CHUNK_RIKEYING);
		ctx.require(rikeying == 1, "the replacement cookie is not accepted from the address it was sent to");
		out.clear(); startup(CHUNK_IIKEYING, cat({ p2, SimCert::signature(nm, p2.data(), p2.size()) }), ad ? m1 : m2);
		for(auto &p : out) ctx.require(not parsePacket(p.data).has(CHUNK_RIKEYING), "the replacement cookie is accepted from another address");
	}
	ctx.count(wantOpen ? "keying accepted" : wantChange ? "replacement cookies" : "keying ignored");
	ctx.summary = fmt("cookie %d cert %d comp %d sig %d addr %d age %.0f -> %d/%d", ck, ce, sk, sg, ad, young, rikeying, changes);
}

// Off-path packets (no knowledge of tag, cookie or keys) during every phase of an opening attempt.
static void offpath(Ctx &ctx, int phases)
{
	Sim s(ctx); App app(s); s.latency = 0.02;
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"), &m = s.add("mallory", "10.6.6.6:666");
	app.acceptAll(a); app.acceptAll(b); app.acceptAll(m);
	auto field = [] (const Bytes &x) { Bytes r = vlu(x.size()); r.insert(r.end(), x.begin(), x.end()); return r; };
	auto packet = [&] (uint32_t sid, uint8_t type, const Bytes &pl) { Bytes c { HEADER_MODE_STARTUP }; auto ch = chunk(type, pl); c.insert(c.end(), ch.begin(), ch.end()); return makePacket(sid, defaultKey(), c); };
	int at = ctx.choose(phases, 0, "time"), what = ctx.choose(8, 0, "kind"), from = ctx.choose(3, 0, "source"), tg = ctx.choose(3, 0, "guess"), reps = ctx.choose(2, 0, "repeat") ? 30 : 1;
	Address elsewhere; elsewhere.setFromPresentation("10.5.5.5:5"); s.route[elsewhere] = -1;
	Address src = from == 0 ? b.address : from == 1 ? m.address : elsewhere;
	Bytes guess = tg == 0 ? Bytes() : tg == 1 ? Bytes(16, 0) : Bytes(IHELLO_TAG_LENGTH, 0x41);
	bool moved = false; int n = 0;
	s.onSend.push_back([&] (const Pkt &p) { if(p.from == a.idx and (p.dst == m.address or p.dst == elsewhere)) for(auto &c : parsePacket(p.data).chunks) if(c.type != CHUNK_RHELLO) { ctx.fail("alice sent chunk %02x to an attacker", c.type); moved = true; } });
	auto fire = [&] {
		for(int i = 0; i < reps; i++)
		{
			Bytes g = guess; if(i and not g.empty()) g[0] = i;
			Address to = a.address;
			switch(what)
			{
			case 0: s.inject(packet(0, CHUNK_RHELLO, cat({ field(g), field(Bytes(65, 1)), m.crypto->cert() })), src, to, 0); break;
			case 1: s.inject(packet(0, CHUNK_RHELLO, cat({ field(g), field(Bytes(65, 1)), b.crypto->cert() })), src, to, 0); break;
			case 2: s.inject(packet(0, CHUNK_REDIRECT, cat({ field(g), m.address.encode() })), src, to, 0); break;
			case 3: for(uint32_t sid = 0; sid < 5; sid++) s.inject(packet(sid, CHUNK_RHELLO_COOKIE_CHANGE, cat({ field(g), Bytes(65, 9) })), src, to, 0); break;
			case 4: for(uint32_t sid = 0; sid < 5; sid++) { uint32_t v = 9; Bytes pl((uint8_t *)&v, (uint8_t *)&v + 4); Bytes sk(17, 3); sk[0] = 'R'; auto f = field(sk); pl.insert(pl.end(), f.begin(), f.end()); Bytes sig = tg ? SimCert::signature("mallory", pl.data(), pl.size()) : Bytes(); pl.insert(pl.end(), sig.begin(), sig.end()); s.inject(packet(sid, CHUNK_RIKEYING, pl), src, to, 0); } break;
			case 5: for(uint32_t sid = 0; sid < 5; sid++) { s.inject(packet(sid, CHUNK_CLOSE, {}), src, to, 0); s.inject(packet(sid, CHUNK_CLOSE_ACK, {}), src, b.address, 0); } break;
			case 6: s.inject(packet(0, CHUNK_IHELLO, cat({ field(B("bob")), g })), src, b.address, 0); s.inject(packet(0, CHUNK_IHELLO, cat({ field(B("alice")), g })), src, a.address, 0); break;
			case 7: for(uint32_t sid = 0; sid < 5; sid++) { Bytes c { (uint8_t)HEADER_MODE_RESPONDER }; auto ch = chunk(CHUNK_USERDATA, cat({ Bytes { 0x80 }, vlu(2), vlu(1), vlu(1), Bytes { 3, 0, 'f', 'x', 0 }, B("bogus") })); c.insert(c.end(), ch.begin(), ch.end()); Bytes d = g; s.inject(makePacket(sid, tg ? d : defaultKey(), c), src, to, 0); c[0] = HEADER_MODE_INITIATOR; s.inject(makePacket(sid, tg ? d : defaultKey(), c), src, b.address, 0); } break;
			}
		}
		ctx.count("off-path packets", reps);
	};
	Tx &t = app.open(a, "bob", "f", &b.address); app.write(t, 1500); app.write(t, 3);
	s.onStep.push_back([&] { if(n++ == at) fire(); });
	bool ok = s.runUntil([&] { return t.flow->getBufferedSize() == 0 and n > at + 2; }, s.now + 20); ctx.bail();
	s.run(s.now + 4); ctx.bail();
	ctx.require(ok, "off-path packet (kind %d) stopped the transfer", what);
	checkExact(ctx, app, t, "f", b.idx);
	ctx.require(app.rx.size() == 1, "%zu flows instead of one", app.rx.size());
	ctx.require(t.exceptions == 0 and S(t.flow->getFarCanonicalEPD()) == "bob" and t.flow->getFarAddress() == b.address and app.rx[0]->flow->getFarAddress() == a.address, "session disturbed by an off-path packet");
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C10";
	meta.assumptions = { "transparent keyed-tag crypto: anyone may compute startup tags (public default key), nobody but the two ends session tags", "attackers who saw the hello may spoil that opening attempt; a keying packet replayed within its cookie's lifetime counts as a restart" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		for(int k = 0; k < NKINDS; k++)
		{
			bool many = k == FLIP or k == FLIP_RETAG or k == TRUNCATE or k == TRUNCATE_RETAG;
			int parts = many ? (th ? 24 : 6) : 1;
			for(int part = 0; part < parts; part++)
			{
				std::string nm = std::string(kindName[k]) + (many ? fmt("/%d of %d", part, parts) : "");
				v.push_back({ "current/" + nm, 0, [=] (Ctx &c) { attack(c, k, 0, many, part, parts); } });
				if(not many or th) for(double gap : { 20., 130. }) v.push_back({ fmt("earlier-%.0f/", gap) + nm, 0, [=] (Ctx &c) { attack(c, k, gap, many, part, parts); } });
			}
		}
		v.push_back({ "keying-product", 0, keying });
		v.push_back({ "off-path", 0, [=] (Ctx &c) { offpath(c, th ? 26 : 16); } });
		return v;
	});
}
