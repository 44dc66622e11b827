// C14: no packet may crash the stack, corrupt memory, stall it or harm others.
#include "flows.hpp"
#include <climits>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace sim;

static Bytes rep(uint8_t b, size_t n) { return Bytes(n, b); }
static const uintmax_t BIG = UINTMAX_MAX, LM = LONG_MAX;

// --- chunk alphabets.  F is the peer-opened flow, R the return flow of the endpoint under attack
struct NC { std::string name; Bytes b; };
static void add(std::vector<NC> &v, const std::string &n, const Bytes &b) { v.push_back({ n, b }); }
static Bytes badVlu(int k) { return k == 0 ? rep(0x80, 12) : k == 1 ? cat({ rep(0xff, 20), { 0x7f } }) : k == 2 ? Bytes { 0x81 } : Bytes(); }

static std::vector<Bytes> optionLists()
{
	std::vector<Bytes> v;
	v.push_back({}); // no list at all
	v.push_back({ 0 });
	v.push_back(RawPeer::metaOpt("m"));
	v.push_back(RawPeer::metaOpt(std::string(300, 'q')));
	v.push_back(RawPeer::metaOpt(std::string(1000, 'q')));
	v.push_back(Bytes { 5, USERDATA_OPTION_METADATA, 'a' }); // longer than the chunk
	v.push_back(Bytes { 1, USERDATA_OPTION_METADATA }); // no marker
	v.push_back(Bytes { 0x80 });
	v.push_back(cat({ rep(0xff, 9), { 0x7f, 0 } }));
	v.push_back(cat({ rep(0xff, 10), { 0x7f, 0 } }));
	v.push_back(Bytes { 1, 0x80, 0 }); // option type not terminated
	v.push_back(Bytes { 1, USERDATA_OPTION_RETURN_ASSOCIATION, 0 });
	v.push_back(Bytes { 2, USERDATA_OPTION_RETURN_ASSOCIATION, 0x80, 0 });
	for(uintmax_t a : { uintmax_t(0), uintmax_t(2), uintmax_t(3), uintmax_t(77), LM, LM + 1, BIG }) { Bytes val = vlu(a); Bytes o = vlu(1 + val.size()); o.push_back(USERDATA_OPTION_RETURN_ASSOCIATION); o.insert(o.end(), val.begin(), val.end()); for(auto &m : { Bytes { 0 }, RawPeer::metaOpt("z") }) v.push_back(cat({ o, m })); }
	v.push_back(Bytes { 1, 0x20, 0 }); v.push_back(Bytes { 3, 0xc0, 0x00, 1, 0 }); v.push_back(Bytes { 2, 0x05, 1, 0 });
	v.push_back(rep(1, 200)); // many options
	return v;
}

static std::vector<NC> bigAlphabet(uintmax_t F, uintmax_t R)
{
	std::vector<NC> v;
	std::vector<uintmax_t> vals { 0, 1, 2, 3, 4, 127, 128, uintmax_t(1) << 31, uintmax_t(1) << 62, LM, LM + 1, BIG - 1, BIG };
	for(uint8_t fl : { 0x00, 0x10, 0x20, 0x30, 0x01, 0x02, 0x03, 0x13, 0x7c }) for(uintmax_t f : { F, uintmax_t(50), BIG }) for(auto sn : vals) for(int o : { 0, 1, 2, 3 })
	{
		uintmax_t off = o == 0 ? 0 : o == 1 ? 1 : o == 2 ? sn : sn + 1;
		if(o == 3 and sn == BIG) continue;
		add(v, fmt("data fl%02x flow%ju sn%ju off%ju", fl, f, sn, off), RawPeer::dataChunk(f, sn, off, fl, B("xy"), f == F ? Bytes() : RawPeer::metaOpt("m")));
	}
	for(auto &o : optionLists()) for(uintmax_t f : { F, uintmax_t(51) }) for(auto &d : { Bytes(), B("x"), rep('y', 150) })
		add(v, fmt("data flow%ju with option list of %zu bytes", f, o.size()), chunk(CHUNK_USERDATA, cat({ { 0x80 }, vlu(f), vlu(2), vlu(1), o, d })));
	for(auto &o : optionLists()) add(v, "data and next data with options", cat({ RawPeer::dataChunk(F, 2, 1, 0, B("x")), chunk(CHUNK_NEXT_USERDATA, cat({ { 0x80 }, o, B("k") })) }));
	for(uint8_t fl : { 0, 0x10, 0x20, 0x30, 1, 2 }) for(auto sn : { uintmax_t(2), BIG, BIG - 1 }) add(v, fmt("data at sn%ju and three next", sn), cat({ RawPeer::dataChunk(F, sn, 1, 0, B("x")), chunk(CHUNK_NEXT_USERDATA, cat({ { fl }, B("a") })), chunk(CHUNK_NEXT_USERDATA, cat({ { fl }, B("b") })), chunk(CHUNK_NEXT_USERDATA, { fl }) }));
	add(v, "next data alone", chunk(CHUNK_NEXT_USERDATA, cat({ { 0 }, B("a") })));
	std::vector<Bytes> tails { {} };
	{
		std::vector<Bytes> e { vlu(0), vlu(1), vlu(3), vlu(uintmax_t(1) << 40), vlu(LM), vlu(BIG), badVlu(0), badVlu(1), badVlu(2) };
		for(auto &x : e) { tails.push_back(x); for(auto &y : e) tails.push_back(cat({ x, y })); for(auto &y : e) tails.push_back(cat({ x, vlu(0), vlu(1), y })); }
		tails.push_back(rep(0, 1100)); tails.push_back(rep(1, 1100)); tails.push_back(rep(0x7f, 1100)); tails.push_back(rep(0xff, 1100)); tails.push_back(rep(0x55, 600));
	}
	for(uint8_t t : { CHUNK_ACK_RANGES, CHUNK_ACK_BITMAP }) for(uintmax_t f : { R, uintmax_t(60), LM + 1, BIG }) for(uintmax_t buf : { uintmax_t(0), uintmax_t(1), uintmax_t(64), BIG }) for(auto cum : vals) if(f == R or cum == 1)
		add(v, fmt("ack %02x flow%ju buf%ju cum%ju", t, f, buf, cum), chunk(t, cat({ vlu(f), vlu(buf), vlu(cum) })));
	for(uint8_t t : { CHUNK_ACK_RANGES, CHUNK_ACK_BITMAP }) for(auto cum : { uintmax_t(0), uintmax_t(1), uintmax_t(2), uintmax_t(200), LM, BIG - 1, BIG }) for(auto &tl : tails)
		add(v, fmt("ack %02x cum%ju with %zu more bytes", t, cum, tl.size()), chunk(t, cat({ vlu(R), vlu(64), vlu(cum), tl })));
	for(uint8_t t : { CHUNK_BUFFERPROBE, CHUNK_EXCEPTION }) for(uintmax_t f : { uintmax_t(0), F, R, uintmax_t(50), LM, LM + 1, BIG }) for(int k = 0; k < 5; k++)
		add(v, fmt("probe/exception %02x flow%ju %d", t, f, k), chunk(t, cat({ vlu(f), k == 3 ? vlu(BIG) : k == 4 ? vlu(7) : badVlu(k) })));
	for(size_t n : { 0, 1, 2, 9, 33, 34, 35, 36, 200, 900, 1100 }) for(int c : { 0x00, (int)'M', 0x80, 0xff }) { Bytes x = rep(c, n); for(int t : std::vector<int> { CHUNK_PING, CHUNK_PING_REPLY, CHUNK_ECN_REPORT, CHUNK_FIHELLO, CHUNK_CLOSE + 1, CHUNK_FRAGMENT, CHUNK_IHELLO, CHUNK_RHELLO, CHUNK_REDIRECT, CHUNK_IIKEYING, CHUNK_RIKEYING, CHUNK_RHELLO_COOKIE_CHANGE }) add(v, fmt("%02x of %zu x %02x", t, n, c), chunk(t, x)); if(n) { x[0] = 'M'; add(v, "mobility junk", chunk(CHUNK_PING_REPLY, x)); } }
	for(auto &e : { B("bob"), B("zed"), B(""), rep('b', 600), B("any") }) for(uint8_t fam : { 0x01, 0x02, 0x81, 0x82, 0x00, 0x7f }) for(size_t al : { 0, 3, 6, 17, 18, 19 }) for(size_t tn : { 0, 8, 1000 })
		add(v, fmt("fihello epd%zu family%02x addr%zu tag%zu", e.size(), fam, al, tn), chunk(CHUNK_FIHELLO, cat({ vlu(e.size()), e, { fam }, rep(10, al), rep('t', tn) })));
	for(int t = 0; t < 256; t++) { if(t == CHUNK_CLOSE or t == CHUNK_CLOSE_ACK) continue; add(v, fmt("type %02x empty", t), chunk(t, {})); add(v, fmt("type %02x longer than the packet", t), { uint8_t(t), 0xff, 0xff, 1, 2, 3 }); add(v, fmt("type %02x header cut", t), { uint8_t(t), 0 }); add(v, fmt("type %02x zeros", t), chunk(t, rep(0, 40))); add(v, fmt("type %02x ones", t), chunk(t, rep(0xff, 40))); }
	for(uint8_t t : { CHUNK_CLOSE, CHUNK_CLOSE_ACK }) for(size_t n : { 0, 1, 500 }) add(v, fmt("close %02x", t), chunk(t, rep(9, n)));
	return v;
}
static std::vector<NC> smallAlphabet(uintmax_t F, uintmax_t R)
{
	std::vector<NC> v;
	for(uint8_t fl : { 0x00, 0x10, 0x20, 0x02, 0x01 }) for(auto p : std::vector<std::pair<uintmax_t, uintmax_t>> { { 2, 1 }, { 3, 0 }, { 5, 1 }, { 5, 5 }, { BIG, 1 }, { BIG, BIG }, { BIG, 0 } }) add(v, fmt("data fl%02x sn%ju off%ju", fl, p.first, p.second), RawPeer::dataChunk(F, p.first, p.second, fl, B("zz")));
	add(v, "new flow", RawPeer::dataChunk(50, 1, 1, 0, B("n"), RawPeer::metaOpt("n")));
	add(v, "new flow without metadata", RawPeer::dataChunk(52, 1, 1, 0, B("n")));
	add(v, "new return flow", RawPeer::dataChunk(51, 1, 1, 0, B("n"), cat({ { 2, USERDATA_OPTION_RETURN_ASSOCIATION, uint8_t(R) }, RawPeer::metaOpt("r") })));
	add(v, "fin of unknown", RawPeer::dataChunk(50, 1, 1, 1, B(""), RawPeer::metaOpt("n")));
	for(auto cum : { uintmax_t(0), uintmax_t(1), uintmax_t(3), BIG - 1, BIG }) add(v, fmt("ack cum%ju", cum), chunk(CHUNK_ACK_RANGES, cat({ vlu(R), vlu(64), vlu(cum) })));
	add(v, "ack window 0", chunk(CHUNK_ACK_RANGES, cat({ vlu(R), vlu(0), vlu(1) })));
	add(v, "ack gap", chunk(CHUNK_ACK_RANGES, cat({ vlu(R), vlu(64), vlu(1), vlu(0), vlu(0) })));
	add(v, "ack overflowing ranges", chunk(CHUNK_ACK_RANGES, cat({ vlu(R), vlu(64), vlu(1), vlu(BIG), vlu(BIG), vlu(BIG), vlu(BIG) })));
	add(v, "ack bitmap", chunk(CHUNK_ACK_BITMAP, cat({ vlu(R), vlu(64), vlu(0), rep(0xff, 40) })));
	add(v, "ack bitmap top", chunk(CHUNK_ACK_BITMAP, cat({ vlu(R), vlu(64), vlu(BIG - 3), rep(0xff, 40) })));
	for(auto f : { R, uintmax_t(60) }) add(v, "exception", chunk(CHUNK_EXCEPTION, cat({ vlu(f), vlu(3) })));
	for(auto f : { F, uintmax_t(60) }) add(v, "probe", chunk(CHUNK_BUFFERPROBE, vlu(f)));
	add(v, "ping", chunk(CHUNK_PING, B("abc"))); add(v, "reply", chunk(CHUNK_PING_REPLY, rep('M', 40)));
	add(v, "ecn", chunk(CHUNK_ECN_REPORT, { 1 }));
	add(v, "close", chunk(CHUNK_CLOSE, {})); add(v, "close ack", chunk(CHUNK_CLOSE_ACK, {}));
	add(v, "junk", chunk(0x66, rep(1, 30)));
	return v;
}

enum State { FRESH, ACTIVE, REJECTED, HELD, NEARCLOSE, LINGER, NSTATES };
static const char *stateName[] = { "fresh", "active", "rejected", "held", "near-close", "far-close" };
struct Victim {
	Sim s; App app; Host &a, &b, &c; Tx *good = nullptr; std::unique_ptr<RawPeer> peer; Tx *ret = nullptr; uintmax_t F = 2, R = 2; size_t mem0 = 0, rx = 0;
	Victim(Ctx &ctx, int state) : s(ctx), app(s), a(s.add("alice", "10.0.0.1:1935")), b(s.add("bob", "10.0.0.2:1935")), c(s.add("carol", "10.0.0.3:1935"))
	{
		app.acceptAll(b); app.acceptAll(c);
		peer.reset(new RawPeer(s, app, a, b));
		good = &app.open(c, "bob", "good", &b.address); app.write(*good, 100);
		s.runUntil([&] { return good->flow->getBufferedSize() == 0 and good->flow->isWritable(); }, s.now + 3); peer->clear();
		if(state != FRESH)
		{
			peer->raw(RawPeer::dataChunk(F + 8, 1, 1, 0, B("hello"), RawPeer::metaOpt("F"))); F += 8;
			Rx *r = app.find("F", b.idx); s.ctx.require(r, "the attacker's flow was not accepted");
			if(r) { ret = &app.wrap(b.idx, r->flow->openReturnFlow(B("back"))); app.write(*ret, 40); app.write(*ret, 3000); s.drain(); for(auto &q : peer->out) for(auto &u : userData(q)) R = u.flow; }
			if(state == REJECTED) r->flow->close();
			if(state == HELD) { r->flow->setReceiveOrder(RO_HOLD); r->flow->setBufferCapacity(4096); }
			peer->raw(RawPeer::dataChunk(F, 3, 2, USERDATA_FRA_BEGIN, B("part")));
			if(state == NEARCLOSE) { auto f = r->flow; f->closeSession(); }
			if(state == LINGER) { peer->raw(chunk(CHUNK_CLOSE, {})); }
			s.drain();
		}
		tailGuard().on = true;
		mem0 = __sanitizer_get_current_allocated_bytes();
	}
	void raw(const Bytes &x, uint8_t flags = HEADER_MODE_INITIATOR) { if(not rx) mem0 = __sanitizer_get_current_allocated_bytes(); rx += x.size() + 60; peer->raw(x, flags); }
	// others are not harmed, memory is bounded, timers survive
	void after(const std::string &what, double wait)
	{
		s.ctx.bail();
		size_t mem = __sanitizer_get_current_allocated_bytes();
		peer->clear();
		s.ctx.require(mem < mem0 + 200000 + 400 * rx, "%zu bytes allocated by %zu received bytes: %s", mem - mem0, rx, what.c_str());
		app.write(*good, 500); bool ok = s.runUntil([&] { return good->flow->getBufferedSize() == 0; }, s.now + 3); s.run(s.now + 0.5);
		s.ctx.bail();
		s.ctx.require(ok and good->exceptions == 0, "another session was harmed by: %s", what.c_str());
		checkExact(s.ctx, app, *good, "good", b.idx);
		s.run(s.now + wait); s.ctx.bail();
		if(wait > 5) { app.write(*good, 5); s.run(s.now + 3); s.ctx.require(good->exceptions == 0 and good->flow->getBufferedSize() == 0, "another session was harmed later by: %s", what.c_str()); s.ctx.bail(); }
	}
	~Victim() { tailGuard().on = false; tailGuard().clear(); }
};

static void single(Ctx &ctx, int state, bool late)
{
	Victim v(ctx, state);
	static std::map<std::pair<uintmax_t, uintmax_t>, std::vector<NC>> cache; auto &al = cache[{ v.F, v.R }]; if(al.empty()) al = bigAlphabet(v.F, v.R);
	int i = ctx.choose((int)(al.size() + 249) / 250, 0, "block") * 250 + ctx.choose(250, 0, "chunk");
	if(i >= (int)al.size()) { ctx.count("past the end"); return; }
	uint8_t fl = HEADER_MODE_INITIATOR; v.raw(al[i].b, fl); ctx.bail();
	v.raw(al[i].b, fl); ctx.count("hostile chunks", 2);
	v.after(al[i].name, late ? 150 : 0.7);
	ctx.summary = al[i].name;
}
static void sequence(Ctx &ctx, int state, int depth, bool onePacket, double wait)
{
	Victim v(ctx, state);
	static std::map<std::pair<uintmax_t, uintmax_t>, std::vector<NC>> cache; auto &al = cache[{ v.F, v.R }]; if(al.empty()) al = smallAlphabet(v.F, v.R); std::string what; Bytes all;
	for(int i = 0; i < depth; i++)
	{
		auto &x = al[ctx.choose((int)al.size(), 0, "chunk")]; what += x.name + "; ";
		if(onePacket) all.insert(all.end(), x.b.begin(), x.b.end()); else { v.raw(x.b); ctx.bail(); if(wait > 0) { v.s.run(v.s.now + wait); v.peer->clear(); } }
	}
	if(onePacket) v.raw(all);
	ctx.count("hostile chunk sequences");
	v.after(what, 0.7);
	ctx.summary = what;
}

// Every packet of a genuine exchange, altered in every position or cut at every position, under the genuine key.
static void mutated(Ctx &ctx, int which, int blocks)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"), &c = s.add("carol", "10.0.0.3:1935");
	app.acceptAll(a); app.acceptAll(b); app.acceptAll(c);
	Tx &good = app.open(c, "bob", "good", &b.address); app.write(good, 100);
	Tx &good2 = app.open(c, "alice", "good2", &a.address); app.write(good2, 100);
	s.run(s.now + 0.5);
	struct On { On() { tailGuard().on = true; } ~On() { tailGuard().on = false; tailGuard().clear(); } } on;
	int n = 0, block = ctx.choose(blocks, 0, "positions"), how = ctx.choose(15, 0, "alteration"); std::string what = "none"; bool done = false;
	s.policy = [&] (Pkt &p, std::vector<double> &d) {
		if(p.from == c.idx or p.dst == c.address or done) return;
		if(n++ != which) return;
		done = true;
		Bytes key = defaultKey(); Bytes clear(p.data.begin() + 4 + TAGLEN, p.data.end()), tag(p.data.begin() + 4, p.data.begin() + 4 + TAGLEN);
		bool known = H(TAGLEN, { key, clear }) == tag; for(auto h : { &a, &b }) for(auto &k : h->crypto->keys) if(not known and H(TAGLEN, { k->m_tx, clear }) == tag) { key = k->m_tx; known = true; }
		if(not known) { ctx.count("key unknown"); return; }
		auto q = parsePacket(p.data);
		what = Sim::describe(p);
		for(size_t i = block; i < clear.size(); i += blocks)
		{
			if(i > 70 and i + 4 < clear.size() and clear.size() > 400) continue;
			Bytes x = clear;
			switch(how) { case 0: x[i] ^= 1; break; case 1: x[i] ^= 0x80; break; case 2: x[i] = 0; break; case 3: x[i] = 0xff; break; case 4: x.resize(i + 1); break; case 5: x.insert(x.begin() + i, uint8_t(0x81)); break; case 6: x.erase(x.begin() + i); break; case 7: x[i]++; break; default: { static const uintmax_t lens[] = { BIG, BIG - 1, BIG - 5, BIG - 30, LM, uintmax_t(1) << 31, UINT32_MAX }; Bytes l = vlu(lens[how - 8]); x.erase(x.begin() + i); x.insert(x.begin() + i, l.begin(), l.end()); } }
			if(x.empty()) continue;
			s.inject(makePacket(q.sid, key, x), p.src, p.dst, 0.0001); ctx.count("altered packets");
		}
	};
	Tx &t = app.open(a, "bob", "f", &b.address); app.write(t, 1800); app.write(t, 30); app.write(t, 100);
	app.onNew = [&] (Rx &r) { if(r.host == b.idx and S(r.meta) == "f") { auto f = r.flow->openReturnFlow(B("ret")); if(f) { Tx &u = app.wrap(b.idx, f); app.write(u, 1500); app.write(u, 3); } } };
	t.flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(a.idx, f); };
	s.run(s.now + 1.2); app.close(t); s.run(s.now + 8); ctx.bail();
	app.write(good, 700); app.write(good2, 700); s.run(s.now + 1.5); ctx.bail();
	checkExact(ctx, app, good, "good", b.idx); checkExact(ctx, app, good2, "good2", a.idx);
	ctx.require(good.exceptions + good2.exceptions == 0, "another session was harmed by alterations of: %s", what.c_str());
	s.run(s.now + 130); ctx.bail();
	ctx.summary = what;
}

// A chunk that cannot be parsed changes nothing: the same packet without it gives the same answers.
static void ignored(Ctx &ctx, int state)
{
	struct Bad { std::string n; Bytes b; };
	std::vector<Bad> bad; uintmax_t F = 10, R = 2;
	std::string out[2]; int pick = -1; std::string name;
	for(int run = 0; run < 2; run++)
	{
		Victim v(ctx, state);
		if(run == 0)
		{
			F = v.F; R = v.R;
			auto cut = [&] (const char *n, uint8_t t, const Bytes &payload, size_t upTo) { for(size_t i = 0; i < upTo; i++) bad.push_back({ fmt("%s cut to %zu bytes", n, i), chunk(t, Bytes(payload.begin(), payload.begin() + i)) }); };
			Bytes h = cat({ { 0x00 }, vlu(F), vlu(300), vlu(299) }); cut("data", CHUNK_USERDATA, h, h.size());
			Bytes o = cat({ { 0x80 }, vlu(55), vlu(1), vlu(1), RawPeer::metaOpt("abc") }); cut("data with options", CHUNK_USERDATA, o, o.size());
			Bytes o2 = cat({ { 0x80 }, vlu(55), vlu(1), vlu(1), { 2, USERDATA_OPTION_RETURN_ASSOCIATION, 0x82 }, RawPeer::metaOpt("abc") }); bad.push_back({ "association not terminated", chunk(CHUNK_USERDATA, o2) });
			bad.push_back({ "forward sequence number below zero", RawPeer::dataChunk(F, 4, 5, 0, B("x")) });
			Bytes k = cat({ vlu(R), vlu(6400), vlu(1) }); cut("ack", CHUNK_ACK_RANGES, k, k.size()); cut("bitmap ack", CHUNK_ACK_BITMAP, k, k.size());
			Bytes e = cat({ vlu(R), vlu(300) }); cut("exception", CHUNK_EXCEPTION, e, e.size());
			cut("probe", CHUNK_BUFFERPROBE, vlu(F + 300), vlu(F + 300).size());
			Bytes fi = cat({ vlu(3), B("bob"), { 0x01, 10, 1, 2, 3, 0x07, 0x8f } }); cut("fihello", CHUNK_FIHELLO, fi, fi.size());
			bad.push_back({ "next data alone", chunk(CHUNK_NEXT_USERDATA, cat({ { 0 }, B("zz") })) });
			for(uint8_t t : { 0x02, 0x03, 0x20, 0x33, 0x42, 0x55, 0x61, 0x7e, 0x80, 0xee, 0xff, 0x00, 0x30, 0x38, 0x70, 0x71, 0x78, 0x79 }) bad.push_back({ fmt("unknown chunk %02x", t), chunk(t, B("\x03" "bobtagtagtag")) });
			if(pick < 0) pick = ctx.choose((int)bad.size(), 0, "chunk");
			name = bad[pick].n;
		}
		v.s.onSend.push_back([&, run] (const Pkt &p) { if(p.from == v.b.idx) out[run] += fmt("%.4f %s\n", v.s.now, Sim::describe(p).c_str()); });
		Bytes good = RawPeer::dataChunk(60, 1, 1, 0, B("later"), RawPeer::metaOpt("later")), next = chunk(CHUNK_NEXT_USERDATA, cat({ { 0 }, B("following") })), none, &x = run == 0 ? bad[pick].b : none;
		v.raw(cat({ x, good })); ctx.bail();
		v.raw(x); ctx.bail();
		v.raw(cat({ x, next })); ctx.bail();
		bool alone = name == "next data alone"; // not out of place after user data
		if(not alone) v.raw(cat({ RawPeer::dataChunk(60, 2, 1, 0, B("and")), x, next }));
		ctx.bail();
		if(state == FRESH or state == ACTIVE or state == HELD or state == REJECTED) { Rx *r = v.app.find("later", v.b.idx); ctx.require(r and r->msgs.size() == (alone ? 1u : 3u), "a chunk that follows %s was not processed", name.c_str()); }
		v.s.run(v.s.now + 6); ctx.bail();
		for(auto &r : v.app.rx) out[run] += fmt("%s %zu %d\n", S(r->meta).c_str(), r->msgs.size(), r->completes);
		if(v.ret) out[run] += fmt("%d %zu\n", v.ret->exceptions, v.ret->flow->getBufferedSize());
	}
	auto strip = [] (std::string x) { std::string r; size_t i = 0; while(i < x.size()) { size_t e = x.find('\n', i); std::string l = x.substr(i, e - i); size_t h = l.find('#'); if(h != std::string::npos) { size_t sp = l.find(' ', h); l.erase(h, sp - h); } r += l + '\n'; i = e + 1; } return r; };
	ctx.require(strip(out[0]) == strip(out[1]), "%s was not ignored: with it\n%swithout\n%s", name.c_str(), out[0].c_str(), out[1].c_str());
	ctx.count("unparseable chunks compared with nothing");
	ctx.summary = name;
}

// Datagrams of every length without any structure.
static void datagrams(Ctx &ctx, int state)
{
	Victim v(ctx, state);
	int pat = ctx.choose(6, 0, "pattern"), block = ctx.choose(16, 0, "lengths");
	std::vector<size_t> lens; for(size_t n = block; n < 1500; n += n < 80 ? 16 : 111) lens.push_back(n); if(block == 15) for(size_t n : { 2000, 8191, 8192, 8193, 8200, 9000, 20000, 65507 }) lens.push_back(n);
	for(auto n : lens) for(auto dst : { &v.b, &v.c })
	{
		Bytes d(n, pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? 0x30 : 0x01);
		if(pat >= 3) for(size_t i = 0; i < n; i++) d[i] = uint8_t(i * (pat == 3 ? 7 : 1));
		if(pat >= 4 and n >= TAGLEN) { Bytes clear = d; clear[0] = HEADER_MODE_STARTUP | (pat == 5 ? HEADER_FLAG_TS | HEADER_FLAG_TSE : 0); d = makePacket(pat == 5 ? v.peer->bobSid : 0, pat == 5 ? v.peer->key : defaultKey(), clear); }
		Pkt p; p.src = v.a.address; p.dst = dst->address; p.data = d; v.s.deliver(p); v.s.drain(); v.rx += n + 60; ctx.count("datagrams");
	}
	v.after(fmt("pattern %d", pat), 3);
}

// The same chunk over and over: what is kept must not grow with what was received.
static void flood(Ctx &ctx, int state)
{
	Victim v(ctx, state);
	auto al = smallAlphabet(v.F, v.R);
	int k = ctx.choose((int)al.size() + 8, 0, "chunk"); Bytes b; std::string name; uint32_t sid = 0; bool startup = false;
	Bytes junk = rep('j', 100);
	if(k < (int)al.size()) { b = al[k].b; name = al[k].name; }
	else
	{
		startup = true; Bytes epd = cat({ { 4, 0x0a }, B("bob") }), tag = cat({ { 16 }, rep('t', 16) });
		switch(k - (int)al.size())
		{
		case 0: name = "IHello"; b = chunk(CHUNK_IHELLO, cat({ epd, rep('t', 16) })); break;
		case 1: name = "IHello for another"; b = chunk(CHUNK_IHELLO, cat({ { 4, 0x0a }, B("zed"), rep('t', 16) })); break;
		case 2: name = "RHello"; b = chunk(CHUNK_RHELLO, cat({ tag, tag, junk })); break;
		case 3: name = "Redirect"; b = chunk(CHUNK_REDIRECT, cat({ tag, { 1, 10, 0, 0, 9, 7, 7 } })); break;
		case 4: name = "IIKeying"; b = chunk(CHUNK_IIKEYING, cat({ { 0, 0, 0, 9 }, { 65 }, rep('c', 65), { 5 }, B("carol"), { 4 }, B("skic"), junk })); break;
		case 5: name = "RIKeying"; b = chunk(CHUNK_RIKEYING, cat({ { 0, 0, 0, 9 }, { 4 }, B("skrc"), junk })); break;
		case 6: name = "undecryptable"; sid = v.peer->bobSid; startup = false; break;
		case 7: name = "unknown session"; sid = 0x7777; startup = false; break;
		}
	}
	auto one = [&] {
		Pkt p; p.src = v.a.address; p.dst = v.b.address;
		if(k < (int)al.size()) { p.data = makePacket(v.peer->bobSid, v.peer->key, cat({ { HEADER_MODE_INITIATOR }, b })); }
		else if(startup) p.data = makePacket(0, defaultKey(), cat({ { HEADER_MODE_STARTUP }, b }));
		else p.data = makePacket(sid, B("wrong"), junk);
		v.s.deliver(p); v.s.drain(); v.s.net.clear(); v.peer->out.clear();
	};
	for(int i = 0; i < 60; i++) one();
	ctx.bail();
	size_t before = __sanitizer_get_current_allocated_bytes();
	for(int i = 0; i < 600; i++) { one(); if(i % 100 == 99) { v.s.run(v.s.now + 0.1); v.peer->out.clear(); } }
	size_t after = __sanitizer_get_current_allocated_bytes();
	ctx.require(after < before + 60000, "600 repetitions of %s made %zu bytes be kept", name.c_str(), after - before);
	ctx.count("floods"); ctx.summary = name;
	v.rx += 660 * 200; v.after(name + " flood", 0.7);
}
// Packets for a session still waiting for its key: only a bounded number is kept, and the session opens all the same.
static void early(Ctx &ctx)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935"); app.acceptAll(a); app.acceptAll(b);
	int count = (int[]) { 1, 17, 18, 19, 40, 400, 3000 }[ctx.choose(7, 0, "packets")]; size_t len = (size_t[]) { 0, 1, 16, 900, 1400, 8192, 9000 }[ctx.choose(7, 0, "length")]; bool src = ctx.choose(2, 0, "from the peer's address");
	std::vector<Pkt> held; bool hold = true; uint32_t sid = 0;
	s.policy = [&] (Pkt &p, std::vector<double> &d) { if(hold and p.from == b.idx and parsePacket(p.data).has(CHUNK_RIKEYING)) { held.push_back(p); sid = parsePacket(p.data).sid; d.clear(); } };
	Tx &t = app.open(a, "bob", "f", &b.address); app.write(t, 700);
	s.runUntil([&] { return not held.empty(); }, s.now + 5); ctx.require(not held.empty(), "no RIKeying"); ctx.bail();
	size_t before = __sanitizer_get_current_allocated_bytes(), peak = 0;
	{ Pkt p; p.src = b.address; if(not src) p.src.setFromPresentation("10.0.0.66:66", true); p.dst = a.address; p.data = makePacket(sid, B("other"), Bytes(len, 0x10)); for(int i = 0; i < count; i++) { s.deliver(p); peak = std::max(peak, __sanitizer_get_current_allocated_bytes()); } s.drain(); }
	ctx.require(peak < before + 120000 + 30 * len, "%d packets of %zu bytes before the key was known made %zu bytes be kept", count, len, peak - before);
	hold = false; s.deliver(held[0]); s.drain(); s.run(s.now + 4); ctx.bail();
	checkExact(ctx, app, t, "f", b.idx);
	ctx.count("early packet floods");
}

// Session packets with every flags byte, with and without room for the timestamps it announces.
static void headers(Ctx &ctx, int state)
{
	Victim v(ctx, state);
	int f = ctx.choose(128, 0, "flags") + 128 * ctx.choose(2, 0, "top flag"), len = ctx.choose(6, 0, "length");
	Bytes good = RawPeer::dataChunk(60, 1, 1, 0, B("later"), RawPeer::metaOpt("later"));
	Bytes body = len < 5 ? Bytes(len, 0x10) : cat({ Bytes(((f & HEADER_FLAG_TS) ? 2 : 0) + ((f & HEADER_FLAG_TSE) ? 2 : 0), 0xee), good });
	v.raw(body, f); ctx.count("packet headers"); ctx.bail();
	// bob is the responder: only initiator packets are his peer's
	if(len == 5 and state == ACTIVE) ctx.require((v.app.find("later", v.b.idx) != nullptr) == ((f & 3) == HEADER_MODE_INITIATOR), "a packet with flags %02x was %s", f, v.app.find("later", v.b.idx) ? "processed" : "ignored");
	v.after(fmt("flags %02x", f), 0.7);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C14";
	meta.assumptions = { "transparent crypto adapter: hostile packets carry the genuine key, so every parser is reached; the real crypto adapters' own parsing is covered by C17", "single chunks and sequences from stated alphabets" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		auto addS = [&] (const std::string &n, std::function<void(Ctx &)> f) { v.push_back({ n, 0, f }); };
		for(int st = 0; st < NSTATES; st++)
		{
			addS(fmt("single/%s", stateName[st]), [=] (Ctx &c) { single(c, st, false); });
			if(th or st == ACTIVE) addS(fmt("single-late/%s", stateName[st]), [=] (Ctx &c) { single(c, st, true); });
			addS(fmt("pairs/%s", stateName[st]), [=] (Ctx &c) { sequence(c, st, 2, true, 0); });
			addS(fmt("pairs-apart/%s", stateName[st]), [=] (Ctx &c) { sequence(c, st, 2, false, 0.4); });
			if(th) { addS(fmt("triples/%s", stateName[st]), [=] (Ctx &c) { sequence(c, st, 3, true, 0); }); addS(fmt("triples-apart/%s", stateName[st]), [=] (Ctx &c) { sequence(c, st, 3, false, 0.3); }); }
			if(st < NEARCLOSE) addS(fmt("ignored/%s", stateName[st]), [=] (Ctx &c) { ignored(c, st); });
			addS(fmt("datagrams/%s", stateName[st]), [=] (Ctx &c) { datagrams(c, st); });
			addS(fmt("flood/%s", stateName[st]), [=] (Ctx &c) { flood(c, st); });
			addS(fmt("headers/%s", stateName[st]), [=] (Ctx &c) { headers(c, st); });
		}
		addS("early", [=] (Ctx &c) { early(c); });
		for(int w = 0; w < 26; w++) addS(fmt("mutated/%d", w), [=] (Ctx &c) { mutated(c, w, 12); });
		return v;
	});
}
