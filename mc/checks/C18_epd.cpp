// C18: endpoint discriminators select exactly the endpoints they describe; certificates, identity and glare.
#include "toyflash.hpp"
#include "flows.hpp"
#include "seq.hpp"
#include "rtmfp/Hex.hpp"
using namespace sim; using namespace toy; using mc::Inner; using mc::need; using mc::explore;

static Bytes opt(uintmax_t t, const Bytes &val) { Bytes o = sim::vlu(t); o.insert(o.end(), val.begin(), val.end()); Bytes r = sim::vlu(o.size()); r.insert(r.end(), o.begin(), o.end()); return r; }
struct Item { bool marker; uintmax_t type; Bytes value; size_t end; };
// own reader of an option list: false if malformed
static bool items(const Bytes &b, std::vector<Item> &v)
{
	Rd r(b); v.clear();
	while(r.c < r.lim) { uintmax_t l = r.vlu(); if(not r.ok) return false; if(0 == l) { v.push_back({ true, 0, Bytes(), size_t(r.c - b.data()) }); continue; } if(l > size_t(r.lim - r.c)) return false; Bytes o = r.take(l); Rd q(o); uintmax_t t = q.vlu(); if(not q.ok) return false; v.push_back({ false, t, q.rest(), size_t(r.c - b.data()) }); }
	return true;
}
struct Epd { bool ok = false, claim = true, fp = false, anc = false, host = false; Bytes f, a, h; };
static Epd readEpd(const Bytes &b)
{
	Epd e; std::vector<Item> v; e.ok = items(b, v); if(not e.ok) return e;
	bool marker = false;
	for(auto &i : v) { if(i.marker) { marker = true; continue; } bool *has = i.type == 0x0f ? &e.fp : i.type == 0x0a ? &e.anc : i.type == 0 ? &e.host : nullptr; Bytes *val = i.type == 0x0f ? &e.f : i.type == 0x0a ? &e.a : &e.h; if(not has) continue; if(*has and *val != i.value) e.claim = false; *has = true; *val = i.value; if(marker) e.claim = false; }
	e.ok = e.fp or e.anc or e.host; return e;
}
struct Ident { Bytes fp; bool hasHost = false; Bytes host; bool takesAnc = false; };
static bool selected(const Epd &e, const Ident &i, const std::function<bool(const Bytes &)> &anc)
{
	if(not e.ok) return false;
	if(e.fp) return e.f == i.fp;
	if(e.host and not (i.hasHost and i.host == e.h)) return false;
	if(e.anc and not (i.takesAnc and (not anc or anc(e.a)))) return false;
	return true;
}

struct Who { std::string name; bool server, ephemeral; const char *host; };
static const Who whos[] = { { "s0", true, true, nullptr }, { "s1", true, true, "h" }, { "s2", true, true, "hh" }, { "s3", true, false, "" }, { "c0", false, false, nullptr }, { "c1", false, false, "h" }, { "c2", false, true, "H" }, { "s4", true, true, "h" } };
static std::vector<std::unique_ptr<Flash>> &everyone()
{
	static std::vector<std::unique_ptr<Flash>> v; static std::vector<std::shared_ptr<FlashCryptoCert>> certs;
	if(v.empty()) for(auto &w : whos) { v.emplace_back(new Flash(w.name, { 2, 14 })); need(v.back()->init(w.server, w.ephemeral, w.host), "init"); }
	return v;
}
static Ident identOf(int i) { auto &w = whos[i]; Ident d; d.fp = everyone()[i]->getFingerprint(); d.hasHost = w.host; if(w.host) d.host = B(w.host); d.takesAnc = w.server; return d; }

// every answer about one discriminator
static uint64_t askAll(const Bytes &epd)
{
	static std::vector<std::shared_ptr<FlashCryptoCert>> certs; auto &all = everyone(); if(certs.empty()) for(auto &a : all) certs.push_back(a->asCert());
	Epd e = readEpd(epd); std::unique_ptr<uint8_t[]> exact(new uint8_t[epd.size()]); std::copy(epd.begin(), epd.end(), exact.get()); uint64_t yes = 0;
	FlashCryptoAdapter::EPDParseState st; bool p = st.parse(exact.get(), epd.size()); if(e.claim) need(p == e.ok, p ? "a malformed or empty discriminator parses" : "a good discriminator does not parse");
	if(p and e.claim) need(bool(st.fingerprint) == e.fp and bool(st.ancillaryData) == e.anc and bool(st.requiredHostname) == e.host and Bytes(st.fingerprint, st.fingerprint + st.fingerprintLen) == e.f and Bytes(st.ancillaryData, st.ancillaryData + st.ancillaryDataLen) == e.a and Bytes(st.requiredHostname, st.requiredHostname + st.requiredHostnameLen) == e.h, "discriminator fields");
	for(size_t i = 0; i < all.size(); i++)
	{
		Ident d = identOf(i); bool plain = all[i]->isSelectedByEPD(exact.get(), epd.size());
		if(e.claim) need(plain == selected(e, d, nullptr), fmt("endpoint %s is %sselected by %s", whos[i].name.c_str(), plain ? "" : "not ", Hex::encode(epd).c_str())); else if(not e.ok) need(not plain, "a malformed discriminator selects an endpoint");
		yes += plain;
		int calls = 0; bool wrong = false; all[i]->isSelectedByAncillaryData = [&] (const uint8_t *a, size_t n) { calls++; if(Bytes(a, a + n) != e.a) wrong = true; return n == 1 and a[0] == 'x'; };
		bool cb = all[i]->isSelectedByEPD(exact.get(), epd.size()); all[i]->isSelectedByAncillaryData = nullptr;
		if(e.claim) { need(cb == selected(e, d, [] (const Bytes &a) { return a == B("x"); }), fmt("endpoint %s with an ancillary data rule is %sselected by %s", whos[i].name.c_str(), cb ? "" : "not ", Hex::encode(epd).c_str())); need(not wrong and calls <= 1, "the ancillary data rule was asked about something else"); }
		bool c = certs[i]->isSelectedByEPD(exact.get(), epd.size()); if(e.claim) need(c == selected(e, d, nullptr), fmt("the certificate of %s is %sselected by %s", whos[i].name.c_str(), c ? "" : "not ", Hex::encode(epd).c_str())); else if(not e.ok) need(not c, "a malformed discriminator selects a certificate");
	}
	return yes;
}
static void lists(Inner &in, int n)
{
	static std::vector<Bytes> pool; if(pool.empty()) { Bytes own = everyone()[1]->getFingerprint(), bad = own, shrt(own.begin(), own.end() - 1), lng = own; bad[31] ^= 1; lng.push_back(0); Bytes bad0 = own; bad0[0] ^= 0x80; pool = { opt(0x0f, own), opt(0x0f, everyone()[4]->getFingerprint()), opt(0x0f, bad), opt(0x0f, bad0), opt(0x0f, shrt), opt(0x0f, lng), opt(0x0f, {}), opt(0, B("h")), opt(0, B("hh")), opt(0, B("H")), opt(0, {}), opt(0x0a, B("x")), opt(0x0a, B("y")), opt(0x0a, {}), opt(0x77, B("h")), { 0 }, { 3, 0 }, { 0x80 }, { 2, 0x80, 0x80 } }; }
	Bytes b; for(int i = 0; i < n; i++) { int k = in(pool.size() + 1); if(k == (int)pool.size()) break; b.insert(b.end(), pool[k].begin(), pool[k].end()); }
	in.log("discriminator %s", Hex::encode(b).c_str()); in.ctx.count("selections", askAll(b));
}
static void bytesOf(Inner &in, int len) { static const uint8_t a[] = { 0, 1, 2, 3, 0x0a, 0x0f, 'h', 0x80, 0xff, 4 }; Bytes b; for(int i = 0; i < len; i++) b.push_back(a[in(10)]); askAll(b); }
static void mutations(Inner &in)
{
	Bytes b = opt(0x0f, everyone()[1]->getFingerprint()); int k = in(3); if(k) { Bytes h = opt(0, B("h")), x = opt(0x0a, B("x")); b = k == 1 ? h : Bytes(); b.insert(b.end(), x.begin(), x.end()); b.insert(b.end(), h.begin(), h.end()); }
	for(size_t i = 0; i <= b.size(); i++) { askAll(Bytes(b.begin(), b.begin() + i)); for(int v = 0; i < b.size() and v < 256; v++) { Bytes c = b; c[i] = v; askAll(c); in.ctx.count("mutations"); } }
}
static void make(Inner &in)
{
	static const char *hexes[] = { nullptr, "", "0f", "0F10", "0", "0g", "xx", "00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff", "0f1" }, *strs[] = { nullptr, "", "x", "rtmfp://h/app", "h" };
	const char *hex = hexes[in(9)], *anc = strs[in(5)], *host = strs[in(5)]; Bytes raw; bool ok = hex or anc or host; if(hex) { std::string h = hex; if(h.size() % 2 or h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) ok = false; else for(size_t i = 0; i < h.size(); i += 2) raw.push_back(std::stoi(h.substr(i, 2), nullptr, 16)); }
	Bytes dst, dst2 = B("p"); bool got = FlashCryptoAdapter::makeEPD(hex, anc, host, dst); bool odd = hex and strlen(hex) % 2; if(odd) return; // what an odd number of digits means is not settled
	need(got == ok, ok ? "makeEPD failed" : "makeEPD accepted nothing or bad hex"); Bytes one = FlashCryptoAdapter::makeEPD(hex, anc, host); if(not ok) { need(one.empty(), "makeEPD answered something on error"); return; }
	need(one == dst and FlashCryptoAdapter::makeEPD(hex, anc, host, dst2) and dst2.size() == dst.size() + 1 and dst2[0] == 'p', "makeEPD appends"); Epd e = readEpd(dst); need(e.ok and e.fp == bool(hex) and e.anc == bool(anc) and e.host == bool(host) and e.f == raw and e.a == (anc ? B(anc) : Bytes()) and e.h == (host ? B(host) : Bytes()), "makeEPD made another discriminator"); askAll(dst);
}

// certificates
static std::shared_ptr<FlashCryptoCert> decode(const Bytes &c) { std::unique_ptr<uint8_t[]> x(new uint8_t[c.size()]); std::copy(c.begin(), c.end(), x.get()); return everyone()[0]->decodeFlashCertificate(x.get(), c.size()); }
static void certCheck(const Bytes &c)
{
	auto cert = decode(c); std::vector<Item> v; bool ok = items(c, v); size_t canon = c.size(), canonM = c.size(); bool stat = false, eph = false, marker = false, anc = false, badGroup = false; int hosts = 0; Bytes host; std::set<int> gs; std::map<int, Bytes> keys; std::map<int, int> nkeys; size_t prev = 0;
	if(ok) for(auto &i : v)
	{
		if(i.marker) { if(not marker) { canon = prev; canonM = i.end; } marker = true; }
		prev = i.end; if(marker) continue;
		if(i.type == 0) { hosts++; host = i.value; } else if(i.type == 0x0a) anc = true;
		else if(i.type == 0x15 or i.type == 0x1d) { (i.type == 0x15 ? eph : stat) = true; Rd r(i.value); uintmax_t g = r.vlu(); if(not r.ok or g > 0x7fffffff) badGroup = true; else { gs.insert((int)g); if(i.type == 0x1d) { keys[(int)g] = r.rest(); nkeys[(int)g]++; } } }
	}
	ok = ok and stat != eph; need(bool(cert) == ok, cert ? "a bad certificate decodes" : "a good certificate does not decode"); if(not cert) return;
	need(cert->encode() == c and cert->isStatic() == stat and cert->doesAcceptAncillaryData() == anc, "certificate fields");
	if(not badGroup) for(int g : { 0, 2, 14, 16, 300 }) { need(cert->supportsDHGroup(g) == (gs.count(g) > 0), fmt("group %d support", g)); const uint8_t *k = nullptr; size_t n = 0; bool got = cert->getPublicKey(g, &k, &n); need(got == (stat and gs.count(g)), "public key present"); if(got and nkeys[g] == 1) need(Bytes(k, k + n) == keys[g], "public key value"); }
	Bytes f1(32), f2(32), fp = cert->getFingerprint(); everyone()[0]->sha256(f1.data(), c.data(), canon); everyone()[0]->sha256(f2.data(), c.data(), canonM); need(fp == f1 or fp == f2, "fingerprint is not that of the canonical part");
	Bytes epd = cert->getCanonicalEPD(); Epd e = readEpd(epd); need(e.ok and e.fp and e.f == fp and cert->isSelectedByEPD(epd.data(), epd.size()), "canonical discriminator does not select its certificate");
	for(size_t i = 0; i < everyone().size(); i++) need(not everyone()[i]->isSelectedByEPD(epd.data(), epd.size()), "canonical discriminator selects another endpoint");
	if(hosts <= 1) for(auto h : { "h", "", "x" }) { Bytes b = opt(0, B(h)); need(cert->isSelectedByEPD(b.data(), b.size()) == (hosts and host == B(h)), "selection of a certificate by hostname"); }
	Bytes a = opt(0x0a, B("q")); need(cert->isSelectedByEPD(a.data(), a.size()) == anc, "selection of a certificate by ancillary data");
	int told = 0; cert->isAuthentic([&] { told++; }); need(told <= 1, "authenticity told twice");
}
static const std::vector<Bytes> &certParts() { static std::vector<Bytes> p { opt(0, B("h")), opt(0, {}), opt(0x0a, {}), opt(0x0e, B("random")), opt(0x15, { 2 }), opt(0x15, { 14 }), opt(0x15, {}), opt(0x15, { 0x82, 0x2c }), opt(0x1d, { 2, 7, 7 }), opt(0x1d, { 14, 9 }), opt(0x1d, { 2 }), opt(0x1d, {}), opt(0x66, B("u")), { 0 }, { 4, 1 }, { 0x80 }, opt(0x1d, { 0x90, 0x80, 0x80, 0x80, 0x02 }) }; return p; }
static void certs(Inner &in, int n) { Bytes b; for(int i = 0; i < n; i++) { int k = in(certParts().size() + 1); if(k == (int)certParts().size()) break; b.insert(b.end(), certParts()[k].begin(), certParts()[k].end()); } in.log("certificate %s", Hex::encode(b).c_str()); certCheck(b); }
static void certBytes(Inner &in) { int w = in(4); Bytes b = everyone()[w]->cert(); for(size_t i = 0; i <= b.size(); i++) { if(i < b.size()) certCheck(Bytes(b.begin(), b.begin() + i)); for(int v = 0; i < b.size() and v < 256; v++) if(v != b[i]) { Bytes c = b; c[i] = v; certCheck(c); in.ctx.count("mutations"); } } }
// pairs of certificates: same identity only if the same encoding; one canonical discriminator, one canonical part
static void pairs(Inner &in)
{
	static std::vector<Bytes> v; if(v.empty()) { auto &p = certParts(); for(int a : { 0, 1, 2, 3, 12, 13 }) for(int g : { 4, 5, 8, 9, 10 }) for(int t : { 13, 3, 12 }) { Bytes b; for(int k : { a, g, t, 12 }) b.insert(b.end(), p[k].begin(), p[k].end()); if(decode(b)) v.push_back(b); b.push_back(0); if(decode(b)) v.push_back(b); } for(auto &a : everyone()) v.push_back(a->cert()); }
	size_t i = in(v.size()); auto x = decode(v[i]); std::vector<Item> ix, iy; need(bool(x), "decode");
	for(size_t j = 0; j < v.size(); j++)
	{
		auto y = decode(v[j]); need(x->doesCertOverrideSession(y) == (v[i] == v[j]), "two certificates that differ replace one another's sessions, or equal ones do not"); Bytes e = x->getCanonicalEPD();
		auto canon = [] (const Bytes &b) { std::vector<Item> q; items(b, q); size_t n = 0; for(auto &k : q) { if(k.marker) break; n = k.end; } return Bytes(b.begin(), b.begin() + n); };
		bool sel = y->isSelectedByEPD(e.data(), e.size()); if(canon(v[i]) != canon(v[j])) need(not sel and x->getFingerprint() != y->getFingerprint(), "a canonical discriminator selects two identities"); if(i == j) need(sel, "own");
		in.ctx.count("pairs");
	}
}
// glare: of two endpoints with different certificates exactly one wins
struct Chosen : Flash { Chosen(const Bytes &r) : Flash("g", { 2 }), r(r) {} Bytes r; void pseudoRandomBytes(uint8_t *dst, size_t n) override { for(size_t i = 0; i < n; i++) dst[i] = i < r.size() ? r[i] : 0; } };
static void glare(Inner &in)
{
	static std::vector<std::unique_ptr<Flash>> v;
	if(v.empty()) { for(int at : { 0, 1, 31, 63 }) for(int val : { 0, 1, 0x7f, 0x80, 0xfe, 0xff }) for(int other : { 0, 0xff }) { Bytes r(64, 0x40); r[at] = val; r[32] = other; v.emplace_back(new Chosen(r)); v.back()->init(false, true, nullptr); } for(auto &w : whos) { v.emplace_back(new Flash(w.name, { 2, 14 })); v.back()->init(w.server, w.ephemeral, w.host); } for(const char *h : { "a", "ab", "abc", "b" }) { v.emplace_back(new Flash(h)); v.back()->init(false, h); } }
	size_t i = in(v.size());
	for(size_t j = 0; j < v.size(); j++) { if(v[i]->cert() == v[j]->cert()) continue; bool a = v[i]->checkNearWinsGlare(v[j]->asCert()), b = v[j]->checkNearWinsGlare(v[i]->asCert()); need(a != b, fmt("glare between two endpoints: %s", a ? "both win" : "neither wins")); in.ctx.count("pairs"); }
}

// --- whole stacks: a flow reaches an endpoint its discriminator selects, or none
struct Liar : Flash { using Flash::Flash; bool isSelectedByEPD(const uint8_t *, size_t) override { return true; } };
static void stacks(Ctx &ctx, bool liars)
{
	static const char *names[] = { "n0", "n1", "n2" }; Sim s(ctx); App *appp; std::vector<std::unique_ptr<Flash>> f; Flash fa("alice"); fa.init(false, true, nullptr);
	std::vector<Ident> ids; std::vector<Host *> h; App app(s); appp = &app; (void)appp;
	Host &a = s.add("alice", "10.0.0.1:1", "1", false); a.altCrypto = &fa; a.start(); app.acceptAll(a);
	static const Who cfgs[] = { { "n0", true, true, "h" }, { "n1", true, true, "hh" }, { "n2", false, true, "h" } };
	for(int i = 0; i < 3; i++) { auto &c = cfgs[i]; f.emplace_back(liars ? (Flash *)new Liar(names[i]) : new Flash(names[i])); f.back()->init(c.server, c.ephemeral, c.host); Ident d; d.fp = f.back()->getFingerprint(); d.hasHost = true; d.host = B(c.host); d.takesAnc = c.server; ids.push_back(d); Host &n = s.add(c.name, fmt("10.0.0.%d:%d", i + 2, i + 2), "1", false); n.altCrypto = f.back().get(); n.start(); app.acceptAll(n); h.push_back(&n); }
	std::vector<Bytes> parts { opt(0x0f, ids[0].fp), opt(0x0f, ids[2].fp), opt(0, B("h")), opt(0, B("hh")), opt(0x0a, B("x")), opt(0x0f, Bytes(32, 1)), opt(0, B("none")), { 0x80 }, opt(0x44, {}) };
	int x = ctx.choose(parts.size(), 0, "option"), y = ctx.choose(parts.size() + 1, 0, "option"), order = ctx.choose(6, 0, "order"), both = ctx.choose(2, 0, "glare");
	Bytes epd = parts[x]; if(y < (int)parts.size()) epd.insert(epd.end(), parts[y].begin(), parts[y].end()); Epd e = readEpd(epd); if(not e.claim) return;
	static const int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
	bool anySel = false; for(auto &d : ids) anySel |= selected(e, d, nullptr);
	Tx &t = app.open(a, S(epd), "f"); if(not t.flow) { ctx.require(not e.ok, "a good discriminator cannot be opened"); return; }
	int k = 0; for(int i : perm[order]) t.flow->addCandidateAddress(h[i]->address, 0.01 * k++); app.write(t, 100);
	std::vector<Tx *> back; if(both) for(int i = 0; i < 3; i++) if(selected(e, ids[i], nullptr)) { back.push_back(&app.open(*h[i], S(fa.getCanonicalEPD()), fmt("b%d", i), &a.address)); app.write(*back.back(), 50); }
	s.run(s.now + 6); ctx.bail();
	int reached = 0; for(auto &r : app.rx) if(S(r->meta) == "f") { reached++; int who = r->host - h[0]->idx; ctx.require(who >= 0 and who < 3 and selected(e, ids[who], nullptr), "a flow reached an endpoint its discriminator does not select"); ctx.require(r->msgs.size() == 1 and r->msgs[0].data == t.msgs[0], "data"); ctx.require(t.flow->getFarCanonicalEPD() == f[who]->getCanonicalEPD(), "far identity"); }
	ctx.require(reached == (anySel ? 1 : 0), "a flow %s", reached ? "reached someone nobody selected" : "did not reach the endpoint its discriminator selects");
	// glare: one session with the endpoint both ends chose
	for(auto b : back) { Rx *r = app.find(S(B(fmt("b%d", int(b->host - h[0]->idx)))), a.idx); ctx.require(r and r->msgs.size() == 1, "a flow of the responder did not arrive"); if(t.flow->getFarCanonicalEPD() == f[b->host - h[0]->idx]->getCanonicalEPD()) ctx.require(r->flow->getNearNonce() == t.flow->getNearNonce() and r->flow->getFarNonce() == t.flow->getFarNonce(), "two sessions between the same two endpoints after glare"); }
	ctx.count(reached ? "reached" : "not reached"); ctx.summary = Hex::encode(epd);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C18"; meta.hangCpuSeconds = 120;
	meta.assumptions = { "a stand-in hash for SHA-256 (C17 checks the real one)", "no claim on conflicting duplicate options, or on options behind a marker in a discriminator" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		auto add = [&] (const std::string &name, size_t split, std::function<void(Inner &)> f) { v.push_back({ name, 0, [=] (Ctx &c) { explore(c, split, f); } }); };
		add("epd/lists", 2, [=] (Inner &in) { lists(in, th ? 4 : 3); });
		for(int l = 0; l <= (th ? 6 : 5); l++) add(fmt("epd/bytes/%d", l), std::min(l, 2), [=] (Inner &in) { bytesOf(in, l); });
		add("epd/mutations", 1, mutations); add("epd/make", 1, make);
		add("cert/lists", 2, [=] (Inner &in) { certs(in, th ? 6 : 5); }); add("cert/bytes", 1, certBytes); add("cert/pairs", 1, pairs); add("glare", 1, glare);
		v.push_back({ "stacks/honest", 0, [] (Ctx &c) { stacks(c, false); } }); v.push_back({ "stacks/liars", 0, [] (Ctx &c) { stacks(c, true); } });
		return v;
	});
}
