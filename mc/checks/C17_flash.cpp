// C17: Flash-profile session packets are authentic, fresh and bound to their session.
// The real FlashCryptoAdapter/FlashCryptoKey/FlashCryptoCert run over small deterministic primitives (toyflash.hpp);
// the oracle is an independent reference of the profile's negotiation, key schedule and packet format.
#include "toyflash.hpp"
#include "flows.hpp"
#include "seq.hpp"
#include "rtmfp/FlashCryptoAdapter_OpenSSL.hpp"
#include "rtmfp/Checksums.hpp"
#include "rtmfp/Hex.hpp"
using namespace sim; using namespace toy; using mc::Inner; using mc::need; using mc::explore;

static Bytes hm(const Bytes &k, const Bytes &m) { Hmac h; h.init(k.data(), k.size()); Bytes r(32); h.compute(r.data(), m.data(), m.size()); return r; }
static Bytes pattern(size_t n, int seed) { Bytes b; for(size_t i = 0; i < n; i++) b.push_back(uint8_t(i * 7 + seed * 31 + (i >> 8))); return b; }

// --- one end of a session
struct Cfg { bool isStatic = false, hs = false, hr = false, ss = false, sr = false; size_t hl = 16; std::vector<int> groups = { 2 }; };
struct End {
	Flash ad; Cfg cfg; std::shared_ptr<SessionCryptoKey> key; std::shared_ptr<FlashCryptoCert> cert;
	End(const std::string &name, const Cfg &c) : ad(name, c.groups), cfg(c)
	{
		need(ad.init(false, not c.isStatic, nullptr), "adapter init");
		ad.setHMACSendAlways(c.hs); ad.setHMACRecvRequired(c.hr); ad.setSSeqSendAlways(c.ss); ad.setSSeqRecvRequired(c.sr); ad.setHMACLength(c.hl);
		need(ad.getHMACSendAlways() == c.hs and ad.getHMACRecvRequired() == c.hr and ad.getSSeqSendAlways() == c.ss and ad.getSSeqRecvRequired() == c.sr and ad.getHMACLength() == c.hl and ad.isStatic() == c.isStatic, "settings read back");
		cert = ad.asCert(); need(cert and cert->isStatic() == c.isStatic, "own certificate does not decode");
		fresh();
	}
	void fresh() { key = ad.getKeyForNewSession(); need((bool)key, "no key for new session"); }
};
static int commonGroup(const Cfg &a, const Cfg &b) { for(int g : a.groups) for(int h : b.groups) if(g == h) return g; return -1; }

// encrypt with exactly-sized buffers
static Bytes seal(SessionCryptoKey &k, const Bytes &pt)
{
	size_t m = k.getEncryptSrcFrontMargin(), n = m + pt.size(), padded = (n + 15) / 16 * 16, room = padded + 32;
	std::unique_ptr<uint8_t[]> src(new uint8_t[padded]), dst(new uint8_t[room]); memset(src.get(), 0x5a, padded); if(pt.size()) memcpy(src.get() + m, pt.data(), pt.size());
	size_t io = room; need(k.encrypt(dst.get(), io, src.get(), n, m), "encrypt refused a packet"); need(io >= padded and io <= room, "encrypted length");
	return Bytes(dst.get(), dst.get() + io);
}
// decrypt with exactly-sized buffers; the whole plaintext including padding
static bool open(SessionCryptoKey &k, const Bytes &wire, Bytes &pt)
{
	std::unique_ptr<uint8_t[]> src(new uint8_t[wire.size()]), dst(new uint8_t[wire.size()]); if(wire.size()) memcpy(src.get(), wire.data(), wire.size());
	size_t io = wire.size(), m = 0; if(not k.decrypt(dst.get(), io, m, src.get(), wire.size())) return false;
	need(io <= wire.size() and m <= io, fmt("decrypt of %zu bytes says %zu bytes with a margin of %zu", wire.size(), io, m));
	pt.assign(dst.get() + m, dst.get() + io); return true;
}
static bool same(const Bytes &pt, const Bytes &got) { if(got.size() < pt.size() or got.size() - pt.size() >= 16) return false; for(size_t i = 0; i < got.size(); i++) if(got[i] != (i < pt.size() ? pt[i] : 0xff)) return false; return true; }
static void passes(SessionCryptoKey &from, SessionCryptoKey &to, const Bytes &pt, const std::string &what)
{
	Bytes w = seal(from, pt), got; need(open(to, w, got), what + ": a genuine packet was refused"); need(same(pt, got), what + ": a genuine packet was decrypted to other bytes");
}
static void works(End &a, End &b, const std::string &what)
{
	need(a.key->getNearNonce() == b.key->getFarNonce() and a.key->getFarNonce() == b.key->getNearNonce() and a.key->getNearNonce().size() == 32 and a.key->getNearNonce() != a.key->getFarNonce(), what + ": nonces");
	for(int i = 0; i < 2; i++) { passes(*a.key, *b.key, pattern(5 + 35 * i, i), what + ", initiator to responder"); passes(*b.key, *a.key, pattern(40 - 27 * i, i), what + ", responder to initiator"); }
}

// --- the reference
struct Ref { // one direction
	Bytes aes, mac; bool useHmac = false, useSeq = false; size_t hl = 0; uint64_t seq = 0;
	Bytes mk(const Bytes &pt, uint64_t n) const
	{
		Bytes b; if(useSeq) b = sim::vlu(n);
		Bytes body = pt; size_t head = b.size() + (useHmac ? 0 : 2); while((head + body.size()) & 15) body.push_back(0xff);
		if(not useHmac) { uint16_t c = in_cksum(body.data(), body.size()); b.push_back(c >> 8); b.push_back(c & 0xff); }
		b.insert(b.end(), body.begin(), body.end());
		Aes x; x.init(aes.data(), 16, true); uint8_t iv[16] = { 0 }; Bytes r(b.size()); x.crypt_cbc(r.data(), b.data(), b.size(), iv);
		if(useHmac) { Bytes m = hm(mac, r); r.insert(r.end(), m.begin(), m.begin() + hl); }
		return r;
	}
};
static Ref refDir(const Bytes &secret, const Bytes &from, const Bytes &to, bool hmac, size_t hl, bool seq)
{
	Ref r; Bytes k = hm(secret, hm(to, from)); r.mac = hm(secret, k); k.resize(16); r.aes = k; r.useHmac = hmac; r.hl = hl; r.useSeq = seq; return r;
}
// --- options of a keying component: own reader
struct Opt { uintmax_t type; Bytes value; };
static std::vector<Opt> options(const Bytes &b, bool &bad)
{
	std::vector<Opt> v; Rd r(b); bad = false;
	while(r.c < r.lim) { uintmax_t l = r.vlu(); if(not r.ok) { bad = true; break; } if(0 == l) break; Bytes o = r.take(l); if(not r.ok) { bad = true; break; } Rd q(o); uintmax_t t = q.vlu(); if(not q.ok) { bad = true; break; } v.push_back({ t, q.rest() }); }
	return v;
}
static const Opt *findOpt(const std::vector<Opt> &v, uintmax_t t) { for(auto &o : v) if(o.type == t) return &o; return nullptr; }
static uint64_t num(const Bytes &b) { uint64_t v = 0; for(uint8_t c : b) v = v << 8 | c; return v; }
static bool groupAndKey(const Bytes &v, uintmax_t &g, Bytes &key) { Rd r(v); g = r.vlu(); if(not r.ok) return false; key = r.rest(); return true; }
static Bytes pubOf(const Bytes &cert, int group) { bool bad; for(auto &o : options(cert, bad)) if(o.type == 0x1d) { uintmax_t g; Bytes k; if(groupAndKey(o.value, g, k) and g == (uintmax_t)group) return k; } return Bytes(); }

static bool handshake(End &a, End &b, Bytes *ic = nullptr, Bytes *rc = nullptr)
{
	Bytes i, r; if(not a.key->generateInitiatorKeyingComponent(b.cert, &i)) return false;
	if(not b.key->generateResponderKeyingComponent(a.cert, i.data(), i.size(), &r)) throw mc::Violation{"the responder refuses a compatible initiator"};
	if(not a.key->initiatorCombineResponderKeyingComponent(r.data(), r.size())) throw mc::Violation{"the initiator refuses a compatible responder"};
	if(ic) *ic = i;
	if(rc) *rc = r;
	return true;
}

static const size_t lens[] = { 1, 2, 13, 14, 15, 16, 17, 30, 31, 32, 33, 1200 };
static const size_t hls[] = { 4, 16, 32 };
static Cfg cfg(Inner &in, bool len = true) { Cfg c; int f = in(16); c.hs = f & 1; c.hr = f & 2; c.ss = f & 4; c.sr = f & 8; if(len) c.hl = hls[in(3)]; c.isStatic = in(2); return c; }

// (1) every pair of settings
static void agree(Inner &in, bool th)
{
	static const std::vector<int> gl[] = { { 2 }, { 14, 2 }, { 14 }, { 16, 2, 14 } };
	Cfg ca = cfg(in), cb = cfg(in); ca.groups = gl[in(th ? 4 : 3)]; cb.groups = gl[in(th ? 4 : 3)];
	in.log("A: hmac send%d req%d len%zu seq send%d req%d static%d groups%d.. B: hmac send%d req%d len%zu seq send%d req%d static%d groups%d..", ca.hs, ca.hr, ca.hl, ca.ss, ca.sr, ca.isStatic, ca.groups[0], cb.hs, cb.hr, cb.hl, cb.ss, cb.sr, cb.isStatic, cb.groups[0]);
	End a("a", ca), b("b", cb);
	// before the keys are agreed, everyone speaks the default key
	for(size_t n : { 1, 14, 15, 500 }) { Bytes w = seal(*a.key, pattern(n, 1)), got; need(open(*b.key, w, got) and same(pattern(n, 1), got), "a startup packet was refused or damaged"); w[n % w.size()] ^= 1; (void)open(*b.key, w, got); }
	Bytes ic, rc; int g = commonGroup(ca, cb);
	bool ok = handshake(a, b, &ic, &rc); need(ok == (g >= 0), ok ? "keys agreed without a common group" : "a common group exists but none was found");
	if(not ok) return;
	// which group and secret: from the wire
	bool bad; auto io = options(ic, bad); need(not bad, "initiator component malformed"); auto ro = options(rc, bad); need(not bad, "responder component malformed");
	uintmax_t ig = 0, rg = 0; Bytes ipub, rpub;
	if(ca.isStatic) { auto *o = findOpt(io, 0x1d); need(o and groupAndKey(o->value, ig, ipub) and not findOpt(io, 0x0d), "initiator component: group selection"); ipub = pubOf(a.cert->encode(), ig); }
	else { auto *o = findOpt(io, 0x0d); need(o and groupAndKey(o->value, ig, ipub), "initiator component: public key"); }
	if(cb.isStatic) rpub = pubOf(b.cert->encode(), ig); else { auto *o = findOpt(ro, 0x0d); need(o and groupAndKey(o->value, rg, rpub) and rg == ig, "responder component: public key"); }
	need(ig == (uintmax_t)g, fmt("group %d used, the initiator's first common group is %d", (int)ig, g)); need(ipub.size() == 8 and rpub.size() == 8, "public keys");
	// secret: every exponent of this run is one of the adapters' random draws; find the initiator's
	Bytes secret; { uint64_t gen = g == 2 ? 3 : g == 14 ? 5 : 7; for(unsigned long c = 1; c <= a.ad.m_ctr and secret.empty(); c++) { Bytes r = H(8, { B("flash"), B("a"), B(fmt("%lu", c)) }); uint64_t s; memcpy(&s, r.data(), 8); uint64_t e = s % (P - 3) + 2; if(power(gen, e) == num(ipub)) secret = Dh::enc(power(num(rpub), e)); } }
	need(not secret.empty(), "harness: initiator exponent");
	need(a.key->getNearNonce() == hm(secret, ic) and a.key->getFarNonce() == hm(secret, rc), "nonces are not the profile's"); works(a, b, "after the handshake");
	bool hab = ca.hs or cb.hr, hba = cb.hs or ca.hr, sab = ca.ss or cb.sr, sba = cb.ss or ca.sr;
	Ref ab = refDir(secret, ic, rc, hab, ca.hl, sab), ba = refDir(secret, rc, ic, hba, cb.hl, sba); ab.seq = ba.seq = 2; // works() sent two each way
	for(size_t n : lens) for(int d = 0; d < 2; d++)
	{
		auto &f = d ? *b.key : *a.key, &t = d ? *a.key : *b.key; Ref &r = d ? ba : ab; Bytes pt = pattern(n, d + 3);
		size_t m = f.getEncryptSrcFrontMargin(), padded = (m + n + 15) / 16 * 16;
		{ // no room: refused, nothing used up
			std::unique_ptr<uint8_t[]> src(new uint8_t[padded]), dst(new uint8_t[padded + 31]); memset(src.get(), 1, padded); size_t io2 = padded - 1; need(not f.encrypt(dst.get(), io2, src.get(), m + n, m), "encrypt into too small a buffer"); need(f.getEncryptSrcFrontMargin() == m, "a refused packet used up a sequence number");
		}
		Bytes w = seal(f, pt); need(w.size() == padded + (r.useHmac ? r.hl : 0), fmt("packet of %zu bytes is %zu bytes on the wire, expected %zu", n, w.size(), padded + (r.useHmac ? r.hl : 0)));
		need(w == r.mk(pt, r.seq), "packet differs from the profile's (key, sequence number, checksum, padding or authentication)");
		{ std::unique_ptr<uint8_t[]> dst(new uint8_t[w.size()]); size_t io2 = padded - 1, mm = 0; need(not t.decrypt(dst.get(), io2, mm, w.data(), w.size()), "decrypt into too small a buffer"); }
		Bytes got; need(open(t, w, got) and same(pt, got), "a genuine packet was refused or damaged");
		if(r.useSeq) need(not open(t, w, got), "a replay was accepted");
		w = r.mk(pt, ++r.seq); need(open(t, w, got) and same(pt, got), "a packet of a reference peer was refused or damaged");
		seal(f, Bytes(3, 1)); ++r.seq; // keep the numbers in step
	}
}

// (2) alterations
static void tamper(Inner &in, bool th)
{
	Cfg c; c.hs = c.hr = true; static const size_t hl[] = { 4, 5, 16, 32 }; c.hl = hl[in(4)]; bool seq = in(2); c.ss = c.sr = seq; c.isStatic = in(2); size_t n = (size_t[]) { 1, 13, 17, 100 }[in(4)];
	End a("a", c), b("b", c), a2("a2", c), b2("b2", c); need(handshake(a, b) and handshake(a2, b2), "handshake"); works(a, b, "start"); works(a2, b2, "start");
	End a3("a", c), b3("b3", c); need(handshake(a3, b3), "handshake"); // same initiator randomness, other responder
	Bytes got, pt = pattern(n, 9); uint64_t refusals = 0; Bytes wStart; { End x("x", c); wStart = seal(*x.key, pt); }
	for(int dir = 0; dir < 2; dir++)
	{
		auto &f = dir ? *b.key : *a.key, &t = dir ? *a.key : *b.key; Bytes w = seal(f, pt);
		auto refuse = [&] (const Bytes &x, const char *what) { refusals++; need(not open(t, x, got), fmt("%s was accepted (%zu bytes)", what, x.size())); };
		for(size_t bit = 0; bit < w.size() * 8; bit++) { Bytes x = w; x[bit / 8] ^= 1 << bit % 8; refuse(x, "an altered packet"); if(th) for(size_t k = bit + 1; k < w.size() * 8; k++) { Bytes y = x; y[k / 8] ^= 1 << k % 8; refuse(y, "an altered packet"); } }
		for(size_t l = 0; l < w.size(); l++) refuse(Bytes(w.begin(), w.begin() + l), "a truncated packet");
		for(size_t l = 1; l < w.size(); l++) refuse(Bytes(w.begin() + l, w.end()), "a beheaded packet");
		for(size_t l = 1; l <= 48; l++) for(int v : { 0, 255 }) { Bytes x = w; x.insert(x.end(), l, v); refuse(x, "an extended packet"); x = Bytes(l, v); x.insert(x.end(), w.begin(), w.end()); refuse(x, "a prefixed packet"); }
		for(size_t i = 0; i + 16 <= w.size() - c.hl; i += 16) for(size_t j = i + 16; j + 16 <= w.size() - c.hl; j += 16) { Bytes x = w; std::swap_ranges(x.begin() + i, x.begin() + i + 16, x.begin() + j); refuse(x, "a packet with blocks exchanged"); }
		Bytes own = seal(t, pt); refuse(own, "the receiver's own packet"); need(open(f, own, got) and same(pt, got), "after reflection");
		refuse(seal(dir ? *b2.key : *a2.key, pt), "another session's packet"); refuse(seal(dir ? *b3.key : *a3.key, pt), "a packet of another session with the same initiator randomness"); refuse(wStart, "a packet under the default key");
		need(open(t, w, got) and same(pt, got), "a genuine packet was refused after altered ones had been"); if(seq) refuse(w, "a replay");
		works(a, b, "after altered packets");
	}
	in.ctx.count("refusals", refusals);
}

// without authentication an alteration may go unnoticed; one that is noticed changes nothing
static void damaged(Inner &in, bool th)
{
	Cfg c; c.hs = c.hr = false; bool seq = in(2); c.ss = c.sr = seq; c.isStatic = in(2); size_t n = (size_t[]) { 1, 13, 17, 100 }[in(4)]; int kinds = in(2), seen = in(3); std::unique_ptr<End> a, b; Bytes got, pt = pattern(n, 9); uint64_t refusals = 0, accepted = 0;
	auto fresh = [&] { a.reset(new End("a", c)); b.reset(new End("b", c)); need(handshake(*a, *b), "handshake"); for(int i = 0; i < seen * 20; i++) need(open(*b->key, seal(*a->key, pt), got), "start"); };
	fresh(); size_t size = seal(*a->key, pt).size(); fresh();
	auto one = [&] (const std::function<Bytes(Bytes)> &alter) {
		Bytes w = seal(*a->key, pt);
		if(open(*b->key, alter(w), got)) { accepted++; fresh(); return; }
		refusals++; need(open(*b->key, w, got) and same(pt, got), "a genuine packet was refused after an altered copy had been"); if(seq) need(not open(*b->key, w, got), "a replay was accepted");
	};
	if(kinds == 0) for(size_t bit = 0; bit < size * 8; bit++) { one([bit] (Bytes x) { x[bit / 8] ^= 1 << bit % 8; return x; }); if(th) for(size_t k = bit + 1; k < size * 8; k += 3) one([bit, k] (Bytes x) { x[bit / 8] ^= 1 << bit % 8; x[k / 8] ^= 1 << k % 8; return x; }); }
	else
	{
		for(size_t l = 0; l < size; l++) one([l] (Bytes x) { x.resize(l); return x; });
		for(size_t l = 1; l < size; l++) one([l] (Bytes x) { return Bytes(x.begin() + l, x.end()); });
		for(size_t l = 1; l <= 48; l++) for(int v : { 0, 255 }) one([l, v] (Bytes x) { x.insert(x.end(), l, v); return x; });
	}
	in.ctx.count("refusals", refusals); in.ctx.count("damage not noticed", accepted);
}

// (3) sequence numbers
static void window(Inner &in, std::vector<int> idx, int arrivals, uint64_t base, bool hmac)
{
	Cfg c; c.hs = c.hr = hmac; c.ss = c.sr = true; End a("a", c), b("b", c); need(handshake(a, b), "handshake");
	for(uint64_t i = 0; i < base; i++) { size_t m = a.key->getEncryptSrcFrontMargin(); uint8_t s[16] = { 0 }, d[64]; size_t io = 64; need(a.key->encrypt(d, io, s, m + 1, m), "encrypt"); }
	std::vector<Bytes> w; int top = *std::max_element(idx.begin(), idx.end()); for(int i = 0; i <= top; i++) w.push_back(seal(*a.key, pattern(3 + i % 20, i)));
	int64_t max = -1; std::set<int> done;
	for(int k = 0; k < arrivals; k++)
	{
		int i = idx[in(idx.size())]; in.log("%d", i); Bytes got; bool ok = open(*b.key, w[i], got);
		if(done.count(i)) need(not ok, fmt("packet %d was accepted twice", i));
		else if(i > max or max - i < 32) need(ok, fmt("fresh packet %d was refused, the highest accepted being %ld", i, (long)max));
		if(ok) { need(same(pattern(3 + i % 20, i), got), "decrypted to other bytes"); done.insert(i); max = std::max<int64_t>(max, i); }
	}
}
// a long run in order crosses every width of the sequence number
static void longRun(Inner &in, int n)
{
	Cfg c; c.hs = c.hr = in(2); c.ss = c.sr = true; End a("a", c), b("b", c); need(handshake(a, b), "handshake"); Bytes last;
	for(int i = 0; i < n; i++) { Bytes w = seal(*a.key, pattern(1 + i % 40, i)), got; if(i % 7 == 6) { w.swap(last); continue; } need(open(*b.key, w, got) and same(pattern(1 + i % 40, i), got), fmt("packet %d", i)); if(i % 5 == 0) need(not open(*b.key, w, got), fmt("replay of packet %d", i)); if(i % 7 == 2 and last.size()) { need(open(*b.key, last, got), fmt("late packet before %d", i)); need(not open(*b.key, last, got), fmt("late packet before %d twice", i)); } }
	in.ctx.count("packets", n);
}

// (4) hostile components
static const std::vector<Bytes> &pieces(int which, const Bytes &goodKey)
{
	static std::map<Bytes, std::vector<Bytes>> cache; Bytes id = goodKey; id.push_back(which); auto &v = cache[id]; if(v.size()) return v;
	auto opt = [] (uintmax_t t, const Bytes &val) { Bytes o = sim::vlu(t); o.insert(o.end(), val.begin(), val.end()); Bytes r = sim::vlu(o.size()); r.insert(r.end(), o.begin(), o.end()); return r; };
	auto pk = [&] (uintmax_t g, const Bytes &k) { Bytes b = sim::vlu(g); b.insert(b.end(), k.begin(), k.end()); return opt(0x0d, b); };
	v = { pk(2, goodKey), pk(2, Dh::enc(1)), pk(2, Dh::enc(P - 1)), pk(2, Bytes(7, 9)), pk(14, goodKey), pk(9999, goodKey), pk(uintmax_t(1) << 33 | 2, goodKey), opt(0x0d, {}),
		opt(0x1a, { 2, 8 }), opt(0x1a, { 4, 8 }), opt(0x1a, { 6, 32 }), opt(0x1a, { 6, 33 }), opt(0x1a, { 4, 3 }), opt(0x1a, { 7, 4 }), opt(0x1a, { 1, 16 }), opt(0x1a, { 6 }), opt(0x1a, { 6, 0x82, 0x00 }), opt(0x1a, {}),
		opt(0x1e, { 2 }), opt(0x1e, { 4 }), opt(0x1e, { 7 }), opt(0x1e, { 1 }), opt(0x1e, {}),
		opt(0x0e, { 1, 2, 3 }), opt(0x1d, { 2 }), opt(0x1d, { 14 }), opt(0x1d, { 0xce, 0x0f }), opt(0x1d, sim::vlu(uintmax_t(1) << 32 | 2)), { 0 }, { 5, 1 }, { 0x80 } };
	return v;
}
struct Verdict { bool claim = true, ok = true; Bytes key; bool hs, hr, ss, sr; size_t hl = 0; int group = -1; };
// what a component with these options means to a side with the given settings
static Verdict judge(const Cfg &me, const Bytes &comp, bool peerStatic, const Bytes &peerStaticPub, bool asResponder, int myGroup, const std::vector<int> &peerGroups)
{
	Verdict v; bool bad; auto o = options(comp, bad); std::set<uintmax_t> types; for(auto &x : o) if(not types.insert(x.type).second) v.claim = false;
	if(bad) v.claim = false;
	auto *q = findOpt(o, 0x1e); uint8_t sf = q and q->value.size() ? q->value[0] : 0, hf = 0; uintmax_t hl = 0; q = findOpt(o, 0x1a);
	if(q and q->value.size()) { hf = q->value[0]; Rd r(Bytes(q->value.begin() + 1, q->value.end())); Bytes rest(q->value.begin() + 1, q->value.end()); Rd r2(rest); hl = r2.vlu(); if(not r2.ok) hl = 0; }
	v.hr = me.hr or (hf & 4); v.hs = me.hs or (hf & 1); v.sr = me.sr or (sf & 4); v.ss = me.ss or (sf & 1); v.hl = hl;
	if(me.sr and not (sf & 6)) v.ok = false;
	if(me.hr and not (hf & 6)) v.ok = false;
	if(v.hr and (hl < 4 or hl > 32)) v.ok = false;
	auto usable = [] (const Bytes &k) { return k.size() == 8 and num(k) >= 2 and num(k) <= P - 2; };
	if(asResponder)
	{
		uintmax_t g; Bytes k; q = findOpt(o, peerStatic ? 0x1d : 0x0d);
		if(not q or not groupAndKey(q->value, g, k)) v.ok = false;
		else { if(std::find(me.groups.begin(), me.groups.end(), (int)std::min<uintmax_t>(g, 1 << 30)) == me.groups.end()) v.ok = false; if(peerStatic) { k = peerStaticPub; if(std::find(peerGroups.begin(), peerGroups.end(), (int)std::min<uintmax_t>(g, 1 << 30)) == peerGroups.end()) v.ok = false; } v.key = k; v.group = (int)g; if(v.ok and not usable(k)) v.ok = false; }
	}
	else if(not peerStatic) { uintmax_t g; Bytes k; q = findOpt(o, 0x0d); if(not q or not groupAndKey(q->value, g, k) or g != (uintmax_t)myGroup or not usable(k)) v.ok = false; v.key = k; v.group = myGroup; }
	return v;
}
static Cfg hostileCfg(Inner &in) { Cfg c; int k = in(4); c.hr = k & 1; c.sr = k & 2; c.isStatic = in(2); return c; }

static void hostileInitiator(Inner &in, int n) // the victim is the responder
{
	Cfg cb = hostileCfg(in), ca; ca.isStatic = in(2); End b("b", cb), a("a", ca);
	const uint64_t e = 12345678901ull; Bytes mine = Dh::enc(power(3, e)); auto &p = pieces(0, mine); Bytes comp;
	for(int i = 0; i < n; i++) { int k = in(p.size() + 1); if(k == (int)p.size()) break; in.log("%s", Hex::encode(p[k]).c_str()); comp.insert(comp.end(), p[k].begin(), p[k].end()); }
	Verdict v = judge(cb, comp, ca.isStatic, pubOf(a.cert->encode(), 2), true, -1, ca.groups);
	std::unique_ptr<uint8_t[]> exact(new uint8_t[comp.size()]); std::copy(comp.begin(), comp.end(), exact.get()); Bytes out;
	bool ok = b.key->generateResponderKeyingComponent(a.cert, exact.get(), comp.size(), &out);
	if(v.claim) need(ok == v.ok, ok ? "the responder accepted a keying component it must refuse" : "the responder refused an acceptable keying component");
	in.ctx.count(ok ? "accepted" : "refused");
	if(not ok) { need(handshake(a, b), "handshake"); works(a, b, "a genuine handshake after a refused component"); return; }
	if(not v.claim or ca.isStatic) return;
	bool bad; auto ro = options(out, bad); need(not bad, "responder component malformed"); Bytes rpub; uintmax_t g; if(cb.isStatic) rpub = pubOf(b.cert->encode(), 2); else { auto *q = findOpt(ro, 0x0d); need(q and groupAndKey(q->value, g, rpub) and g == 2, "responder's public key"); }
	Bytes secret = Dh::enc(power(num(rpub), e)); Ref r = refDir(secret, comp, out, v.hr, v.hl, v.sr), back = refDir(secret, out, comp, v.hs, cb.hl, v.ss); Bytes got, pt = pattern(20, 1);
	for(int i = 0; i < 2; i++) { need(open(*b.key, r.mk(pt, i), got) and same(pt, got), "a packet of the accepted peer is refused"); need(seal(*b.key, pt) == back.mk(pt, i), "a packet to the accepted peer differs from the profile's"); }
}
static void hostileResponder(Inner &in, int n) // the victim is the initiator
{
	Cfg ca = hostileCfg(in), cb; cb.isStatic = in(2); End a("a", ca), b("b", cb); Bytes ic, rc;
	need(a.key->generateInitiatorKeyingComponent(b.cert, &ic), "generate"); need(b.key->generateResponderKeyingComponent(a.cert, ic.data(), ic.size(), &rc), "responder");
	const uint64_t e = 987654321987ull; auto &p = pieces(1, Dh::enc(power(3, e))); Bytes comp;
	for(int i = 0; i < n; i++) { int k = in(p.size() + 1); if(k == (int)p.size()) break; in.log("%s", Hex::encode(p[k]).c_str()); comp.insert(comp.end(), p[k].begin(), p[k].end()); }
	Verdict v = judge(ca, comp, cb.isStatic, Bytes(), false, 2, cb.groups);
	std::unique_ptr<uint8_t[]> exact(new uint8_t[comp.size()]); std::copy(comp.begin(), comp.end(), exact.get());
	bool ok = a.key->initiatorCombineResponderKeyingComponent(exact.get(), comp.size());
	if(v.claim) need(ok == v.ok, ok ? "the initiator accepted a keying component it must refuse" : "the initiator refused an acceptable keying component");
	in.ctx.count(ok ? "accepted" : "refused");
	if(not ok) { need(a.key->initiatorCombineResponderKeyingComponent(rc.data(), rc.size()), "the genuine component was refused after another had been"); works(a, b, "the genuine component after a refused one"); return; }
	if(not v.claim or cb.isStatic) { (void)a.key->initiatorCombineResponderKeyingComponent(rc.data(), rc.size()); return; }
	Bytes ipub; bool bad; if(ca.isStatic) ipub = pubOf(a.cert->encode(), 2); else { uintmax_t g; auto ops = options(ic, bad); auto *q = findOpt(ops, 0x0d); need(q and groupAndKey(q->value, g, ipub), "initiator's public key"); }
	Bytes secret = Dh::enc(power(num(ipub), e)); Ref r = refDir(secret, comp, ic, v.hr, v.hl, v.sr), back = refDir(secret, ic, comp, v.hs, ca.hl, v.ss); Bytes got, pt = pattern(20, 1);
	for(int i = 0; i < 2; i++)
	{
		need(open(*a.key, r.mk(pt, i), got) and same(pt, got), "a packet of the accepted peer is refused"); need(seal(*a.key, pt) == back.mk(pt, i), "a packet to the accepted peer differs from the profile's");
		if(i == 0) need(not a.key->initiatorCombineResponderKeyingComponent(rc.data(), rc.size()), "an open session took new keys");
	}
}
// certificates with unusable public keys, or of groups nobody shares
static void certificates(Inner &in)
{
	Cfg c = hostileCfg(in); c.groups = in(2) ? std::vector<int>{ 2, 14 } : std::vector<int>{ 2 }; bool asResponder = in(2); End me("a", c);
	auto opt = [] (uintmax_t t, const Bytes &val) { Bytes o = sim::vlu(t); o.insert(o.end(), val.begin(), val.end()); Bytes r = sim::vlu(o.size()); r.insert(r.end(), o.begin(), o.end()); return r; };
	const uint64_t e = 33445566778899ull; const std::vector<Bytes> bad = { {}, Dh::enc(0), Dh::enc(1), Dh::enc(P - 1), Dh::enc(P), Dh::enc(~0ull), Bytes(7, 9), Bytes(9, 9) };
	Bytes cert; bool isStatic = in(2), marked = false, dup = false; std::map<int, int> keys; int n = 1 + in(2);
	for(int i = 0; i < n; i++)
	{
		int g = (int[]) { 2, 14, 16 }[in(3)], k = isStatic ? in((int)bad.size() + 1) : 0; if(i and in(2)) { cert.push_back(0); marked = true; }
		Bytes v = sim::vlu(g), key = k ? bad[k - 1] : Dh::enc(power(g == 2 ? 3 : g == 14 ? 5 : 7, e)); if(isStatic) v.insert(v.end(), key.begin(), key.end());
		Bytes o = opt(isStatic ? 0x1d : 0x15, v); cert.insert(cert.end(), o.begin(), o.end()); if(marked) continue; if(keys.count(g)) dup = true; else keys[g] = k;
	}
	in.log("certificate %s", Hex::encode(cert).c_str()); auto far = me.ad.decodeFlashCertificate(cert.data(), cert.size()); need((bool)far and far->isStatic() == isStatic, "a decodable certificate was refused");
	for(int g : { 2, 14, 16 }) need(far->supportsDHGroup(g) == (keys.count(g) > 0), "the groups a certificate offers");
	int good = 0, unusable = 0; for(int g : c.groups) if(keys.count(g)) (keys[g] ? unusable : good)++;
	Bytes comp, out; bool ok;
	if(not asResponder)
	{
		ok = me.key->generateInitiatorKeyingComponent(far, &comp);
		if(not good) need(not ok, unusable ? "an unusable public key of a certificate was used" : "a session was begun without a common group");
		if(not unusable and good and not dup) need(ok, "a certificate with usable keys was refused");
		if(ok and isStatic and not dup) // the owner of the certificate's key, and nobody else, has the session's keys
		{
			bool b; auto ops = options(comp, b); uintmax_t g = 0; Bytes ipub; need(not b, "initiator component malformed"); if(c.isStatic) { auto *q = findOpt(ops, 0x1d); need(q and groupAndKey(q->value, g, ipub), "group selection"); ipub = pubOf(me.cert->encode(), (int)g); } else { auto *q = findOpt(ops, 0x0d); need(q and groupAndKey(q->value, g, ipub), "public key"); }
			need(keys.count((int)g) and keys[(int)g] == 0, "another group than the certificate's was chosen");
			Bytes answer = opt(0x1a, { 6, 16 }), s = opt(0x1e, { 6 }), x = opt(0x0e, { 1, 2, 3 }); answer.insert(answer.end(), s.begin(), s.end()); answer.insert(answer.end(), x.begin(), x.end());
			need(me.key->initiatorCombineResponderKeyingComponent(answer.data(), answer.size()), "an acceptable answer was refused"); Bytes secret = Dh::enc(power(num(ipub), e)), got, pt = pattern(20, 1); Ref r = refDir(secret, answer, comp, true, 16, true); for(int i = 0; i < 2; i++) need(open(*me.key, r.mk(pt, i), got) and same(pt, got), "a packet of the certificate's owner is refused");
		}
	}
	else
	{
		int g = (int[]) { 2, 14, 16 }[in(3)]; Bytes v = sim::vlu(g); if(not isStatic) { Bytes k = Dh::enc(power(g == 2 ? 3 : g == 14 ? 5 : 7, e)); v.insert(v.end(), k.begin(), k.end()); } comp = opt(isStatic ? 0x1d : 0x0d, v);
		Bytes h = opt(0x1a, { 6, 16 }), s = opt(0x1e, { 6 }); comp.insert(comp.end(), h.begin(), h.end()); comp.insert(comp.end(), s.begin(), s.end()); bool mine = std::find(c.groups.begin(), c.groups.end(), g) != c.groups.end();
		in.log("selects group %d", g); ok = me.key->generateResponderKeyingComponent(far, comp.data(), comp.size(), &out);
		if(not mine or (isStatic and (not keys.count(g) or keys[g]) and not dup)) need(not ok, "a session was opened with a key or group that must be refused"); else if(not dup and (not isStatic or keys[g] == 0)) need(ok, "an acceptable peer was refused");
	}
	if(not ok) { Cfg cp; cp.isStatic = isStatic; End peer("p", cp); need(asResponder ? handshake(peer, me) : handshake(me, peer), "handshake"); if(asResponder) works(peer, me, "a genuine handshake after a refused certificate"); else works(me, peer, "a genuine handshake after a refused certificate"); }
	in.ctx.count(ok ? "accepted" : "refused");
}
// a second answer (duplicate or forged) to a session whose keys are set changes nothing
static void afterOpen(Inner &in)
{
	Cfg ca = cfg(in, false), cb = cfg(in, false); End a("a", ca), b("b", cb); Bytes ic, rc; need(handshake(a, b, &ic, &rc), "handshake"); works(a, b, "open");
	auto &p = pieces(2, Dh::enc(power(3, 77))); Bytes other; int k = in(4);
	if(k == 0) other = rc; else if(k == 1) { End b2("b", cb); need(b2.key->generateResponderKeyingComponent(a.cert, ic.data(), ic.size(), &other), "responder"); other.push_back(2); other.push_back(0x0e); other.push_back(7); } else if(k == 2) { other = p[0]; other.insert(other.end(), p[13].begin(), p[13].end()); other.insert(other.end(), p[20].begin(), p[20].end()); }
	in.log("second component kind %d", k); (void)a.key->initiatorCombineResponderKeyingComponent(other.data(), other.size()); works(a, b, "after a second responder component");
	(void)a.key->initiatorCombineResponderKeyingComponent(other.data(), other.size()); works(a, b, "after a third responder component");
}

// (5) the OpenSSL adapter
struct Ossl : FlashCryptoAdapter_OpenSSL { std::vector<int> g; std::vector<int> getSupportedDHGroups() const override { return g; } };
static void opensslAgree(Inner &in)
{
	int g = (int[]) { 2, 14, 16 }[in(3)], f = in(16), f2 = in(2) * 15, st = in(4); Ossl x, y; x.g = y.g = { g }; need(x.init(false, not (st & 1), nullptr) and y.init(false, not (st & 2), nullptr), "init");
	x.setHMACSendAlways(f & 1); x.setHMACRecvRequired(f & 2); x.setSSeqSendAlways(f & 4); x.setSSeqRecvRequired(f & 8); x.setHMACLength(4 + f); y.setHMACSendAlways(f2 & 1); y.setHMACRecvRequired(f2 & 2); y.setSSeqSendAlways(f2 & 4); y.setSSeqRecvRequired(f2 & 8);
	auto kx = x.getKeyForNewSession(), ky = y.getKeyForNewSession(); auto cert = [] (Ossl &o) { Bytes c = o.getNearEncodedCertForEPD(nullptr, 0); return o.decodeFlashCertificate(c.data(), c.size()); }; auto cx = cert(x), cy = cert(y); Bytes ic, rc;
	need(cx and cy and kx->generateInitiatorKeyingComponent(cy, &ic) and ky->generateResponderKeyingComponent(cx, ic.data(), ic.size(), &rc) and kx->initiatorCombineResponderKeyingComponent(rc.data(), rc.size()), "handshake");
	need(kx->getNearNonce() == ky->getFarNonce() and kx->getFarNonce() == ky->getNearNonce(), "nonces");
	for(size_t n : { 1, 15, 16, 1000 }) { passes(*kx, *ky, pattern(n, 1), "initiator to responder"); passes(*ky, *kx, pattern(n, 2), "responder to initiator"); }
	if((f & 3) or (f2 & 3)) for(int d = 0; d < 2; d++) { auto &from = d ? *ky : *kx, &to = d ? *kx : *ky; bool hmac = d ? (f2 & 1) or (f & 2) : (f & 1) or (f2 & 2); if(not hmac) continue; Bytes w = seal(from, pattern(20, 5)), got; for(size_t i = 0; i < w.size() * 8; i++) { Bytes t = w; t[i / 8] ^= 1 << i % 8; need(not open(to, t, got), "altered packet accepted"); } need(open(to, w, got), "genuine packet refused"); }
}
// public keys too small, too large or too regular are refused (RFC 7425 section 4.6.2)
struct Big { // little-endian bits
	std::vector<bool> b; static Big bytes(const Bytes &v) { Big r; for(size_t i = v.size(); i--; ) for(int k = 0; k < 8; k++) r.b.push_back(v[i] >> k & 1); return r; }
	int cmp(const Big &o) const { for(size_t i = std::max(b.size(), o.b.size()); i--; ) { bool x = i < b.size() and b[i], y = i < o.b.size() and o.b[i]; if(x != y) return x ? 1 : -1; } return 0; }
	Bytes enc(size_t n) const { Bytes r(n); for(size_t i = 0; i < b.size() and i < n * 8; i++) if(b[i]) r[n - 1 - i / 8] |= 1 << i % 8; return r; }
	void addPow(size_t p, bool sub) { if(b.size() <= p) b.resize(p + 1); bool c = true; for(size_t i = p; c; i++) { if(i >= b.size()) b.push_back(false); bool o = b[i]; b[i] = not o; c = sub ? not o : o; } }
	void add(long d) { for(; d > 0; d--) addPow(0, false); for(; d < 0; d++) addPow(0, true); }
};
static void opensslPublic(Inner &in)
{
	static std::unique_ptr<Ossl> ad; static Big modulus; static std::map<int, std::shared_ptr<DH_Context>> dh;
	if(not ad)
	{
		ad.reset(new Ossl()); static const char *p1024 = "FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE65381FFFFFFFFFFFFFFFF";
		Bytes m; need(Hex::decode(p1024, m) and m.size() == 128, "modulus"); modulus = Big::bytes(m); dh[2] = ad->makeDH_Context(); need(dh[2]->init(2) and not dh[2]->init(2), "DH init");
	}
	Big v; int kind = in(4); size_t pad = 0;
	if(kind == 0) { v.addPow(24, false); for(int i = 0; i < 20; i++) if(in.ctx.verbose) {} v.add(in(7) - 3); pad = in(3); } // around the smallest
	else if(kind == 1) { v = modulus; v.addPow(24, true); v.add(in(9) - 4); pad = in(2); } // around the largest
	else if(kind == 2) { int top = (int[]) { 24, 25, 31, 32, 39, 40, 100, 1000, 1007 }[in(9)], ones = 13 + in(6), low = in(3); v.b.assign(top + 1, false); v.b[top] = true; for(int i = 0, n = 1; n < ones; i++, n++) { int at = low == 0 ? i : low == 1 ? top - 1 - i : (i * 2) % top + (i * 2 >= top ? 1 : 0); if(at < 0 or at >= top or v.b[at]) { in.ctx.count("skipped"); continue; } v.b[at] = true; } pad = in(3); } // few ones
	else { int top = 31 + in(18), zeros = 12 + in(8), low = in(3); v.b.assign(top + 1, true); for(int i = 0; i < zeros and i < top; i++) v.b[low == 0 ? i : low == 1 ? top - 1 - i : top - 1 - (i * 5) % top] = false; pad = in(3); } // few zeros, every position of the leading one in its byte
	size_t bits = v.b.size(); while(bits and not v.b[bits - 1]) bits--;
	size_t ones = 0, zeros = 0; for(size_t i = 0; i < bits; i++) (v.b[i] ? ones : zeros)++;
	Big lo, hi = modulus; lo.addPow(24, false); hi.addPow(24, true); bool want = v.cmp(lo) >= 0 and v.cmp(hi) <= 0 and ones >= 16 and zeros >= 16;
	Bytes e = v.enc((bits + 7) / 8 + pad), dst; in.log("%zu bits, %zu ones, %zu zeros, %zu bytes: %s", bits, ones, zeros, e.size(), Hex::encode(e).c_str());
	bool got = dh[2]->computeSharedSecret(e.data(), e.size(), dst); need(got == want, got ? fmt("a public key that must be refused was used (%zu ones, %zu zeros)", ones, zeros) : "an acceptable public key was refused");
	if(got) { Bytes d2; Bytes stripped = v.enc((bits + 7) / 8); need(dh[2]->computeSharedSecret(stripped.data(), stripped.size(), d2) and d2 == dst, "the secret depends on leading zeros of the public key"); }
}
static void opensslPrimitives(Inner &in)
{
	Ossl o; o.g = { 2 }; Bytes out(32); auto hex = [] (const Bytes &b) { return Hex::encode(b); };
	o.sha256(out.data(), "abc", 3); need(hex(out) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "SHA-256");
	o.hmacSHA256(out.data(), "Jefe", 4, "what do ya want for nothing?", 28); need(hex(out) == "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "HMAC-SHA-256");
	auto h = o.makeHMAC_Context(); need(h->init("Jefe", 4), "init"); for(int i = 0; i < 3; i++) { need(h->compute(out.data(), "what do ya want for nothing?", 28) and hex(out) == "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843", "HMAC-SHA-256 repeated"); h->compute(out.data(), "x", i); }
	Bytes key, pt, ct; Hex::decode("2b7e151628aed2a6abf7158809cf4f3c", key); Hex::decode("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51", pt); auto e = o.makeAES_Context(), d = o.makeAES_Context(); need(e->init(key.data(), 16, true) and d->init(key.data(), 16, false), "AES init");
	for(int i = 0; i < 3; i++) { uint8_t iv[16]; for(int k = 0; k < 16; k++) iv[k] = k; Bytes c(32), q(32); need(e->crypt_cbc(c.data(), pt.data(), 32, iv), "crypt"); need(hex(c) == "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2", "AES-128-CBC"); for(int k = 0; k < 16; k++) iv[k] = k; need(d->crypt_cbc(q.data(), c.data(), 32, iv) and q == pt, "AES-128-CBC decrypt"); }
	for(int l = 0; l <= 64; l++) { auto a = o.makeAES_Context(); Bytes k(l, 1); need(a->init(k.data(), l, true) == (l == 16), "AES key length"); }
	for(int g = -2; g < 40; g++) { auto x = o.makeDH_Context(); need(x->init(g) == (g == 2 or g == 14 or g == 16), fmt("DH group %d", g)); }
	(void)in;
}

// (6) whole stacks over this profile, with loss, duplication, reordering of packets and slow key computations
static void stacks(Ctx &ctx, int which, FaultPlan plan, std::vector<double> slows)
{
	static const struct { bool as, bs; int fa, fb; } combos[] = { { true, false, 0, 0 }, { false, true, 0, 0 }, { true, true, 15, 15 }, { true, false, 15, 15 }, { false, true, 0, 15 }, { true, true, 15, 0 }, { false, false, 5, 10 }, { true, true, 10, 5 } };
	auto k = combos[which];
	auto set = [] (Flash &f, bool st, int o) { f.init(false, not st, nullptr); f.setHMACSendAlways(o & 1); f.setHMACRecvRequired(o & 2); f.setSSeqSendAlways(o & 4); f.setSSeqRecvRequired(o & 8); };
	Flash fa("alice", { 2 }), fb("bob", { 14, 2 }); set(fa, k.as, k.fa); set(fb, k.bs, k.fb);
	Sim s(ctx); App app(s); plan.install(s); int slow = 0;
	s.taskDelay = [&] (Host &, unsigned long) -> double { if(slow > 8) return 0; slow++; int c = ctx.choose((int)slows.size() + 1, 1, "key computation"); return c ? slows[c - 1] : 0; };
	Host &a = s.add("alice", "10.0.0.1:1", "1", false), &b = s.add("bob", "10.0.0.2:2", "1", false); a.altCrypto = &fa; b.altCrypto = &fb; a.start(); b.start();
	app.acceptAll(a); app.acceptAll(b); Tx *back = nullptr;
	app.onNew = [&] (Rx &r) { if(r.host == b.idx and not back) { back = &app.wrap(b.idx, r.flow->openReturnFlow(B("ret"))); for(size_t n : { 700, 3, 2500 }) app.write(*back, n); } };
	Tx &t = app.open(a, S(fb.getCanonicalEPD()), "f", &b.address); t.flow->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(a.idx, f); };
	for(size_t n : { 1, 300, 5000, 16 }) app.write(t, n);
	std::vector<Pkt> seen; s.onSend.push_back([&] (const Pkt &p) { if(seen.size() < 60) seen.push_back(p); });
	auto done = [&] { return back and not t.flow->getBufferedSize() and not back->flow->getBufferedSize(); };
	bool ok = s.runUntil(done, s.now + 60); ctx.bail(); ctx.require(ok, "data not delivered within 60 s (exceptions %d)", t.exceptions);
	for(auto &p : seen) s.inject(p.data, p.src, p.dst, 0.5); // everything again, later
	s.run(s.now + 3); ctx.bail();
	checkExact(ctx, app, t, "f", b.idx); checkExact(ctx, app, *back, "ret", a.idx); ctx.require(t.exceptions + back->exceptions == 0, "a flow failed");
	Rx *r = app.find("f", b.idx); ctx.require(t.flow->getNearNonce() == r->flow->getFarNonce() and t.flow->getFarNonce() == r->flow->getNearNonce() and t.flow->getNearNonce().size() == 32, "the ends disagree on the nonces");
	ctx.require(t.flow->getFarCanonicalEPD() == fb.getCanonicalEPD() and r->flow->getFarCanonicalEPD() == fa.getCanonicalEPD(), "the ends are connected to someone else");
	app.write(t, 900); app.write(*back, 900); s.run(s.now + 12); ctx.bail(); checkExact(ctx, app, t, "f", b.idx); checkExact(ctx, app, *back, "ret", a.idx);
	ctx.summary = fmt("settings %d", which);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C17"; meta.hangCpuSeconds = 120;
	meta.assumptions = { "small deterministic stand-ins for AES, HMAC-SHA256 and Diffie-Hellman except in openssl/*", "a component with two options of one type, or with malformed options, may be accepted or refused", "no claim on fresh packets 32 or more behind the highest accepted" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		auto add = [&] (const std::string &name, size_t split, std::function<void(Inner &)> f) { v.push_back({ name, 0, [=] (Ctx &c) { explore(c, split, f); } }); };
		add("agree", 2, [=] (Inner &in) { agree(in, th); });
		add("tamper", 4, [=] (Inner &in) { tamper(in, th); });
		add("damaged", 5, [=] (Inner &in) { damaged(in, th); });
		for(int hmac = 0; hmac < 2; hmac++)
		{
			add(fmt("window/%s", hmac ? "hmac" : "checksum"), 2, [=] (Inner &in) { window(in, { 0, 1, 2, 31, 32, 33, 34, 63, 64, 70 }, th ? 6 : 5, 0, hmac); });
			add(fmt("window-128/%s", hmac ? "hmac" : "checksum"), 2, [=] (Inner &in) { window(in, { 0, 1, 7, 8, 9, 31, 32, 33, 40, 60 }, th ? 5 : 4, 120, hmac); });
			add(fmt("window-16384/%s", hmac ? "hmac" : "checksum"), 2, [=] (Inner &in) { window(in, { 0, 7, 8, 33, 41 }, 3, 16376, hmac); });
		}
		add("long", 1, [=] (Inner &in) { longRun(in, th ? 2200000 : 40000); });
		add("hostile-initiator", 4, [=] (Inner &in) { hostileInitiator(in, th ? 4 : 3); }); add("hostile-responder", 4, [=] (Inner &in) { hostileResponder(in, th ? 4 : 3); });
		add("after-open", 2, afterOpen); add("certificates", 3, certificates);
		add("openssl/agree", 2, opensslAgree); add("openssl/public", 2, opensslPublic); add("openssl/primitives", 0, opensslPrimitives);
		FaultPlan p; p.window = 12; p.faults = { F_DROP, F_DUP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG }; p.shortDelay = 0.07; p.dupDelay = 0.003;
		for(int k = 0; k < 8; k++) v.push_back({ fmt("stacks/%d", k), th ? 3 : 2, [=] (Ctx &c) { stacks(c, k, p, { 0.01, 0.2, 1.7 }); } });
		return v;
	});
}
