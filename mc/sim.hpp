#pragma once
// Deterministic simulation of RTMFP endpoints (the real code) on a virtual network with virtual time.

#include "mc.hpp"
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/params.hpp"
#include <deque>
#include <list>
#include <memory>

namespace sim {

using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using mc::Ctx; using mc::Hash; using mc::fmt;
using com::zenomt::rtmfp::Bytes;

inline Bytes B(const std::string &s) { return Bytes(s.begin(), s.end()); }
inline std::string S(const Bytes &b) { return std::string(b.begin(), b.end()); }

inline void hashBytes(uint8_t *dst, size_t n, const std::vector<Bytes> &parts)
{
	uint64_t a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
	for(auto &p : parts)
	{
		for(uint8_t c : p) { a = (a ^ c) * 0x100000001b3ull; b = (b + c) * 0x9e3779b97f4a7c15ull; b ^= a >> 29; }
		a ^= p.size() * 0xff51afd7ed558ccdull; a ^= a >> 33; b += a;
	}
	for(size_t i = 0; i < n; i++)
	{
		if(0 == i % 8) { a ^= b + i; a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29; b += 0x9e3779b97f4a7c15ull; }
		dst[i] = uint8_t(a >> (8 * (i % 8)));
	}
}
inline Bytes H(size_t n, const std::vector<Bytes> &parts) { Bytes r(n); hashBytes(r.data(), n, parts); return r; }

const size_t TAGLEN = 8;
inline Bytes defaultKey() { return B("default session key"); }

// --- crypto adapter for the simulation: transparent payload with a keyed integrity tag

class SimCert : public CryptoCert {
public:
	SimCert(const Bytes &enc) : m_enc(enc) { std::string s = S(enc); size_t p = s.find('|'), q = s.find('|', p + 1); m_kind = s.substr(0, p); m_name = s.substr(p + 1, q - p - 1); m_ver = s.substr(q + 1); }
	static bool ok(const Bytes &enc) { std::string s = S(enc); return (0 == s.compare(0, 5, "CERT|") or 0 == s.compare(0, 5, "FAKE|")) and s.find('|', 5) != std::string::npos; }
	void isAuthentic(const Task &f) override { if(m_kind == "CERT") f(); }
	bool isSelectedByEPD(const uint8_t *epd, size_t len) override { return sel(m_name, std::string((const char *)epd, len)); }
	Bytes getCanonicalEPD() override { return B(m_name); }
	void checkSignature(const uint8_t *msg, size_t n, const uint8_t *sig, size_t sn, const Task &good) override { if(Bytes(sig, sig + sn) == signature(m_name, msg, n)) good(); }
	bool doesCertOverrideSession(std::shared_ptr<CryptoCert> other) override { auto o = std::dynamic_pointer_cast<SimCert>(other); return o and o->m_name == m_name; }
	Bytes encode() override { return m_enc; }
	// EPD "name" selects exactly; "any" selects everyone; "grp:x" selects names starting with x
	static bool sel(const std::string &name, const std::string &epd) { return epd == name or epd == "any" or (0 == epd.compare(0, 4, "grp:") and epd.size() > 4 and 0 == name.compare(0, epd.size() - 4, epd.substr(4))); }
	static Bytes signature(const std::string &name, const uint8_t *msg, size_t n) { return H(16, { B("sig"), B(name), Bytes(msg, msg + n) }); }
	Bytes m_enc; std::string m_kind, m_name, m_ver;
};

// While a packet is being processed, what lies behind it in the receive buffer may not be touched.
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_poison_memory_region(void const volatile *, size_t); extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif
struct TailGuard {
	bool on = false; const void *at = nullptr; size_t n = 0;
	void set(const void *a, size_t l)
	{
		clear();
#if defined(__SANITIZE_ADDRESS__)
		at = a; n = l; __asan_poison_memory_region(a, l);
#endif
	}
	void clear()
	{
#if defined(__SANITIZE_ADDRESS__)
		if(at) __asan_unpoison_memory_region(at, n);
#endif
		at = nullptr;
	}
};
inline TailGuard &tailGuard() { static TailGuard g; return g; }

class SimKey : public SessionCryptoKey {
public:
	SimKey(const Bytes &nonce) : m_near(nonce) { m_tx = m_rx = defaultKey(); }
	size_t getEncryptSrcFrontMargin() override { return TAGLEN; }
	bool encrypt(uint8_t *dst, size_t &ioLen, uint8_t *src, size_t srcLen, size_t margin) override
	{
		if(margin != TAGLEN or srcLen < margin or ioLen < srcLen) return false;
		Bytes pt(src + margin, src + srcLen);
		Bytes tag = H(TAGLEN, { m_tx, pt });
		memcpy(dst, tag.data(), TAGLEN); memcpy(dst + TAGLEN, pt.data(), pt.size());
		ioLen = TAGLEN + pt.size();
		return true;
	}
	bool decrypt(uint8_t *dst, size_t &ioLen, size_t &margin, const uint8_t *src, size_t srcLen) override
	{
		if(srcLen < TAGLEN or ioLen < srcLen) return false;
		if(H(TAGLEN, { m_rx, Bytes(src + TAGLEN, src + srcLen) }) != Bytes(src, src + TAGLEN)) return false;
		size_t room = ioLen;
		memcpy(dst, src, srcLen); ioLen = srcLen; margin = TAGLEN;
		if(tailGuard().on and room > srcLen) tailGuard().set(dst + srcLen, room - srcLen); // reading past the packet is reading out of bounds
		return true;
	}
	Bytes getNearNonce() override { return m_near; }
	Bytes getFarNonce() override { return m_far; }
	bool generateInitiatorKeyingComponent(std::shared_ptr<CryptoCert> responder, Bytes *out) override { *out = B("I"); out->insert(out->end(), m_near.begin(), m_near.end()); return true; }
	bool initiatorCombineResponderKeyingComponent(const uint8_t *c, size_t n) override
	{
		if(n != 17 or c[0] != 'R') return false;
		m_far.assign(c + 1, c + n);
		m_tx = H(16, { B("k"), m_near, m_far, B("i") }); m_rx = H(16, { B("k"), m_near, m_far, B("r") });
		return true;
	}
	bool generateResponderKeyingComponent(std::shared_ptr<CryptoCert> initiator, const uint8_t *c, size_t n, Bytes *out) override
	{
		if(n != 17 or c[0] != 'I') return false;
		m_far.assign(c + 1, c + n);
		m_rx = H(16, { B("k"), m_far, m_near, B("i") }); m_tx = H(16, { B("k"), m_far, m_near, B("r") });
		*out = B("R"); out->insert(out->end(), m_near.begin(), m_near.end());
		return true;
	}
	Bytes m_near, m_far, m_tx, m_rx;
};

class SimCrypto : public ICryptoAdapter {
public:
	SimCrypto(const std::string &name, const std::string &ver = "1") : m_name(name), m_ver(ver) {}
	Bytes rnd(size_t n) { m_ctr++; return H(n, { B("rnd"), B(m_name), B(m_ver), B(fmt("%lu", m_ctr)) }); }
	std::shared_ptr<SessionCryptoKey> getKeyForNewSession() override { auto k = share_ref(new SimKey(rnd(16)), false); keys.push_back(k); return k; }
	Bytes cert() const { return B(m_kind + "|" + m_name + "|" + m_ver); }
	Bytes getNearEncodedCertForEPD(const uint8_t *, size_t) override { return cert(); }
	bool isSelectedByEPD(const uint8_t *epd, size_t n) override { return SimCert::sel(m_name, std::string((const char *)epd, n)); }
	Bytes sign(const uint8_t *msg, size_t n, std::shared_ptr<CryptoCert>) override { return SimCert::signature(m_signAs.empty() ? m_name : m_signAs, msg, n); }
	bool checkNearWinsGlare(std::shared_ptr<CryptoCert> far) override { return m_name < std::static_pointer_cast<SimCert>(far)->m_name; }
	std::shared_ptr<CryptoCert> decodeCertificate(const uint8_t *b, size_t n) override { Bytes e(b, b + n); if(not SimCert::ok(e)) return std::shared_ptr<CryptoCert>(); return share_ref(new SimCert(e), false); }
	void pseudoRandomBytes(uint8_t *dst, size_t n) override { Bytes r = rnd(n); memcpy(dst, r.data(), n); }
	void cryptoHash256(uint8_t *dst, const uint8_t *msg, size_t n) override { hashBytes(dst, 32, { B("h256"), Bytes(msg, msg + n) }); }
	std::string m_name, m_ver, m_signAs, m_kind = "CERT";
	unsigned long m_ctr = 0;
	std::vector<std::shared_ptr<SimKey>> keys;
};

// --- packets

struct Chunk { uint8_t type; Bytes payload; };
struct Parsed {
	uint32_t sid = 0; bool ok = false; uint8_t flags = 0; long ts = -1, tse = -1; size_t clearLen = 0;
	std::vector<Chunk> chunks;
	bool has(uint8_t t) const { for(auto &c : chunks) if(c.type == t) return true; return false; }
	int mode() const { return flags & 3; }
};
inline Parsed parsePacket(const Bytes &d)
{
	Parsed p;
	if(d.size() < 4 + TAGLEN + 1) return p;
	uint32_t w[3]; memcpy(w, d.data(), 12); p.sid = w[0] ^ w[1] ^ w[2];
	const uint8_t *c = d.data() + 4 + TAGLEN, *lim = d.data() + d.size();
	p.clearLen = lim - c;
	p.flags = *c++;
	if(p.flags & HEADER_FLAG_TS) { if(lim - c < 2) return p; p.ts = c[0] << 8 | c[1]; c += 2; }
	if(p.flags & HEADER_FLAG_TSE) { if(lim - c < 2) return p; p.tse = c[0] << 8 | c[1]; c += 2; }
	while(lim - c >= 3) { size_t n = c[1] << 8 | c[2]; if(n > size_t(lim - c - 3)) break; p.chunks.push_back({ c[0], Bytes(c + 3, c + 3 + n) }); c += 3 + n; }
	p.ok = true;
	return p;
}
inline Bytes chunk(uint8_t type, const Bytes &payload) { Bytes r { type, uint8_t(payload.size() >> 8), uint8_t(payload.size()) }; r.insert(r.end(), payload.begin(), payload.end()); return r; }
inline Bytes cat(const std::vector<Bytes> &v) { Bytes r; for(auto &b : v) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes vlu(uintmax_t v) { Bytes r; Bytes t; do { t.push_back(v & 0x7f); v >>= 7; } while(v); for(size_t i = t.size(); i--; ) r.push_back(t[i] | (i ? 0x80 : 0)); return r; }
// Compose a packet: session id, key, header bytes (flags, timestamps), chunks
inline Bytes makePacket(uint32_t sid, const Bytes &key, const Bytes &clear)
{
	Bytes tag = H(TAGLEN, { key, clear });
	uint32_t w[3] = { 0, 0, 0 }; memcpy(w + 1, tag.data(), 8); w[0] = sid ^ w[1] ^ w[2];
	Bytes r((uint8_t *)w, (uint8_t *)w + 4); r.insert(r.end(), tag.begin(), tag.end()); r.insert(r.end(), clear.begin(), clear.end());
	return r;
}
struct Rd { // own VLU reader for wire monitors
	const uint8_t *c, *lim; bool ok = true;
	Rd(const Bytes &b) : c(b.data()), lim(b.data() + b.size()) {}
	uintmax_t vlu() { uintmax_t v = 0; while(ok) { if(c >= lim) { ok = false; break; } uint8_t x = *c++; v = v << 7 | (x & 0x7f); if(not (x & 0x80)) break; } return v; }
	uint8_t u8() { if(c >= lim) { ok = false; return 0; } return *c++; }
	Bytes rest() { return Bytes(c, lim); }
	Bytes take(size_t n) { if(size_t(lim - c) < n) { ok = false; return Bytes(); } Bytes r(c, c + n); c += n; return r; }
};
struct UserData { uint8_t flags = 0; uintmax_t flow = 0, sn = 0, fsn = 0; Bytes opts, data; bool hasMeta = false, hasAssoc = false; Bytes meta; uintmax_t assoc = 0; };
// decode all user data chunks of a packet (including NEXT)
inline std::vector<UserData> userData(const Parsed &p)
{
	std::vector<UserData> r; UserData prev; bool have = false;
	for(auto &c : p.chunks)
	{
		if(c.type != CHUNK_USERDATA and c.type != CHUNK_NEXT_USERDATA) continue;
		Rd rd(c.payload); UserData u; u.flags = rd.u8();
		if(c.type == CHUNK_USERDATA) { u.flow = rd.vlu(); u.sn = rd.vlu(); uintmax_t o = rd.vlu(); u.fsn = u.sn - o; }
		else { if(not have) continue; u.flow = prev.flow; u.sn = prev.sn + 1; u.fsn = prev.fsn; }
		if(u.flags & USERDATA_FLAG_OPT)
			while(rd.ok)
			{
				uintmax_t l = rd.vlu(); if(0 == l) break;
				Bytes o = rd.take(l); Rd ro(o); uintmax_t t = ro.vlu();
				if(t == USERDATA_OPTION_METADATA) { u.hasMeta = true; u.meta = ro.rest(); }
				if(t == USERDATA_OPTION_RETURN_ASSOCIATION) { u.hasAssoc = true; u.assoc = ro.vlu(); }
			}
		u.data = rd.rest();
		prev = u; have = true; r.push_back(u);
	}
	return r;
}
struct AckInfo { uintmax_t flow = 0, blocks = 0, csn = 0; std::vector<std::pair<uintmax_t, uintmax_t>> ranges; };
inline std::vector<AckInfo> acks(const Parsed &p)
{
	std::vector<AckInfo> r;
	for(auto &c : p.chunks)
	{
		if(c.type != CHUNK_ACK_RANGES) continue;
		Rd rd(c.payload); AckInfo a; a.flow = rd.vlu(); a.blocks = rd.vlu(); a.csn = rd.vlu();
		uintmax_t cur = a.csn;
		while(rd.c < rd.lim) { uintmax_t h = rd.vlu(), n = rd.vlu(); if(not rd.ok) break; uintmax_t from = cur + h + 2, to = from + n; a.ranges.push_back({ from, to }); cur = to; }
		r.push_back(a);
	}
	return r;
}

struct Pkt { double at = 0, sentAt = 0; uint64_t id = 0; Address src, dst; Bytes data; int tos = 0; int from = -1; };

class Sim;

class Host : public IPlatformAdapter {
public:
	Host(Sim *s, int idx, const std::string &name, const std::string &addr, const std::string &ver) : sim(s), idx(idx), name(name), crypto(new SimCrypto(name, ver))
	{
		address.setFromPresentation(addr.c_str());
	}
	ICryptoAdapter *altCrypto = nullptr; // instead of the transparent one
	void start() { rtmfp.reset(new RTMFP(this, altCrypto ? altCrypto : crypto.get())); rtmfp->addInterface(1); up = true; }
	Time getCurrentTime() override;
	bool notifyWhenInterfaceWritable(int id, const std::function<bool(void)> &f) override { writers.push_back(f); return true; }
	bool writePacket(const void *bytes, size_t len, int id, const struct sockaddr *addr, socklen_t alen, int tos) override;
	bool perform(unsigned long thread, const Task &task) override;
	void onShutdownComplete() override;
	void onHowLongToSleepDidChange() override { sleepChanges++; }

	Sim *sim; int idx; std::string name; Address address;
	std::unique_ptr<SimCrypto> crypto; std::unique_ptr<RTMFP> rtmfp;
	bool up = false; bool muted = false;
	std::list<std::function<bool(void)>> writers;
	struct T { double at; uint64_t seq; unsigned long thread; Task task; };
	std::list<T> tasks; std::map<unsigned long, double> threadBusy;
	int shutdownCompletes = 0; double shutdownAt = -1; unsigned long sleepChanges = 0;
};

class Sim {
public:
	Sim(Ctx &c) : ctx(c) {}
	~Sim() { teardown(); }
	Ctx &ctx;
	double now = 1000; double latency = 0.025;
	uint64_t nextId = 1, steps = 0, maxSteps = 400000, seq = 0;
	std::vector<std::unique_ptr<Host>> hosts;
	std::vector<Pkt> net; // in flight
	std::map<Address, int> route; // delivery overrides (NAT etc.)
	struct Ev { double at; uint64_t seq; std::function<void()> f; };
	std::list<Ev> script;
	// network policy: fill delays of the copies to deliver. default: one copy, no extra delay
	std::function<void(Pkt &, std::vector<double> &)> policy;
	std::vector<std::function<void(const Pkt &)>> onSend, onDeliver;
	std::vector<std::function<void()>> onStep;
	std::function<void(Hash &)> fingerprint;
	std::function<double(Host &, unsigned long)> taskDelay; // extra delay for a task of a non-zero thread
	bool tearing = false;
	std::string trace;

	Host &add(const std::string &name, const std::string &addr, const std::string &ver = "1", bool start = true)
	{
		hosts.emplace_back(new Host(this, (int)hosts.size(), name, addr, ver));
		Host &h = *hosts.back(); route[h.address] = h.idx;
		if(start) h.start();
		return h;
	}
	void at(double t, const std::function<void()> &f) { script.push_back({ t, seq++, f }); }
	void after(double d, const std::function<void()> &f) { at(now + d, f); }

	void send(Host &h, const Bytes &d, const Address &dst, int tos)
	{
		Pkt p; p.sentAt = now; p.id = nextId++; p.src = h.address; p.dst = dst; p.data = d; p.tos = tos; p.from = h.idx;
		for(auto &f : onSend) f(p);
		if(ctx.verbose) ctx.log("%.4f  %s -> %s  #%lu %s", now, h.name.c_str(), dst.toPresentation().c_str(), p.id, describe(p).c_str());
		if(h.muted) return;
		std::vector<double> delays { 0 };
		if(policy and not tearing) policy(p, delays);
		for(double e : delays) { Pkt q(p); q.at = now + latency + e; net.push_back(q); }
		if(ctx.verbose and (delays.size() != 1 or delays[0] != 0)) ctx.log("        %s", delays.empty() ? "** DROPPED" : fmt("** copies=%zu delay=+%.3f", delays.size(), delays.back()).c_str());
	}
	void inject(const Bytes &d, const Address &src, const Address &dst, double delay, int tos = 0)
	{
		Pkt p; p.sentAt = now; p.id = nextId++; p.src = src; p.dst = dst; p.data = d; p.tos = tos; p.at = now + delay; net.push_back(p);
		if(ctx.verbose) ctx.log("%.4f  INJECT %s -> %s #%lu %s", now, src.toPresentation().c_str(), dst.toPresentation().c_str(), p.id, describe(p).c_str());
	}
	static std::string describe(const Pkt &p)
	{
		auto q = parsePacket(p.data);
		std::string s = fmt("sid=%u f=%02x len=%zu", q.sid, q.flags, p.data.size());
		for(auto &c : q.chunks)
		{
			s += fmt(" %02x", c.type);
			if(c.type == CHUNK_ACK_RANGES or c.type == CHUNK_EXCEPTION) { Parsed one; one.chunks.push_back(c); for(auto &a : acks(one)) { s += fmt("[f%lu w%lu c%lu", (long)a.flow, (long)a.blocks, (long)a.csn); for(auto &r : a.ranges) s += fmt(" %lu-%lu", (long)r.first, (long)r.second); s += "]"; } }
		}
		for(auto &u : userData(q)) s += fmt(" {f%lu sn%lu fsn%lu fl%02x %zub}", (long)u.flow, (long)u.sn, (long)u.fsn, u.flags, u.data.size());
		return s;
	}

	// run all immediate work
	void drain()
	{
		bool any = true;
		while(any and not ctx.failed())
		{
			any = false;
			for(auto &hp : hosts)
			{
				Host &h = *hp;
				if(not h.up) continue;
				for(auto it = h.tasks.begin(); it != h.tasks.end(); )
				{
					if(it->at > now) { ++it; continue; }
					auto t = it->task; h.tasks.erase(it); t(); any = true; tick();
					it = h.tasks.begin();
					if(ctx.failed()) return;
				}
				for(auto it = h.writers.begin(); it != h.writers.end(); )
				{
					auto f = *it; // copy: the callback may register another
					bool more = f();
					if(not more) it = h.writers.erase(it); else ++it;
					any = true; tick();
				}
			}
		}
	}
	void tick()
	{
		if(++steps > maxSteps) ctx.fail("livelock: more than %lu steps without finishing (virtual time %.3f)", (unsigned long)maxSteps, now);
	}
	// next event time, or INFINITY
	double nextTime()
	{
		double t = INFINITY;
		for(auto &p : net) t = std::min(t, p.at);
		for(auto &e : script) t = std::min(t, e.at);
		for(auto &h : hosts)
			if(h->up)
			{
				for(auto &k : h->tasks) t = std::min(t, k.at);
				double s = h->rtmfp->howLongToSleep();
				if(std::isfinite(s)) t = std::min(t, s <= 0 ? now : now + s + 1e-7);
			}
		return t;
	}
	// one event; false if nothing is left before limit
	bool stepOnce(double limit)
	{
		drain();
		double t = nextTime();
		if(not (t <= limit) or ctx.failed()) return false;
		if(t > now) now = t;
		tick();
		// script first, then packets, then timers
		for(auto it = script.begin(); it != script.end(); ++it)
			if(it->at <= now) { auto best = it; for(auto j = script.begin(); j != script.end(); ++j) if(j->at < best->at) best = j; auto f = best->f; script.erase(best); f(); after_(); return true; }
		size_t bi = net.size();
		for(size_t i = 0; i < net.size(); i++) if(net[i].at <= now and (bi == net.size() or net[i].at < net[bi].at)) bi = i;
		if(bi < net.size())
		{
			Pkt p = net[bi]; net.erase(net.begin() + bi);
			deliver(p); after_(); return true;
		}
		for(auto &h : hosts) if(h->up and h->rtmfp->howLongToSleep() <= 0) h->rtmfp->doTimerWork();
		after_();
		return true;
	}
	void deliver(const Pkt &p)
	{
		auto it = route.find(p.dst);
		if(it == route.end() or it->second < 0) return;
		Host &h = *hosts[it->second];
		if(not h.up or h.muted) return;
		for(auto &f : onDeliver) f(p);
		struct Unguard { ~Unguard() { tailGuard().clear(); } } unguard;
		h.rtmfp->onReceivePacket(p.data.data(), p.data.size(), 1, p.src.getSockaddr(), p.tos);
	}
	void after_()
	{
		drain();
		for(auto &f : onStep) f();
		ctx.step();
		Hash h;
		for(auto &p : net) { h.bytes(p.data.data(), p.data.size()); h.mix(p.dst.getPort()); }
		if(fingerprint) fingerprint(h);
		ctx.state(h.h);
	}
	void run(double until) { while(not ctx.failed() and stepOnce(until)) { } if(not ctx.failed()) { drain(); if(now < until and std::isfinite(until)) now = until; } }
	bool runUntil(const std::function<bool()> &pred, double until)
	{
		while(not ctx.failed())
		{
			drain();
			if(pred()) return true;
			if(not stepOnce(until)) return pred();
		}
		return false;
	}
	std::vector<std::function<void()>> atTeardown;
	void teardown()
	{
		if(tearing) return;
		tearing = true; policy = nullptr; onSend.clear(); onDeliver.clear(); onStep.clear(); fingerprint = nullptr; script.clear();
		for(auto &f : atTeardown) f();
		for(auto &h : hosts) if(h->rtmfp) { h->up = true; h->rtmfp->shutdown(true); }
		ctx.m_failure.swap(stash); steps = 0;
		for(int i = 0; i < 3; i++) { net.clear(); drain(); }
		ctx.m_failure.swap(stash);
		net.clear();
		for(auto &h : hosts) { h->tasks.clear(); h->writers.clear(); }
		hosts.clear();
	}
	std::string stash;
};

inline Time Host::getCurrentTime() { return sim->now; }
inline bool Host::writePacket(const void *bytes, size_t len, int id, const struct sockaddr *addr, socklen_t alen, int tos)
{
	const uint8_t *b = (const uint8_t *)bytes;
	sim->send(*this, Bytes(b, b + len), Address(addr), tos);
	return true;
}
inline bool Host::perform(unsigned long thread, const Task &task)
{
	double at = sim->now;
	if(thread and sim->taskDelay and not sim->tearing) at += sim->taskDelay(*this, thread);
	if(thread) { at = std::max(at, threadBusy[thread]); threadBusy[thread] = at; }
	tasks.push_back({ at, sim->seq++, thread, task });
	return true;
}
inline void Host::onShutdownComplete()
{
	shutdownCompletes++; shutdownAt = sim->now;
	if(shutdownCompletes > 1 and not sim->tearing) sim->ctx.fail("shutdown completion reported %d times on %s", shutdownCompletes, name.c_str());
}

// --- application helpers

inline Bytes payload(int flow, int idx, size_t len)
{
	Bytes r(len);
	uint64_t x = 0x9e3779b97f4a7c15ull * (flow * 1000003ull + idx * 7919ull + 1);
	for(size_t i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; r[i] = uint8_t(x >> 11); }
	return r;
}

struct RxMsg { Bytes data; uintmax_t sn; size_t frags; double at; };
struct Rx { // a received flow as seen by the application
	std::shared_ptr<RecvFlow> flow; Bytes meta; int host; std::vector<RxMsg> msgs; int completes = 0; int errors = 0; double completeAt = -1; int merges = 0; bool closedByApp = false;
	std::shared_ptr<SendFlow> assoc;
};
struct Tx { // a sent flow
	std::shared_ptr<SendFlow> flow; int id; int host; std::vector<Bytes> msgs; std::vector<std::shared_ptr<WriteReceipt>> receipts; std::vector<int> finished, finishedAbandoned; int exceptions = 0; uintmax_t reason = 0; double exceptionAt = -1; bool closed = false;
};

class App {
public:
	App(Sim &s) : sim(s)
	{
		sim.fingerprint = [this] (Hash &h) {
			for(auto &t : tx) if(t->flow) { h.mix(t->flow->getBufferedSize()); h.mix(t->flow->getOutstandingBytes()); h.mix(t->flow->isOpen() * 2 + t->flow->isWritable()); h.mix(t->flow->getCongestionWindow()); h.mix(t->exceptions); h.mix(t->flow->getRecvBufferBytesAvailable()); }
			for(auto &r : rx) { h.mix(r->msgs.size()); h.mix(r->flow->getBufferedSize()); h.mix(r->flow->getCumulativeAckSequenceNumber()); h.mix(r->flow->getForwardSequenceNumber()); h.mix(r->completes * 3 + r->errors); }
		};
		sim.atTeardown.push_back([this] {
			for(auto &r : rx) forget(r);
			for(auto &t : tx) if(t->flow) { for(auto &w : t->receipts) if(w) w->onFinished = nullptr; t->flow->onWritable = nullptr; t->flow->onException = nullptr; t->flow->onRecvFlow = nullptr; t->flow->close(); t->receipts.clear(); }
			for(auto &h : sim.hosts) if(h->rtmfp) { h->rtmfp->onRecvFlow = nullptr; h->rtmfp->onUnmatchedIHello = nullptr; h->rtmfp->onUnmatchedRHello = nullptr; }
			rx.clear(); tx.clear();
		});
	}
	~App() { sim.teardown(); }
	void forget(std::unique_ptr<Rx> &r) { r->flow->onMessage = nullptr; r->flow->onComplete = nullptr; r->flow->onCumulativeAckDidMerge = nullptr; r->flow->onFarAddressDidChange = nullptr; r->flow->close(); }
	void forgetRx() { for(auto &r : rx) forget(r); rx.clear(); }
	Sim &sim;
	std::vector<std::unique_ptr<Rx>> rx; std::vector<std::unique_ptr<Tx>> tx;
	std::function<void(Rx &)> onNew; // configure on arrival (order, buffer...)
	std::function<void(Rx &, RxMsg &)> onMsg;

	Rx &accept(int host, std::shared_ptr<RecvFlow> f)
	{
		rx.emplace_back(new Rx); Rx *r = rx.back().get();
		r->flow = f; r->meta = f->getMetadata(); r->host = host; r->assoc = f->getAssociatedSendFlow();
		f->accept();
		f->onMessage = [this, r] (const uint8_t *b, size_t n, uintmax_t sn, size_t frags) {
			r->msgs.push_back({ Bytes(b, b + n), sn, frags, sim.now });
			sim.ctx.count("messages delivered");
			if(sim.ctx.verbose) sim.ctx.log("%.4f  * %s: flow '%s' message #%zu sn=%lu frags=%zu len=%zu", sim.now, sim.hosts[r->host]->name.c_str(), S(r->meta).c_str(), r->msgs.size() - 1, (unsigned long)sn, frags, n);
			if(r->completes) sim.ctx.fail("message delivered after completion on flow '%s'", S(r->meta).c_str());
			if(r->closedByApp) sim.ctx.fail("message delivered on closed flow '%s'", S(r->meta).c_str());
			if(onMsg) onMsg(*r, r->msgs.back());
		};
		f->onComplete = [this, r] (bool error) {
			r->completes++; if(error) r->errors++; r->completeAt = sim.now;
			if(sim.ctx.verbose) sim.ctx.log("%.4f  * %s: flow '%s' complete error=%d", sim.now, sim.hosts[r->host]->name.c_str(), S(r->meta).c_str(), error);
			if(r->completes > 1) sim.ctx.fail("completion signalled twice on flow '%s'", S(r->meta).c_str());
			if(r->closedByApp) sim.ctx.fail("completion signalled on closed flow '%s'", S(r->meta).c_str());
		};
		f->onCumulativeAckDidMerge = [r] { r->merges++; };
		if(onNew) onNew(*r);
		return *r;
	}
	void acceptAll(Host &h) { int i = h.idx; h.rtmfp->onRecvFlow = [this, i] (std::shared_ptr<RecvFlow> f) { accept(i, f); }; }
	Tx &wrap(int host, std::shared_ptr<SendFlow> f)
	{
		tx.emplace_back(new Tx); Tx *t = tx.back().get(); t->flow = f; t->id = (int)tx.size() - 1; t->host = host;
		if(f) f->onException = [this, t] (uintmax_t reason) {
			t->exceptions++; t->reason = reason; t->exceptionAt = sim.now;
			if(sim.ctx.verbose) sim.ctx.log("%.4f  * flow %d exception %lu", sim.now, t->id, (unsigned long)reason);
			if(t->exceptions > 1) sim.ctx.fail("exception signalled twice on flow %d", t->id);
			if(t->closed) sim.ctx.fail("exception signalled on closed flow %d", t->id);
		};
		return *t;
	}
	Tx &open(Host &h, const std::string &epd, const std::string &meta, const Address *to = nullptr, Priority pri = PRI_ROUTINE)
	{
		auto f = h.rtmfp->openFlow(B(epd), B(meta), pri);
		if(f and to) f->addCandidateAddress(*to);
		return wrap(h.idx, f);
	}
	std::shared_ptr<WriteReceipt> write(Tx &t, size_t len, Duration startWithin = INFINITY, Duration finishWithin = INFINITY)
	{
		int idx = (int)t.msgs.size();
		Bytes b = payload(t.id, idx, len);
		auto r = t.flow->write(b, startWithin, finishWithin);
		if(not r) return r;
		t.msgs.push_back(b); t.receipts.push_back(r); t.finished.push_back(0); t.finishedAbandoned.push_back(0);
		Tx *tp = &t;
		r->onFinished = [this, tp, idx] (bool abandoned) {
			tp->finished[idx]++; if(abandoned) tp->finishedAbandoned[idx]++;
			if(sim.ctx.verbose) sim.ctx.log("%.4f  * receipt flow %d msg %d finished abandoned=%d", sim.now, tp->id, idx, abandoned);
			if(tp->finished[idx] > 1) sim.ctx.fail("receipt of message %d on flow %d finished twice", idx, tp->id);
		};
		return r;
	}
	void close(Tx &t) { t.closed = true; t.flow->close(); }
	Rx *find(const std::string &meta, int host = -1) { for(auto &r : rx) if(S(r->meta) == meta and (host < 0 or r->host == host)) return r.get(); return nullptr; }
};

// packet fault choices: for the first `window` packets matching `match`, choose among the listed faults
enum Fault { F_DROP, F_DUP, F_DELAY_SHORT, F_DELAY_LONG, F_DUP_LATE, F_CE };
struct FaultPlan {
	int window = 40, skip = 0; std::vector<Fault> faults { F_DROP, F_DUP, F_DELAY_SHORT, F_DELAY_LONG };
	int seen = 0; int cost = 1; std::function<bool(const Pkt &)> match;
	double shortDelay = 0.011, longDelay = 1.37, dupDelay = 0.004, dupLate = 2.7;
	void install(Sim &s)
	{
		auto self = this; Ctx *ctx = &s.ctx;
		s.policy = [self, ctx] (Pkt &p, std::vector<double> &d) { self->apply(*ctx, p, d); };
	}
	void apply(Ctx &ctx, Pkt &p, std::vector<double> &d)
	{
		if(match and not match(p)) return;
		int i = seen++;
		if(i < skip or i >= skip + window) return;
		int c = ctx.choose((int)faults.size() + 1, cost, "fault");
		if(0 == c) return;
		ctx.count("faults injected");
		switch(faults[c - 1])
		{
		case F_DROP: d.clear(); break;
		case F_DUP: d.push_back(dupDelay); break;
		case F_DUP_LATE: d.push_back(dupLate); break;
		case F_DELAY_SHORT: d[0] = shortDelay; break;
		case F_DELAY_LONG: d[0] = longDelay; break;
		case F_CE: if(p.tos & 3) p.tos |= 3; break; // only ECN-capable packets can be marked
		}
	}
};

} // namespace sim
