#pragma once
// Shared flow scripts and end-to-end oracles for the simulation checks.
#include "sim.hpp"

namespace sim {

inline bool allDelivered(App &app, const Tx &t, const std::string &meta, int host)
{
	Rx *r = app.find(meta, host);
	if(not r) return t.msgs.empty();
	return r->msgs.size() >= t.msgs.size();
}

// exact in-order delivery of everything written on t (nothing abandoned)
inline void checkExact(Ctx &ctx, App &app, const Tx &t, const std::string &meta, int host)
{
	Rx *r = app.find(meta, host);
	if(t.msgs.empty() and not r) return;
	ctx.require(r, "flow '%s' never arrived although %zu messages were written", meta.c_str(), t.msgs.size());
	for(size_t i = 0; i < r->msgs.size() and i < t.msgs.size(); i++)
		ctx.require(r->msgs[i].data == t.msgs[i], "flow '%s' delivery %zu differs from what was written (%zu bytes, expected %zu)", meta.c_str(), i, r->msgs[i].data.size(), t.msgs[i].size());
	ctx.require(r->msgs.size() == t.msgs.size(), "flow '%s' delivered %zu messages of %zu written", meta.c_str(), r->msgs.size(), t.msgs.size());
	uintmax_t sn = 0;
	for(auto &m : r->msgs)
	{
		ctx.require(m.sn > sn, "flow '%s' sequence numbers not increasing", meta.c_str());
		ctx.require(m.frags >= 1 and m.frags >= m.data.size() / 1200, "flow '%s' untruthful fragment count %zu for %zu bytes", meta.c_str(), m.frags, m.data.size());
		sn = m.sn + m.frags - 1;
	}
	for(size_t i = 1; i < r->msgs.size(); i++)
		ctx.require(r->msgs[i].sn == r->msgs[i - 1].sn + r->msgs[i - 1].frags, "flow '%s' fragment count of message %zu (%zu) does not match the sequence numbers", meta.c_str(), i - 1, r->msgs[i - 1].frags);
}

// in-progress check: what has been delivered so far is a prefix of what was written
inline void checkPrefix(Ctx &ctx, App &app, const Tx &t, const std::string &meta, int host)
{
	Rx *r = app.find(meta, host);
	if(not r) return;
	if(r->msgs.size() > t.msgs.size()) { ctx.fail("flow '%s' delivered more messages than were written", meta.c_str()); return; }
	if(not r->msgs.empty() and r->msgs.back().data != t.msgs[r->msgs.size() - 1])
		ctx.fail("flow '%s' delivery %zu is not message %zu as written", meta.c_str(), r->msgs.size() - 1, r->msgs.size() - 1);
}

} // namespace sim

namespace sim {

// A session whose initiator ("alice") is impersonated by the harness after the handshake: raw chunks with the real
// session key are delivered straight to "bob", and bob's answers are captured.
struct RawPeer {
	Sim &s; Host &a, &b; App &app;
	uint32_t bobSid = 0, aliceSid = 0; Bytes key; // session number to reach bob / alice
	std::vector<Parsed> out; // packets bob sent since the last clear()
	std::shared_ptr<SendFlow> opener;
	RawPeer(Sim &s, App &app, Host &a, Host &b, bool muteAlice = true) : s(s), a(a), b(b), app(app)
	{
		s.onSend.push_back([this, &a, &b] (const Pkt &p) {
			auto q = parsePacket(p.data);
			if(p.from == a.idx and q.sid and q.mode() == HEADER_MODE_INITIATOR) bobSid = q.sid;
			if(p.from == b.idx) { out.push_back(q); if(q.sid) aliceSid = q.sid; }
		});
		opener = a.rtmfp->openFlow(B(b.name), B("opener"));
		opener->addCandidateAddress(b.address);
		s.runUntil([&] { return opener->isWritable(); }, s.now + 20);
		if(not opener->isWritable()) s.ctx.require(false, "handshake on a perfect network did not open the session");
		// make alice send something so that bob's session number is known: a ping-free way is one small message
		opener->write(B("x"));
		s.runUntil([&] { return bobSid != 0 and s.net.empty(); }, s.now + 5);
		for(auto &k : a.crypto->keys) if(not k->m_far.empty()) key = k->m_tx;
		if(muteAlice) { a.muted = true; s.net.clear(); }
		out.clear();
	}
	void clear() { out.clear(); }
	// deliver chunks to bob right now
	void raw(const Bytes &chunks, uint8_t flags = HEADER_MODE_INITIATOR)
	{
		Bytes c { flags }; c.insert(c.end(), chunks.begin(), chunks.end());
		Pkt p; p.src = a.address; p.dst = b.address; p.data = makePacket(bobSid, key, c);
		if(s.ctx.verbose) s.ctx.log("RAW %s", Sim::describe(p).c_str());
		s.deliver(p); s.drain(); s.net.clear(); s.ctx.step();
	}
	static Bytes dataChunk(uintmax_t flow, uintmax_t sn, uintmax_t fsnOff, uint8_t flags, const Bytes &data, const Bytes &opts = Bytes())
	{
		Bytes p { uint8_t(flags | (opts.empty() ? 0 : USERDATA_FLAG_OPT)) };
		for(auto &x : { vlu(flow), vlu(sn), vlu(fsnOff), opts, data }) p.insert(p.end(), x.begin(), x.end());
		return chunk(CHUNK_USERDATA, p);
	}
	static Bytes metaOpt(const std::string &meta) { Bytes o = vlu(1 + meta.size()); o.push_back(USERDATA_OPTION_METADATA); o.insert(o.end(), meta.begin(), meta.end()); o.push_back(0); return o; }
};

// Reference reassembler.  Independent of the implementation: a message is a begin, consecutive middles and an end.
struct RefRecv {
	struct Frag { uint8_t fra; Bytes data; bool used = false; };
	std::map<uintmax_t, Frag> got; std::set<uintmax_t> seq; uintmax_t fsn = 0; bool finSeen = false; uintmax_t finSn = 0;
	uintmax_t csn() const { uintmax_t c = fsn; for(;;) { if(seq.count(c + 1)) c++; else break; } return c; }
	bool have(uintmax_t sn) const { return sn <= fsn or seq.count(sn); }
	std::vector<std::pair<uintmax_t, uintmax_t>> ranges() const // above the cumulative range
	{
		std::vector<std::pair<uintmax_t, uintmax_t>> r; uintmax_t c = csn();
		for(auto sn : seq) { if(sn <= c) continue; if(not r.empty() and r.back().second + 1 == sn) r.back().second = sn; else r.push_back({ sn, sn }); }
		return r;
	}
	bool complete() const { return finSeen and ranges().empty(); }
	// returns true if the fragment's data was accepted
	bool arrive(uintmax_t sn, uintmax_t f, uint8_t flags, const Bytes &d)
	{
		bool wasComplete = complete();
		bool fresh = not have(sn);
		if(fresh and (flags & USERDATA_FLAG_FIN) and not finSeen) { finSeen = true; finSn = sn; }
		if(f > fsn) fsn = f;
		seq.insert(sn);
		if(fresh and not (flags & USERDATA_FLAG_ABN) and not wasComplete) { got[sn] = Frag { uint8_t(flags & USERDATA_FLAG_FRA_MASK), d }; return true; }
		return false;
	}
	// the message starting at sn, if complete: last sn or 0
	uintmax_t runEnd(uintmax_t sn) const
	{
		auto it = got.find(sn);
		if(it == got.end()) return 0;
		if(it->second.fra == USERDATA_FRA_WHOLE) return sn;
		if(it->second.fra != USERDATA_FRA_BEGIN) return 0;
		for(;;)
		{
			++it; sn++;
			if(it == got.end() or it->first != sn) return 0;
			if(it->second.fra == USERDATA_FRA_END) return sn;
			if(it->second.fra != USERDATA_FRA_MIDDLE) return 0;
		}
	}
	Bytes runData(uintmax_t from, uintmax_t to) const { Bytes r; for(auto i = from; i <= to; i++) { auto &d = got.at(i).data; r.insert(r.end(), d.begin(), d.end()); } return r; }
};

} // namespace sim
