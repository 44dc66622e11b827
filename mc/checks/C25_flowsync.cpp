// C25: every interleaving of barrier messages, data, resets and closes over up to three flows of one session, the receiving
// application driving the real FlowSyncManager from its message callbacks; judged against a reference at every delivery.
#include "flows.hpp"
#include "seq.hpp"
#include "rtmfp/FlowSyncManager.hpp"
using namespace sim;
using mc::Inner; using mc::explore; using mc::need; using mc::fmt;

struct Item { int kind; uint32_t id; size_t count; }; // kind 0 data, 1 barrier
typedef std::vector<Item> Script;

struct World {
	RawPeer &p; Inner &in; uintmax_t base; std::shared_ptr<FlowSyncManager> mgr = share_ref(new FlowSyncManager(), false);
	struct F { uintmax_t id; Script script; size_t sent = 0, got = 0; bool network = false, closed = false; long heldBy = -1; Rx *rx = nullptr; bool finSent = false, completed = false; std::set<uintmax_t> seen; };
	std::vector<F> fl; std::map<uint32_t, std::vector<int> > bar; std::string err;
	World(RawPeer &p, Inner &in, uintmax_t base) : p(p), in(in), base(base) {}
	~World() { mgr.reset(); }
	void fail(const std::string &e) { if(err.empty()) err = e; }
	Bytes bytes(int f, size_t i)
	{
		auto &it = fl[f].script[i];
		if(it.kind == 1) return FlowSyncManager::makeSyncMessage(it.id, it.count);
		Bytes b = B(fmt("data %d %zu", f, i)); b[0] = 8; return b;
	}
	void release(uint32_t id) { for(int f : bar[id]) if(fl[f].heldBy == (long)id) fl[f].heldBy = -1; bar.erase(id); }
	void onMsg(int f, const Bytes &b, uintmax_t sn)
	{
		auto &me = fl[f];
		in.log("[%d gets %ju]", f, sn);
		if(me.heldBy >= 0) fail(fmt("flow %d delivered message %ju while suspended by barrier %ld", f, sn, me.heldBy));
		if(sn == 0 or sn > me.sent) { fail("a message that was not sent"); return; }
		if(not me.network and sn != me.got + 1) fail(fmt("flow %d delivered message %ju after %zu", f, sn, me.got));
		if(not me.seen.insert(sn).second) fail("delivered twice");
		me.got++;
		if(b != bytes(f, sn - 1)) fail("content changed");
		uint32_t id = 99; size_t count = 99; size_t used = FlowSyncManager::parse(b.data(), b.size(), id, count); auto &it = me.script[sn - 1];
		if((used != 0) != (it.kind == 1)) { fail("recognised the wrong messages as synchronisation messages"); return; }
		if(not used) return;
		if(id != it.id or count != it.count) { fail(fmt("barrier %u of %zu read back as %u of %zu", it.id, it.count, id, count)); return; }
		// reference first (the flow is suspended by the call)
		bool complete = bar[id].size() + 1 >= count;
		bool was = me.heldBy >= 0;
		if(complete) release(id); else { bar[id].push_back(f); if(not me.network and not was) me.heldBy = (long)id; }
		bool r = mgr->sync(id, count, me.rx->flow);
		if(r != complete) fail(fmt("sync() answered %d for participant %zu of %zu", r, bar[id].size(), count));
	}
	void deliver(int f, bool fin)
	{
		auto &me = fl[f]; bool first = me.sent == 0;
		Bytes d = bytes(f, me.sent); me.sent++;
		in.log("%s%d", fin ? "last of " : "send ", f);
		Bytes c = RawPeer::dataChunk(me.id, me.sent, me.sent - (me.network ? 0 : me.sent - 1), USERDATA_FRA_WHOLE | (fin ? USERDATA_FLAG_FIN : 0), d, first ? RawPeer::metaOpt("f") : Bytes());
		if(first) p.app.onNew = [this, f] (Rx &r) { fl[f].rx = &r; if(fl[f].network) r.flow->setReceiveOrder(RO_NETWORK); };
		p.clear(); p.raw(c);
		settle();
	}
	void settle()
	{
		if(p.s.ctx.failed()) fail(p.s.ctx.m_failure);
		if(not err.empty()) throw Violation{err};
		for(int f = 0; f < (int)fl.size(); f++)
		{
			auto &me = fl[f];
			if(not me.rx) continue;
			if(me.closed) continue;
			if(me.heldBy < 0) need(me.got == me.sent, fmt("flow %d is not suspended but %zu of %zu messages were delivered", f, me.got, me.sent));
			if(not me.rx->completes) need((RO_HOLD == me.rx->flow->getReceiveOrder()) == (me.heldBy >= 0), fmt("flow %d: receive order does not match suspension (%ld)", f, me.heldBy));
		}
	}
	typedef mc::Violation Violation;
};

static void setup(Ctx &ctx, const std::function<void(RawPeer &, App &)> &f)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	app.acceptAll(b);
	RawPeer peer(s, app, a, b); app.forgetRx();
	f(peer, app);
}

static const std::vector<std::vector<Script> > &sets()
{
	static const Item D { 0, 0, 0 };
	auto S = [] (uint32_t id, size_t n) { return Item { 1, id, n }; };
	static const std::vector<std::vector<Script> > v = {
		{ { S(1, 2), D }, { D, S(1, 2), D } },
		{ { S(1, 3), D }, { S(1, 3), D }, { D, S(1, 3), D } },
		{ { S(1, 2), D }, { S(2, 2), D }, { S(1, 2), S(2, 2) } },          // two barriers, one participant in both
		{ { S(1, 2), D, S(1, 2) }, { S(1, 2), S(1, 2), D } },                 // an identifier used again
		{ { S(1, 2), S(2, 2), D }, { S(1, 2), S(2, 2), D } },               // barriers queued behind barriers
		{ { S(1, 2), D }, { S(1, 2), D }, { D, D, D } },                       // one not taking part
		{ { S(1, 2), D }, { S(1, 2), D }, { S(1, 2), D } },                  // more participants than counted
		{ { S(1, 1), D }, { S(1, 0), D } },                                      // alone
		{ { S(7, 2), D }, { S(7, 3), D }, { S(7, 3), D } },                  // disagreeing counts
		{ { S(1, 2), D }, { S(2, 2), D }, { S(2, 2), S(1, 2) } },
		{ { S(0xffffffffu, 0xffffffffu), D }, { S(0x80000000u, 2), D }, { S(0x80000000u, 2), D } },
		{ { S(1, 2), S(1, 2), D, D }, { D, S(1, 2), D, S(1, 2) } },
	};
	return v;
}

static void behaviour(RawPeer &p, Inner &in, int set, uintmax_t &nextFlow, int extras, bool networks)
{
	p.s.maxSteps = p.s.steps + 20000; size_t rx0 = p.app.rx.size();
	World w(p, in, nextFlow);
	auto &sc = sets()[set]; unsigned nw = networks ? 1 + in((1 << sc.size()) - 1) : 0;
	for(size_t i = 0; i < sc.size(); i++) { World::F f; f.id = nextFlow++; f.script = sc[i]; f.network = (nw >> i) & 1; w.fl.push_back(f); }
	p.app.onMsg = [&] (Rx &r, RxMsg &m) { for(int f = 0; f < (int)w.fl.size(); f++) if(w.fl[f].rx == &r) { w.onMsg(f, m.data, m.sn); return; } w.fail("a message on a flow that was not announced"); };
	int left = extras;
	for(;;)
	{
		std::vector<int> opts; // 0..2 send on flow; 10+f: the last message also ends the flow; 20+id: reset; 30+f: the receiver closes
		for(int f = 0; f < (int)w.fl.size(); f++) if(w.fl[f].sent < w.fl[f].script.size() and not w.fl[f].closed) { opts.push_back(f); if(extras and w.fl[f].sent + 1 == w.fl[f].script.size()) opts.push_back(10 + f); }
		if(opts.empty()) break;
		if(left > 0)
		{
			std::set<uint32_t> ids; for(auto &f : w.fl) for(auto &i : f.script) if(i.kind) ids.insert(i.id);
			int k = 0; for(auto id : ids) { (void)id; opts.push_back(20 + k++); }
			for(int f = 0; f < (int)w.fl.size(); f++) if(w.fl[f].rx and not w.fl[f].closed) opts.push_back(30 + f);
			opts.push_back(20 + 9); // an identifier nobody uses
		}
		int o = opts[in((int)opts.size())];
		if(o < 10) w.deliver(o, false);
		else if(o < 20) { w.deliver(o - 10, true); }
		else if(o < 30)
		{
			left--; std::set<uint32_t> ids; for(auto &f : w.fl) for(auto &i : f.script) if(i.kind) ids.insert(i.id);
			std::vector<uint32_t> v(ids.begin(), ids.end()); uint32_t id = o == 29 ? 0x1234 : v[o - 20];
			in.log("reset %u", id); w.release(id); w.mgr->reset(id); p.s.drain(); p.s.net.clear(); w.settle();
		}
		else { left--; in.log("close %d", o - 30); auto &f = w.fl[o - 30]; f.closed = true; f.rx->flow->close(); f.rx->flow->onMessage = nullptr; f.rx->flow->onComplete = nullptr; p.s.drain(); p.s.net.clear(); w.settle(); }
	}
	// forgetting the manager resumes everyone
	in.log("manager gone"); for(auto &f : w.fl) f.heldBy = -1;
	w.bar.clear(); w.mgr = share_ref(new FlowSyncManager(), false); // what is resumed may meet further barriers
	p.s.drain(); p.s.net.clear();
	w.settle();
	for(auto &f : w.fl) f.heldBy = -1;
	p.app.onMsg = nullptr; w.mgr.reset();
	for(size_t i = rx0; i < p.app.rx.size(); i++) p.app.forget(p.app.rx[i]);
	p.app.rx.erase(p.app.rx.begin() + rx0, p.app.rx.end());
	p.s.drain(); p.s.net.clear(); p.s.ctx.count("behaviours");
}

static void encoding(Inner &in)
{
	static const uint32_t vals[] = { 0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x12345678, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
	uint32_t id = vals[in(15)]; size_t count = vals[in(15)];
	Bytes m = FlowSyncManager::makeSyncMessage(id, count);
	need(m.size() == 15 and m[0] == 4 and m[5] == 0 and m[6] == 34, "the message is not a flow synchronisation event"); need(m[1] == 0 and m[2] == 0 and m[3] == 0 and m[4] == 0, "timestamp");
	auto be = [] (const uint8_t *b) { return uint32_t(b[0]) << 24 | uint32_t(b[1]) << 16 | uint32_t(b[2]) << 8 | b[3]; };
	need(be(&m[7]) == id and be(&m[11]) == count, "fields encoded wrongly");
	uint32_t i2 = id + 1; size_t c2 = count + 1;
	need(15 == FlowSyncManager::parse(m.data(), m.size(), i2, c2) and i2 == id and c2 == count, fmt("barrier %u of %zu read back as %u of %zu", id, count, i2, c2));
	for(size_t n = 0; n < 15; n++) { std::unique_ptr<uint8_t[]> h(new uint8_t[n + 1]); memcpy(h.get() + 1, m.data(), n); i2 = 77; c2 = 78; need(0 == FlowSyncManager::parse(h.get() + 1, n, i2, c2) and i2 == 77 and c2 == 78, "a truncated message was accepted"); }
	for(size_t n = 0; n < 8; n++) { std::unique_ptr<uint8_t[]> h(new uint8_t[n + 1]); memcpy(h.get() + 1, m.data() + 7, n); need(0 == FlowSyncManager::parseUserCommandPayload(h.get() + 1, h.get() + 1 + n, i2, c2), "a truncated payload was accepted"); }
	for(int k : { 0, 5, 6 }) for(int b = 0; b < 256; b++) { if(b == m[k]) continue; Bytes x = m; x[k] = b; need(0 == FlowSyncManager::parse(x.data(), x.size(), i2, c2), "another message was taken for a synchronisation message"); }
	Bytes longer = m; longer.push_back(9); need(15 == FlowSyncManager::parse(longer.data(), longer.size(), i2, c2), "trailing bytes");
	FlowSyncManager g; std::set<uint32_t> ids; for(int k = 0; k < 20; k++) { auto b = g.makeSyncMessage(count); need(15 == FlowSyncManager::parse(b.data(), b.size(), i2, c2) and c2 == count, "count of a generated barrier"); need(ids.insert(i2).second, "a generated barrier identifier was used twice"); }
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C25";
	meta.assumptions = { "the receiving application calls sync() from its message callback, as the header describes", "the simulation's crypto stands in for real cryptography" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		v.push_back({ "encoding", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { encoding(in); }); } });
		for(int set = 0; set < (int)sets().size(); set++)
		{
			auto add = [&] (const char *name, int extras, bool nets) {
				v.push_back({ fmt("%s/%d", name, set), 0, [=] (Ctx &c) {
					setup(c, [&] (RawPeer &p, App &) { uintmax_t next = 1000; explore(c, 4, [&] (Inner &in) { behaviour(p, in, set, next, extras, nets); }); });
				} });
			};
			add("interleavings", 0, false);
			add("resets-closes", th ? 2 : 1, false);
			add("arrival-order", 0, true);
			if(th) add("arrival-order-extras", 1, true);
		}
		return v;
	});
}
