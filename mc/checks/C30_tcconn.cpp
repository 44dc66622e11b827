// C30: TC connections answer every command once and route messages to the stream they name.
// Every sequence of application calls and server messages up to a depth, on the real TCConnection over a recording transport
// and on the real RTMFPTCConnection over the simulated network, judged against a reference model.
#include "flows.hpp"
#include "seq.hpp"
#include "rtmfp/TCConnection.hpp"
#include "rtmfp/TCMessage.hpp"
using namespace sim; using namespace com::zenomt::rtmp; using mc::Inner; using mc::explore; using mc::fmt; using mc::Violation;
typedef TCConnection::Args Args;

struct Out { uint32_t sid; uint8_t type; uint32_t ts; Bytes data; };
static std::string show(const Out &o) { std::string s = fmt("sid %u type %u ts %u:", o.sid, o.type, o.ts); for(auto b : o.data) s += fmt("%02x", b); return s; }
// an application closure that notices being destroyed while it runs
struct Live { bool running = false; bool *bad; Live(bool *b) : bad(b) {} Live(const Live &o) : bad(o.bad) {} ~Live() { if(running) *bad = true; } };

struct Toy : TCConnection
{
	std::vector<Out> *out; bool refuse = false; int *alive;
	Toy(std::vector<Out> *out, int *alive) : TCConnection(0), out(out), alive(alive) { ++*alive; }
	~Toy() { --*alive; }
	std::shared_ptr<WriteReceipt> write(uint32_t sid, uint8_t type, uint32_t ts, const void *p, size_t n, Duration, Duration) override
	{
		if(refuse) return nullptr;
		out->push_back({ sid, type, ts, Bytes((const uint8_t *)p, (const uint8_t *)p + n) }); return share_ref(new WriteReceipt(0, INFINITY, INFINITY), false);
	}
	using TCConnection::onMessage;
	void opened() { m_transportOpen = true; if(onTransportOpen) { auto f = onTransportOpen; f(); } }
};

static Bytes amf(const Args &a) { return AMF0::encode(a); }
static Bytes cmdMsg(const std::string &name, double tid, const Args &args) { Args a { AMF0::String(name), AMF0::Number(tid) }; a.insert(a.end(), args.begin(), args.end()); return amf(a); }

enum { K_TRANSACT, K_CONNECT, K_CREATE };
struct World {
	// the harness side of a transport: deliver a server message; let it take effect
	std::function<void(uint32_t sid, uint8_t type, uint32_t ts, const Bytes &)> deliver; std::function<void()> pump; std::function<void(const std::string &)> logf;
	std::shared_ptr<TCConnection> c; std::vector<Out> out; size_t seen = 0; std::string err; bool strict = true; bool destroyed = false; int calls = 0; std::function<void(int)> inCallback; bool rtmfp = false;
	// model
	struct Pend { int kind; int idx; double tid; }; struct Trans { int kind, calls = 0, stream = -1; bool answered = false; bool accepted = true; };
	struct St { std::shared_ptr<TCStream> s; TCStream *raw = nullptr; uint32_t id = 0; bool deleted = false, opened = false; std::vector<Out> queued; int opens = 0; };
	std::vector<Trans> trans; std::vector<Pend> pend; std::vector<St> st; std::vector<double> usedTids; bool connectQueued = false, connected = false, closed = false, closing = false, dropped = false; int onCloses = 0, statuses = 0; bool drop = false; int expectCb = 0, gotCb = 0; std::vector<Out> want; bool transportOpen = false;
	// what is being delivered
	struct { bool on = false; double tid = -1; bool success = false; std::string repr; uint32_t sid = 0; uint8_t type = 0; uint32_t ts = 0; Bytes payload; std::string cmd; } cur;
	std::string closedCode; bool late = false, controlSeen = false;

	void fail(const std::string &e) { if(err.empty()) err = e; }
	void check() { if(destroyed) fail("a callback was destroyed while it ran"); if(not err.empty()) { std::string e = err; throw Violation{e}; } }
	void log(const std::string &s) { if(logf) logf(s); }
	void cb(const char *what)
	{
		gotCb++; log(fmt("<%s>", what));
		if(late) fail(fmt("callback %s after the connection had closed", what));
		int i = calls++; if(inCallback) inCallback(i);
	}
	void hook()
	{
		Live l(&destroyed);
		c->onTransportOpen = [this, l] () mutable { l.running = true; if(transportOpen) fail("transport opened twice"); transportOpen = true; cb("onTransportOpen"); l.running = false; };
		c->onClose = [this, l] () mutable { l.running = true; if(not closing) fail("onClose without closing"); if(onCloses++) fail("onClose twice"); cb("onClose"); l.running = false; };
		c->onStatus = [this, l] (std::shared_ptr<AMF0> info) mutable {
			l.running = true; if(not info) { fail("onStatus without information"); } else {
			std::string code = info->isObject() ? info->getValueAtKey("code")->stringValue() : ""; bool fin = code == "NetConnection.Connect.Failed" or code == "NetConnection.Connect.Closed";
			if(closing and fin) { if(not closedCode.empty()) fail("closed status reported twice"); closedCode = code; }
			else if(not closing or strict) { if(not cur.on or not (cur.cmd == "onStatus" or cur.cmd == "connectresult") or info->repr() != cur.repr) fail("onStatus with something the server did not send: " + info->repr()); } }
			statuses++; cb("onStatus"); l.running = false; };
		c->onCommand = [this, l] (const std::string &name, const Args &args) mutable { l.running = true; if(not cur.on or cur.cmd != name or cur.sid or cur.repr != reprs(args)) fail("onCommand " + name + " with something the server did not send"); cb("onCommand"); l.running = false; };
	}
	static std::string reprs(const Args &a) { std::string s; for(auto &x : a) s += x->repr() + ","; return s; }
	TCConnection::Handler handler(int t)
	{
		Live l(&destroyed);
		return [this, t, l] (bool ok, std::shared_ptr<AMF0> r) mutable {
			l.running = true; auto &k = trans[t];
			if(k.calls++) fail(fmt("the reply callback of command %d ran twice", t));
			if(not k.accepted) fail("reply callback of a command that was refused");
			if(ok and not r) fail("success without a result");
			if(closing and not k.answered) { if(ok or r) fail("a command still pending at close was told it succeeded"); }
			else if(not cur.on or cur.tid != tidOf(t) or ok != cur.success or not r or r->repr() != cur.repr) fail(fmt("command %d was answered with something that is not its reply", t));
			cb("reply"); l.running = false; };
	}
	std::vector<double> tids; double tidOf(int t) { return t < (int)tids.size() ? tids[t] : -1; }
	void hookStream(int i)
	{
		Live l(&destroyed); auto &s = *st[i].raw;
		auto ok = [this, i] (const char *what, uint8_t t1, uint8_t t2) { auto &x = st[i]; if(x.deleted) fail(fmt("%s on a deleted stream", what)); if(not x.opened) fail(fmt("%s on a stream that is not open", what)); if(not cur.on or cur.sid != x.id or (cur.type != t1 and cur.type != t2)) fail(fmt("%s on stream %u: not for it", what, x.id)); };
		s.onOpen = [this, i, l] () mutable { l.running = true; auto &x = st[i]; if(x.deleted) fail("onOpen of a deleted stream"); if(x.opens++) fail("onOpen twice"); if(not cur.on) fail("onOpen without a reply"); x.opened = true; cb("onOpen"); l.running = false; };
		s.onStatus = [this, l, ok] (std::shared_ptr<AMF0> info) mutable { l.running = true; ok("onStatus", TCMSG_COMMAND, TCMSG_COMMAND_EX); if(not info or info->repr() != cur.repr) fail("stream status changed"); cb("stream onStatus"); l.running = false; };
		s.onAudio = [this, l, ok] (uint32_t ts, const uint8_t *b, size_t n) mutable { l.running = true; ok("onAudio", TCMSG_AUDIO, TCMSG_AUDIO); if(ts != cur.ts or Bytes(b, b + n) != cur.payload) fail("audio changed"); cb("onAudio"); l.running = false; };
		s.onVideo = [this, l, ok] (uint32_t ts, const uint8_t *b, size_t n) mutable { l.running = true; ok("onVideo", TCMSG_VIDEO, TCMSG_VIDEO); if(ts != cur.ts or Bytes(b, b + n) != cur.payload) fail("video changed"); cb("onVideo"); l.running = false; };
		s.onData = [this, l, ok] (uint32_t ts, const std::string &name, const Args &args) mutable { l.running = true; ok("onData", TCMSG_DATA, TCMSG_DATA_EX); if(ts != cur.ts or name != cur.cmd or reprs(args) != cur.repr) fail("data changed"); cb("onData"); l.running = false; };
	}
	// ---- model transitions
	void modelClose(bool) { if(closed) return; closed = closing = true; for(auto &p : pend) if(p.kind != K_CREATE) expectCb++; expectCb += (onCloses ? 0 : 1) + 1; for(auto &s : st) s.deleted = true; }
	void afterClose() { pend.clear(); }
	void begin() { expectCb = gotCb = 0; want.clear(); seen = out.size(); }
	void end(const char *what)
	{
		if(pump) pump();
		check();
		if(strict and gotCb != expectCb) fail(fmt("%s: %d callbacks, expected %d", what, gotCb, expectCb));
		if(strict and not closed) compareOut(what);
		if(closed and strict) { if(onCloses != 1) fail("closed without onClose"); if(closedCode.empty()) fail("closed without a status"); for(size_t i = 0; i < trans.size(); i++) if(trans[i].kind != K_CREATE and trans[i].accepted and trans[i].calls != 1) fail(fmt("after close command %zu had %d answers", i, trans[i].calls)); if(c and (c->isOpen() or c->isConnected())) fail("open after close"); afterClose(); late = true; }
		if(c and strict) { if(c->isConnected() != (connected and transportOpen and not closed)) fail("isConnected"); if(c->isOpen() != (transportOpen and not closed)) fail("isOpen"); for(auto &s : st) if(s.s and s.s->isOpen() != (s.opened and not s.deleted)) fail(fmt("stream %u isOpen %d", s.id, s.s->isOpen())); }
		check();
	}
	void compareOut(const char *what)
	{
		std::vector<Out> got(out.begin() + seen, out.end()); auto key = [] (const std::vector<Out> &v) { std::vector<std::string> s; for(auto &o : v) s.push_back(show(o)); if(v.size() > 1) { std::stable_sort(s.begin(), s.end(), [] (const std::string &a, const std::string &b) { return a.substr(0, a.find(':')) < b.substr(0, b.find(':')); }); } return s; };
		auto g = key(got), w = key(want); if(g != w) { std::string e = fmt("%s: sent", what); for(auto &x : g) e += " [" + x + "]"; e += " expected"; for(auto &x : w) e += " [" + x + "]"; fail(e); }
	}
	// a command with a transaction number appears on the wire: learn the number
	void learn(int t, const std::string &name)
	{
		if(pump) pump();
		for(size_t i = seen; i < out.size(); i++) { auto &o = out[i]; const uint8_t *q = o.data.data(), *l = q + o.data.size(); auto n = AMF0::decode(&q, l), d = AMF0::decode(&q, l); if(o.sid == 0 and o.type == TCMSG_COMMAND and n and n->isString() and n->stringValue() == name and d and d->isNumber()) { double tid = d->doubleValue(); if(not (tid > 0) or std::count(usedTids.begin(), usedTids.end(), tid)) { fail("transaction number reused"); return; } usedTids.push_back(tid); tids.resize(std::max(tids.size(), size_t(t + 1)), -1); tids[t] = tid; pend.push_back({ trans[t].kind, t, tid }); want.push_back(o); return; } }
		fail(name + " was not sent");
	}
	// ---- application calls
	bool alive() const { return c and not closed; }
	void connect() { if(not c) return; log("connect;"); begin(); int t = trans.size(); trans.push_back({ K_CONNECT }); bool should = not closed and not connectQueued and usedTids.empty(); bool r = c->connect(handler(t), "rtmfp://host/app/inst?q"); if(r != should and strict) fail(fmt("connect answered %d", r)); trans[t].accepted = r; if(r) { connectQueued = true; if(strict) learn(t, "connect"); } end("connect"); }
	void transact() { if(not c) return; log("transact;"); begin(); int t = trans.size(); trans.push_back({ K_TRANSACT }); std::string n = fmt("call%d", t); bool r = c->transact(handler(t), n, { AMF0::Null(), AMF0::Number(t) }); bool should = not closed and not usedTids.empty(); if(r != should and strict) fail(fmt("transact answered %d", r)); trans[t].accepted = r; if(r and strict) { learn(t, n); Bytes w = cmdMsg(n, tidOf(t), { AMF0::Null(), AMF0::Number(t) }); want = { { 0, TCMSG_COMMAND, 0, w } }; } end("transact"); }
	void command() { if(not c) return; log("command;"); begin(); bool r = c->command("hey", { AMF0::Null(), AMF0::String("x") }); if(r != not closed and strict) fail("command"); if(not closed) want.push_back({ 0, TCMSG_COMMAND, 0, cmdMsg("hey", 0, { AMF0::Null(), AMF0::String("x") }) }); for(auto n : { "connect", "createStream", "deleteStream" }) if(c->command(n, {}) or c->transact([] (bool, std::shared_ptr<AMF0>) {}, n, {})) fail("a reserved command name was accepted"); end("command"); }
	void createStream() { if(not c or (strict and usedTids.empty() and not closed)) return; log("createStream;"); begin(); auto s = c->createStream(); if(bool(s) != not closed and strict) fail("createStream"); if(s) { int t = trans.size(); trans.push_back({ K_CREATE }); trans[t].stream = st.size(); St x; x.s = s; x.raw = s.get(); st.push_back(x); hookStream(st.size() - 1); if(strict) learn(t, "createStream"); if(drop) st.back().s.reset(); } end("createStream"); }
	St *pick(int i) { int n = 0; for(size_t k = st.size(); k--; ) if(st[k].s and n++ == i) return &st[k]; return nullptr; }
	void play(int i)
	{
		St *x = pick(i); if(not x) return; log(fmt("play %u;", x->id)); begin(); auto s = x->s; uint32_t id = x->id; bool open = x->opened and not x->deleted, dead = x->deleted; size_t at = x - &st[0];
		auto expect = [&] (const std::string &name, std::vector<std::shared_ptr<AMF0>> args) { args.insert(args.begin(), AMF0::Null()); Out o { id, TCMSG_COMMAND, 0, cmdMsg(name, 0, args) }; if(open) want.push_back(o); else if(not dead) st[at].queued.push_back(o); };
		expect("play", { AMF0::String("n"), AMF0::Number(i) }); s->play("n", { AMF0::Number(i) }); if(i) { end("play"); return; }
		for(bool b : { true, false }) { expect("pause", { AMF0::Boolean(b) }); s->pause(b); expect("receiveAudio", { AMF0::Boolean(b) }); s->receiveAudio(b); expect("receiveVideo", { AMF0::Boolean(b) }); s->receiveVideo(b); }
		expect("closeStream", {}); s->closeStream(); expect("publish", { AMF0::String("m"), AMF0::String("live") }); s->publish("m", { AMF0::String("live") }); end("play");
	}
	void deleteStream(int i) { St *x = pick(i); if(not x) return; log(fmt("delete %u;", x->id)); begin(); auto s = x->s; if(x->opened and not x->deleted) want.push_back({ 0, TCMSG_COMMAND, 0, cmdMsg("deleteStream", 0, { AMF0::Null(), AMF0::Number(x->id) }) }); x->deleted = true; s->deleteStream(); end("deleteStream"); }
	void media(int i, int kind)
	{
		St *x = pick(i); if(not x) return; log(fmt("send %d on %u;", kind, x->id)); begin(); auto s = x->s; Bytes b { 0x27, 1, 2, 3, 4, 5 }; uint32_t ts = 1000 + kind; bool open = x->opened and not x->deleted; bool r = false; Out o { x->id, 0, ts, b };
		if(kind == 0) { r = bool(s->sendAudio(ts, b)); o.type = TCMSG_AUDIO; } else if(kind == 1) { r = bool(s->sendVideo(ts, b.data(), b.size())); o.type = TCMSG_VIDEO; } else { r = bool(kind == 2 ? s->send(ts, "name", { AMF0::Number(7) }) : s->send("name", { AMF0::Number(7) })); if(kind == 3) o.ts = 0; o.type = TCMSG_DATA; o.data = amf({ AMF0::String("name"), AMF0::Number(7) }); }
		if(strict and r != open) fail("media accepted on a stream that is not open, or refused on one that is"); if(open) want.push_back(o); end("media");
	}
	void close() { if(not c) return; log("close;"); begin(); modelClose(false); auto keep = c; keep->close(); end("close"); }
	void release() { log("release;"); if(c) { begin(); modelClose(false); c->close(); for(auto &s : st) s.s.reset(); c.reset(); dropped = true; } } // only as a re-entrant action
	// ---- server messages
	void give(uint32_t sid, uint8_t type, uint32_t ts, const Bytes &payload) { cur.on = true; cur.sid = sid; cur.type = type; cur.ts = ts; cur.payload = payload; if(rtmfp and not closed) { if(sid == 0) controlSeen = true; else if(not controlSeen) modelClose(true); } /* a stream's flow before the control flow is a protocol violation */ deliver(sid, type, ts, payload); }
	void done() { if(pump) pump(); cur.on = false; cur.tid = -1; cur.cmd.clear(); }
	int findPend(int nth, int kind) { int n = 0; for(size_t i = 0; i < pend.size(); i++) if(kind < 0 or (kind == K_CREATE) == (pend[i].kind == K_CREATE)) if(n++ == nth) return i; return -1; }
	// reply to the nth pending command that is not createStream
	void reply(int nth, bool ok)
	{
		if(closed) return; int i = findPend(nth, K_TRANSACT); if(i < 0) return; Pend p = pend[i]; pend.erase(pend.begin() + i); log(fmt("%s for %g;", ok ? "_result" : "_error", p.tid)); begin();
		auto info = share_ref(AMF0::Object()->putValueAtKey(AMF0::String(fmt("v%d", p.idx)), "code")); cur.tid = p.tid; cur.success = ok; cur.repr = info->repr(); cur.cmd = p.kind == K_CONNECT ? "connectresult" : "_r"; trans[p.idx].answered = true; expectCb += p.kind == K_CONNECT ? 2 : 1;
		if(p.kind == K_CONNECT) { if(ok) connected = true; else { modelCloseSoon(); } }
		give(0, TCMSG_COMMAND, 0, cmdMsg(ok ? "_result" : "_error", p.tid, { AMF0::Null(), info })); done(); end("reply");
	}
	void modelCloseSoon() { modelClose(true); closing = true; }
	void replyNoArg() { if(closed) return; int i = findPend(0, K_TRANSACT); if(i < 0 or pend[i].kind == K_CONNECT) return; Pend p = pend[i]; pend.erase(pend.begin() + i); log("_result without a value;"); begin(); cur.tid = p.tid; cur.success = true; cur.repr = AMF0::Undefined()->repr(); trans[p.idx].answered = true; expectCb++; give(0, TCMSG_COMMAND_EX, 0, [&] { Bytes b { 0 }; Bytes m = cmdMsg("_result", p.tid, {}); b.insert(b.end(), m.begin(), m.end()); return b; }()); done(); end("reply without a value"); }
	void replyAgain(bool unknown) { double tid = unknown ? 4711 : usedTids.empty() ? -1 : usedTids.front(); if(tid < 0) return; for(auto &p : pend) if(p.tid == tid) return; log(fmt("stray reply %g;", tid)); begin(); cur.tid = -2; give(0, TCMSG_COMMAND, 0, cmdMsg("_result", tid, { AMF0::Null(), AMF0::Number(1) })); done(); end("stray reply"); }
	static std::shared_ptr<AMF0> idValue(int v) { static const double d[] = { 1, 2, 4294967295., 0, 0.5, -1, 4294967296., NAN, 1e300 }; if(v < 9) return AMF0::Number(d[v]); if(v == 9) return AMF0::String("3"); if(v == 10) return AMF0::Null(); return nullptr; }
	static const int NIDS = 12;
	void replyCreate(int nth, bool ok, int v)
	{
		if(closed) return; int i = findPend(nth, K_CREATE); if(i < 0) return; Pend p = pend[i]; pend.erase(pend.begin() + i); auto val = idValue(v); log(fmt("%s for createStream %g: %s;", ok ? "_result" : "_error", p.tid, val ? val->repr().c_str() : "nothing")); begin(); trans[p.idx].answered = true; St &x = st[trans[p.idx].stream];
		double d = val and val->isNumber() ? val->doubleValue() : -1; bool good = ok and d >= 1 and d <= 4294967295.; if(good) for(auto &s : st) if(s.opened and not s.deleted and s.id == d) good = false;
		cur.tid = p.tid; cur.success = ok; if(val) cur.repr = val->repr();
		if(not good) modelCloseSoon(); else { x.id = d; if(x.deleted) { want.push_back({ 0, TCMSG_COMMAND, 0, cmdMsg("deleteStream", 0, { AMF0::Null(), AMF0::Number(d) }) }); } else { expectCb++; if(not strict) {} for(auto o : x.queued) { o.sid = x.id; want.push_back(o); } x.queued.clear(); } }
		Args a { AMF0::Null() }; if(val) a.push_back(val); give(0, TCMSG_COMMAND, 0, cmdMsg(ok ? "_result" : "_error", p.tid, a)); done(); end("createStream reply");
	}
	St *byId(uint32_t id) { for(auto &s : st) if(s.id == id and s.opened and not s.deleted) return &s; return nullptr; }
	void status(uint32_t sid) { log(fmt("onStatus to %u;", sid)); begin(); auto info = share_ref(AMF0::Object()->putValueAtKey(AMF0::String("x"), "code")); cur.cmd = "onStatus"; cur.repr = info->repr(); if(not closed and (sid == 0 or byId(sid))) expectCb++; give(sid, TCMSG_COMMAND, 0, cmdMsg("onStatus", 0, { AMF0::Null(), info })); done(); end("onStatus"); }
	void rpc(uint32_t sid, bool ex) { log(fmt("command to %u;", sid)); begin(); Args a { AMF0::Number(3), AMF0::String("z") }; cur.cmd = "doit"; cur.repr = reprs(a); if(not closed and sid == 0) expectCb++; Args w { AMF0::Null() }; w.insert(w.end(), a.begin(), a.end()); Bytes m = cmdMsg("doit", 5, w); if(ex) m.insert(m.begin(), 0); give(sid, ex ? TCMSG_COMMAND_EX : TCMSG_COMMAND, 0, m); done(); end("command"); }
	void av(uint32_t sid, uint8_t type, size_t n) { log(fmt("media %u to %u;", type, sid)); begin(); Bytes b; for(size_t i = 0; i < n; i++) b.push_back(0x21 + i); cur.cmd.clear(); if(byId(sid)) expectCb++; give(sid, type, 4321, b); done(); end("media in"); }
	void data(uint32_t sid, bool ex) { log(fmt("data to %u;", sid)); begin(); Args a { AMF0::Number(3) }; cur.cmd = "dd"; cur.repr = reprs(a); if(byId(sid)) expectCb++; Bytes m = amf({ AMF0::String("dd"), AMF0::Number(3) }); if(ex) m.insert(m.begin(), 0); give(sid, ex ? TCMSG_DATA_EX : TCMSG_DATA, 99, m); done(); end("data in"); }
	// malformed or meaningless messages: ignored, except that a command without a name or transaction number closes the connection
	static const int NBAD = 22;
	void bad(int k, uint32_t sid)
	{
		struct M { uint8_t type; Bytes b; bool closes; }; Bytes num = amf({ AMF0::Number(1) }), str = amf({ AMF0::String("a") }); Bytes strnum = amf({ AMF0::String("a") }); strnum.insert(strnum.end(), { 0, 1, 2 });
		M m[NBAD] = { { TCMSG_COMMAND, {}, false }, { TCMSG_COMMAND_EX, {}, false }, { TCMSG_COMMAND_EX, { 0 }, true }, { TCMSG_COMMAND_EX, { 1, 2, 0, 1, 'a' }, false }, { TCMSG_COMMAND, { 0x77 }, true }, { TCMSG_COMMAND, num, true }, { TCMSG_COMMAND, str, true }, { TCMSG_COMMAND, strnum, true }, { TCMSG_DATA, {}, false }, { TCMSG_DATA_EX, {}, false }, { TCMSG_DATA_EX, { 0 }, false }, { TCMSG_DATA_EX, { 3, 2, 0, 1, 'a' }, false }, { TCMSG_DATA, { 2, 0, 9, 'a' }, false }, { TCMSG_DATA, num, false }, { TCMSG_USER_CONTROL, {}, false }, { TCMSG_USER_CONTROL, { 0 }, false }, { TCMSG_USER_CONTROL, { 0, 41 }, false }, { TCMSG_USER_CONTROL, { 0, 34, 0, 0 }, false }, { TCMSG_SHARED_OBJECT, { 1, 2 }, false }, { TCMSG_AGGREGATE, { 1, 2 }, false }, { 0, {}, false }, { 255, { 1 }, false } };
		log(fmt("bad %d to %u;", k, sid)); begin(); cur.cmd = "bad"; if(m[k].closes and not closed and (not rtmfp or sid == 0 or byId(sid))) modelClose(true); give(sid, m[k].type, 5, m[k].b); done(); end("malformed message");
	}
	void finish() { if(not c) return; if(not closed) close(); late = true; if(pump) pump(); check(); for(size_t i = 0; i < trans.size(); i++) if(trans[i].kind != K_CREATE and trans[i].accepted and trans[i].calls != 1) fail(fmt("command %zu had %d answers in the end", i, trans[i].calls)); if(onCloses != 1) fail("onClose did not run exactly once"); check(); }
};

// ---- the alphabet
static std::vector<std::pair<std::string, std::function<void(World &)>>> alphabet(int level)
{
	std::vector<std::pair<std::string, std::function<void(World &)>>> v; auto add = [&] (const std::string &n, std::function<void(World &)> f) { v.push_back({ n, f }); };
	add("nothing", [] (World &) {});
	add("transact", [] (World &w) { w.transact(); }); add("createStream", [] (World &w) { w.createStream(); });
	for(int i = 0; i < 2; i++) { add("play", [=] (World &w) { w.play(i); }); add("deleteStream", [=] (World &w) { w.deleteStream(i); }); }
	add("close", [] (World &w) { w.close(); }); add("connect", [] (World &w) { w.connect(); }); add("command", [] (World &w) { w.command(); });
	for(int k = 0; k < (level ? 4 : 2); k++) add("send", [=] (World &w) { w.media(0, k); }); if(level) add("send", [=] (World &w) { w.media(1, 2); });
	for(int i = 0; i < 3; i++) { add("result", [=] (World &w) { w.reply(i, true); }); if(i < 2) add("error", [=] (World &w) { w.reply(i, false); }); }
	add("result without a value", [] (World &w) { w.replyNoArg(); }); add("result again", [] (World &w) { w.replyAgain(false); }); if(level) add("unknown result", [] (World &w) { w.replyAgain(true); });
	for(int i = 0; i < 2; i++) for(int k : { 0, 1 }) add("stream id", [=] (World &w) { w.replyCreate(i, true, k); });
	if(level) { for(int k = 2; k < World::NIDS; k++) add("stream id", [=] (World &w) { w.replyCreate(0, true, k); }); add("stream refused", [] (World &w) { w.replyCreate(0, false, 0); }); } else { add("stream id", [] (World &w) { w.replyCreate(0, true, 3); }); add("stream refused", [] (World &w) { w.replyCreate(0, false, 0); }); }
	for(uint32_t s : { 0u, 1u, 2u, 7u }) { if(not level and s == 7) continue; add("status", [=] (World &w) { w.status(s); }); add("audio", [=] (World &w) { w.av(s, TCMSG_AUDIO, 3); }); add("data", [=] (World &w) { w.data(s, false); }); if(level) { add("video", [=] (World &w) { w.av(s, TCMSG_VIDEO, 6); }); add("dataex", [=] (World &w) { w.data(s, true); }); add("rpc", [=] (World &w) { w.rpc(s, s == 1); }); add("silence", [=] (World &w) { w.av(s, TCMSG_AUDIO, 0); }); } }
	if(not level) { add("rpc", [] (World &w) { w.rpc(0, true); }); add("video", [] (World &w) { w.av(1, TCMSG_VIDEO, 6); }); add("bad data", [] (World &w) { w.bad(9, 1); }); add("bad command", [] (World &w) { w.bad(5, 0); }); }
	else { for(int k = 0; k < World::NBAD; k++) { add("bad", [=] (World &w) { w.bad(k, 0); }); if(k < 14) add("bad", [=] (World &w) { w.bad(k, 1); }); } }
	return v;
}
static void prelude(World &w, int p)
{
	if(p == 0) return;
	w.connect(); if(p == 1) return; w.reply(0, true); if(p == 2) return;
	w.createStream(); w.replyCreate(0, true, 0); w.createStream(); w.play(0); if(p == 3) return;
	w.replyCreate(0, true, 1); w.transact(); w.transact();
}

// the plain connection class over a recording transport
struct Plain {
	World w; int alive = 0; Toy *toy = nullptr; Inner &in;
	Plain(Inner &in, bool drop) : in(in)
	{
		auto t = share_ref(new Toy(&w.out, &alive), false); toy = t.get(); w.c = t; w.drop = drop; w.hook(); w.logf = [&in] (const std::string &s) { in.log("%s", s.c_str()); };
		w.deliver = [this] (uint32_t sid, uint8_t type, uint32_t ts, const Bytes &p) { if(not w.c) return; auto keep = w.c; auto b = std::unique_ptr<uint8_t[]>(new uint8_t[p.size() + not p.size()]); if(p.size()) memcpy(b.get(), p.data(), p.size()); toy->onMessage(sid, type, ts, b.get() + not p.size(), p.size()); };
		w.begin(); w.expectCb = 1; { auto keep = w.c; toy->opened(); } w.end("open");
	}
	~Plain() { w.late = false; w.strict = false; w.inCallback = nullptr; if(w.c) { w.modelClose(false); w.c->close(); } for(auto &s : w.st) s.s.reset(); w.c.reset(); }
	void over() { for(auto &s : w.st) s.s.reset(); w.c.reset(); if(alive) w.fail("the connection outlives everything that referred to it"); w.check(); }
};
static void plainSeq(Ctx &ctx, int p, int depth, int level, bool drop)
{
	auto al = alphabet(level);
	explore(ctx, std::min(depth, 2), [&] (Inner &in) { Plain q(in, drop); prelude(q.w, p); for(int i = 0; i < depth; i++) { int k = in(al.size()); if(k == 0) break; al[k].second(q.w); } q.w.finish(); q.over(); });
}
// actions at every callback of a long script
static const char *script(World &w, int i)
{
	switch(i) { case 0: w.connect(); break; case 1: w.reply(0, true); break; case 2: w.createStream(); w.play(0); break; case 3: w.replyCreate(0, true, 0); break; case 4: w.status(1); break; case 5: w.av(1, TCMSG_AUDIO, 2); break; case 6: w.av(1, TCMSG_VIDEO, 6); break; case 7: w.data(1, false); break; case 8: w.transact(); w.transact(); break; case 9: w.reply(1, true); break; case 10: w.status(0); break; case 11: w.rpc(0, false); break; case 12: w.createStream(); break; case 13: w.close(); break; default: return nullptr; } return "";
}
static std::vector<std::pair<std::string, std::function<void(World &)>>> actions()
{
	auto all = alphabet(1), v = all; v.clear(); for(auto &x : all) for(auto n : { "nothing", "transact", "createStream", "play", "deleteStream", "close", "connect", "command", "send" }) if(x.first == n) v.push_back(x);
	v.push_back({ "release", [] (World &w) { w.release(); } }); return v;
}
static void lenient(World &w) { w.strict = false; }
// in lenient mode transaction numbers are learnt from the wire when needed
static void relearn(World &w)
{
	// (re)build the table of pending commands from what was sent
	size_t t = 0; std::vector<double> seenT; w.tids.clear(); std::vector<int> idx; for(size_t i = 0; i < w.trans.size(); i++) if(w.trans[i].accepted) idx.push_back(i);
	w.tids.assign(w.trans.size(), -1); w.pend.clear();
	for(auto &o : w.out) { if(o.sid or o.type != TCMSG_COMMAND) continue; const uint8_t *q = o.data.data(), *l = q + o.data.size(); auto n = AMF0::decode(&q, l), d = AMF0::decode(&q, l); if(not n or not d or not d->isNumber() or d->doubleValue() == 0 or t >= idx.size()) continue; int k = idx[t++]; w.tids[k] = d->doubleValue(); if(not w.trans[k].answered and not w.closed) w.pend.push_back({ w.trans[k].kind, k, w.tids[k] }); if(w.trans[k].kind == K_CONNECT) w.connectQueued = true; w.usedTids.push_back(d->doubleValue()); }
}
static void plainReentrant(Ctx &ctx, int pairs)
{
	auto al = actions();
	explore(ctx, 2, [&] (Inner &in) {
		int at = in(18), k = in(al.size()), k2 = in(al.size()), k3 = pairs > 1 ? in(al.size()) : 0; bool drop = in(2);
		Plain q(in, drop); World &w = q.w; lenient(w); bool acted = false;
		w.inCallback = [&] (int i) { if(i != at or acted) return; acted = true; auto save = w.cur; al[k].second(w); if(k2) al[k2].second(w); if(k3) al[k3].second(w); w.cur = save; };
		for(int i = 0; script(w, i) and not w.dropped; i++) { relearn(w); if(w.closed) w.late = true; w.check(); }
		if(w.closed) w.late = true;
		if(not w.dropped) w.finish(); w.check(); for(size_t i = 0; i < w.trans.size(); i++) if(w.trans[i].kind != K_CREATE and w.trans[i].accepted and w.trans[i].calls != 1) w.fail(fmt("command %zu had %d answers in the end", i, w.trans[i].calls)); w.check();
		if(not w.dropped) q.over(); else if(q.alive) { w.fail("the connection outlives everything that referred to it"); w.check(); }
	});
}
// what connect sends
static void connectArgs(Ctx &ctx)
{
	explore(ctx, 1, [&] (Inner &in) {
		static const char *uris[] = { "rtmfp://h/app", "rtmfp://h:1935/app/inst?k=v#f", "rtmfp://u:p@h/a", "rtmfp://h", "" }; static const char *apps[] = { "app", "app/inst?k=v", "a", "", "" }, *pubs[] = { "rtmfp://h/app", "rtmfp://h:1935/app/inst?k=v", "rtmfp://h/a", "rtmfp://h", "" };
		int u = in(5), have = in(3), tc = in(3), ap = in(2), oe = in(2), extra = in(2); Plain q(in, false); World &w = q.w; auto o = AMF0::Object(); if(tc == 1) o->putValueAtKey(AMF0::String("my"), "tcUrl"); if(tc == 2) o->putValueAtKey(AMF0::Number(4), "tcUrl"); if(ap) o->putValueAtKey(AMF0::String("mine"), "app"); if(oe) o->putValueAtKey(AMF0::Number(3), "objectEncoding"); o->putValueAtKey(AMF0::String("more"), "flashVer");
		std::string before = o->repr(); Args more; if(extra) more = { AMF0::Number(1), AMF0::String("x") };
		w.begin(); w.trans.push_back({ K_CONNECT }); if(not w.c->connect(w.handler(0), uris[u], have ? o.get() : nullptr, more)) w.fail("connect refused"); if(w.c->connect(w.handler(0), uris[u])) w.fail("second connect accepted"); if(o->repr() != before) w.fail("the application's argument object was changed");
		w.check(); if(w.out.size() != 1) w.fail("one message expected"); w.check(); const uint8_t *c = w.out[0].data.data(), *l = c + w.out[0].data.size(); Args a; if(not AMF0::decode(c, l, a) or a.size() != 3u + more.size()) w.fail("connect message malformed"); w.check();
		auto obj = a[2]; if(not obj->isObject()) w.fail("no argument object"); w.check(); bool keepTc = have and tc == 1, keepAp = have and ap, keepOe = have and oe;
		auto sv = [&] (const char *k) { auto v = obj->getValueAtKey(k); return v->isString() ? std::string(v->stringValue()) : std::string("?"); };
		if(u != 4) { bool user = u == 2; std::string want = keepTc ? "my" : pubs[u]; if(not user and u != 3 and sv("tcUrl") != want) w.fail("tcUrl " + sv("tcUrl")); if(user and not keepTc and sv("tcUrl").find("p@") != std::string::npos) w.fail("the password is sent in tcUrl"); if(sv("app") != (keepAp ? "mine" : apps[u])) w.fail("app " + sv("app")); }
		if(obj->getValueAtKey("objectEncoding")->doubleValue() != (keepOe ? 3 : 0)) w.fail("objectEncoding"); if(have and sv("flashVer") != "more") w.fail("a member of the argument object is missing"); for(size_t i = 0; i < more.size(); i++) if(a[3 + i]->repr() != more[i]->repr()) w.fail("argument changed");
		w.check(); w.strict = false; w.c->close(); 
	});
}

// ---- over RTMFP
struct Conn : RTMFPTCConnection {
	TimerList *timers; Sim *s; int *alive; Conn(TimerList *t, Sim *s, int *alive) : RTMFPTCConnection(0), timers(t), s(s), alive(alive) { ++*alive; } ~Conn() { --*alive; }
	struct Buf : ReorderBuffer { TimerList *t; Sim *s; Buf(TimerList *t, Sim *s, Duration p) : ReorderBuffer(p), t(t), s(s) {} Time getCurrentTime() const override { return s->now; } std::shared_ptr<Timer> scheduleTimer(Time when) override { return t->schedule(when); } };
	std::shared_ptr<ReorderBuffer> reorderBufferFactory(Duration w) override { return share_ref(new Buf(timers, s, w), false); }
};
struct Net {
	Ctx &ctx; Sim s; App app; Host &a, &b; TimerList timers; World w; int alive = 0; std::map<uint32_t, std::shared_ptr<SendFlow>> flows; std::shared_ptr<SendFlow> back; Rx *control = nullptr; bool networkOrder; RTMFPTCConnection *raw = nullptr; double settle = 0.3; bool noSettle = false;
	Net(Ctx &ctx, bool drop, bool network) : ctx(ctx), s(ctx), app(s), a(s.add("alice", "10.0.0.1:1")), b(s.add("bob", "10.0.0.2:2")), networkOrder(network)
	{
		timers.onHowLongToSleepDidChange = [this] { wake(); }; w.rtmfp = true; w.logf = [this] (const std::string &x) { this->ctx.log("%.3f  %s", s.now, x.c_str()); };
		int bi = b.idx; b.rtmfp->onRecvFlow = [this, bi] (std::shared_ptr<RecvFlow> f) { server(bi, f); };
		auto c = share_ref(new Conn(&timers, &s, &alive), false); w.c = c; raw = c.get(); w.drop = drop; w.hook(); auto q = c.get(); if(not q->init(a.rtmfp.get(), B("bob"))) { ctx.fail("init"); return; } if(q->init(a.rtmfp.get(), B("bob"))) ctx.fail("init twice"); q->addCandidateAddress(b.address);
		w.deliver = [this] (uint32_t sid, uint8_t type, uint32_t ts, const Bytes &p) { send(sid, type, ts, p); }; w.pump = [this] { if(not noSettle) s.run(s.now + settle); };
		app.onMsg = [this] (Rx &r, RxMsg &m) { uint32_t sid; ReceiveOrder o; if(not TCMetadata::parse(r.flow->getMetadata(), &sid, &o)) return; uint8_t t; uint32_t ts; size_t h = TCMessage::parseHeader(m.data.data(), m.data.data() + m.data.size(), &t, &ts); if(h) w.out.push_back({ sid, t, ts, Bytes(m.data.begin() + h, m.data.end()) }); };
	}
	~Net() { s.policy = nullptr; w.late = w.strict = false; w.inCallback = nullptr; w.pump = nullptr; if(w.c) { w.modelClose(false); auto k = w.c; k->close(); } for(auto &x : w.st) x.s.reset(); w.c.reset(); timers.clear(); timers.onHowLongToSleepDidChange = nullptr; flows.clear(); back.reset(); s.teardown(); }
	void wake() { if(s.tearing) return; Duration d = timers.howLongToNextFire(s.now, INFINITY); if(d < 1e8) s.at(s.now + std::max<double>(0, d) + 1e-9, [this] { timers.fireDueTimers(s.now); Duration d = timers.howLongToNextFire(s.now, INFINITY); if(d < 1e8) wake(); }); }
	void server(int bi, std::shared_ptr<RecvFlow> f)
	{
		uint32_t sid; ReceiveOrder o; if(not TCMetadata::parse(f->getMetadata(), &sid, &o)) { if(not f->getMetadata().empty()) ctx.fail("flow metadata"); return; }
		Rx &r = app.accept(bi, f); if(sid == 0 and not control) { control = &r; back = f->openReturnFlow(TCMetadata::encode(0, RO_SEQUENCE)); if(back) back->onRecvFlow = [this, bi] (std::shared_ptr<RecvFlow> g) { server(bi, g); }; }
	}
	void send(uint32_t sid, uint8_t type, uint32_t ts, const Bytes &p)
	{
		std::shared_ptr<SendFlow> f; if(sid == 0) f = back; else { auto &x = flows[sid]; if(x and not x->isOpen()) x.reset(); if(not x and control) { x = control->flow->openReturnFlow(TCMetadata::encode(sid, networkOrder ? RO_NETWORK : RO_SEQUENCE)); auto xp = x; if(x) x->onException = [this, sid] (uintmax_t) { auto i = flows.find(sid); if(i != flows.end()) { auto k = i->second; if(k) k->close(); flows.erase(sid); } }; } f = x; }
		if(f) f->write(TCMessage::message(type, ts, p));
	}
	void open() { w.begin(); w.expectCb = 1; w.end("open"); }
	bool over() { for(auto &x : w.st) x.s.reset(); w.c.reset(); s.run(s.now + 300); return alive == 0; }
};
#define GUARD(...) try { __VA_ARGS__ } catch(const Violation &v) { ctx.fail("%s", v.msg.c_str()); }
static void netSeq(Ctx &ctx, int p, int depth, int level, bool drop, bool network, FaultPlan *plan)
{
	auto al = alphabet(level); Net n(ctx, drop, network); World &w = n.w;
	GUARD(
		if(plan) { n.settle = 6; plan->install(n.s); }
		n.open(); prelude(w, p); for(int i = 0; i < depth; i++) { int k = ctx.choose(al.size(), 0, "op"); if(k == 0) break; al[k].second(w); ctx.bail(); } w.finish(); n.s.policy = nullptr; if(not n.over()) ctx.fail("the connection outlives everything that referred to it"); w.check(); )
}
static void netReentrant(Ctx &ctx, int pairs)
{
	auto al = actions(); int at = ctx.choose(19, 0, "callback"), k = ctx.choose(al.size(), 0, "op"), k2 = pairs ? ctx.choose(al.size(), 0, "op") : 0; bool drop = ctx.choose(2, 0, "drop"), network = ctx.choose(2, 0, "network");
	Net n(ctx, drop, network); World &w = n.w; bool acted = false;
	GUARD( lenient(w); w.inCallback = [&] (int i) { if(i != at or acted) return; acted = true; n.noSettle = true; auto save = w.cur; al[k].second(w); if(k2) al[k2].second(w); w.cur = save; n.noSettle = false; };
		n.open(); for(int i = 0; script(w, i) and not w.dropped; i++) { relearn(w); if(w.closed) w.late = true; w.check(); ctx.bail(); }
		if(w.closed) w.late = true;
		if(not w.dropped) w.finish(); w.check(); if(not n.over()) ctx.fail("the connection outlives everything that referred to it"); for(size_t i = 0; i < w.trans.size(); i++) if(w.trans[i].kind != K_CREATE and w.trans[i].accepted and w.trans[i].calls != 1) w.fail(fmt("command %zu had %d answers in the end", i, w.trans[i].calls)); w.check(); )
}
// the ways a connection ends
static void endings(Ctx &ctx)
{
	static const char *how[] = { "server closes its control flow", "server rejects the control flow", "server closes the session", "server vanishes", "first flow is a stream's", "nobody there", "server shuts down" };
	int k = ctx.choose(7, 0, "ending"), when = ctx.choose(5, 0, "when"), rel = ctx.choose(3, 0, "release"); Net n(ctx, false, false); World &w = n.w; ctx.log("%s", how[k]);
	GUARD(
		if(k == 4) n.b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { Rx &r = n.app.accept(n.b.idx, f); n.control = &r; n.back = f->openReturnFlow(TCMetadata::encode(3, RO_SEQUENCE)); };
		if(k == 5) { n.b.muted = true; w.strict = false; w.transact(); w.connect(); } else { n.open(); prelude(w, k == 4 ? std::min(when, 1) : when); }
		w.begin(); if(w.c and not w.closed) w.connect(); if(when and w.c) w.transact();
		w.strict = false; w.closing = true; // whatever is pending gets its error now
		if(rel == 1) w.inCallback = [&] (int) { if(w.onCloses and w.c) { for(auto &x : w.st) x.s.reset(); w.c.reset(); } };
		if(rel == 2) { for(auto &x : w.st) x.s.reset(); w.c.reset(); }
		switch(k) { case 0: n.send(0, 0, 0, Bytes { 1 }); n.back->close(); break; case 1: n.control->flow->close(7); break; case 2: n.control->flow->closeSession(); break; case 3: n.b.muted = true; break; case 4: n.back->write(Bytes { 1 }); break; case 5: break; case 6: n.b.rtmfp->shutdown(false); break; }
		if(k == 3 or k == 1) { if(w.c) w.c->command("x", {}); else return; }
		n.s.run(n.s.now + 400); w.check(); ctx.bail();
		if(rel == 2) { w.late = true; n.s.run(n.s.now + 100); w.check(); if(n.alive and k != 4) ctx.fail("a connection without an owner outlives its transport"); return; } // nobody to tell, unless a stream kept it
		if(w.onCloses != 1) w.fail(fmt("onClose ran %d times", w.onCloses)); if(w.closedCode.empty()) w.fail("no closing status"); if(w.c and (w.c->isOpen() or w.c->isConnected())) w.fail("open after the end");
		if(w.closedCode != (w.connected ? "NetConnection.Connect.Closed" : "NetConnection.Connect.Failed") and k != 0) w.fail("closing status " + w.closedCode);
		for(size_t i = 0; i < w.trans.size(); i++) if(w.trans[i].kind != K_CREATE and w.trans[i].accepted and w.trans[i].calls != 1) w.fail(fmt("command %zu had %d answers", i, w.trans[i].calls));
		w.late = true; w.closed = true; if(w.c) { w.connect(); w.transact(); w.command(); w.createStream(); w.close(); }
		n.s.run(n.s.now + 100); w.check(); if(not n.over()) ctx.fail("the connection outlives everything that referred to it"); w.check();
		ctx.count("ended"); )
}
static void keepalive(Ctx &ctx)
{
	static const uint32_t ms[] = { 0, 4999, 5000, 5001, 60000, 0x7fffffff, 0x80000000u, 0xffffffffu }; uint32_t sv = ms[ctx.choose(8, 0, "server")], pr = ms[ctx.choose(8, 0, "peer")]; int ign = ctx.choose(2, 0, "ignore"), len = ctx.choose(4, 0, "length"); Net n(ctx, false, false); World &w = n.w;
	GUARD( n.open(); prelude(w, 2); w.c->ignoreSetKeepaliveUserCommand = ign; auto *c = (RTMFPTCConnection *)w.c.get(); Duration s0 = c->sessionOpt()->getSessionKeepalivePeriod(), d0 = n.a.rtmfp->getDefaultSessionKeepalivePeriod(); Bytes m { 0, 41 }; for(uint32_t v : { sv, pr }) for(int i = 24; i >= 0; i -= 8) m.push_back(v >> i); if(len == 1) m.resize(9); if(len == 2) m.push_back(1); if(len == 3) m.resize(2);
		w.begin(); w.give(0, TCMSG_USER_CONTROL, 0, m); w.done(); w.end("keepalive"); bool on = not ign and (len == 0 or len == 2); Duration s1 = on ? std::max(sv / 1000., 5.) : s0, d1 = on ? std::max(pr / 1000., 5.) : d0;
		ctx.require(fabs(c->sessionOpt()->getSessionKeepalivePeriod() - s1) < 1e-6, "keepalive to the server is %Lg, asked for %Lg", (long double)c->sessionOpt()->getSessionKeepalivePeriod(), (long double)s1); ctx.require(fabs(n.a.rtmfp->getDefaultSessionKeepalivePeriod() - d1) < 1e-6, "keepalive to peers is %Lg, asked for %Lg", (long double)n.a.rtmfp->getDefaultSessionKeepalivePeriod(), (long double)d1); w.finish(); )
}
// media of a stream on one flow, in sequence or in arrival order with the reorder window, under packet faults
static void mediaOrder(Ctx &ctx, FaultPlan plan, bool net, int action)
{
	Net n(ctx, false, net); World &w = n.w; n.noSettle = false; struct Got { uint8_t type; uint32_t ts; double at; }; std::vector<Got> got; double window = 1; if(net) { window = (double[]) { 1, 0.2, 0 }[ctx.choose(3, 0, "window")]; w.c->reorderWindowPeriod = window; }
	int at = action ? ctx.choose(12, 0, "at") : -1;
	GUARD( n.open(); prelude(w, 3); auto s = w.st[0].s; Live l(&w.destroyed); bool dead = false; auto note = [&, l] (uint8_t t, uint32_t ts) mutable { l.running = true; if(dead) ctx.fail("media after the stream was deleted"); got.push_back({ t, ts, n.s.now }); if((int)got.size() - 1 == at) { dead = true; if(action == 1) s->deleteStream(); else w.close(); } l.running = false; };
		s->onAudio = [&, note] (uint32_t ts, const uint8_t *, size_t) mutable { note(TCMSG_AUDIO, ts); }; s->onVideo = [&, note] (uint32_t ts, const uint8_t *, size_t) mutable { note(TCMSG_VIDEO, ts); }; s->onData = [&, note] (uint32_t ts, const std::string &, const Args &) mutable { note(TCMSG_DATA, ts); }; w.strict = false;
		plan.install(n.s); struct M { uint8_t type; Bytes b; bool always; }; std::vector<M> ms; for(int i = 0; i < 12; i++) { if(i % 4 == 0) ms.push_back({ TCMSG_VIDEO, { 0x17, (uint8_t)(i ? 1 : 0), 0, 0, 0, 1 }, i == 0 }); else if(i % 4 == 1) ms.push_back({ TCMSG_AUDIO, { 0xaf, (uint8_t)(i == 1 ? 0 : 1), 3 }, i == 1 }); else if(i % 4 == 2) ms.push_back({ TCMSG_VIDEO, { 0x27, 1, 0, 0, 0, 2 }, false }); else ms.push_back({ TCMSG_DATA, amf({ AMF0::String("d") }), true }); }
		for(size_t i = 0; i < ms.size(); i++) { n.send(1, ms[i].type, 100 + i, ms[i].b); n.s.run(n.s.now + 0.05); ctx.bail(); }
		n.s.run(n.s.now + 30); ctx.bail(); w.check(); std::set<uint32_t> seen; uint32_t top = 0; 
		for(auto &g : got) { size_t i = g.ts - 100; ctx.require(i < ms.size() and g.type == ms[i].type, "media that was not sent"); ctx.require(seen.insert(g.ts).second, "message %zu delivered twice", i); ctx.bail(); if(not (net and ms[i].always)) ctx.require(g.ts > top, "message %zu delivered after %u", i, top - 100); top = std::max(top, g.ts); }
		if(not action) for(size_t i = 0; i < ms.size(); i++) { bool must = ms[i].always or not net or (window > 0.9 and ctx.remaining() >= plan.cost); if(must) ctx.require(seen.count(100 + i), "message %zu was never delivered", i); }
		w.finish(); ctx.count("media"); )
}
// synchronisation messages: sent on all media flows, and obeyed
static void syncing(Ctx &ctx)
{
	int times = 1 + ctx.choose(2, 0, "times"), used = ctx.choose(8, 0, "flows used"), closedFirst = ctx.choose(2, 0, "closed"), in1 = ctx.choose(3, 0, "in"), in2 = ctx.choose(3, 0, "in"); Net n(ctx, false, false); World &w = n.w;
	GUARD( n.open(); prelude(w, 4); auto s = w.st[0].s; std::map<std::string, std::vector<std::pair<uint32_t, size_t>>> syncs; std::map<uint32_t, int> ids;
		auto prev = n.app.onMsg; n.app.onMsg = [&] (Rx &r, RxMsg &m) { uint32_t id; size_t c; if(FlowSyncManager::parse(m.data.data(), m.data.size(), id, c)) { ids[id]++; ctx.require(c == 3, "synchronisation of %zu flows", c); } (void)r; };
		w.strict = false; for(int i = 0; i < 3; i++) if(used >> i & 1) w.media(0, i); if(closedFirst) { s->deleteStream(); } for(int i = 0; i < times; i++) s->sync(); n.s.run(n.s.now + 2); ctx.bail();
		ctx.require(ids.size() == (closedFirst ? 0u : times), "%zu synchronisations, asked for %d", ids.size(), times); for(auto &i : ids) ctx.require(i.second == 3, "synchronisation sent on %d flows", i.second); n.app.onMsg = prev;
		if(not closedFirst) { // from the server: two flows; what follows the barrier waits for the other
			auto f1 = n.control->flow->openReturnFlow(TCMetadata::encode(1, RO_SEQUENCE)), f2 = n.control->flow->openReturnFlow(TCMetadata::encode(1, RO_SEQUENCE)); std::vector<uint32_t> got; s->onAudio = [&] (uint32_t ts, const uint8_t *, size_t) { got.push_back(ts); }; auto a = [] (uint32_t ts) { return TCMessage::message(TCMSG_AUDIO, ts, Bytes { 1, 2 }); };
			f1->write(a(1)); n.s.run(n.s.now + 0.3); f1->write(FlowSyncManager::makeSyncMessage(9, 2)); for(int i = 0; i <= in1; i++) f1->write(a(2 + i)); n.s.run(n.s.now + 1); ctx.require(got == std::vector<uint32_t>({ 1 }), "%zu messages delivered before the other flow synchronised", got.size());
			for(int i = 0; i < in2; i++) f2->write(a(20 + i)); f2->write(FlowSyncManager::makeSyncMessage(9, 2)); f2->write(a(30)); n.s.run(n.s.now + 1); ctx.require(got.size() == size_t(1 + in1 + 1 + in2 + 1), "%zu messages delivered after both synchronised", got.size()); }
		w.finish(); )
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C30";
	meta.assumptions = { "application connects before it creates streams", "stream identifiers the server assigns are whole numbers, or not valid identifiers at all", "order of the callbacks that report a close among themselves is free", "virtual network and time; transparent crypto in the scenarios over RTMFP" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v; static const char *pn[] = { "fresh", "connecting", "connected", "streaming", "busy" };
		for(int p = 0; p < 5; p++) for(int d = 0; d < 2; d++) { v.push_back({ fmt("plain/%s/%s", pn[p], d ? "dropped" : "kept"), 0, [=] (Ctx &c) { plainSeq(c, p, th ? 4 : 3, 0, d); } }); v.push_back({ fmt("plain-full/%s/%s", pn[p], d ? "dropped" : "kept"), 0, [=] (Ctx &c) { plainSeq(c, p, th ? 3 : 2, 1, d); } }); }
		v.push_back({ "reentrant", 0, [=] (Ctx &c) { plainReentrant(c, th ? 2 : 1); } }); v.push_back({ "connect-arguments", 0, connectArgs });
		for(int p = 1; p < 5; p++) { v.push_back({ fmt("rtmfp/%s", pn[p]), 0, [=] (Ctx &c) { netSeq(c, p, 2, th, p & 1, p & 2, nullptr); } }); if(th) v.push_back({ fmt("rtmfp-long/%s", pn[p]), 0, [=] (Ctx &c) { netSeq(c, p, 3, 0, not (p & 1), not (p & 2), nullptr); } }); }
		v.push_back({ "rtmfp-full", 0, [=] (Ctx &c) { netSeq(c, 4, 1, 1, false, true, nullptr); } });
		v.push_back({ "rtmfp-reentrant", 0, [=] (Ctx &c) { netReentrant(c, th); } }); v.push_back({ "endings", 0, endings }); v.push_back({ "keepalive", 0, keepalive }); v.push_back({ "syncing", 0, syncing });
		FaultPlan fp; fp.window = th ? 30 : 12; fp.faults = { F_DROP, F_DUP_LATE, F_DELAY_LONG };
		for(int p : { 3, 4 }) v.push_back({ fmt("faults/%s", pn[p]), 1, [=] (Ctx &c) { FaultPlan q = fp; netSeq(c, p, 1, 0, false, p & 1, &q); } });
		FaultPlan mp; mp.window = 16; mp.faults = { F_DROP, F_DUP_LATE, F_DELAY_SHORT, F_DELAY_LONG };
		for(int net = 0; net < 2; net++) for(int act = 0; act < 3; act++) v.push_back({ fmt("media/%s/%s", net ? "arrival" : "sequence", act == 0 ? "all" : act == 1 ? "deleted" : "closed"), th ? 2 : 1, [=] (Ctx &c) { mediaOrder(c, mp, net, act); } });
		return v;
	});
}
