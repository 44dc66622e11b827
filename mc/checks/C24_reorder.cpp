// C24: every arrival order of a small set of items with time steps, flushes and window changes, also from inside callbacks,
// against a reference model.
#include "seq.hpp"
#include "rtmfp/ReorderBuffer.hpp"
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace mc;

struct It { uintmax_t sn; size_t frags; uintmax_t last() const { return sn + frags - (frags ? 1 : 0); } };
static const It items[] = { { 1, 1 }, { 2, 1 }, { 3, 2 }, { 5, 1 }, { 7, 1 }, { 8, 3 } };
const int NITEMS = 6;
enum Act { N_NONE, N_CLOSE, N_INSERT, N_FLUSH, N_THROUGH, N_WINDOW0, N_WINDOWINF, N_RELEASE, NACT };
static const char *actName[] = { "-", "close", "insert the lowest missing", "flush", "deliver through 4", "window 0", "window infinite", "close and let go" };

struct World {
	struct Buf : public ReorderBuffer { World *w; Buf(World *w, Duration p) : ReorderBuffer(p), w(w) {} Time getCurrentTime() const override { return w->now; } std::shared_ptr<Timer> scheduleTimer(Time when) override { return w->timers.schedule(when); } };
	struct Got { uintmax_t sn; bool late; };
	struct Held { It it; Time rx; };
	Inner &in; TimerList timers; Time now = 0; std::shared_ptr<Buf> buf; bool used[NITEMS] = {}; std::vector<Got> got, want; std::string err; int act = 0, actAt = 0, calls = 0, nest = 0; bool dead = false;
	// model
	uintmax_t csn = 0, through = 0, highest = 0; std::vector<Held> held; Duration window;
	World(Inner &in, Duration window) : in(in), window(window)
	{
		void *mem = ::operator new(sizeof(Buf)); memset(mem, 0x5a, sizeof(Buf)); // whatever memory held before
		buf = share_ref(new(mem) Buf(this, window), false);
		std::vector<int> canary(12, 3);
		buf->onMessage = [this, canary] (const uint8_t *b, size_t n, uintmax_t sn, size_t frags, bool late) {
			if(dead) fail("a message was delivered after close");
			in_check(b, n, sn, frags); got.push_back({ sn, late }); this->in.log("[%ju%s]", sn, late ? " late" : "");
			if(++calls == actAt) perform(act);
			in_check(b, n, sn, frags);
			for(int x : canary) if(x != 3) { fail("the callback was destroyed while it ran"); break; }
		};
	}
	~World() { if(buf) { buf->onMessage = nullptr; buf->close(); } }
	void fail(const std::string &e) { if(err.empty()) err = e; }
	void in_check(const uint8_t *b, size_t n, uintmax_t sn, size_t frags) { for(auto &i : items) if(i.sn == sn) { if(i.frags != frags) fail("fragment count"); if(n != 40 + sn) fail("length"); for(size_t k = 0; k < n; k++) if(b[k] != uint8_t(sn * 7)) { fail("content changed"); break; } return; } fail(fmt("item %ju was never inserted", sn)); }
	void insert(int i)
	{
		if(used[i]) return; used[i] = true; It it = items[i]; in.log("insert %ju%s", it.sn, it.frags > 1 ? "+" : "");
		modelInsert(it);
		std::vector<uint8_t> d(40 + it.sn, uint8_t(it.sn * 7)); auto keep = buf; keep->insert(d.data(), d.size(), it.sn, it.frags);
	}
	// model: what must be delivered, in order. The order in which nested calls act is the library's affair: with callbacks
	// acting, only the per-item guarantees are checked.
	void deliver(const It &it) { want.push_back({ it.sn, it.last() < through }); csn = std::max(csn, it.last()); through = std::max(through, it.last()); }
	void settle()
	{
		for(bool more = true; more;)
		{
			more = false;
			for(auto &h : held) if(h.rx + window <= now) csn = std::max(csn, h.it.last());
			std::sort(held.begin(), held.end(), [] (const Held &a, const Held &b) { return a.it.sn < b.it.sn; });
			if(not held.empty() and held.front().it.sn <= csn + 1) { It it = held.front().it; held.erase(held.begin()); deliver(it); more = true; }
		}
	}
	void modelInsert(const It &it) { highest = std::max(highest, it.last()); if(it.sn <= csn + 1) { deliver(it); settle(); } else held.push_back({ it, now }); }
	void doThrough(uintmax_t n) { in.log("through %ju", n); if(n > csn) { csn = n; settle(); } auto keep = buf; keep->deliverThrough(n); }
	void flush() { in.log("flush"); if(highest > csn) { csn = highest; settle(); } auto keep = buf; keep->flush(); }
	void setWindow(Duration d) { in.log("window %Lg", d); window = d; auto keep = buf; keep->setReorderWindowPeriod(d); }
	void advance(Duration d, bool exact)
	{
		in.log("advance %Lg", d); Time to = now + d;
		if(exact) { Duration s = timers.howLongToNextFire(now, INFINITY); if(s < INFINITY and s >= 0) { Time due = INFINITY; for(auto &h : held) due = std::min(due, h.rx + window); if(due < INFINITY and due > now and due < to) to = due; } } // to the instant the window closes
		now = to; settle(); guard = 0; timers.fireDueTimers(now);
	}
	int guard = 0;
	void perform(int a)
	{
		nest++; in.log("{%s", actName[a]);
		switch(a)
		{
		case N_CLOSE: dead = true; buf->close(); break;
		case N_RELEASE: dead = true; { auto keep = buf; buf.reset(); keep->close(); } break;
		case N_INSERT: for(int i = 0; i < NITEMS; i++) if(not used[i]) { insert(i); break; } break;
		case N_FLUSH: flush(); break;
		case N_THROUGH: doThrough(4); break;
		case N_WINDOW0: setWindow(0); break;
		case N_WINDOWINF: setWindow(INFINITY); break;
		}
		in.log("}"); nest--;
	}
	void verify(bool exactly)
	{
		if(not err.empty()) throw Violation{err};
		std::map<uintmax_t, int> n; uintmax_t hi = 0;
		for(auto &g : got) { need(++n[g.sn] == 1, fmt("item %ju was delivered twice", g.sn)); uintmax_t last = 0; for(auto &i : items) if(i.sn == g.sn) last = i.last(); if(exactly) need(g.late == (last < hi), fmt("item %ju: late=%d after %ju was delivered", g.sn, g.late, hi)); hi = std::max(hi, last); }
		if(not exactly) return;
		std::string w, g; for(auto &x : want) w += fmt("%ju%s ", x.sn, x.late ? "L" : ""); for(auto &x : got) g += fmt("%ju%s ", x.sn, x.late ? "L" : "");
		need(w == g, "expected deliveries " + w + ", got " + g);
	}
	void op(int o)
	{
		if(not buf or dead) return;
		if(o < NITEMS) insert(o);
		else switch(o - NITEMS) { case 0: advance(0.1L, false); break; case 1: advance(0.7L, true); break; case 2: flush(); break; case 3: doThrough(2); break; case 4: doThrough(6); break; case 5: setWindow(0); break; case 6: setWindow(0.3L); break; case 7: setWindow(INFINITY); break; case 8: advance(2, false); break; }
	}
};
const int NOPS = NITEMS + 9;

static void behaviour(Inner &in, int depth, bool acts)
{
	static const Duration windows[] = { 0.3L, 1, INFINITY, 0 };
	World w(in, windows[in(4)]);
	if(acts) { w.act = 1 + in(NACT - 1); w.actAt = 1 + in(3); in.log("in callback %d: %s", w.actAt, actName[w.act]); }
	bool pure = not acts;
	for(int d = 0; d < depth; d++) { w.op(in(NOPS)); w.verify(pure); }
	if(acts and w.buf and not w.dead) { if(w.window == INFINITY) w.flush(); else { w.now += 3; w.settle(); w.timers.fireDueTimers(w.now); } if(w.buf and not w.dead) w.flush(); w.verify(false); std::set<uintmax_t> g; for(auto &x : w.got) g.insert(x.sn); if(not w.dead) for(int i = 0; i < NITEMS; i++) if(w.used[i]) need(g.count(items[i].sn), fmt("item %ju was never delivered", items[i].sn)); }
	if(not acts) { w.flush(); w.verify(true); size_t n = 0; for(bool u : w.used) n += u; need(w.got.size() == n, "not every item was delivered by the last flush"); }
}

// the instant a window closes, for windows and arrival times that are not exact in binary
static void instants(Inner &in)
{
	Duration win = 0.01L * (1 + in(60)); World w(in, win); Duration rx = 0.01L * (1 + in(200));
	w.now = rx; w.insert(3); struct { int n = 0; } g;
	w.now = rx + win; w.settle(); w.timers.fireDueTimers(w.now); (void)g;
	w.verify(true);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C24"; meta.hangCpuSeconds = 20;
	meta.assumptions = { "every sequence number is inserted at most once (receiving flows deliver each message once)" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		v.push_back({ "instants", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { instants(in); }); } });
		v.push_back({ "callbacks", 0, [=] (Ctx &c) { explore(c, 4, [=] (Inner &in) { behaviour(in, th ? 5 : 4, true); }); } });
		v.push_back({ "orders", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { behaviour(in, th ? 6 : 5, false); }); } });
		return v;
	});
}
