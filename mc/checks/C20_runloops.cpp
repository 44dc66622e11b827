// C20: small programs of register/unregister/defer/schedule/stop from outside and inside callbacks, on real descriptors
// with virtual time, for both run loops, judged by one model.
#include "seq.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <poll.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/socket.h>
using namespace com::zenomt;
using namespace mc;

enum Prog { P_DEFAULT, P_NOTHING, P_UNREG_SELF, P_UNREG_OTHER, P_UNREG_FD, P_REPLACE_SELF, P_REPLACE_OTHER, P_SWAP_OTHER, P_FEED, P_DEFER, P_DEFER_TWO, P_TIMER_NOW, P_TIMER_LATER, P_CANCEL_TIMER, P_STOP, P_DEFER_STOP, P_CLEAR, P_HANGUP, P_DRAIN_OTHER, NPROG };
static const char *progName[] = { "default", "nothing", "unregister itself", "unregister another", "unregister all of the descriptor", "replace itself", "replace another", "unregister and re-register another", "make another readable", "defer a task", "defer two tasks", "schedule a timer now", "schedule a timer later", "cancel the timer", "stop", "defer a task and stop", "stop and clear", "hang up the far end", "drain another" };
enum { A_READ0, A_READ1, A_WRITE1, A_DEFER, A_TIMER, A_CYCLE, NACTOR };
static const char *actorName[] = { "reader 0", "reader 1", "writer 1", "deferred task", "timer", "every cycle" };

struct World;
static World *W;
static double vnow;

struct World {
	struct Reg { bool on = false; int gen = 0; bool calledThisCycle = false, sinceWait = false; };
	struct Def { int id; bool ran = false, must = false; };
	struct Tm { Time due; bool fired = false, canceled = false; std::shared_ptr<Timer> t; };
	Inner &in; std::unique_ptr<RunLoop> loop; int fd[2], far[2]; Reg reg[3]; int prog[NACTOR] = {}, invoked[NACTOR] = {}; std::string err; std::vector<Def> defs; size_t nextDef = 0; std::vector<Tm> tms; int cycles = 0, waits = 0; bool stopped = false, running = false, ready[3] = {}, wasCleared = false; double lastWake = 0; int eintrAt = -1; double runEnd = 0, minSleep = 0; struct Ext { double at; int what; }; std::vector<Ext> ext; size_t nextExt = 0; bool farClosed[2] = {}; bool inWork = false; int phase = 0; bool deferredRunning = false;
	World(Inner &in, int impl, bool blocked) : in(in)
	{
		W = this; vnow = 1000;
		if(impl) loop.reset(new EPollRunLoop()); else loop.reset(new SelectRunLoop());
		int p[2];
		for(int i = 0; i < 2; i++) // the blocked writer has the lowest number
		{
			if((i == 1) != blocked) { if(socketpair(AF_UNIX, SOCK_STREAM, 0, p)) abort(); fd[1] = p[0]; far[1] = p[1]; }
			else { if(pipe(p)) abort(); fd[0] = p[0]; far[0] = p[1]; }
		}
		if(blocked) { int small = 4096; char b[4096] = {}; setsockopt(fd[1], SOL_SOCKET, SO_SNDBUF, &small, sizeof small); while(send(fd[1], b, sizeof b, MSG_DONTWAIT) > 0) ; }
		loop->onEveryCycle = [this] { endOfCycle(); invoke(A_CYCLE); };
	}
	~World() { loop.reset(); for(int i = 0; i < 2; i++) { ::close(fd[i]); if(not farClosed[i]) ::close(far[i]); } W = nullptr; }
	void fail(const std::string &e) { if(err.empty()) err = e; }
	int slotFd(int s) { return s ? fd[1] : fd[0]; }
	RunLoop::Condition cond(int s) { return s == A_WRITE1 ? RunLoop::WRITABLE : RunLoop::READABLE; }
	void registerSlot(int s)
	{
		int gen = ++reg[s].gen; reg[s].on = true; reg[s].sinceWait = false;
		std::vector<int> canary(12, 6);
		loop->registerDescriptor(slotFd(s), cond(s), RunLoop::Action([this, s, gen, canary] (RunLoop *l, int f, RunLoop::Condition c) {
			in.log("%s called", actorName[s]);
			if(l != loop.get() or f != slotFd(s) or c != cond(s)) fail(fmt("%s was called with the wrong loop, descriptor or condition", actorName[s]));
			work(fmt("%s", actorName[s]), 1);
			if(not reg[s].on) fail(fmt("%s was called after it was unregistered", actorName[s]));
			else if(reg[s].gen != gen) fail(fmt("%s was called after it was replaced", actorName[s]));
			else if(not reg[s].sinceWait) fail(fmt("%s, registered after the loop looked, was called", actorName[s]));
			if(not ready[s]) fail(fmt("%s was called though its condition did not hold", actorName[s]));
			if(reg[s].calledThisCycle) fail(fmt("%s was called twice in one cycle", actorName[s]));
			reg[s].calledThisCycle = true;
			invoke(s);
			for(int x : canary) if(x != 6) { fail("a callback was destroyed while it ran"); break; }
		}));
	}
	void unregisterSlot(int s) { reg[s].on = false; loop->unregisterDescriptor(slotFd(s), cond(s)); }
	void work(const std::string &what, int ph)
	{
		if(not running) fail(what + " ran while the loop does not");
		if(stopped and not (ph == 3 and phase == 3)) fail(what + " ran after the loop was stopped"); // a firing pass completes
		if(not loop->isRunningInThisThread()) fail("the loop says it isn't running in this thread");
		if(ph < phase) fail(what + " ran after later kinds of work of its cycle");
		phase = ph;
	}
	void defer()
	{
		size_t id = defs.size(); defs.push_back({ (int)id, false, phase < 3 });
		loop->doLater([this, id] {
			in.log("deferred task %zu", id); work("a deferred task", 2);
			if(defs[id].ran) fail("a deferred task ran twice");
			while(nextDef < defs.size() and nextDef < id and defs[nextDef].ran) nextDef++;
			if(nextDef != id) fail(fmt("deferred task %zu ran before task %zu", id, nextDef));
			defs[id].ran = true; nextDef = id + 1; invoke(A_DEFER);
		});
	}
	void timer(double in_)
	{
		size_t id = tms.size(); Time due = loop->getCurrentTime() + in_; tms.push_back({ due });
		tms[id].t = loop->scheduleRel(Timer::makeAction([this, id] {
			in.log("timer %zu", id); work("a timer", 3);
			if(tms[id].fired) fail("a timer ran twice"); if(tms[id].canceled) fail("a canceled timer ran");
			if(loop->getCurrentTimeNoCache() < tms[id].due) fail("a timer ran early");
			tms[id].fired = true; invoke(A_TIMER);
		}), in_);
	}
	void feed(int i) { if(not farClosed[i] and write(far[i], "x", 1) != 1) fail("harness: feed"); }
	void drain(int i) { char b[64]; struct pollfd p { fd[i], POLLIN, 0 }; while(poll(&p, 1, 0) > 0 and (p.revents & POLLIN)) if(read(fd[i], b, sizeof b) <= 0) break; }
	void unblock() { char b[4096]; while(recv(far[1], b, sizeof b, MSG_DONTWAIT) > 0) ; }
	void hangup(int i) { if(not farClosed[i]) { ::close(far[i]); farClosed[i] = true; } }
	void stop() { loop->stop(); stopped = true; }
	void invoke(int actor)
	{
		int n = invoked[actor]++, p = n ? P_DEFAULT : prog[actor], other = actor == A_READ0 ? A_READ1 : A_READ0;
		if(p) in.log("  [%s: %s]", actorName[actor], progName[p]);
		if(n > 12) p = P_UNREG_SELF;
		switch(p)
		{
		case P_DEFAULT:
			if(actor == A_READ0 or actor == A_READ1) { drain(actor); if(farClosed[actor]) unregisterSlot(actor); }
			if(actor == A_WRITE1) unregisterSlot(actor);
			break;
		case P_UNREG_SELF: if(actor <= A_WRITE1) unregisterSlot(actor); break;
		case P_UNREG_OTHER: unregisterSlot(other); break;
		case P_UNREG_FD: { int f = actor == A_READ0 ? 0 : 1; loop->unregisterDescriptor(fd[f]); if(f) reg[1].on = reg[2].on = false; else reg[0].on = false; } break;
		case P_REPLACE_SELF: if(actor <= A_WRITE1) { registerSlot(actor); if(actor != A_WRITE1) drain(actor); } break;
		case P_REPLACE_OTHER: registerSlot(other); break;
		case P_SWAP_OTHER: unregisterSlot(other); registerSlot(other); break;
		case P_FEED: feed(other); break;
		case P_DEFER: defer(); break;
		case P_DEFER_TWO: defer(); defer(); break;
		case P_TIMER_NOW: timer(0); break;
		case P_TIMER_LATER: timer(0.0104); break;
		case P_CANCEL_TIMER: if(not tms.empty()) { tms[0].t->cancel(); tms[0].canceled = true; } break;
		case P_STOP: stop(); break;
		case P_DEFER_STOP: defer(); stop(); break;
		case P_CLEAR: stop(); loop->clear(); wasCleared = true; for(auto &r : reg) r.on = false; for(auto &d : defs) d.ran = true; nextDef = defs.size(); for(auto &t : tms) t.canceled = true; break;
		case P_HANGUP: hangup(actor == A_READ0 ? 0 : 1); break;
		case P_DRAIN_OTHER: drain(other); break;
		}
	}
	double vtime() { return vnow - 1000; }
	bool pendingDefers() { for(auto &d : defs) if(not d.ran) return true; return false; }
	Time nextDue() { Time t = INFINITY; for(auto &x : tms) if(not x.fired and not x.canceled) t = std::min(t, x.due); return t; }
	void look() // what the kernel says at the moment the loop looks
	{
		struct pollfd p[2] = { { fd[0], POLLIN, 0 }, { fd[1], POLLIN | POLLOUT, 0 } }; poll(p, 2, 0);
		ready[0] = p[0].revents & (POLLIN | POLLHUP | POLLERR); ready[1] = p[1].revents & (POLLIN | POLLHUP | POLLERR); ready[2] = p[1].revents & (POLLOUT | POLLERR);
		for(auto &d : defs) d.must = true;
		for(auto &r : reg) { r.calledThisCycle = false; r.sinceWait = r.on; }
	}
	void endOfCycle()
	{
		work("the every-cycle task", 4);
		for(int s = 0; s < 3; s++) if(ready[s] and reg[s].on and reg[s].sinceWait and not reg[s].calledThisCycle) fail(fmt("%s is registered and its condition holds, but it was not called", actorName[s]));
		for(auto &d : defs) if(d.must and not d.ran) fail("a deferred task did not run in its turn");
		if(nextDue() <= loop->getCurrentTime()) fail("a timer that is due did not run");
	}
	// returns false for EINTR; otherwise waits until something registered is ready or the timeout passes
	template<class R> int wait(double timeout, const R &real)
	{
		waits++; phase = 0;
		if(waits > 200) { stop(); fail("the loop keeps turning"); }
		if(stopped) fail("the loop waited after it was stopped");
		if(waits == eintrAt) { in.log("interrupted"); look(); for(bool &r : ready) r = false; errno = EINTR; return -1; }
		vnow += 0.0001;
		look();
		int rv = real();
		bool any = false; for(int s = 0; s < 3; s++) any = any or (reg[s].on and ready[s]);
		if(any and rv <= 0) fail("a registered, ready descriptor was not asked about");
		if(pendingDefers() and timeout > minSleep + 0.0011) fail("the loop sleeps though a task is deferred");
		Time due = std::min(nextDue(), Time(runEnd)); double left = std::max(double(due - (vnow - 1000)), minSleep);
		if(not pendingDefers())
		{
			if(timeout > left + 0.0012) fail(fmt("the loop would oversleep a timer: %g s instead of %g", timeout, left));
			if(left > 0.0001 and timeout <= 0) fail("the loop spins though nothing is due");
		}
		if(any) return rv > 0 ? rv : 0;
		if(rv > 0) return rv;
		double until = vnow + timeout;
		while(nextExt < ext.size() and ext[nextExt].at <= until)
		{
			auto e = ext[nextExt++]; vnow = std::max(vnow, e.at); in.log("from outside: %d", e.what);
			if(e.what < 2) feed(e.what); else if(e.what < 4) hangup(e.what - 2); else unblock();
			look(); rv = real(); if(rv > 0) return rv;
			if(reg[e.what < 4 ? e.what % 2 : A_WRITE1].on) fail("a descriptor became ready and the loop was not told");
		}
		vnow = until; look(); return 0;
	}
	void run(double interval, double sleep)
	{
		in.log("run"); runEnd = vnow - 1000 + interval; minSleep = sleep; stopped = false; running = true; waits = 0;
		loop->run(interval, sleep); running = false; phase = 0;
		if(not stopped and vnow - 1000 < runEnd and not wasCleared) fail("the loop ended by itself");
		if(loop->isRunningInThisThread()) fail("the loop says it is still running");
	}
};

namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration((int64_t)(vnow * 1e9))); } } } }
extern "C" int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
extern "C" int __real_epoll_wait(int, struct epoll_event *, int, int);
extern "C" int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	if(not W) return __real_select(n, r, w, x, tv);
	fd_set r0 = *r, w0 = *w, x0 = *x; double t = tv ? tv->tv_sec + tv->tv_usec * 1e-6 : 1e9;
	if(tv and (tv->tv_sec < 0 or tv->tv_usec < 0 or tv->tv_usec > 999999)) W->fail("select was called with a bad timeout");
	return W->wait(t, [&] { *r = r0; *w = w0; *x = x0; struct timeval z { 0, 0 }; return __real_select(n, r, w, x, &z); });
}
extern "C" int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
	if(not W) return __real_epoll_wait(ep, ev, n, ms);
	if(ms < 0) W->fail("epoll_wait was called without a limit");
	return W->wait(ms / 1000.0, [&] { return __real_epoll_wait(ep, ev, n, 0); });
}

static void behaviour(Inner &in, int nprogs)
{
	static const int pairs[][2] = { { 0, 1 }, { 0, 2 }, { 1, 2 }, { 0, 3 }, { 0, 4 }, { 0, 5 }, { 1, 3 }, { 1, 4 }, { 1, 5 }, { 2, 3 }, { 2, 4 }, { 3, 4 }, { 3, 5 }, { 4, 5 } };
	int pr = in(14);
	int impl = in(2), cfg = in(7); World w(in, impl, cfg == 6);
	w.prog[pairs[pr][0]] = in(NPROG); w.prog[pairs[pr][1]] = in(NPROG);
	if(nprogs > 2) { int third = in(NACTOR); if(third != pairs[pr][0] and third != pairs[pr][1]) w.prog[third] = in(NPROG); }
	static const char *cfgs[] = { "all ready", "0 ready, 1 fed later", "nothing ready, hang-ups later", "1 ready, interrupted first", "0 fed while asleep, interrupted second", "everything closed at the start", "0 ready, writer 1 blocked for a while" };
	in.log("%s; %s: %s, %s: %s", cfgs[cfg], actorName[pairs[pr][0]], progName[w.prog[pairs[pr][0]]], actorName[pairs[pr][1]], progName[w.prog[pairs[pr][1]]]);
	if(cfg == 0) { w.feed(0); w.feed(1); }
	if(cfg == 1) { w.feed(0); w.ext = { { 1000.02, 1 } }; }
	if(cfg == 2) w.ext = { { 1000.015, 2 }, { 1000.03, 3 } };
	if(cfg == 3) { w.feed(1); w.eintrAt = 1; }
	if(cfg == 4) { w.ext = { { 1000.004, 0 }, { 1000.034, 1 } }; w.eintrAt = 2; }
	if(cfg == 5) { w.feed(0); w.hangup(0); w.hangup(1); }
	if(cfg == 6) { w.feed(0); w.ext = { { 1000.02, 4 }, { 1000.03, 0 } }; }
	for(int s = 0; s < 3; s++) w.registerSlot(s);
	w.defer(); w.timer(0.0053);
	w.run(0.05, cfg == 1 ? 0.002 : 0);
	if(not w.err.empty()) throw Violation{w.err};
	// a second run finds whatever the first left
	w.eintrAt = -1;
	w.run(0.05, 0);
	if(not w.err.empty()) throw Violation{w.err};
	for(auto &t : w.tms) if(not t.canceled and not t.fired and t.due < w.vtime() - 0.001) throw Violation{"a timer was lost"};
	for(auto &d : w.defs) if(not d.ran and not w.stopped) throw Violation{"a deferred task was lost"};
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C20"; meta.hangWallSeconds = 200;
	meta.assumptions = { "real pipes and socket pairs; virtual clock and virtual sleeping (select, epoll_wait and steady_clock::now are interposed)", "the EXCEPTION condition is not exercised: the two system calls define it differently" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		v.push_back({ "programs/2", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { behaviour(in, 2); }); } });
		v.push_back({ "programs/3", 0, [=] (Ctx &c) { explore(c, 4, [=] (Inner &in) { behaviour(in, 3); }); } });
		return v;
	});
}
