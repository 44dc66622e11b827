// C21: every interleaving (up to a preemption bound) of submitters, the run loop thread and closers on the real Performer.
#include "mc.hpp"
#include "rtmfp/Performer.hpp"
#include "rtmfp/SelectRunLoop.hpp"
#include "rtmfp/EPollRunLoop.hpp"
#include <poll.h>
#include <sys/select.h>
#include <sys/epoll.h>
#undef mutex
#undef condition_variable
#undef condition_variable_any
#undef recursive_mutex
#undef atomic_bool
using namespace com::zenomt;
using namespace mc;

namespace vps {
struct Thread { std::string name; pthread_t id; sem_t sem; bool done = false; const char *what = "start"; std::function<bool()> ready; std::function<void()> body; bool sleeping = false; };
struct Sched {
	Ctx &ctx; std::vector<std::unique_ptr<Thread> > th; int cur = -1; sem_t mainSem; bool over = false, quiet = false; uint64_t points = 0; std::function<bool()> idle; bool dead = false;
	Sched(Ctx &ctx) : ctx(ctx) { sem_init(&mainSem, 0, 0); }
	void add(const std::string &name, const std::function<void()> &body) { th.emplace_back(new Thread); auto *t = th.back().get(); t->name = name; t->body = body; sem_init(&t->sem, 0, 0); }
	bool enabled(Thread *t) { return not t->done and (not t->ready or t->ready()); }
	// pick who runs next; -1: nobody can
	int pick(bool canStay)
	{
		std::vector<int> en;
		if(canStay and enabled(th[cur].get())) en.push_back(cur);
		int stay = (int)en.size();
		for(int i = 0; i < (int)th.size(); i++) if(not (canStay and i == cur) and enabled(th[i].get())) en.push_back(i);
		if(en.empty()) return -1;
		if(en.size() == 1) return en[0];
		int k; try { k = ctx.choose((int)en.size(), stay ? 1 : 0, "schedule"); } catch(const Nondet &n) { ctx.fail("harness: %s", n.msg.c_str()); k = 0; }
		return en[k];
	}
	void handover(bool canStay)
	{
		int me = cur, next = pick(canStay);
		if(next < 0 and idle and idle()) next = pick(canStay); // quiescent: the scenario may wake the loop
		if(next < 0) { over = true; sem_post(&mainSem); if(canStay) for(;;) pause(); return; }
		if(next == me and canStay) return;
		cur = next; Thread *mine = canStay ? th[me].get() : nullptr;
		sem_post(&th[next]->sem);
		if(mine) sem_wait(&mine->sem);
	}
	void point(const char *what, const std::function<bool()> &ready)
	{
		Thread *t = th[cur].get(); t->what = what; t->ready = ready; points++; ctx.step();
		if(points > 20000) { ctx.fail("the threads run on without end"); over = true; sem_post(&mainSem); for(;;) pause(); }
		handover(true);
		th[cur]->ready = nullptr;
		if(ctx.verbose and ready) ctx.log("    %s: %s", th[cur]->name.c_str(), what);
	}
	static void *start(void *arg);
	void run();
};
static Sched *S0; static __thread Sched *mine; static __thread int myIndex;
Sched *active() { return mine; }
void block(const char *what, const std::function<bool()> &ready) { if(mine) mine->point(what, ready); }
void point(const char *what) { if(mine) mine->point(what, nullptr); }
struct StartArg { Sched *s; int i; };
void *Sched::start(void *a)
{
	StartArg *sa = (StartArg *)a; Sched *s = sa->s; int i = sa->i; delete sa;
	sem_wait(&s->th[i]->sem); mine = s; myIndex = i;
	s->th[i]->body();
	s->th[i]->done = true; mine = nullptr;
	bool all = true; for(auto &t : s->th) all = all and t->done;
	if(all) { s->over = true; sem_post(&s->mainSem); } else s->handover(false);
	return nullptr;
}
void Sched::run()
{
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
	for(int i = 0; i < (int)th.size(); i++) if(pthread_create(&th[i]->id, &at, start, new StartArg{this, i})) abort();
	cur = 0; sem_post(&th[0]->sem); sem_wait(&mainSem);
	bool all = true; for(auto &t : th) all = all and t->done;
	if(not all)
	{
		std::string w; for(auto &t : th) if(not t->done) w += fmt("%s waits in %s; ", t->name.c_str(), t->what);
		ctx.bail();
		throw Violation{"deadlock: " + w};
	}
	for(auto &t : th) pthread_join(t->id, nullptr);
}
}
using vps::mine;

static bool quit; // tells a loop asleep with nothing to do to go round once more
static bool readable(int fd) { struct pollfd p { fd, POLLIN, 0 }; return poll(&p, 1, 0) > 0; }
extern "C" {
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_epoll_wait(int, struct epoll_event *, int, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int);
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	if(not mine) return __real_select(n, r, w, x, tv);
	fd_set r0 = *r, w0 = *w, x0 = *x; int rv = 0; bool zero = tv and tv->tv_sec == 0 and tv->tv_usec < 100;
	auto look = [&] { *r = r0; *w = w0; *x = x0; struct timeval z { 0, 0 }; rv = __real_select(n, r, w, x, &z); return rv; };
	if(zero) vps::point("poll"); else vps::block("select", [&] { return quit or look() != 0; });
	return look();
}
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
	if(not mine) return __real_epoll_wait(ep, ev, n, ms);
	if(ms == 0) vps::point("poll"); else vps::block("epoll_wait", [&] { struct pollfd p { ep, POLLIN, 0 }; return quit or poll(&p, 1, 0) > 0; });
	return __real_epoll_wait(ep, ev, n, 0);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if(not mine) return __real_read(fd, b, n); vps::block("read", [=] { return readable(fd); }); ssize_t rv = __real_read(fd, b, n); if(rv < 0) mine->ctx.fail("read from a closed descriptor"); return rv; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if(not mine) return __real_write(fd, b, n); vps::point("write"); ssize_t rv = __real_write(fd, b, n); if(rv < 0) mine->ctx.fail("write to a descriptor that was closed"); return rv; }
int __wrap_close(int fd) { if(mine) vps::point("close"); return __real_close(fd); }
}

struct World {
	struct Rec { int submitter, n; bool wait, submitted = false, ran = false, returned = false, afterClose = false; };
	Ctx &ctx; vps::Sched s; std::unique_ptr<RunLoop> loop; std::unique_ptr<Performer> perf; std::vector<std::unique_ptr<Rec> > recs; bool closed = false, closing = false, loopDone = false; int loopThread = -1; std::map<int, int> last; int submittersLeft = 0; bool stopAtIdle = true; std::string trail; bool nested = false;
	World(Ctx &ctx, int impl) : ctx(ctx), s(ctx) { quit = false; if(impl) loop.reset(new EPollRunLoop()); else loop.reset(new SelectRunLoop()); perf.reset(new Performer(loop.get())); }
	void submit(int submitter, bool wait, const std::function<void()> &extra = nullptr)
	{
		recs.emplace_back(new Rec); Rec *r = recs.back().get(); r->submitter = submitter; r->n = (int)recs.size(); r->wait = wait; r->afterClose = closed; r->submitted = true;
		ctx.log("  %s submits %d%s", s.th[vps::myIndex]->name.c_str(), r->n, wait ? " and waits" : "");
		perf->perform([this, r, extra] {
			ctx.log("  task %d runs", r->n);
			if(r->ran) ctx.fail("task %d ran twice", r->n);
			if(closed) ctx.fail("task %d ran after the performer was closed", r->n);
			if(vps::myIndex != loopThread or not loop->isRunningInThisThread()) ctx.fail("task %d ran outside the run loop's thread", r->n);
			if(last[r->submitter] > r->n) ctx.fail("task %d ran after task %d of the same submitter", r->n, last[r->submitter]);
			last[r->submitter] = r->n; r->ran = true;
			if(extra) extra();
		}, wait);
		r->returned = true;
		ctx.log("  submission %d returns", r->n);
		if(wait and not r->ran and not closing) ctx.fail("submission %d returned before its task ran", r->n);
		if(r->afterClose and r->ran) ctx.fail("task %d was submitted after the close and ran", r->n);
	}
	void close() { closing = true; ctx.log("  close"); perf->close(); closed = true; ctx.log("  closed"); }
	void addLoop(const std::function<void()> &after = nullptr)
	{
		loopThread = (int)s.th.size();
		s.add("loop", [this, after] { loop->run(); ctx.log("  loop ended"); if(after) after(); loopDone = true; });
		s.idle = [this] {
			if(quit or loopDone) return false;
			for(auto &t : s.th) if(not t->done and &t != &s.th[loopThread]) return false; // somebody waits: a deadlock
			if(not closing) for(auto &r : recs) if(not r->ran) { ctx.fail("lost wakeup: task %d was submitted but the loop sleeps", r->n); break; }
			ctx.log("  (all quiet)"); quit = true; loop->stop(); return true;
		};
	}
	void addSubmitter(const std::function<void(int)> &f) { int k = (int)s.th.size(); s.add(fmt("submitter %d", k), [this, f, k] { f(k); }); }
	void finish()
	{
		s.run(); ctx.bail();
		for(auto &r : recs) { if(not closing) ctx.require(r->ran, "task %d never ran", r->n); ctx.require(r->returned, "submission %d never returned", r->n); }
		if(not closing) perf->close();
	}
};

static void scenario(Ctx &ctx, int kind, int impl)
{
	World w(ctx, impl);
	switch(kind)
	{
	case 0: // two submitters
		w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, false); }); w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, false); }); w.addLoop(); break;
	case 1: // with waiting
		w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, true); }); w.addSubmitter([&] (int k) { w.submit(k, true); w.submit(k, false); }); w.addLoop(); break;
	case 2: // a task closes the performer meanwhile
		w.addSubmitter([&] (int k) { w.submit(k, false, [&] { w.close(); }); w.submit(k, false); }); w.addSubmitter([&] (int k) { w.submit(k, true); w.submit(k, false); }); w.addLoop(); break;
	case 3: // the loop ends and its thread closes the performer while others submit and wait
		w.addSubmitter([&] (int k) { w.submit(k, false, [&] { w.loop->stop(); }); }); w.addSubmitter([&] (int k) { w.submit(k, true); }); w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, true); }); w.addLoop([&] { w.close(); }); break;
	case 4: // tasks that submit, waiting and not
		w.addSubmitter([&] (int k) { w.submit(k, false, [&] { w.submit(90, false); w.submit(91, true); }); w.submit(k, true); }); w.addSubmitter([&] (int k) { w.submit(k, false); }); w.addLoop(); break;
	case 5: // three submitters of one each, one waiting
		w.addSubmitter([&] (int k) { w.submit(k, false); }); w.addSubmitter([&] (int k) { w.submit(k, false); }); w.addSubmitter([&] (int k) { w.submit(k, true); }); w.addLoop(); break;
	case 6: // submission before the loop runs
		w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, true); }); w.addLoop(); break;
	case 7: // a task stops the loop, which then runs again
		w.addSubmitter([&] (int k) { w.submit(k, false, [&] { w.loop->stop(); }); w.submit(k, true); }); w.addSubmitter([&] (int k) { w.submit(k, false); });
		w.addLoop([&] { if(not quit) w.loop->run(); }); break;
	case 8: // many submissions from one thread against one from another, a waiting close at the end
		w.addSubmitter([&] (int k) { w.submit(k, false); w.submit(k, false); w.submit(k, false); w.submit(k, true, [&] { w.close(); }); w.submit(k, true); }); w.addSubmitter([&] (int k) { w.submit(k, true); }); w.addLoop(); break;
	}
	w.finish();
	ctx.summary = fmt("%d tasks, %llu scheduling points", (int)w.recs.size(), (unsigned long long)w.s.points);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C21"; meta.hangWallSeconds = 60;
	meta.assumptions = { "sequentially consistent interleavings of the performer's lock, condition, flag and pipe operations; pre-emption only at those", "close() is called on the run loop's thread (the run loop itself is not thread-safe)" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		static const char *names[] = { "two-submitters", "waiting", "close-by-task", "close-after-loop", "tasks-that-submit", "three-submitters", "early", "stop-and-run-again", "close-while-waiting" };
		for(int impl = 0; impl < 2; impl++) for(int k = 0; k < 9; k++) v.push_back({ fmt("%s/%s", impl ? "epoll" : "select", names[k]), th ? 4 : 2, [=] (Ctx &c) { scenario(c, k, impl); } });
		return v;
	});
}
