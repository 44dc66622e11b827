// C19: every small program of timer operations, from outside and from inside timer actions, against a reference model.
#include "seq.hpp"
#include "rtmfp/Timer.hpp"
using namespace com::zenomt;
using namespace mc;

enum Prog { P_NONE, P_CANCEL_SELF, P_CANCEL_OTHER, P_RESCHED_SELF1, P_RESCHED_SELF_NOW, P_RESCHED_OTHER_NOW, P_RESCHED_OTHER2, P_RECUR0, P_RECUR1, P_SCHEDULE_NOW, P_REMOVE_SELF, P_REMOVE_OTHER, P_RESCHED_CANCEL, P_CANCEL_RESCHED, P_RESCHED_RECUR, NPROG };
static const char *progName[] = { "-", "cancel self", "cancel other", "self at now+1", "self at now", "other at now", "other at now+2", "stop recurring", "recur every 1", "schedule one at now", "remove self", "remove other", "self at now+1 then cancel", "cancel then self at now", "self at now+1, recur 3" };
enum Op { O_ADV1, O_ADV3, O_FIRE, O_CANCEL0, O_CANCEL1, O_RESCHED0, O_RESCHED1_PAST, O_RECUR0_2, O_RECUR0_0, O_SCHEDULE, O_REMOVE0, O_ADD0, O_CLEAR, O_DROP1, NOP };
static const char *opName[] = { "advance 1", "advance 3", "fire again", "cancel 0", "cancel 1", "0 at now+1", "1 in the past", "0 recurs by 2", "0 recurs no more", "schedule another", "remove 0", "add 0 back", "clear", "drop 1" };
const int SLOTS = 5;

struct World {
	struct Token { int *live; std::vector<int> canary; Token(int *l) : live(l), canary(12, 4) { ++*live; } ~Token() { --*live; for(auto &x : canary) x = 0; } };
	struct Model { bool exists = false, canceled = false, inList = false, catchup = true, resched = false; Time when = 0; Duration recur = 0; int prog = P_NONE, progAt = 1, fires = 0, live = 0; };
	Inner &in; std::unique_ptr<TimerList> list; std::shared_ptr<Timer> t[SLOTS]; Model m[SLOTS]; Time now = 0; int running = -1, used = 0; bool inPass = false, cleared = false; std::string err; uint64_t notified = 0, expectNotified = 0, fired = 0;
	World(Inner &in) : in(in), list(new TimerList) { list->onHowLongToSleepDidChange = [this] { notified++; }; }
	void fail(const std::string &e) { if(err.empty()) err = e; }
	bool anyIn() { for(auto &x : m) if(x.exists and x.inList) return true; return false; }
	Time earliest() { Time e = INFINITY; for(auto &x : m) if(x.exists and x.inList) e = std::min(e, x.when); return e; }
	void modelAdd(int i) { if(not inPass and (not anyIn() or m[i].when < earliest())) expectNotified++; m[i].inList = true; }
	void schedule(Time when, Duration recur, bool catchup, int prog, int progAt)
	{
		if(used >= SLOTS) return;
		int i = used++; m[i].when = when; m[i].recur = recur; m[i].catchup = catchup; m[i].prog = prog; m[i].progAt = progAt;
		auto tok = std::make_shared<Token>(&m[i].live);
		modelAdd(i); m[i].exists = true;
		t[i] = list->schedule([this, i, tok] (const std::shared_ptr<Timer> &sender, Time at) {
			if(sender != t[i] and t[i]) fail(fmt("timer %d's action got another timer as sender", i));
			action(i, at, sender);
			for(auto x : tok->canary) if(x != 4) { fail("an action was destroyed while it ran"); break; }
		}, when, recur, catchup);
		in.log("timer %d at %Lg recur %Lg%s: on firing %d %s", i, when, recur, catchup ? " catching up" : "", progAt, progName[prog]);
	}
	void settle() // what happens after an action returns, before the next one
	{
		if(running < 0) return;
		Model &x = m[running]; running = -1;
		if(x.canceled) { x.inList = false; return; }
		if(x.resched) return;
		if(x.recur > 0)
		{
			if(x.catchup and now > x.when) { Time w = x.when; do w += x.recur; while(w < now); x.when = w; } else x.when += x.recur;
			if(x.exists and not removed) x.inList = true;
		}
		else x.canceled = true;
	}
	bool removed = false;
	void action(int i, Time at, const std::shared_ptr<Timer> &self)
	{
		settle();
		Model &x = m[i]; fired++;
		in.log("%Lg: timer %d fires", now, i);
		if(at != now) fail(fmt("timer %d was told the time is %Lg, not %Lg", i, at, now));
		if(not inPass) fail("an action ran outside a firing pass");
		if(x.canceled) fail(fmt("timer %d fired after it was canceled", i));
		else if(not x.inList) fail(fmt("timer %d fired though it is not scheduled", i));
		else if(x.when > now) fail(fmt("timer %d fired at %Lg, before its time %Lg", i, now, x.when));
		else if(x.when > earliest()) fail(fmt("timer %d, due at %Lg, fired before another due at %Lg", i, x.when, earliest()));
		x.inList = false; x.resched = false; removed = false; running = i; x.fires++;
		if(x.fires != x.progAt) return;
		int o = (i + 1) % 2;
		switch(x.prog)
		{
		case P_CANCEL_SELF: self->cancel(); x.canceled = true; break;
		case P_CANCEL_OTHER: cancel(o); break;
		case P_RESCHED_SELF1: resched(i, self, now + 1); break;
		case P_RESCHED_SELF_NOW: resched(i, self, now); break;
		case P_RESCHED_OTHER_NOW: resched(o, t[o], now); break;
		case P_RESCHED_OTHER2: resched(o, t[o], now + 2); break;
		case P_RECUR0: self->setRecurInterval(0); x.recur = 0; break;
		case P_RECUR1: self->setRecurInterval(1); x.recur = 1; break;
		case P_SCHEDULE_NOW: schedule(now, 0, true, P_NONE, 9); break;
		case P_REMOVE_SELF: list->removeTimer(self); removed = orphan[i] = true; break;
		case P_REMOVE_OTHER: if(t[o] and m[o].exists) { list->removeTimer(t[o]); m[o].inList = false; orphan[o] = true; } break;
		case P_RESCHED_CANCEL: resched(i, self, now + 1); self->cancel(); x.canceled = true; x.inList = false; break;
		case P_CANCEL_RESCHED: self->cancel(); x.canceled = true; self->setNextFireTime(now); break;
		case P_RESCHED_RECUR: resched(i, self, now + 1); self->setRecurInterval(3); x.recur = 3; break;
		}
	}
	void cancel(int i) { if(not t[i]) return; t[i]->cancel(); m[i].canceled = true; m[i].inList = false; if(m[i].live and running != i) fail(fmt("timer %d was canceled but keeps its action", i)); }
	bool orphan[SLOTS] = {}; // taken out of the list with removeTimer or clear
	void resched(int i, const std::shared_ptr<Timer> &tm, Time when)
	{
		if(not tm or m[i].canceled) { if(tm) tm->setNextFireTime(when); return; }
		if(orphan[i] or (i == running and removed)) { tm->setNextFireTime(when); m[i].when = when; m[i].resched = true; return; }
		m[i].inList = false; m[i].when = when; modelAdd(i); m[i].resched = true;
		tm->setNextFireTime(when);
	}
	void pass()
	{
		inPass = true; size_t n = list->fireDueTimers(now); settle(); inPass = false;
		(void)n;
		for(int i = 0; i < SLOTS; i++)
		{
			if(m[i].exists and m[i].inList and m[i].when <= now) fail(fmt("timer %d, due at %Lg, did not fire by %Lg", i, m[i].when, now));
			if(m[i].exists and m[i].canceled and m[i].live) fail(fmt("timer %d has ended but keeps its action", i));
		}
	}
	void verify()
	{
		if(not err.empty()) throw Violation{err};
		need(notified >= expectNotified, "a timer became the earliest and the sleep-changed notification did not come");
		for(Duration mx : { Duration(0), Duration(1), Duration(5), Duration(INFINITY) })
		{
			Duration want = anyIn() ? std::min(mx, earliest() - now) : mx, got = list->howLongToNextFire(now, mx);
			need(got == want, fmt("time to the next timer is %Lg, reported %Lg (limit %Lg)", want, got, mx));
		}
		for(int i = 0; i < used; i++) if(t[i])
		{
			need(t[i]->isCanceled() == m[i].canceled, fmt("timer %d canceled: %d, expected %d", i, t[i]->isCanceled(), m[i].canceled));
			if(not m[i].canceled) need(t[i]->getNextFireTime() == m[i].when, fmt("timer %d is due at %Lg, expected %Lg", i, t[i]->getNextFireTime(), m[i].when));
			need(t[i]->doesRecur() == (m[i].recur > 0 and not m[i].canceled), "doesRecur is wrong");
		}
	}
	void op(int o)
	{
		in.log("%s", opName[o]);
		switch(o)
		{
		case O_ADV1: now += 1; pass(); break;
		case O_ADV3: now += 3; pass(); break;
		case O_FIRE: pass(); break;
		case O_CANCEL0: cancel(0); break;
		case O_CANCEL1: cancel(1); break;
		case O_RESCHED0: resched(0, t[0], now + 1); break;
		case O_RESCHED1_PAST: resched(1, t[1], now - 1); break;
		case O_RECUR0_2: t[0]->setRecurInterval(2); m[0].recur = 2; break;
		case O_RECUR0_0: t[0]->setRecurInterval(0); m[0].recur = 0; break;
		case O_SCHEDULE: schedule(now + 1, 2, false, P_NONE, 9); break;
		case O_REMOVE0: list->removeTimer(t[0]); m[0].inList = false; orphan[0] = true; break;
		case O_ADD0: if(not m[0].canceled and not m[0].inList) { list->addTimer(t[0]); modelAdd(0); orphan[0] = false; } break;
		case O_CLEAR: list->clear(); for(int i = 0; i < used; i++) { m[i].inList = false; orphan[i] = true; } cleared = true; break;
		case O_DROP1: t[1].reset(); break;
		}
	}
};

static void behaviour(Inner &in, int depth, bool wide, bool both, bool quickPairs = false)
{
	World w(in);
	for(int i = 0; i < 2; i++)
	{
		int prog = i and not both ? 0 : in(NPROG), recur = in(wide ? 4 : 3), when = 1 + in(2), at = prog and not quickPairs ? 1 + in(2) : 1;
		if(prog and at == 2 and recur == 0) at = 1;
		w.schedule(when, recur == 0 ? 0 : recur == 3 ? 2 : 1, recur != 2, prog, at);
	}
	w.schedule(2, 0, true, P_NONE, 9);
	w.verify();
	for(int d = 0; d < depth; d++) { w.op(in(NOP)); w.verify(); }
	w.now += 2; w.in.log("advance 2"); w.pass(); w.verify();
	w.list.reset();
	// the list is gone: surviving timers must be harmless, and nothing may keep their actions
	for(int i = 0; i < w.used; i++) { if(w.t[i]) { w.t[i]->setNextFireTime(w.now + 1); w.t[i]->cancel(); } w.t[i].reset(); }
	for(int i = 0; i < w.used; i++) need(w.m[i].live == 0, fmt("timer %d's action outlived the timer", i));
}

static void phases(Inner &in) // long recurrences keep their phase exactly, however late each pass is
{
	TimerList list; const Duration iv[] = { 1, 2, 3, 0.25L }; Duration interval = iv[in(4)]; bool catchup = in(2); Time start = 1 + in(2); Time now = 0; uint64_t n = 0; Time due = start; bool bad = false; std::string e;
	auto t = list.schedule([&] (const std::shared_ptr<Timer> &, Time at) {
		n++; if(at < due) { bad = true; e = fmt("fired at %Lg before %Lg", at, due); }
		if(catchup and at > due) { do due += interval; while(due < at); } else due += interval;
	}, start, interval, catchup);
	for(int k = 0; k < 6; k++)
	{
		static const Duration adv[] = { 0.25L, 1, 2.5L, 7 };
		now += adv[in(4)]; list.fireDueTimers(now);
		need(not bad, e);
		need(due > now, fmt("the timer due at %Lg did not run by %Lg", due, now));
		need(t->getNextFireTime() == due, fmt("next at %Lg, expected %Lg", t->getNextFireTime(), due));
		Duration r = (due - start) / interval; need(r == (Duration)(uint64_t)r, "the timer lost its phase");
	}
	in.log("%llu firings", (unsigned long long)n);
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C19";
	meta.assumptions = { "times are multiples of a quarter second, so that long-double arithmetic is exact", "timers due at the same time may run in any order" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		v.push_back({ "pairs/2", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { behaviour(in, 2, false, true, not th); }); } });
		v.push_back({ "programs/3", 0, [=] (Ctx &c) { explore(c, 4, [=] (Inner &in) { behaviour(in, 3, th, false); }); } });
		if(th)
		{
			v.push_back({ "pairs/3", 0, [=] (Ctx &c) { explore(c, 6, [=] (Inner &in) { behaviour(in, 3, false, true); }); } });
			v.push_back({ "programs/4", 0, [=] (Ctx &c) { explore(c, 5, [=] (Inner &in) { behaviour(in, 4, true, false); }); } });
		}
		v.push_back({ "phases", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { phases(in); }); } });
		return v;
	});
}
