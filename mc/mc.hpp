#pragma once
// Bounded exhaustive explorer ("stateless model checker") for the real code.
//
// A Scenario is a deterministic function of the answers of Ctx::choose().  The explorer enumerates EVERY answer
// sequence whose total cost (each non-default answer has a cost; cost-0 choices are free and always fully
// branched) is within the scenario's budget.  Work is distributed over forked workers through a shared stack.
// A crash, sanitizer report, hang, uncaught exception or failed oracle in any execution is a violation; the
// answer sequence is the replay.

#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

inline std::string vfmt(const char *f, va_list ap)
{
	char buf[4096];
	vsnprintf(buf, sizeof buf, f, ap);
	return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...)
{
	va_list ap; va_start(ap, f); std::string r = vfmt(f, ap); va_end(ap); return r;
}

struct Hash {
	uint64_t h = 0x9e3779b97f4a7c15ull;
	void mix(uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
	void bytes(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; uint64_t x = 1469598103934665603ull; for(size_t i = 0; i < n; i++) { x ^= b[i]; x *= 1099511628211ull; } mix(x); mix(n); }
	void str(const std::string &s) { bytes(s.data(), s.size()); }
	void dbl(double d) { mix((uint64_t)(int64_t)llround(d * 1e6)); }
};

const int MAXDEV = 46;
struct Dev { uint16_t pos; uint16_t alt; uint16_t cost; };
struct Task { uint16_t scen = 0; uint16_t n = 0; Dev d[MAXDEV]; };

struct Violation { std::string msg; };
struct Nondet { std::string msg; };

const int NCOUNTERS = 96;
const int NSAMPLES = 6;
const int MAXW = 32;
struct Shared {
	pthread_mutex_t mu;
	std::atomic<uint64_t> top, active, stop, timedout, overflow, nondet;
	std::atomic<uint64_t> execs, transitions, states, choicePoints, stateCap;
	struct { std::atomic<int> used; char name[48]; std::atomic<uint64_t> v; } counters[NCOUNTERS];
	std::atomic<int> nsamples;
	char samples[NSAMPLES][900];
	std::atomic<uint64_t> scenExecs[4096];
	std::atomic<int> violated; // 0 none, 1 claimed, 2 written
	Task vtask; char vmsg[3000];
	char internal[1000]; std::atomic<int> internalErr;
	struct { std::atomic<int> running; Task cur; } ws[MAXW];
};

class Ctx {
public:
	bool verbose = false;
	std::string summary; // short description of the execution (for samples)

	int choose(int n, int cost = 1, const char *label = "")
	{
		size_t p = m_pos++;
		int rv = 0;
		if(m_next < m_task->n and m_task->d[m_next].pos == p)
		{
			rv = m_task->d[m_next].alt;
			if(rv >= n)
				throw Nondet{fmt("choice %zu (%s) has %d alternatives, replay wants %d", p, label, n, rv)};
			m_next++;
		}
		else if(m_next >= m_task->n and n > 1 and p < 65535)
			m_rec.push_back({ (uint16_t)p, (uint16_t)n, (uint8_t)cost });
		if(verbose and (n > 1) and (rv or cost == 0))
			log("  choice #%zu %s = %d of %d", p, label, rv, n);
		return rv;
	}
	// how much budget is left (so harnesses can skip creating pointless choice points)
	int remaining() const { int r = m_budget; for(int i = 0; i < m_next; i++) r -= m_task->d[i].cost; return r; }

	__attribute__((format(printf, 2, 3))) void log(const char *f, ...)
	{
		if(not verbose) return;
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		fprintf(stdout, "%s\n", s.c_str()); fflush(stdout);
	}
	// Record an oracle failure (sticky, does not throw: safe inside callbacks of the code under test).
	__attribute__((format(printf, 2, 3))) void fail(const char *f, ...)
	{
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		if(verbose) log("ORACLE FAILURE: %s", s.c_str());
		if(m_failure.empty()) m_failure = s;
	}
	bool failed() const { return not m_failure.empty(); }
	// Top-level assertion: throws.
	__attribute__((format(printf, 3, 4))) void require(bool c, const char *f, ...)
	{
		if(c) return;
		va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
		throw Violation{s};
	}
	void bail() { if(failed()) throw Violation{m_failure}; }
	void step(uint64_t n = 1) { m_sh->transitions += n; }
	void state(uint64_t h);
	void count(const char *name, uint64_t n = 1);

	std::string m_failure;
	Shared *m_sh = nullptr;
	const Task *m_task = nullptr;
	int m_next = 0, m_budget = 0;
	size_t m_pos = 0;
	struct Rec { uint16_t pos; uint16_t n; uint8_t cost; };
	std::vector<Rec> m_rec;
};

struct Scenario {
	std::string name;
	int budget;
	std::function<void(Ctx &)> run;
};

struct Meta {
	std::string property;
	std::string level = "model_checking";
	std::vector<std::string> assumptions;
	bool realtime = false;   // a violation must reproduce in a fresh process to count
	int hangCpuSeconds = 30;
	int hangWallSeconds = 0; // 0: none
	double quickLimit = 420, thoroughLimit = 3000;
	bool fresh = false;      // fork a fresh process for every execution (global state in the code under test)
	int maxJobs = 0;
};

struct Opts { std::string tier = "quick"; };

// ---- globals
inline uint64_t *&stateTable() { static uint64_t *t; return t; }
const uint64_t STATE_TABLE = 1ull << 24;

inline void Ctx::state(uint64_t h)
{
	if(not h) h = 1;
	uint64_t *t = stateTable();
	if(not t or m_sh->stateCap) return;
	uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> 40;
	for(int probes = 0; probes < 4096; probes++)
	{
		uint64_t cur = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
		if(cur == h) return;
		if(cur == 0)
		{
			uint64_t expect = 0;
			if(__atomic_compare_exchange_n(&t[i], &expect, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
			{ if(++m_sh->states > STATE_TABLE * 3 / 4) m_sh->stateCap = 1; return; }
			if(expect == h) return;
		}
		i = (i + 1) & (STATE_TABLE - 1);
	}
}

inline void Ctx::count(const char *name, uint64_t n)
{
	for(int i = 0; i < NCOUNTERS; i++)
	{
		auto &c = m_sh->counters[i];
		int u = c.used.load();
		if(u == 0)
		{
			pthread_mutex_lock(&m_sh->mu);
			if(c.used.load() == 0) { strncpy(c.name, name, sizeof(c.name) - 1); c.used = 1; }
			pthread_mutex_unlock(&m_sh->mu);
		}
		if(0 == strncmp(c.name, name, sizeof(c.name) - 1)) { c.v += n; return; }
	}
}

// Enumerate every sequence of length `depth` over 0..n-1.  The first `split` positions are explorer choices (free, so
// fully branched and spread over the workers); the rest is a plain odometer.  f(seq) returns an error or "".
template<class F> unsigned long allSequences(Ctx &ctx, int n, int depth, int split, const F &f)
{
	std::vector<int> q(depth, 0); unsigned long runs = 0;
	for(int i = 0; i < split and i < depth; i++) q[i] = ctx.choose(n, 0, "op");
	for(;;)
	{
		std::string e = f(q); runs++;
		if(not e.empty()) { std::string t; for(int o : q) t += fmt(" %d", o); ctx.require(false, "%s [operation sequence%s]", e.c_str(), t.c_str()); }
		int k = depth - 1;
		while(k >= split and ++q[k] >= n) q[k--] = 0;
		if(k < split) break;
	}
	ctx.step(runs * depth); ctx.count("operation sequences", runs);
	return runs;
}

inline std::string taskStr(const std::vector<Scenario> &sc, const Task &t)
{
	std::string s = sc[t.scen].name + " :";
	for(int i = 0; i < t.n; i++) s += fmt(" %u=%u", t.d[i].pos, t.d[i].alt);
	if(not t.n) s += " (all defaults)";
	return s;
}

inline std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for(unsigned char c : s)
	{
		if(c == '"' or c == '\\') { r += '\\'; r += c; }
		else if(c == '\n') r += "\\n";
		else if(c < 32 or c > 126) r += fmt("\\u%04x", c);
		else r += c;
	}
	return r + "\"";
}

// returns failure message or empty
inline std::string execute(const std::vector<Scenario> &sc, Shared *sh, const Task &t, Ctx &ctx)
{
	ctx.m_sh = sh; ctx.m_task = &t; ctx.m_budget = sc[t.scen].budget;
	try { sc[t.scen].run(ctx); }
	catch(const Violation &v) { return v.msg.empty() ? "violation" : v.msg; }
	catch(const Nondet &n) { if(not ctx.failed()) throw; }
	catch(const std::exception &e) { return fmt("uncaught exception from code under test: %s", e.what()); }
	return ctx.m_failure;
}

inline double wall() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline void armWatchdog(const Meta &m)
{
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = m.hangCpuSeconds;
	setitimer(ITIMER_PROF, &it, nullptr);
	if(m.hangWallSeconds) alarm(m.hangWallSeconds);
}

inline size_t rssMB()
{
	FILE *f = fopen("/proc/self/statm", "r"); if(not f) return 0;
	long a = 0, b = 0; if(2 != fscanf(f, "%ld %ld", &a, &b)) b = 0; fclose(f);
	return size_t(b) * 4096 / 1048576;
}

class Explorer {
public:
	Explorer(const Meta &m, const std::vector<Scenario> &s, const std::string &tier) : meta(m), sc(s), tier(tier) {}
	const Meta &meta; const std::vector<Scenario> &sc; std::string tier;
	Shared *sh; Task *stack;
	static const uint64_t STACKCAP = 6u << 20;
	double started, deadline;
	std::string errBase, crashText; // workers' stderr goes to errBase.<worker>.err
	std::string errFile(int w) { return errBase + fmt(".%d.err", w); }

	template<class T> static T *shmap(size_t n)
	{
		void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(p == MAP_FAILED) { perror("mmap"); exit(2); }
		return (T *)p;
	}
	void init()
	{
		sh = shmap<Shared>(sizeof(Shared));
		pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_setpshared(&a, PTHREAD_PROCESS_SHARED);
		pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
		pthread_mutex_init(&sh->mu, &a);
		stack = shmap<Task>(sizeof(Task) * STACKCAP);
		stateTable() = shmap<uint64_t>(STATE_TABLE * 8);
	}
	void lock() { if(EOWNERDEAD == pthread_mutex_lock(&sh->mu)) pthread_mutex_consistent(&sh->mu); }
	void unlock() { pthread_mutex_unlock(&sh->mu); }

	void claimViolation(const Task &t, const std::string &msg)
	{
		int z = 0;
		if(sh->violated.compare_exchange_strong(z, 1))
		{
			sh->vtask = t; strncpy(sh->vmsg, msg.c_str(), sizeof(sh->vmsg) - 1);
			sh->violated = 2;
		}
		sh->stop = 1;
	}

	// An execution that does not reproduce its prefix is not explored further; it is counted and reported.
	void noteNondet(const Task &t, const std::string &m)
	{
		if(0 == sh->nondet++)
			strncpy(sh->internal, (taskStr(sc, t) + " nondeterminism: " + m).c_str(), sizeof(sh->internal) - 1);
	}

	void runOne(const Task &t, std::vector<Task> &children)
	{
		Ctx ctx;
		std::string msg;
		try { msg = execute(sc, sh, t, ctx); }
		catch(const Nondet &n)
		{
			noteNondet(t, n.msg); return;
		}
		uint64_t e = ++sh->execs;
		sh->scenExecs[t.scen]++;
		sh->choicePoints += ctx.m_pos;
		if(not msg.empty()) { claimViolation(t, msg); return; }
		if(ctx.m_next < t.n) // a deviation was never reached
		{
			noteNondet(t, "deviation not reached"); return;
		}
		if((e & (e - 1)) == 0 and ((e == 1) or (__builtin_ctzll(e) % 4 == 3)))
		{
			int i = sh->nsamples++;
			if(i < NSAMPLES) strncpy(sh->samples[i], (taskStr(sc, t) + (ctx.summary.empty() ? "" : " -> " + ctx.summary)).c_str(), sizeof(sh->samples[i]) - 1);
		}
		int used = 0;
		for(int i = 0; i < t.n; i++) used += t.d[i].cost;
		int left = sc[t.scen].budget - used;
		for(auto &r : ctx.m_rec)
		{
			if(r.cost > left) continue;
			if(t.n >= MAXDEV) { sh->overflow = 1; continue; }
			for(int alt = 1; alt < r.n; alt++)
			{
				children.push_back(t);
				auto &c = children.back();
				c.d[c.n].pos = r.pos; c.d[c.n].alt = (uint16_t)alt; c.d[c.n].cost = r.cost; c.n++;
			}
		}
	}

	void push(const std::vector<Task> &v)
	{
		if(v.empty()) return;
		lock();
		uint64_t top = sh->top;
		for(auto it = v.rbegin(); it != v.rend(); ++it)
		{
			if(top >= STACKCAP) { sh->overflow = 1; break; }
			stack[top++] = *it;
		}
		sh->top = top;
		unlock();
	}

	[[noreturn]] void worker(int w, int jobs)
	{
		prctl_pdeath();
		if(not errBase.empty()) { int f = open(errFile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if(f >= 0) { dup2(f, 2); close(f); } }
		std::vector<Task> batch, children;
		bool recycle = false;
		while(not sh->stop)
		{
			batch.clear();
			lock();
			uint64_t top = sh->top;
			if(top)
			{
				uint64_t take = top > 64u * jobs ? 16 : (top > 8u * jobs ? 4 : 1);
				for(uint64_t i = 0; i < take; i++) batch.push_back(stack[--top]);
				sh->top = top;
				sh->active++;
			}
			uint64_t act = sh->active;
			unlock();
			if(batch.empty())
			{
				if(0 == act) break;
				usleep(200);
				continue;
			}
			children.clear();
			for(auto &t : batch)
			{
				if(sh->stop) break;
				if(wall() > deadline) { sh->timedout = 1; sh->stop = 1; break; }
				sh->ws[w].cur = t; sh->ws[w].running = 1;
				armWatchdog(meta);
				if(meta.fresh) runForked(t, children);
				else runOne(t, children);
				sh->ws[w].running = 0;
			}
			push(children);
			sh->active--;
			if((sh->execs & 63) == 0 and rssMB() > 1500) { recycle = true; break; }
		}
		_exit(recycle ? 77 : 0);
	}
	static void prctl_pdeath();

	// run in a fresh child; children tasks come back through a pipe
	void runForked(const Task &t, std::vector<Task> &children)
	{
		int fd[2]; if(pipe(fd)) _exit(3);
		pid_t p = fork();
		if(0 == p)
		{
			close(fd[0]);
			armWatchdog(meta);
			std::vector<Task> c; runOne(t, c);
			const char *b = (const char *)c.data(); size_t n = c.size() * sizeof(Task);
			while(n) { ssize_t k = write(fd[1], b, n); if(k <= 0) break; b += k; n -= k; }
			_exit(0);
		}
		close(fd[1]);
		std::string in; char buf[65536]; ssize_t k;
		while((k = read(fd[0], buf, sizeof buf)) > 0) in.append(buf, k);
		close(fd[0]);
		int st = 0; waitpid(p, &st, 0);
		if(not (WIFEXITED(st) and WEXITSTATUS(st) == 0) and not sh->violated)
			claimViolation(t, exitStr(st));
		size_t n = in.size() / sizeof(Task);
		const Task *ts = (const Task *)in.data();
		children.insert(children.end(), ts, ts + n);
	}

	static std::string exitStr(int st)
	{
		if(WIFSIGNALED(st))
		{
			int s = WTERMSIG(st);
			if(s == SIGPROF) return "hang: execution used more CPU time than allowed (endless loop)";
			if(s == SIGALRM) return "hang: execution did not finish in time (deadlock or endless wait)";
			return fmt("crash: killed by signal %d (%s)", s, strsignal(s));
		}
		return fmt("crash: process exited with status %d (sanitizer report or abort, see stderr)", WEXITSTATUS(st));
	}

	int jobs()
	{
		long n = sysconf(_SC_NPROCESSORS_ONLN); if(n < 1) n = 1; if(n > 8) n = 8;
		if(getenv("VP_JOBS")) n = atoi(getenv("VP_JOBS"));
		if(meta.maxJobs and n > meta.maxJobs) n = meta.maxJobs;
		return (int)n;
	}

	void explore()
	{
		init();
		started = wall();
		deadline = started + (tier == "thorough" ? meta.thoroughLimit : meta.quickLimit);
		if(getenv("VP_LIMIT")) deadline = started + atof(getenv("VP_LIMIT"));
		std::vector<Task> roots(sc.size());
		for(size_t i = 0; i < sc.size(); i++) { roots[i].scen = (uint16_t)i; roots[i].n = 0; }
		push(roots);
		int J = jobs();
		std::vector<pid_t> pids(J);
		auto spawn = [&] (int w) {
			fflush(stdout); fflush(stderr);
			pid_t p = fork();
			if(0 == p) worker(w, J);
			pids[w] = p;
		};
		for(int w = 0; w < J; w++) spawn(w);
		int live = J;
		while(live > 0)
		{
			int st = 0; pid_t p = wait(&st);
			if(p < 0) break;
			int w = -1;
			for(int i = 0; i < J; i++) if(pids[i] == p) w = i;
			if(w < 0) continue;
			if(WIFEXITED(st) and WEXITSTATUS(st) == 0) { live--; continue; }
			if(WIFEXITED(st) and WEXITSTATUS(st) == 77) { spawn(w); continue; }
			live--;
			if(crashText.empty() and not errBase.empty()) { std::ifstream f(errFile(w)); std::string line; for(int i = 0; i < 14 and std::getline(f, line); i++) crashText += "    " + line.substr(0, 200) + "\n"; }
			if(sh->ws[w].running) claimViolation(sh->ws[w].cur, exitStr(st));
			else { snprintf(sh->internal, sizeof(sh->internal), "worker died: %s", exitStr(st).c_str()); sh->internalErr = 1; sh->stop = 1; }
		}
	}
};


inline void Explorer::prctl_pdeath() { prctl(PR_SET_PDEATHSIG, SIGKILL); }

inline void writeEvidence(const Meta &meta, const std::vector<Scenario> &sc, Explorer &ex, const std::string &path, int violations)
{
	Shared *sh = ex.sh;
	int seed = getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1;
	std::ostringstream o;
	o << "{\n \"property\": " << jstr(meta.property) << ",\n \"tier\": " << jstr(ex.tier) << ",\n \"seed\": " << seed
	  << ",\n \"level\": " << jstr(meta.level) << ",\n \"coverage\": {\n";
	bool exhaustive = not sh->nondet and not sh->timedout and not sh->overflow and not violations and sh->top == 0;
	o << "  \"states\": " << sh->states << ",\n  \"transitions\": " << sh->transitions
	  << ",\n  \"traces_validated_against_impl\": " << sh->execs << ",\n  \"choice_points\": " << sh->choicePoints
	  << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"unreproducible_executions\": " << sh->nondet << ",\n  \"state_table_saturated\": " << (sh->stateCap ? "true" : "false");
	o << ",\n  \"scenarios\": [";
	for(size_t i = 0; i < sc.size(); i++)
		o << (i ? ", " : "") << "{\"name\": " << jstr(sc[i].name) << ", \"deviation_budget\": " << sc[i].budget << ", \"executions\": " << sh->scenExecs[i] << "}";
	o << "],\n  \"events\": {";
	bool first = true;
	for(int i = 0; i < NCOUNTERS; i++) if(sh->counters[i].used) { o << (first ? "" : ", ") << jstr(sh->counters[i].name) << ": " << sh->counters[i].v; first = false; }
	o << "},\n  \"samples\": [";
	for(int i = 0; i < NSAMPLES and i < sh->nsamples; i++) o << (i ? ", " : "") << jstr(sh->samples[i]);
	o << "]\n },\n \"assumptions\": [";
	for(size_t i = 0; i < meta.assumptions.size(); i++) o << (i ? ", " : "") << jstr(meta.assumptions[i]);
	o << "],\n \"wall_s\": " << fmt("%.2f", wall() - ex.started) << ",\n \"violations\": " << violations << "\n}\n";
	std::ofstream f(path); f << o.str();
}

inline int doReplay(const Meta &meta, const std::vector<Scenario> &sc, const std::string &file, bool verbose)
{
	std::ifstream f(file);
	std::string line, scen; std::vector<std::pair<int,int>> devs;
	while(std::getline(f, line))
	{
		if(0 == line.compare(0, 9, "scenario=")) scen = line.substr(9);
		if(0 == line.compare(0, 4, "dev=")) { int p, a; if(2 == sscanf(line.c_str() + 4, "%d:%d", &p, &a)) devs.push_back({ p, a }); }
	}
	for(size_t i = 0; i < sc.size(); i++)
	{
		if(sc[i].name != scen) continue;
		Shared *sh = Explorer::shmap<Shared>(sizeof(Shared));
		pthread_mutex_init(&sh->mu, nullptr);
		Task t; t.scen = (uint16_t)i;
		for(auto &d : devs) { t.d[t.n].pos = (uint16_t)d.first; t.d[t.n].alt = (uint16_t)d.second; t.d[t.n].cost = 1; t.n++; }
		Ctx ctx; ctx.verbose = verbose;
		armWatchdog(meta);
		std::string msg;
		try { msg = execute(sc, sh, t, ctx); } catch(const Nondet &n) { msg = "nondeterminism: " + n.msg; }
		if(verbose) printf("summary: %s\n", ctx.summary.c_str());
		if(msg.empty()) { printf("replay: no violation\n"); return 0; }
		printf("replay: %s\n", msg.c_str());
		return 1;
	}
	printf("replay: no scenario '%s'\n", scen.c_str());
	return 2;
}

using ScenarioFn = std::function<std::vector<Scenario>(const std::string &tier)>;

inline int runMain(int argc, char **argv, const Meta &meta, const ScenarioFn &make)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string mode = argc > 1 ? argv[1] : "quick";
	signal(SIGPIPE, SIG_IGN);
	if(mode == "replay" or mode == "replayq")
	{
		std::vector<Scenario> all = make("quick");
		auto more = make("thorough");
		for(auto &m : more) { bool have = false; for(auto &a : all) have |= a.name == m.name; if(not have) all.push_back(m); }
		return doReplay(meta, all, argv[2], mode == "replay");
	}
	if(mode == "list") { for(auto &s : make(argc > 2 ? argv[2] : "quick")) printf("%s (budget %d)\n", s.name.c_str(), s.budget); return 0; }
	std::vector<Scenario> sc = make(mode);
	if(getenv("VP_SCEN")) { std::vector<Scenario> f; for(auto &s : sc) if(s.name.find(getenv("VP_SCEN")) != std::string::npos) f.push_back(s); sc = f; }
	if(getenv("VP_BUDGET")) for(auto &s : sc) s.budget = atoi(getenv("VP_BUDGET"));
	std::string root = getenv("VP_ROOT") ? getenv("VP_ROOT") : ".";
	Explorer ex(meta, sc, mode);
	mkdir((root + "/replays").c_str(), 0755);
	ex.errBase = root + "/replays/" + meta.property;
	ex.explore();
	for(int i = 0; i < MAXW; i++) unlink(ex.errFile(i).c_str());
	Shared *sh = ex.sh;
	std::string evid = root + "/evidence/" + meta.property + ".json";
	mkdir((root + "/evidence").c_str(), 0755);
	int rv = 0, violations = 0;
	if(sh->violated)
	{
		mkdir((root + "/replays").c_str(), 0755);
		std::string rp = root + "/replays/" + meta.property + ".replay";
		{
			std::ofstream f(rp);
			f << "property=" << meta.property << "\nscenario=" << sc[sh->vtask.scen].name << "\n";
			for(int i = 0; i < sh->vtask.n; i++) f << "dev=" << sh->vtask.d[i].pos << ":" << (int)sh->vtask.d[i].alt << "\n";
			f << "message=" << sh->vmsg << "\n";
		}
		bool confirmed = true;
		if(meta.realtime)
		{
			int bad = 0;
			for(int i = 0; i < 3; i++)
			{
				pid_t p = fork();
				if(0 == p) { if(not freopen("/dev/null", "w", stdout)) _exit(9); execl(argv[0], argv[0], "replayq", rp.c_str(), (char *)nullptr); _exit(9); }
				int st = 0; waitpid(p, &st, 0);
				if(not (WIFEXITED(st) and WEXITSTATUS(st) == 0)) bad++;
			}
			confirmed = bad == 3;
			printf("violation reproduced in %d of 3 fresh replays\n", bad);
		}
		if(confirmed)
		{
			violations = 1; rv = 1;
			printf("violation: %s\n  in %s\n%s", sh->vmsg, taskStr(sc, sh->vtask).c_str(), ex.crashText.c_str());
			printf("VIOLATION property=%s replay=%s\n", meta.property.c_str(), rp.c_str());
		}
		else
			printf("not confirmed, ignored: %s\n", sh->vmsg);
	}
	else if(sh->internalErr)
	{
		// The harness relies on the code under test being a function of its inputs; if it is not, that is itself reported.
		printf("internal: %s\n", sh->internal);
		rv = 2;
	}
	writeEvidence(meta, sc, ex, evid, violations);
	if(sh->nondet) printf("note: %lu executions were not reproducible and not expanded; first: %s\n", (unsigned long)sh->nondet, sh->internal);
	printf("%s %s: executions=%lu states=%lu transitions=%lu exhaustive=%d%s wall=%.1fs\n", meta.property.c_str(), mode.c_str(),
		(unsigned long)sh->execs, (unsigned long)sh->states, (unsigned long)sh->transitions,
		int(not sh->timedout and not sh->overflow and not sh->violated), sh->timedout ? " TIME-LIMIT" : (sh->overflow ? " OVERFLOW" : ""), wall() - ex.started);
	if(getenv("VP_EVENTS"))
	{
		for(int i = 0; i < NCOUNTERS; i++) if(sh->counters[i].used) printf("  %-40s %lu\n", sh->counters[i].name, (unsigned long)sh->counters[i].v);
		if(getenv("VP_EVENTS")[0] == '2') for(size_t i = 0; i < sc.size(); i++) printf("  scenario %-40s b=%d %lu\n", sc[i].name.c_str(), sc[i].budget, (unsigned long)sh->scenExecs[i]);
	}
	return rv;
}

} // namespace mc

extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:exitcode=99:hard_rss_limit_mb=6000:quarantine_size_mb=16:malloc_context_size=6:detect_stack_use_after_return=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:new_delete_type_mismatch=1:max_allocation_size_mb=2048";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
