// C32: every sequence of update/query/time-step operations up to a depth against a reference recomputed from the history.
#include "seq.hpp"
#include "rtmfp/RateTracker.hpp"
using namespace com::zenomt;
using namespace mc;

struct Ev { size_t n; Time t; };
// The rule: counting windows begin with the first amount at least a window after the previous began. The rate is what the
// current window counted, plus what the previous window's rate still contributes, fading linearly; a window that is over
// fades away over the following window.
struct Ref {
	Duration W; std::vector<Ev> ev; size_t from = 0; // history since the last reset
	double prev = 0; Time begin = -INFINITY; long double count = 0;
	double rate(Time now) const
	{
		long double age = now - begin;
		if(count == 0 and begin == -INFINITY) return 0;
		if(age < W) return (double)(count / W + prev * (prev > 0 ? 1 - age / W : 0));
		if(age < 2 * W) return (double)(count / W * ((2 * W - age) / W));
		return 0;
	}
	void update(size_t n, Time t) { if(t - begin >= W) { prev = rate(t); begin = t; count = 0; } count += n; ev.push_back({ n, t }); }
	void reset() { prev = 0; begin = -INFINITY; count = 0; ev.clear(); }
};
static bool close(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b) + scale); }

static void behaviour(Inner &in, int depth, bool few)
{
	static const Duration windows[] = { 1, 0.1L, 3, 0.000001L };
	Duration W = windows[few ? in(2) * 2 : in(4)]; RateTracker rt(W); Ref ref; ref.W = W; Time now = 5; bool changed = false;
	in.log("window %Lg", W);
	auto check = [&] {
		double r = rt.getRate(now), w = ref.rate(now), total = 0; for(auto &e : ref.ev) total += e.n;
		need(std::isfinite(r) and r >= 0, fmt("the rate is %g", r));
		need(close(r, w, total / (double)ref.W), fmt("the rate is %.12g, expected %.12g", r, w));
		need(rt.getRate(now) == r, "asking changed the rate");
		if(not changed)
		{
			// never less than what the current window holds, never more than everything of the last three windows, gone after two
			long double recent = 0; for(auto &e : ref.ev) if(now - e.t < 3 * ref.W) recent += e.n;
			need(r <= (double)(recent / ref.W) * (1 + 1e-9), "more than was recorded");
			if(not ref.ev.empty() and now - ref.ev.back().t >= 2 * ref.W) need(r == 0, "an amount still counts two windows after the last one was recorded");
		}
	};
	check();
	static const Duration steps[] = { 0, 0.25L, 0.5L, 1, 1.5L, 2, 7 };
	for(int d = 0; d < depth; d++)
	{
		static const int fewOps[] = { 2, 4, 5 }; int op = few ? fewOps[in(3)] : in(7);
		if(op < 4) { static const size_t n[] = { 0, 1, 1000, size_t(1) << 40 }; in.log("update %zu", n[op]); rt.update(n[op], now); ref.update(n[op], now); check(); }
		else if(op == 4) { in.log("reset"); rt.reset(); ref.reset(); changed = false; need(rt.getRate(now) == 0, "a rate after a reset"); }
		else if(op == 5) { Duration n = windows[few ? 1 : in(4)]; in.log("window %Lg", n); rt.setWindowPeriod(n); ref.W = n; changed = true; need(rt.getWindowPeriod() == n, "window"); }
		else { double bad[] = { 0, -1, -INFINITY }; int k = in(3); in.log("window %g", bad[k]); rt.setWindowPeriod(bad[k]); ref.W = 0.000001L; changed = true; need(rt.getWindowPeriod() > 0, "a window that is not positive"); }
		check();
		now += steps[few ? 1 + in(5) : in(7)] * ref.W; in.log("at %Lg", now); check();
	}
}
// steady input: once two windows have passed the rate is the input's
static void steady(Inner &in)
{
	Duration W = in(2) ? 1 : 0.5L; int per = 1 + in(16); size_t amount = 1 + 99 * in(3); RateTracker rt(W); Time now = 100; double truth = (double)(amount * per / W);
	for(int i = 0; i < per * 8; i++)
	{
		now = 100 + i * W / per; rt.update(amount, now); double r = rt.getRate(now);
		if(i > 2 * per) need(std::fabs(r - truth) <= truth * (1.0 / per) * 1.0001 + 1e-9, fmt("steady input of %g is tracked as %g", truth, r));
		need(r >= 0, "negative");
	}
}
int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C32"; meta.hangCpuSeconds = 20; meta.assumptions = { "time does not go backwards" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		v.push_back({ "steady", 0, [=] (Ctx &c) { explore(c, 1, steady); } });
		for(int n = 1; n <= (th ? 4 : 3); n++) v.push_back({ fmt("operations/%d", n), 0, [=] (Ctx &c) { explore(c, n == 4 ? 7 : 4, [=] (Inner &in) { behaviour(in, n, false); }); } });
		for(int n = 4; n <= (th ? 6 : 5); n++) v.push_back({ fmt("histories/%d", n), 0, [=] (Ctx &c) { explore(c, 5, [=] (Inner &in) { behaviour(in, n, true); }); } });
		return v;
	});
}
