// C22: every reachable state of an index set over two windows (bottom and top of the integer range, and everything between
// as one block) under every operation, compared with a reference set.
#include "seq.hpp"
#include "rtmfp/IndexSet.hpp"
using namespace com::zenomt;
using namespace mc;

const uintmax_t MAX = UINTMAX_MAX;
// cell i of the universe is [lo, hi]
struct Universe { std::vector<Range> cells; int K; Universe(int k) : K(k) { for(int i = 0; i < k; i++) cells.push_back(Range(i, i)); cells.push_back(Range(k, MAX - k)); for(int i = k - 1; i >= 0; i--) cells.push_back(Range(MAX - i, MAX - i)); } size_t n() const { return cells.size(); } };
typedef unsigned Bits;
struct Runs { std::vector<std::pair<uintmax_t, uintmax_t> > r; };
static Runs runs(const Universe &u, Bits b)
{
	Runs v;
	for(size_t i = 0; i < u.n(); i++) if(b >> i & 1) { if(not v.r.empty() and v.r.back().second + 1 == u.cells[i].start) v.r.back().second = u.cells[i].end; else v.r.push_back({ u.cells[i].start, u.cells[i].end }); }
	return v;
}
static std::string str(const Runs &v) { std::string s; for(auto &x : v.r) s += fmt("%ju-%ju ", x.first, x.second); return "{ " + s + "}"; }
static std::string str(const IndexSet &x) { std::string s; int n = 0; x.extentsDo([&] (uintmax_t a, uintmax_t b) { s += fmt("%ju-%ju ", a, b); return ++n < 40; }); return "{ " + s + "}"; }
static void verify(const Universe &u, const IndexSet &s, Bits want, const std::string &how)
{
	Runs w = runs(u, want); std::vector<std::pair<uintmax_t, uintmax_t> > got; size_t lim = w.r.size() + 3;
	s.extentsDo([&] (uintmax_t a, uintmax_t b) { got.push_back({ a, b }); return got.size() < lim; });
	need(got == w.r, how + fmt(": ranges %s, expected %s", str(s).c_str(), str(w).c_str()));
	need(s.countRanges() == w.r.size() and s.empty() == w.r.empty(), how + ": range count");
	uintmax_t size = 0; for(auto &x : w.r) { uintmax_t n = x.second - x.first; size += n == MAX ? MAX : n + 1; }
	need(s.size() == size, how + fmt(": size %ju, expected %ju", s.size(), size));
	need(s.lowestIndex() == (w.r.empty() ? 0 : w.r.front().first) and s.highestIndex() == (w.r.empty() ? 0 : w.r.back().second), how + ": lowest or highest index");
	if(not w.r.empty()) { Range f = s.firstRange(), l = s.lastRange(); need(f.start == w.r.front().first and f.end == w.r.front().second and l.start == w.r.back().first and l.end == w.r.back().second, how + ": first or last range"); }
	for(size_t i = 0; i < u.n(); i++) for(uintmax_t x : { u.cells[i].start, u.cells[i].end, u.cells[i].start + (u.cells[i].end - u.cells[i].start) / 2 }) need(s.contains(x) == bool(want >> i & 1), how + fmt(": contains(%ju)", x));
}
static void iteration(const Universe &u, const IndexSet &s, Bits b)
{
	Runs w = runs(u, b); bool big = b >> u.K & 1;
	for(size_t stop = 0; stop <= w.r.size(); stop++) { size_t n = 0; bool r = s.extentsDo([&] (uintmax_t, uintmax_t) { return ++n <= stop; }); need(n == std::min(stop + 1, w.r.size()) and r == (stop >= w.r.size()), "iteration over ranges did not stop when asked to"); }
	uintmax_t total = 0; for(auto &x : w.r) total += x.second - x.first + 1;
	for(size_t stop = 0; stop <= (big ? size_t(20) : size_t(total)); stop++)
	{
		size_t n = 0, ri = 0; uintmax_t next = w.r.empty() ? 0 : w.r[0].first; bool over = false;
		bool r = s.indicesDo([&] (uintmax_t i) {
			if(ri >= w.r.size() or i != next) throw Violation{fmt("iteration visits %ju in %s", i, str(w).c_str())};
			if(next == w.r[ri].second) { ri++; if(ri < w.r.size()) next = w.r[ri].first; } else next++;
			n++; over = n > stop; return not over;
		});
		need(r == not over and (over or n == total), "iteration over members did not stop exactly when asked to");
	}
}
static void build(const Universe &u, Bits b, IndexSet &s) { for(auto &x : runs(u, b).r) s.add(x.first, x.second); }

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C22";
	meta.assumptions = { "members between the two windows are added and removed together" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int K = th ? 6 : 5;
		std::vector<mc::Scenario> v;
		v.push_back({ "ranges", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) {
			Universe u(K); Bits b = (Bits)in(64) | (Bits)in(1 << (u.n() - 6)) << 6; uint64_t n = 0;
			{ IndexSet s; build(u, b, s); verify(u, s, b, "building"); iteration(u, s, b); in.ctx.state(b + 1); }
			for(size_t i = 0; i < u.n(); i++) for(size_t j = 0; j < u.n(); j++)
			{
				uintmax_t from = u.cells[i].start, to = u.cells[j].end; Bits m = 0; for(size_t k = i; k <= j; k++) m |= 1u << k;
				{ IndexSet s; build(u, b, s); IndexSet copy(s); s.add(from, to); verify(u, s, i <= j ? b | m : b, fmt("adding %ju-%ju to %s", from, to, str(copy).c_str())); verify(u, copy, b, "the copy"); n++; }
				{ IndexSet s; build(u, b, s); IndexSet copy(s); copy.remove(from, to); verify(u, copy, i <= j ? b & ~m : b, fmt("removing %ju-%ju from %s", from, to, str(s).c_str())); verify(u, s, b, "the original"); n++; }
				if(i == j and (int)i != u.K)
				{
					{ IndexSet s; build(u, b, s); s.add(from); verify(u, s, b | m, "adding one"); } { IndexSet s; build(u, b, s); s.remove(from); verify(u, s, b & ~m, "removing one"); }
				}
			}
			{ IndexSet s; build(u, b, s); IndexSet copy(s); s.clear(); verify(u, s, 0, "clearing"); verify(u, copy, b, "the copy"); }
			{ IndexSet s; build(u, b, s); s.add(s); verify(u, s, b, "adding a set to itself"); }
			{ IndexSet s; build(u, b, s); s.remove(s); verify(u, s, 0, "removing a set from itself"); }
			in.ctx.step(n);
		}); } });
		int KB = th ? 5 : 4; // pairs of sets
		v.push_back({ "sets", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) {
			Universe u(KB); Bits b = in(1 << u.n()); uint64_t n = 0;
			for(Bits o = 0; o < 1u << u.n(); o++)
			{
				IndexSet s, t; build(u, b, s); build(u, o, t); IndexSet r(s);
				s.add(t); verify(u, s, b | o, fmt("adding %s to %s", str(t).c_str(), str(r).c_str()));
				r.remove(t); verify(u, r, b & ~o, "removing a set"); verify(u, t, o, "the argument"); n += 2;
			}
			in.ctx.step(n);
		}); } });
		v.push_back({ "orders", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { // operation sequences, for states reached any way
			Universe u(2); IndexSet s; Bits b = 0;
			for(int d = 0; d < (th ? 5 : 4); d++)
			{
				int i = in(5), j = in(5), rem = in(2); Bits m = 0; for(int k = i; k <= j; k++) m |= 1u << k;
				if(rem) { s.remove(u.cells[i].start, u.cells[j].end); if(i <= j) b &= ~m; } else { s.add(u.cells[i].start, u.cells[j].end); if(i <= j) b |= m; }
				in.log("%s %ju-%ju", rem ? "remove" : "add", u.cells[i].start, u.cells[j].end);
				if(d == (th ? 4 : 3)) verify(u, s, b, "after a sequence");
			}
		}); } });
		v.push_back({ "range", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { // the Range helper
			const uintmax_t vals[] = { 0, 1, 2, 3, 4, MAX / 2, MAX - 3, MAX - 2, MAX - 1, MAX }; int N = 10;
			uintmax_t a = vals[in(N)], b2 = vals[in(N)], f = vals[in(N)], t = vals[in(N)]; if(a > b2 or f > t) return;
			Range r(a, b2), q(f, t);
			need(r.size() == (b2 - a == MAX ? MAX : b2 - a + 1), "range size");
			bool inter = f <= b2 and t >= a; need(r.intersects(f, t) == inter and r.intersects(q) == inter, "intersects");
			bool adj = (b2 != MAX and b2 + 1 == f) or (t != MAX and t + 1 == a); need(r.contiguousWith(f, t) == (inter or adj) and r.contiguousWith(q) == (inter or adj), fmt("%ju-%ju contiguous with %ju-%ju", a, b2, f, t));
			bool cont = f >= a and t <= b2; need(r.contains(f, t) == cont and r.contains(q) == cont and r.contains(f) == (f >= a and f <= b2), "contains");
			Range e(r); e.extend(q); need(e.start == std::min(a, f) and e.end == std::max(b2, t), "extend");
		}); } });
		return v;
	});
}
