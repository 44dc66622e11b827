// C23: every sequence of list operations up to a depth, from several sizes, against a reference sequence of (name, value).
#include "seq.hpp"
#include "rtmfp/List.hpp"
#include <algorithm>
using namespace com::zenomt;
using namespace mc;

typedef std::string Val;
static Val val(int i) { return fmt("a value that is too long for small strings %d", i); }
struct Plain { List<Val> l; size_t sum() { return 0; } enum { SUMS = 0 }; };
static size_t weigh(const Val &v) { size_t n = 0; for(char c : v) if(c >= '0' and c <= '9') n = n * 10 + (c - '0'); return n + 1; }
struct Summing { SumList<Val> l; Summing() : l(weigh) {} size_t sum() { return l.sum(); } enum { SUMS = 1 }; };

template<class H> struct World {
	Inner &in; H h; List<Val> &l; std::vector<std::pair<long, Val> > ref; int next = 100; long removed = -1; std::string last;
	World(Inner &in) : in(in), l(h.l) {}
	size_t index(long name) { for(size_t i = 0; i < ref.size(); i++) if(ref[i].first == name) return i; return ref.size(); }
	bool known(long name) { return index(name) < ref.size(); }
	long pick(int k)
	{
		switch(k) { case 0: return ref.empty() ? 9 : ref.front().first; case 1: return ref.empty() ? 9 : ref.back().first; case 2: return ref.size() > 1 ? ref[ref.size() / 2].first : 9; case 3: return removed; case 4: return 1 << 20; case 5: return -1; default: return 0; }
	}
	template<class F> long guarded(const F &f) { try { return f(); } catch(const std::out_of_range &) { return -1; } }
	void inserted(long name, size_t at, const Val &v)
	{
		need(name > 0, "an addition failed"); need(not known(name), fmt("name %ld is given out while in use", name));
		ref.insert(ref.begin() + at, { name, v });
		if(name == removed) removed = -1;
	}
	void verify()
	{
		need(l.size() == ref.size() and l.empty() == ref.empty(), last + fmt(": size %zu, expected %zu", l.size(), ref.size()));
		long n = l.first(); size_t i = 0;
		for(; n > 0 and i < ref.size(); n = l.next(n), i++) { need(n == ref[i].first, last + fmt(": position %zu holds name %ld, expected %ld", i, n, ref[i].first)); need(static_cast<const List<Val> &>(l).at(n) == ref[i].second, last + fmt(": value at position %zu", i)); need(l.has(n) and l.isUsing(n), "has"); }
		need(i == ref.size() and n == 0, last + ": forward traversal");
		n = l.last(); i = ref.size();
		for(; n > 0 and i > 0; n = l.prev(n), i--) need(n == ref[i - 1].first, last + ": backward traversal differs");
		need(i == 0 and n == 0, last + ": backward traversal");
		if(not ref.empty()) need(l.firstValue() == ref.front().second and l.lastValue() == ref.back().second, last + ": first or last value");
		need(l.next(0) == (ref.empty() ? 0 : ref.front().first) and l.isUsing(0) and not l.has(0), "sentinel");
		if(removed >= 0) need(not l.has(removed) and l.next(removed) == -1 and l.prev(removed) == -1, last + ": a removed name is still known");
		if(H::SUMS) { size_t s = 0; for(auto &x : ref) s += weigh(x.second); need(h.sum() == s, last + fmt(": sum %zu, expected %zu", h.sum(), s)); }
	}
	void add(int kind) // 0 append 1 prepend
	{
		Val v = val(next++); long n = kind ? l.prepend(v) : l.append(v); inserted(n, kind ? 0 : ref.size(), v);
	}
	void named(int what, long name)
	{
		size_t i = index(name); bool ok = i < ref.size(), sentinel = name == 0;
		switch(what)
		{
		case 0: case 1: { Val v = val(next++); long n = guarded([&] { return what ? l.addBefore(v, name) : l.addAfter(v, name); }); if(ok) inserted(n, what ? i : i + 1, v); else if(sentinel) inserted(n, what ? ref.size() : 0, v); else need(n < 0, "adding next to an unknown name succeeded"); } break;
		case 2: { bool r = l.remove(name); need(r == ok, "remove's answer"); if(ok) { ref.erase(ref.begin() + i); removed = name; } } break;
		case 3: case 4: { bool r = what == 3 ? l.rotateNameToHead(name) : l.rotateNameToTail(name); need(r == (ok or sentinel), "rotate's answer"); if(ok) std::rotate(ref.begin(), ref.begin() + i + (what == 4), ref.end()); } break;
		case 5: case 6: { bool r = what == 5 ? l.moveNameToHead(name) : l.moveNameToTail(name); need(r == (ok or sentinel), "move's answer"); if(ok) { auto x = ref[i]; ref.erase(ref.begin() + i); ref.insert(what == 5 ? ref.begin() : ref.end(), x); } } break;
		case 7: { bool threw = false; try { Val &v = l.at(name); v.size(); } catch(const std::out_of_range &) { threw = true; } need(threw == not ok, "at() on a name"); } break;
		}
	}
	enum { NNAMED = 8, NPICK = 7, NPLAIN = 16 };
	static const char *nm(int i) { static const char *n[] = { "add after", "add before", "remove", "rotate to head", "rotate to tail", "move to head", "move to tail", "at" }; return n[i]; }
	void op(int o)
	{
		if(o < NNAMED * NPICK) { long n = pick(o % NPICK); last = fmt("%s %ld", nm(o / NPICK), n); in.log("%s", last.c_str()); named(o / NPICK, n); return; }
		o -= NNAMED * NPICK;
		static const char *pn[NPLAIN] = { "append", "prepend", "remove first", "remove last", "clear", "append own first", "prepend own last", "append another list", "append itself", "iterate and stop", "iterate safely, removing each", "iterate safely, removing the next", "iterate safely, appending", "iterate safely, clearing", "find", "change values" };
		last = pn[o]; in.log("%s", pn[o]);
		switch(o)
		{
		case 0: add(0); break;
		case 1: add(1); break;
		case 2: need(l.removeFirst() == not ref.empty(), "removeFirst"); if(not ref.empty()) { removed = ref.front().first; ref.erase(ref.begin()); } break;
		case 3: need(l.removeLast() == not ref.empty(), "removeLast"); if(not ref.empty()) { removed = ref.back().first; ref.pop_back(); } break;
		case 4: l.clear(); if(not ref.empty()) removed = ref.back().first; ref.clear(); break;
		case 5: if(not ref.empty()) { Val v = ref.front().second; long n = l.append(l.firstValue()); inserted(n, ref.size(), v); } break;
		case 6: if(not ref.empty()) { Val v = ref.back().second; long n = l.prepend(l.lastValue()); inserted(n, 0, v); } break;
		case 7: { List<Val> other; for(int i = 0; i < 3; i++) other.append(val(900 + i)); l.appendValuesFrom(other); sync(3, [] (size_t i) { return val(900 + (int)i); }); } break;
		case 8: { auto copy = ref; if(ref.size() > 40) break; l.appendValuesFrom(l); sync(copy.size(), [&] (size_t i) { return copy[i].second; }); } break;
		case 9: for(size_t stop = 0; stop <= ref.size() and stop < 3; stop++) { size_t n = 0; bool r = l.valuesDo([&] (Val &v) { need(v == ref[n].second, "iteration order"); n++; return n <= stop; }); need(n == std::min(stop + 1, ref.size()) and r == (stop >= ref.size()), "iteration did not stop when asked to"); } break;
		case 10: case 11: case 12: case 13: {
			auto copy = ref; size_t n = 0;
			bool r = l.safeValuesDo([&] (Val &v) {
				need(n < copy.size() and v == copy[n].second, "safe iteration visits something else");
				if(o == 10) { need(l.remove(copy[n].first), "removal during iteration"); ref.erase(ref.begin() + index(copy[n].first)); removed = copy[n].first; }
				if(o == 11 and n + 1 < copy.size() and known(copy[n + 1].first)) { l.remove(copy[n + 1].first); ref.erase(ref.begin() + index(copy[n + 1].first)); removed = copy[n + 1].first; }
				if(o == 12 and n < 4) add(0);
				if(o == 13) { l.clear(); if(not ref.empty()) removed = ref.back().first; ref.clear(); }
				need(v == copy[n].second, "a value changed while it was visited");
				n++; return true; });
			need(n == copy.size() and r, "safe iteration did not visit each element once"); } break;
		case 14: for(auto &x : ref) { long f = l.find(x.second); need(known(f) and ref[index(f)].second == x.second, "find"); size_t i = 0; while(ref[i].second != x.second) i++; need(f == ref[i].first, "find did not answer the first"); } need(l.find("nothing like it") == 0, "find of an absent value"); break;
		case 15: if(not H::SUMS) for(auto &x : ref) { x.second = val(next++); l.at(x.first) = x.second; } break;
		}
	}
	template<class F> void sync(size_t added, const F &value) // names of values appended in bulk
	{
		std::vector<long> names; for(long n = l.last(); n > 0 and names.size() < added; n = l.prev(n)) names.insert(names.begin(), n);
		need(names.size() == added, last + ": bulk addition"); for(size_t i = 0; i < added; i++) inserted(names[i], ref.size(), value(i));
	}
};

template<class H> static void behaviour(Inner &in, int depth, const std::vector<int> &sizes = { 0, 1, 2, 3, 13, 14, 15, 30 })
{
	World<H> w(in); int n = sizes[in((int)sizes.size())]; in.log("%d elements", n);
	for(int i = 0; i < n; i++) w.add(0);
	if(n > 3) { w.named(2, w.ref[1].first); w.named(2, w.ref[0].first); } // so that names are recycled
	int nops = World<H>::NNAMED * World<H>::NPICK + World<H>::NPLAIN;
	for(int d = 0; d < depth; d++) { w.op(in(nops)); w.verify(); }
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C23";
	meta.assumptions = { "values of a summing list are not changed in place (its sum is kept at insertion and removal)" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<mc::Scenario> v;
		v.push_back({ "list/2", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { behaviour<Plain>(in, 2); }); } });
		v.push_back({ "list/3", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { behaviour<Plain>(in, 3, th ? std::vector<int>{ 0, 1, 2, 3, 13, 14, 30 } : std::vector<int>{ 0, 3, 13 }); }); } });
		v.push_back({ "sum/2", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { behaviour<Summing>(in, 2); }); } });
		v.push_back({ "sum/3", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) { behaviour<Summing>(in, 3, th ? std::vector<int>{ 0, 1, 2, 3, 13, 14, 30 } : std::vector<int>{ 2, 14 }); }); } });
		if(th) { v.push_back({ "list/4", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { behaviour<Plain>(in, 4, { 2, 13 }); }); } }); v.push_back({ "sum/4", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { behaviour<Summing>(in, 4, { 3 }); }); } }); }
		return v;
	});
}
