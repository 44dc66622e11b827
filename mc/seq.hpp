#pragma once
// Exhaustive in-process enumeration for pure library code: every answer sequence of a deterministic program of choices.
// The first `split` choices are explorer choices (spread over the workers); the rest is a depth-first odometer.
#include "mc.hpp"

namespace mc {

struct Inner {
	Ctx &ctx; size_t split; std::vector<int> path, width; size_t pos = 0; bool verbose = false; std::string trace; uint64_t runs = 0, steps = 0;
	Inner(Ctx &ctx, size_t split) : ctx(ctx), split(split) {}
	int choose(int n)
	{
		size_t p = pos++;
		if(p < path.size())
		{
			if(width[p] != n) throw Violation{fmt("harness nondeterminism: choice %zu has %d alternatives, had %d", p, n, width[p])};
			return path[p];
		}
		int v = p < split ? ctx.choose(n, 0, "op") : 0;
		path.push_back(v); width.push_back(n);
		return v;
	}
	int operator()(int n) { return n > 1 ? choose(n) : 0; }
	__attribute__((format(printf, 2, 3))) void log(const char *f, ...)
	{
		if(not verbose) return;
		va_list ap; va_start(ap, f); trace += vfmt(f, ap); va_end(ap); trace += "; ";
	}
	bool next()
	{
		path.resize(pos); width.resize(pos); // drop what this run did not use
		while(path.size() > split)
		{
			if(++path.back() < width.back()) return true;
			path.pop_back(); width.pop_back();
		}
		return false;
	}
	std::string str() const { std::string s; for(int v : path) s += fmt(" %d", v); return s; }
};
inline Inner *&currentInner() { static Inner *i; return i; }

// f(Inner&) runs one behaviour; it throws Violation when the oracle objects.
template<class F> void explore(Ctx &ctx, size_t split, const F &f)
{
	Inner in(ctx, split); currentInner() = &in;
	do {
		in.pos = 0; in.runs++;
		try { f(in); }
		catch(const Violation &v)
		{
			std::string m = v.msg; in.pos = 0; in.verbose = true; in.trace.clear();
			try { f(in); } catch(const Violation &) {} catch(...) {}
			throw Violation{fmt("%s [choices%s] after: %s", m.c_str(), in.str().c_str(), in.trace.substr(0, 1800).c_str())};
		}
		in.steps += in.pos;
	} while(in.next());
	ctx.step(in.steps); ctx.count("behaviours", in.runs); currentInner() = nullptr;
	ctx.summary = fmt("%llu behaviours, last choices%s", (unsigned long long)in.runs, in.str().c_str());
}

inline void need(bool c, const std::string &m) { if(not c) throw Violation{m}; }

} // namespace mc

extern "C" inline __attribute__((used)) void vp_where(void) { if(mc::currentInner()) fprintf(stderr, "choices of the failing behaviour:%s\n", mc::currentInner()->str().c_str()); }
extern "C" __attribute__((weak)) void __asan_on_error(void) { if(mc::currentInner()) fprintf(stderr, "choices of the failing behaviour:%s\n", mc::currentInner()->str().c_str()); }
