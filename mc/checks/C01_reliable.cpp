// C01: reliable in-order exactly-once delivery, under all fault patterns up to K and all loss patterns over a window.
#include "flows.hpp"
using namespace sim;

struct FlowSpec { std::string meta; std::vector<size_t> pre, post; bool fromB = false; bool echo = false; Priority pri = PRI_ROUTINE; bool close = true; double gap = 0; };
struct Script { std::string name; std::vector<FlowSpec> flows; size_t rxBuf = 0; size_t winLimit = 0; };

static void body(Ctx &ctx, const Script &sc, FaultPlan plan, double until)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	plan.install(s);
	app.acceptAll(a);
	std::vector<std::pair<Tx *, std::string>> want;
	std::map<std::string, const FlowSpec *> spec;
	for(auto &f : sc.flows) spec[f.meta] = &f;
	std::map<Rx *, Tx *> echoes;
	app.onNew = [&] (Rx &r) {
		if(sc.rxBuf) r.flow->setBufferCapacity(sc.rxBuf);
		if(sc.winLimit) r.flow->setWindowLimit(sc.winLimit);
		auto it = spec.find(S(r.meta));
		if(it != spec.end() and it->second->echo)
		{
			std::string m = "re:" + S(r.meta);
			Tx &e = app.wrap(r.host, r.flow->openReturnFlow(B(m)));
			echoes[&r] = &e;
		}
	};
	app.onMsg = [&] (Rx &r, RxMsg &m) {
		if(echoes.count(&r)) { Tx &e = *echoes[&r]; app.write(e, m.data.size()); }
	};
	app.acceptAll(b);
	Tx *first = nullptr;
	std::map<const FlowSpec *, Tx *> txs;
	for(auto &f : sc.flows)
	{
		if(f.fromB) continue;
		Tx &t = app.open(a, "bob", f.meta, first ? nullptr : &b.address, f.pri);
		if(not first) first = &t;
		txs[&f] = &t;
		want.push_back({ &t, f.meta });
		for(auto n : f.pre) app.write(t, n);
		Tx *tp = &t;
		if(f.echo)
			t.flow->onRecvFlow = [&, tp] (std::shared_ptr<RecvFlow> rf) { app.accept(tp->host, rf); };
	}
	// the phase after session open: post writes, then close
	std::set<const FlowSpec *> posted;
	auto poll = [&] {
		for(auto &f : sc.flows)
		{
			if(posted.count(&f)) continue;
			Tx *t = nullptr;
			if(f.fromB)
			{
				if(app.rx.empty() or app.rx[0]->host != b.idx) continue;
				t = &app.wrap(b.idx, app.rx[0]->flow->openFlow(B(f.meta), f.pri)); // independent flow in the same session
				want.push_back({ t, f.meta });
			}
			else
			{
				t = txs[&f];
				if(t->flow->getFarCanonicalEPD().empty()) continue;
			}
			posted.insert(&f);
			double at = s.now;
			for(auto n : f.post)
			{
				if(f.gap > 0) { at += f.gap; s.at(at, [&app, t, n] { app.write(*t, n); }); }
				else app.write(*t, n);
			}
			if(f.close) s.at(at + 0.0001, [&app, t] { app.close(*t); });
		}
	};
	s.onStep.push_back(poll);
	s.onStep.push_back([&] { for(auto &w : want) checkPrefix(ctx, app, *w.first, w.second, w.first->host == a.idx ? b.idx : a.idx); });
	auto done = [&] {
		if(posted.size() < sc.flows.size() or not s.script.empty()) return false;
		for(auto &w : want)
		{
			if(not allDelivered(app, *w.first, w.second, w.first->host == a.idx ? b.idx : a.idx)) return false;
			for(auto f : w.first->finished) if(not f) return false;
			Rx *r = app.find(w.second, w.first->host == a.idx ? b.idx : a.idx);
			if(w.first->closed and (not r or not r->completes)) return false;
		}
		for(auto &e : echoes) if(e.second->msgs.size() < e.first->msgs.size() or not allDelivered(app, *e.second, "re:" + S(e.first->meta), a.idx)) return false;
		return true;
	};
	s.runUntil(done, s.now + until);
	ctx.bail();
	ctx.require(posted.size() == sc.flows.size(), "the session did not open within %.0f s", until);
	for(auto &w : want)
	{
		checkExact(ctx, app, *w.first, w.second, w.first->host == a.idx ? b.idx : a.idx);
		Rx *r = app.find(w.second, w.first->host == a.idx ? b.idx : a.idx);
		if(w.first->closed and r) ctx.require(r->completes == 1 and not r->errors, "flow '%s' not cleanly completed after close (%d completions, %d errors)", w.second.c_str(), r->completes, r->errors);
		ctx.require(w.first->exceptions == 0, "flow '%s' got an exception", w.second.c_str());
		for(size_t i = 0; i < w.first->finished.size(); i++)
			ctx.require(w.first->finished[i] == 1 and not w.first->finishedAbandoned[i], "message %zu of flow '%s': receipt finished %d times, abandoned %d", i, w.second.c_str(), w.first->finished[i], w.first->finishedAbandoned[i]);
	}
	for(auto &e : echoes)
	{
		ctx.require(e.second->msgs.size() == e.first->msgs.size(), "echo writer missed messages");
		checkExact(ctx, app, *e.second, "re:" + S(e.first->meta), a.idx);
	}
	size_t n = 0; for(auto &r : app.rx) n += r->msgs.size();
	ctx.summary = fmt("%zu messages delivered on %zu flows, %lu packets, %.3f s virtual", n, app.rx.size(), (unsigned long)s.nextId - 1, s.now - 1000);
	ctx.count(fmt("virtual seconds <%d", s.now - 1000 < 1 ? 1 : s.now - 1000 < 3 ? 3 : s.now - 1000 < 10 ? 10 : s.now - 1000 < 30 ? 30 : 300).c_str());
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C01";
	meta.assumptions = { "virtual network and virtual time: fixed one-way latency, faults chosen by the explorer; crypto replaced by a transparent keyed-tag adapter (real crypto adapter is covered by C17)", "fault kinds: drop, duplicate, short delay, long delay, late duplicate", "bounded number of faults per execution and bounded scripts" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		std::vector<Script> scripts {
			{ "one-flow-small", { { "f1", { 10, 0, 300 }, { 1, 500 } } } },
			{ "one-flow-frags", { { "f1", { 5000 }, { 1163, 1164, 2400, 0, 7 } } } },
			{ "pre-open-only", { { "f1", { 1, 1180, 3000, 0, 0, 12 }, { } } } },
			{ "two-flows", { { "f1", { 2500, 10 }, { 100 } }, { "f2", { 20 }, { 1500, 0 }, false, false, PRI_FLASH } } },
			{ "both-directions", { { "f1", { 100 }, { 2000 } }, { "g1", { }, { 30, 2500 }, true } } },
			{ "echo", { { "f1", { 10 }, { 1300, 20 }, false, true, PRI_ROUTINE, false } } },
			{ "paced", { { "f1", { 400 }, { 400, 400, 2400, 1, 400, 400 }, false, false, PRI_ROUTINE, true, 0.061 } } },
			{ "small-window", { { "f1", { 3000 }, { 4000, 10, 2000 } } }, 2500 },
			{ "window-limit", { { "f1", { 3000 }, { 2000, 10 } } }, 0, 1100 },
			{ "no-close", { { "f1", { 64 }, { 4000, 8 }, false, false, PRI_IMMEDIATE, false } } },
		};
		std::vector<mc::Scenario> v;
		for(auto &sc : scripts)
		{
			FaultPlan p; p.window = 26; p.faults = { F_DROP, F_DUP, F_DELAY_SHORT, F_DELAY_LONG, F_DUP_LATE };
			v.push_back({ sc.name + "/faults", 2, [=] (Ctx &c) { body(c, sc, p, 250); } });
		}
		for(int i : { 1, 3, 6 })
		{
			Script sc = scripts[i];
			FaultPlan p; p.window = th ? 13 : 9; p.skip = 4; p.faults = { F_DROP }; p.cost = 0;
			v.push_back({ sc.name + "/all-losses", 0, [=] (Ctx &c) { body(c, sc, p, 250); } });
		}
		{
			Script sc = { "bulk", { { "f1", { 9000, 20000 }, { 15000, 3, 12000 } } } };
			FaultPlan p; p.window = 110; p.faults = { F_DROP, F_DELAY_SHORT, F_DELAY_LONG, F_DUP_LATE };
			v.push_back({ "bulk/faults", th ? 2 : 1, [=] (Ctx &c) { body(c, sc, p, 250); } });
		}
		if(th) for(auto &x : v) if(x.budget == 2 and x.name != "bulk/faults") x.budget = 3;
		return v;
	});
}
