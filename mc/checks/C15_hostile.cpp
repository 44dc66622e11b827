// C15: every sequence of up to N hostile fragments, compared step by step with a reference reassembler.
#include "reasm.hpp"
using namespace sim;

struct Alpha { uintmax_t maxSn; std::vector<uint8_t> flags; std::vector<int> fsnModes; };

static std::vector<ReasmFrag> alphabet(const Alpha &al)
{
	std::vector<ReasmFrag> v;
	for(uintmax_t sn = 1; sn <= al.maxSn; sn++)
		for(auto fl : al.flags)
			for(int m : al.fsnModes)
			{
				uintmax_t fsn = m == 0 ? 0 : m == 1 ? sn - 1 : m == 2 ? (sn > 2 ? sn - 2 : 0) : sn;
				if(m and fsn == 0) continue;
				v.push_back({ sn, fsn, fl, Bytes(3 + sn % 3, uint8_t('A' + v.size() % 50)) });
			}
	return v;
}

static void body(Ctx &ctx, const Alpha &al, int depth, ReceiveOrder order, int mode2, int mode2at)
{
	Sim s(ctx); App app(s);
	Host &a = s.add("alice", "10.0.0.1:1935"), &b = s.add("bob", "10.0.0.2:1935");
	b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(b.idx, f); };
	RawPeer peer(s, app, a, b);
	app.forgetRx(); b.rtmfp->onRecvFlow = [&] (std::shared_ptr<RecvFlow> f) { app.accept(b.idx, f); };
	auto alpha = alphabet(al);
	int n = (int)alpha.size();
	int c0 = ctx.choose(std::min(n, 250), 0, "first"), c1 = depth > 2 ? ctx.choose(std::min(n, 250), 0, "second") : 0;
	std::vector<int> idx(depth, 0); idx[0] = c0; if(depth > 2) idx[1] = c1;
	int fixed = depth > 2 ? 2 : 1;
	uintmax_t flow = 100; unsigned long runs = 0;
	for(;;)
	{
		s.maxSteps = s.steps + 10000;
		ReasmRun r { peer, flow++, {}, {} };
		r.order0 = order; r.repeatOpts = true;
		for(int i = 0; i < depth; i++) { r.frags.push_back(alpha[idx[i]]); r.frags.back().data[0] = uint8_t('a' + i); }
		if(mode2 >= 0) { r.modes.assign(depth, -1); r.modes[mode2at] = mode2; }
		r.run(ctx); runs++;
		if(flow > 5000) break;
		int k = depth - 1;
		while(k >= fixed and ++idx[k] >= n) idx[k--] = 0;
		if(k < fixed) break;
	}
	ctx.count("fragment sequences", runs);
	ctx.summary = fmt("%lu fragment sequences beginning %s %s", runs, fragStr(alpha[c0]).c_str(), fragStr(alpha[c1]).c_str());
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C15";
	meta.assumptions = { "fragments are delivered in packets carrying the genuine session key (a hostile session peer)", "small alphabet of sequence numbers, marks and forward sequence numbers; one fragment per packet" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough";
		const uint8_t W = USERDATA_FRA_WHOLE, Bg = USERDATA_FRA_BEGIN, M = USERDATA_FRA_MIDDLE, E = USERDATA_FRA_END, ABN = USERDATA_FLAG_ABN, FIN = USERDATA_FLAG_FIN;
		std::vector<mc::Scenario> v;
		struct Case { std::string name; Alpha al; int depth; };
		std::vector<Case> cs {
			{ "marks", { 4, { W, Bg, M, E }, { 0 } }, th ? 5 : 4 },
			{ "marks-dense", { 5, { Bg, M, E }, { 0 } }, th ? 6 : 4 },
			{ "abn-fsn", { 4, { W, Bg, E, ABN }, { 0, 1, 2, 3 } }, th ? 4 : 3 },
			{ "fin", { 3, { W, Bg, E, ABN, uint8_t(W | FIN), uint8_t(E | FIN), uint8_t(ABN | FIN) }, { 0, 1 } }, th ? 4 : 3 },
		};
		for(auto &c : cs)
			for(auto o : { RO_SEQUENCE, RO_NETWORK })
				v.push_back({ c.name + (o == RO_NETWORK ? "/network" : "/sequence"), 0, [=] (Ctx &x) { body(x, c.al, c.depth, o, -1, 0); } });
		Alpha sw { 4, { W, Bg, M, E }, { 0, 3 } };
		struct Sw { const char *n; ReceiveOrder o; int m; int at; };
		for(auto &w : std::vector<Sw> { { "hold-network", RO_HOLD, RO_NETWORK, 2 }, { "hold-sequence", RO_HOLD, RO_SEQUENCE, 2 }, { "network-sequence", RO_NETWORK, RO_SEQUENCE, 2 }, { "network-hold", RO_NETWORK, RO_HOLD, 2 }, { "sequence-network", RO_SEQUENCE, RO_NETWORK, 2 } })
		{
			int d = th ? 4 : 3;
			v.push_back({ std::string("switch/") + w.n, 0, [=] (Ctx &x) { body(x, sw, d, w.o, w.m, w.at); } });
		}
		return v;
	});
}
