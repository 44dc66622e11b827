// C03: abandoned messages never block, truncate, reorder or corrupt the others.
#include "abandon.hpp"
using namespace sim;
int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C03";
	meta.assumptions = { "virtual network and time; transparent keyed-tag crypto", "the budget counts abandonments and packet faults together" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; int k = th ? 4 : 3;
		std::vector<mc::Scenario> v;
		std::vector<AbandonScript> scripts {
			{ "mixed", { 30, 2600, 40, 1700, 50 } },
			{ "late", { 20, 2400, 3000, 60 }, {}, false, 0.05 },
			{ "network", { 30, 2600, 40, 1700, 50 }, {}, true, 0, 0, true },
			{ "small-window", { 1500, 2600, 40, 1700 }, {}, true, 0, 2200 },
			{ "chain", { 30, 1500, 1600, 40, 50 }, { -1, 0, 1, 2, -1 } },
			{ "hold", { 900, 1700, 30, 1200, 50 }, {}, true, 0, 4000, false, 0.4, true },
			{ "two-flows", { 30, 2600, 40, 1700, 50 } },
			{ "last", { 30, 40, 2500 } },
		};
		scripts[6].twoFlows = true; scripts[7].closeAfter = 0.0;
		FaultPlan p; p.window = 9; p.skip = 4; p.faults = { F_DROP, F_DELAY_LONG };
		p.longDelay = 0.45;
		for(auto &sc : scripts)
			v.push_back({ sc.name, k, [=] (Ctx &c) { AbandonRun r(c, sc); r.run(p); } });
		// every assignment of a few actions to every message, without faults, and all losses with a fixed mix
		AbandonScript all { "all-actions", { 700, 2600, 1300, 30 } }; all.actionCost = 0;
		v.push_back({ "all-actions", th ? 1 : 0, [=] (Ctx &c) { AbandonRun r(c, all); r.run(p); } });
		FaultPlan l; l.window = th ? 12 : 9; l.skip = 4; l.faults = { F_DROP }; l.cost = 0;
		for(auto &fx : std::vector<std::vector<int>> { { A_NONE, A_NORTX, A_NONE, A_NORTX, A_NONE }, { A_FINISH160, A_NONE, A_110, A_NONE, A_300 }, { A_NORTX, A_NORTX, A_NORTX, A_NORTX, A_NONE }, { A_NONE, A_NONE, A_NONE, A_300, A_FINISH160 } })
		{
			AbandonScript m { "x", { 30, 2600, 40, 1700, 50 } }; m.fixed = fx;
			v.push_back({ fmt("all-losses/%d%d%d%d%d", fx[0], fx[1], fx[2], fx[3], fx[4]), 0, [=] (Ctx &c) { AbandonRun r(c, m); r.run(l); } });
		}
		return v;
	});
}
