// C15 (multi-objective part)
#include "moga.hpp"
using namespace ga;

PBT_TEST(moga_histories, "NSGA2 and NSGA3 histories over 8 instantiations with 1..16 configured threads; fitness of every member is its own, everyone entering a selection was evaluated exactly once, children are exactly what crossover and mutation produced, parents are survivors, paired at most once and left untouched; non-trivial = at least one child", 12000, 300000) {
  setThreadNum((int)c.s.i(1, 16));
  mogaHistory(c, [&](auto& s, auto, World& w, const Mp& m, int r, const std::vector<int>&) {
    const std::vector<int> fin = idsOf(s);
    intact(c, w, s);
    evaluatedOnce(c, w, fin);
    variation(c, w, fin);
    for (auto& g : w.gens) c.nontrivial(!g.children.empty());
    certainRates(c, w, m.o, r);
  });
}
