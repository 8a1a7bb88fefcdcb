// C14 (multi-objective part): generations, records and the ideal point of NSGA2 / NSGA3 runs.
#include "moga.hpp"
using namespace ga;

PBT_TEST(moga_accounting, "NSGA2 and NSGA3 histories over 8 instantiations, 1..40 individuals, up to 15 generations, 1..3 runs, with and without failure limit; generation(), failTimes(), the record of ideal points and bestFitness() are compared with the observed evaluation rounds and survivors; non-trivial = a run of at least two generations", 12000, 300000) {
  mogaHistory(c, [&](auto& s, auto tag, World& w, const Mp& m, int r, const std::vector<int>&) {
    const size_t G = m.o.maxGenerations, F = m.o.maxFailTimes, g = s.generation(), f = s.failTimes();
    c.nontrivial(G >= 2);
    c.check(s.option().maxGenerations == G && s.option().maxFailTimes == F && s.option().populationSize == m.o.populationSize && s.option().crossoverProb == m.o.crossoverProb && s.option().mutateProb == m.o.mutateProb, "option-lost", "option() is not what was set");
    c.check(g <= G, "too-many-generations", "ran ", g, " generations, the limit is ", G);
    if (F == 0 || f == 0) c.check(g == G, "stopped-early", "stopped after ", g, " of ", G, " generations, fail times ", f, ", limit ", F);
    if (F > 0 && g < G) c.check(f > F, "stopped-early", "stopped after ", g, " of ", G, " generations with ", f, " failures, limit ", F);
    size_t seen = 0, act = 0;
    for (auto& x : w.gens) if ((int)x.run == r + 1) { seen++; act += !x.crosses.empty() || !x.muts.empty(); }
    c.check(act <= g, "extra-variation", "offspring was produced in ", act, " generations, generation() is ", g);
    const bool every = m.o.mutateProb == 1;
    if (every) c.check(seen == g + 1, "generation-count", "saw ", seen, " evaluation rounds, generation() is ", g);
    if (every) c.check(act == g, "generation-count", "offspring was produced in ", act, " generations, generation() is ", g);
    auto ideal = [&](const std::vector<int>& ids) {
      std::vector<double> v = w.rec[ids.at(0)].fit;
      for (int i : ids) for (int k = 0; k < m.M; k++) if (better(m.less, w.rec[i].fit[k], v[k])) v[k] = w.rec[i].fit[k];
      return v;
    };
    const auto now = ideal(idsOf(s));
    c.check(get(s.bestFitness()) == now, "ideal-point", "bestFitness() is ", hx::show(get(s.bestFitness())), " instead of the ideal point ", hx::show(now));
    if constexpr (decltype(tag)::rec) {
      const auto& rec = s.record();
      c.check(rec.size() == g + 1, "record-size", "record has ", rec.size(), " entries after ", g, " generations");
      c.check(get(rec.back()) == now, "record-last", "the last record is ", hx::show(get(rec.back())), " instead of the ideal point ", hx::show(now));
      if (every) {
        std::vector<std::vector<double>> want, have;
        for (auto& x : w.gens) if ((int)x.run == r + 1 && x.hasPost) want.push_back(ideal(x.post));
        for (auto& x : rec) have.push_back(get(x));
        if (seen == g + 1) c.check(want == have, "record-wrong", "the record is not the sequence of the survivors' ideal points");
      }
    }
  });
}
