// C14: a single-objective run stops exactly when its options say so and counts generations, failures and records consistently.
#include "soga.hpp"
using namespace ga;

PBT_TEST(accounting, "as the selection histories (C12); generation(), failTimes() and the record of every run are compared with a model of the two stopping rules and with the number of observed evaluation rounds; non-trivial = a run of at least two generations that can stop by failures", 60000, 1200000) {
  optionDefaults(c);
  history(c, [&](auto& s, auto tag, World& w, const Sp& sp, int r, const std::vector<int>& before) {
    const size_t G = sp.o.maxGenerations, F = sp.o.maxFailTimes, g = s.generation(), f = s.failTimes();
    c.check(s.option().maxGenerations == G && s.option().maxFailTimes == F && s.option().populationSize == sp.o.populationSize && s.option().crossoverProb == sp.o.crossoverProb && s.option().mutateProb == sp.o.mutateProb, "option-lost", "option() is not what was set");
    c.check(g <= G, "too-many-generations", "ran ", g, " generations, the limit is ", G);
    c.check(f <= g + 1, "fail-count", "fail times ", f, " after ", g + 1, " selections");
    if (F == 0) c.check(g == G, "stopped-early", "stopped after ", g, " of ", G, " generations without a failure limit");
    if (F > 0 && g < G) c.check(f > F, "stopped-early", "stopped after ", g, " of ", G, " generations with ", f, " failures, limit ", F);
    if (F > 0) c.check(f <= F + 1, "stopped-late", "still running after ", f, " failures, limit ", F);
    c.nontrivial(G >= 2 && F > 0);
    size_t seen = 0, act = 0;
    for (auto& x : w.gens) if ((int)x.run == r + 1) { seen++; act += !x.crosses.empty() || !x.muts.empty(); }
    c.check(act <= g, "extra-variation", "offspring was produced in ", act, " generations, generation() is ", g);
    const bool every = sp.o.mutateProb == 1 || (sp.o.crossoverProb == 1 && sp.o.populationSize > 1 && before.size() > 1);
    if (every) c.check(seen == g + 1, "generation-count", "saw ", seen, " evaluation rounds, generation() is ", g);
    if (every) c.check(act == g, "generation-count", "offspring was produced in ", act, " generations, generation() is ", g);
    if constexpr (decltype(tag)::rec) {
      const auto& rec = s.record();
      c.check(rec.size() == g + 1, "record-size", "record has ", rec.size(), " entries after ", g, " generations");
      bool ok = false;
      std::string want;
      for (size_t start = 0; start < 2; start++) {  // whether the very first selection improved anything is unspecified
        size_t k = start, i = 0;
        for (;;) {
          if (i > 0) k = better(sp.less, rec[i], rec[i - 1]) ? 0 : k + 1;
          if (i >= G || (F > 0 && k > F)) break;
          if (i + 1 >= rec.size()) { i++; break; }
          i++;
        }
        ok |= i == g && k == f;
        want += pbt::cat(" (", i, ",", k, ")");
      }
      c.check(ok, "fail-model", "generation ", g, " failTimes ", f, ", the record ", hx::show(rec), " implies one of", want, " limits ", G, "/", F);
    }
  });
}
