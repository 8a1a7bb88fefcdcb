// C13: the best gene / fitness / result a single-objective solver reports is the best of its population; elitist methods never lose it.
#include "soga.hpp"
using namespace ga;

PBT_TEST(best, "as the selection histories (C12); after every run the reported best must be a member of the population that nobody beats, the record must hold the best fitness of each generation's survivors, and with Truncation and EliteReserved it must never get worse, not even from one run to the next; non-trivial = at least two different fitness values", 60000, 1200000) {
  double carried = 0;
  bool have = false;
  history(c, [&](auto& s, auto tag, World& w, const Sp& sp, int r, const std::vector<int>& before) {
    const auto& pop = s.population();
    const double b = s.bestFitness();
    bool member = false;
    for (const auto& g : pop) {
      c.check(!better(sp.less, g.fitness, b), "best-is-not-best", Enum2String(sp.m), ": reported best ", b, " but the population holds ", g.fitness);
      member |= &g == &s.bestGene();
      c.nontrivial(g.fitness != b);
    }
    c.check(member, "best-not-member", Enum2String(sp.m), ": the reported best individual is not part of the population");
    const Var& res = s.result();
    c.check(w.known(&res), "best-corrupt", "the result is not an individual any operator produced");
    c.check(w.rec[res.id].fit[0] == b && s.bestGene().fitness == b, "best-inconsistent", Enum2String(sp.m), ": result has fitness ", w.rec[res.id].fit[0], ", bestFitness() is ", b);
    const bool elitist = sp.m == Truncation || sp.m == EliteReserved;
    if (elitist) {
      for (int i : before) c.check(!better(sp.less, w.rec[i].fit[0], b), "best-lost", Enum2String(sp.m), ": the population before the run held ", w.rec[i].fit[0], ", after it the best is ", b);
      for (auto& g : w.gens)
        if ((int)g.run == r + 1) for (int i : g.pre) c.check(!better(sp.less, w.rec[i].fit[0], b), "best-lost", Enum2String(sp.m), ": a fitness of ", w.rec[i].fit[0], " was seen, the best is ", b);
    }
    if (have && elitist && !w.fresh_) c.check(!better(sp.less, carried, b), "best-lost", "best of the previous run ", carried, " now ", b);
    have = true;
    carried = b;
    if constexpr (decltype(tag)::rec) {
      const auto& rec = s.record();
      c.check(!rec.empty() && rec.back() == b, "record-last", "the last record is not the best fitness");
      if (elitist) for (size_t i = 1; i < rec.size(); i++) c.check(!better(sp.less, rec[i - 1], rec[i]), "record-worsens", Enum2String(sp.m), ": record went from ", rec[i - 1], " to ", rec[i]);
      // walk the record along the observed survivors; a generation without variation repeats its predecessor
      std::vector<double> bests;
      for (auto& g : w.gens)
        if ((int)g.run == r + 1 && g.hasPost) {
          double m = w.rec[g.post[0]].fit[0];
          for (int i : g.post) if (better(sp.less, w.rec[i].fit[0], m)) m = w.rec[i].fit[0];
          bests.push_back(m);
        }
      size_t k = 0;
      if (!bests.empty())
        for (size_t i = 0; i < rec.size(); i++) {
          while (k < bests.size() && bests[k] != rec[i]) {
            if (k + 1 < bests.size() && (i > 0 || k > 0)) k++;
            else break;
          }
          c.check(k < bests.size() && bests[k] == rec[i], "record-not-best", Enum2String(sp.m), ": record entry ", i, " is ", rec[i], ", the survivors' bests were ", hx::show(bests));
        }
      const bool everyGenSeen = sp.o.mutateProb == 1 || (sp.o.crossoverProb == 1 && sp.o.populationSize > 1 && before.size() > 1);
      if (everyGenSeen) c.check(bests == std::vector<double>(rec.begin(), rec.end()), "record-not-best", Enum2String(sp.m), ": record ", hx::show(rec), ", survivors' bests ", hx::show(bests));
    }
  });
}
