// C17: the Pareto front a multi-objective solver reports is exactly the set of non-dominated members of its population.
#include "moga.hpp"
using namespace ga;

PBT_TEST(front, "NSGA2 and NSGA3 histories over 8 instantiations (2..6 objectives, both directions, fixed or dynamic, both operator styles, single and double reference layers), 1..40 individuals, 1..3 runs; after every run all three forms of the front are compared with a brute-force front of the final population, and with everybody ever evaluated when no front outgrew the population; non-trivial = the population has dominated and non-dominated members", 16000, 600000) {
  bool outgrew = false;
  mogaHistory(c, [&](auto& s, auto, World& w, const Mp& m, int r, const std::vector<int>& before) {
    if (w.fresh_) outgrew = false;
    using S = std::decay_t<decltype(s)>;
    using Fit = typename S::Fitness_t;
    const std::vector<int> pop = idsOf(s);
    intact(c, w, s);
    const std::vector<int> n = domCount(w, m.less, pop);
    std::set<int> want;
    for (size_t i = 0; i < pop.size(); i++) if (!n[i]) want.insert(pop[i]);
    c.nontrivial(want.size() < pop.size());
    std::set<const void*> members;
    std::map<const void*, int> idOf;
    for (const auto& g : s.population()) { members.insert(&g); idOf[&g.decision_variable] = g.decision_variable.id; }
    std::set<int> got;
    for (const auto* g : s.pfGenes()) {
      c.check(members.count(g), "front-not-member", "NSGA", m.algo, ": the front holds an individual that is not part of the population");
      c.check(got.insert(g->decision_variable.id).second, "front-duplicate", "the front holds an individual twice");
    }
    c.check(got == want, "front-wrong", "NSGA", m.algo, ": reported front ", show({got.begin(), got.end()}), ", non-dominated members are ", show({want.begin(), want.end()}), " of ", show(pop));
    std::vector<Fit> a(3);
    std::vector<std::pair<const Var*, const Fit*>> b(2);
    s.paretoFront(a);
    s.paretoFront(b);
    std::multiset<std::vector<double>> wf, af, bf;
    std::set<int> bi;
    for (int i : want) wf.insert(w.rec[i].fit);
    for (auto& f : a) af.insert(get(f));
    c.check(af == wf, "front-fitness", "NSGA", m.algo, ": paretoFront returns ", a.size(), " fitness vectors that are not those of the ", want.size(), " non-dominated members");
    for (auto& p : b) {
      c.check(idOf.count(p.first), "front-not-member", "paretoFront points to a decision variable outside the population");
      bi.insert(p.first->id);
      c.check(get(*p.second) == w.rec[p.first->id].fit, "front-fitness", "paretoFront pairs an individual with the fitness of another one");
    }
    c.check(bi == want && b.size() == want.size(), "front-variables", "NSGA", m.algo, ": paretoFront returns other decision variables than the front");
    // nobody non-dominated is ever lost while the fronts fit into the population
    std::vector<int> all;
    for (auto& g : w.gens) {
      if (g.pre.empty() || (int)g.run != r + 1) continue;
      const auto d = domCount(w, m.less, g.pre);
      outgrew |= (size_t)std::count(d.begin(), d.end(), 0) > m.o.populationSize;
      if (g.hasPost && !outgrew)
        for (size_t i = 0; i < g.pre.size(); i++)
          if (!d[i]) c.check(std::count(g.post.begin(), g.post.end(), g.pre[i]), "front-lost", "NSGA", m.algo, ": non-dominated individual ", g.pre[i], " was eliminated although the front fits");
    }
    if (!outgrew) {
      for (size_t i = w.epochRec; i < w.rec.size(); i++) if (*w.evals[i]) all.push_back((int)i);
      const auto d = domCount(w, m.less, all);
      std::set<std::vector<double>> best, have;
      for (size_t i = 0; i < all.size(); i++) if (!d[i]) best.insert(w.rec[all[i]].fit);
      for (int i : want) have.insert(w.rec[i].fit);
      c.check(best == have, "front-lost", "NSGA", m.algo, ": the front is not the front of everybody evaluated although it never outgrew the population");
      c.label("never-outgrew");
    }
  });
}

PBT_TEST(fresh, "a solver that was initialised but never run, or initialised again after a run; its front must be empty, and after the next run it must be correct; non-trivial = always", 5000, 100000) {
  Mp m = genMoga(c);
  describe(c, m);
  World w(c);
  genFitness(c, w, m);
  c.nontrivial();
  withMoga(m, [&](auto& s, auto tag) {
    using Fit = typename std::decay_t<decltype(s)>::Fitness_t;
    prepare(s, m, w, tag);
    const int rounds = (int)c.s.i(1, 3);
    for (int r = 0; r < rounds; r++) {
      m.o.populationSize = c.s.i(1, 12);
      s.setOption(m.o);
      s.initializePop();
      std::vector<Fit> a(2);
      std::vector<std::pair<const Var*, const Fit*>> b(2);
      s.paretoFront(a);
      s.paretoFront(b);
      c.check(a.empty() && b.empty() && s.pfGenes().empty(), "front-stale", "the front of a freshly initialised solver is not empty");
      w.run = r + 1;
      w.varying = true;
      s.run();
      c.rethrow();
      const std::vector<int> pop = idsOf(s);
      intact(c, w, s);
      const auto n = domCount(w, m.less, pop);
      s.paretoFront(b);
      std::set<int> want, got;
      for (size_t i = 0; i < pop.size(); i++) if (!n[i]) want.insert(pop[i]);
      for (auto& p : b) got.insert(p.first->id);
      c.check(want == got, "front-wrong", "NSGA", m.algo, ": front ", show({got.begin(), got.end()}), " instead of ", show({want.begin(), want.end()}));
    }
  });
}
