// C22: a PSO run evaluates every particle once per generation, stops by its options and counts consistently.
#include "pso.hpp"
using namespace pso;

PBT_TEST(accounting, "as the motion histories (C20); generation(), failTimes(), record size and the number and positions of fitness evaluations of each run are compared with a model of the two stopping rules; non-trivial = at least two generations that can stop by failures", 32000, 500000) {
  {  // a new option has the documented values, whatever the memory held before
    alignas(PSOOption) unsigned char mem[sizeof(PSOOption)];
    std::memset(mem, (int)c.s.pick({0x00, 0xff, 0x5a}), sizeof mem);
    const PSOOption& d = *new (mem) PSOOption();
    c.check(d.populationSize == 200 && d.maxGeneration == 300 && d.maxFailTimes == 100 && d.inertiaFactor == 0.8 && d.learnFactorP == 2 && d.learnFactorG == 2, "option-default", "PSOOption() has population ", d.populationSize, ", generations ", d.maxGeneration, ", failures ", d.maxFailTimes, ", factors ", d.inertiaFactor, " ", d.learnFactorP, " ", d.learnFactorG);
  }
  double gb = 0;
  history(c, [&](const After& a, World& w) {
    const size_t G = a.sp.o.maxGeneration, F = a.sp.o.maxFailTimes, g = a.generation, N = a.sp.o.populationSize;
    c.nontrivial(G >= 2 && F > 0);
    c.check(a.opt.maxGeneration == G && a.opt.maxFailTimes == F && a.opt.populationSize == N && a.opt.inertiaFactor == a.sp.o.inertiaFactor && a.opt.learnFactorP == a.sp.o.learnFactorP && a.opt.learnFactorG == a.sp.o.learnFactorG, "option-lost", "option() is not what was set");
    c.check(a.calls == (g + 1) * N, "evaluations", a.calls, " evaluations in ", g, " generations of ", N, " particles");
    c.check(a.gens.size() == g + 1, "generation-count", "saw ", a.gens.size(), " evaluation rounds, generation() is ", g);
    // the swarm of each round is exactly what was evaluated in it
    for (size_t k = 0; k < a.gens.size(); k++) {
      std::vector<V> want, got(w.asked.begin() + k * N, w.asked.begin() + (k + 1) * N);
      for (auto& p : a.gens[k].p) want.push_back(p.x);
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
      c.check(want == got, "evaluations", "in round ", k, " other positions than those of the particles were evaluated");
    }
    size_t fails = 0, k = 0;
    for (;;) {
      double best = 0;
      for (size_t i = 0; i < N; i++) {
        const double f = w.f(a.gens[k].p[i].x);
        if (!i || better(a.sp.less, f, best)) best = f;
      }
      // bests carried by particles from earlier runs count as well
      for (auto& p : a.gens[k].p) if (better(a.sp.less, p.pbf, best)) best = p.pbf;
      if (better(a.sp.less, best, gb)) { gb = best; fails = 0; }
      else fails++;
      if (k >= G || (F > 0 && fails > F) || k + 1 >= a.gens.size()) break;
      k++;
    }
    c.check(k == g && (k >= G || (F > 0 && fails > F)), "stopping", "stopped after ", g, " generations, limits ", G, "/", F, ", ", fails, " failures in the model");
    c.check(a.fails == fails, "fail-count", "failTimes() is ", a.fails, ", the history implies ", fails);
    if (a.sp.rec) c.check(a.record.size() == g + 1, "record-size", "record has ", a.record.size(), " entries after ", g, " generations");
  }, [&](const Sp& sp, const Snap& s, World& w, size_t g, size_t f, int) {
    c.check(g == 0 && f == 0, "not-reset", "after initialisation generation() is ", g, ", failTimes() is ", f);
    c.check(w.asked.size() == sp.o.populationSize, "evaluations", "initialisation evaluated ", w.asked.size(), " times for ", sp.o.populationSize, " particles");
    gb = s.gbf;
  });
}
