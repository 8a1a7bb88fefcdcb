// C25: AOS evaluates every electron once, reports the best one ever seen, and stops and counts by its options.
#include "aos.hpp"
using namespace aos;

PBT_TEST(accounting, "histories as in C23; the positions evaluated in each round, generation(), earlyStopCounter(), bestElectron(), record() and the stopping moment are compared with a model; non-trivial = at least two generations", 24000, 400000) {
  {  // a new option is a valid one, whatever the memory held before
    alignas(AOSOption) unsigned char mem[sizeof(AOSOption)];
    std::memset(mem, (int)c.s.pick({0x00, 0xff, 0x5a}), sizeof mem);
    const AOSOption& d = *new (mem) AOSOption(), e;
    c.check(d.electronNum == e.electronNum && d.maxGeneration == e.maxGeneration && d.maxEarlyStop == e.maxEarlyStop && d.maxLayerNum == e.maxLayerNum && d.photonRate == e.photonRate, "option-default", "two default options differ");
    c.check(d.electronNum >= 1 && d.maxEarlyStop >= 1 && d.maxLayerNum >= 1 && d.maxLayerNum <= d.electronNum && d.photonRate >= 0 && d.photonRate <= 1, "option-default", "AOSOption() is not a valid option");
  }
  bool have = false;
  double best = 0;                 // best energy of all evaluations since initialisation
  size_t early = 0;
  size_t gen = 0, alive = 0;       // electrons
  V record;
  history(c, [&](const After& a, World& w) {
    const size_t G = a.sp.o.maxGeneration, F = a.sp.o.maxEarlyStop, N = a.sp.o.electronNum;
    c.check(a.opt.maxGeneration == G && a.opt.maxEarlyStop == F && a.opt.electronNum == N && a.opt.maxLayerNum == a.sp.o.maxLayerNum && a.opt.photonRate == a.sp.o.photonRate, "option-lost", "option() is not what was set");
    c.check(a.generation0 == gen && a.early0 == early, "counter-drift", "before the run generation() is ", a.generation0, ", earlyStopCounter() ", a.early0, " instead of ", gen, " and ", early);
    size_t pos = 0, round = 0;
    bool first = a.run == 0;
    for (;;) {
      // evaluations of this round: exactly the uncomputed electrons
      std::vector<V> want;
      if (first || round > 0) {
        c.check(round - (first ? 0 : 1) < a.gens.size(), "stopping", "stopped in generation ", gen, " before the limits ", G, "/", F, " (", early, " without improvement)");
        const Snap& s = a.gens[round - (first ? 0 : 1)];
        for (auto& e : s.e) if (!e.computed) want.push_back(e.x);
        if (round == 0) alive = N;
        c.check(want.size() == alive, "evaluations", "round ", round, " has ", want.size(), " new electrons instead of ", alive);
        if (round > 0) alive *= 2;
        c.check(pos + want.size() <= w.asked.size(), "evaluations", "only ", w.asked.size(), " evaluations");
        std::vector<V> got(w.asked.begin() + pos, w.asked.begin() + pos + want.size());
        pos += want.size();
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        c.check(want == got, "evaluations", "in round ", round, " other positions than those of the new electrons were evaluated");
        alive = std::min(alive, N);
      } else {
        alive = std::min(alive, N);  // electronNum may have changed since the last run
      }
      const double before = best;
      const bool had = have;
      for (auto& x : want) {
        const double f = w.f(x);
        if (!have || better(a.sp.less, f, best)) { best = f; have = true; }
      }
      if (a.sp.rec) record.push_back(best);
      // the very first round has nothing to improve on: the counter may start at 0 or 1
      if (had) early = best == before ? early + 1 : 0;
      else early = a.gens.size() == 1 && a.generation == 0 ? a.early : (w.f(a.before.e[0].x) == best ? 1 : 0);
      if (!had) c.check(early <= 1, "early-stop-count", "earlyStopCounter() is ", early, " after the first round");
      if (gen >= G || early >= F) break;
      gen++;
      round++;
    }
    c.nontrivial(gen - a.generation0 >= 2);
    c.check(a.generation == gen && pos == w.asked.size(), "stopping", "stopped in generation ", a.generation, " after ", w.asked.size(), " evaluations; limits ", G, "/", F, " imply generation ", gen, " and ", pos, " evaluations");
    c.check(a.calls == pos, "evaluations", a.calls, " evaluations instead of ", pos);
    c.check(a.early == early, "early-stop-count", "earlyStopCounter() is ", a.early, " instead of ", early);
    c.check(a.last.best >= 0, "best-electron", "the best electron is not in the atom");
    c.check(a.last.bestE == best && w.f(a.last.bestX) == best, "best-electron", "the best electron reports energy ", a.last.bestE, " at ", hx::show(a.last.bestX), ", the best ever evaluated is ", best);
    if (a.sp.rec) c.check(a.record == record, "record", "record is ", hx::show(a.record), ", the history implies ", hx::show(record));
    for (size_t k = 1; k < a.record.size(); k++) c.check(!better(a.sp.less, a.record[k - 1], a.record[k]), "record-monotone", "the record gets worse at ", k);
  }, [&](const Sp& sp, const Snap& s, World& w, size_t g, size_t f, int) {
    c.check(g == 0 && f == 0, "not-reset", "after initialisation generation() is ", g, ", earlyStopCounter() is ", f);
    c.check(w.asked.empty(), "evaluations", "initialisation evaluated ", w.asked.size(), " times");
    for (auto& e : s.e) c.check(!e.computed, "not-reset", "a fresh electron claims to be evaluated");
    have = false;
    early = gen = 0;
    record.clear();
  });
}
