// C15: every individual is evaluated exactly once and keeps its own fitness; variation only adds children, at the requested rates.
#include "soga.hpp"
using namespace ga;

PBT_TEST(soga_histories, "as the selection histories (C12) with 1..16 configured threads; fitness of every member is its own, everyone entering a selection was evaluated exactly once, children are exactly what crossover and mutation produced, parents are survivors, paired at most once and left untouched; non-trivial = at least one child", 40000, 800000) {
  setThreadNum((int)c.s.i(1, 16));
  history(c, [&](auto& s, auto, World& w, const Sp& sp, int r, const std::vector<int>&) {
    const std::vector<int> fin = idsOf(s);
    intact(c, w, s);
    evaluatedOnce(c, w, fin);
    variation(c, w, fin);
    for (auto& g : w.gens) c.nontrivial(!g.children.empty());
    certainRates(c, w, sp.o, r);
  });
}

PBT_TEST(soga_rates, "crossover and mutation probability, 100..200 individuals, 60 generations; the number of parents, mutants, their positions and pairings must be those of independent draws (8 sigma); non-trivial = probability strictly between 0 and 1", 150, 3000) {
  Sp sp;
  sp.m = c.s.chance(0.5) ? MonteCarlo : Truncation;
  sp.less = true;
  sp.runtime = c.s.chance(0.5);
  const int K = (int)c.s.i(50, 100) * 2;
  const double pc = c.s.pick({0.8, 0.3, 0.05, 1.0, 0.0, 0.5}), pm = c.s.pick({0.05, 0.3, 0.5, 1.0, 0.0});
  sp.o.populationSize = K;
  sp.o.maxGenerations = 60;
  sp.o.maxFailTimes = 0;
  sp.o.crossoverProb = pc;
  sp.o.mutateProb = pm;
  c.note(Enum2String(sp.m), " K=", K, " pc=", pc, " pm=", pm);
  c.nontrivial((pc > 0 && pc < 1) || (pm > 0 && pm < 1));
  World w(c);
  uint64_t n = c.s.raw(0xffffffff);
  w.fit = [&](const Rec&) -> std::vector<double> { return {(double)(pbt::mix(n += 7) >> 40)}; };
  withSolver(sp, [&](auto& s, auto tag) {
    prepare(s, sp, w, tag);
    params(s, sp, tag);
    s.setOption(sp.o);
    s.initializePop();
    s.run();
    c.rethrow();
  });
  double tc = 0, parents = 0, tm = 0, muts = 0, front = 0, pairs = 0, near = 0, mfront = 0, gens = 0, cm = 0, kids = 0;
  for (auto& g : w.gens) {
    if (g.children.empty() && !(g.hasPre && g.hasPost)) continue;
    if (&g == &w.gens.back()) continue;  // the last selection is not followed by variation
    std::map<int, int> pos;
    for (size_t i = 0; i < g.post.size(); i++) pos[g.post[i]] = (int)i;
    tc += g.post.size();
    gens++;
    parents += 2.0 * g.crosses.size();
    for (auto& p : g.crosses) {
      front += (pos[p.first] < K / 2) + (pos[p.second] < K / 2);
      pairs++;
      near += std::abs(pos[p.first] - pos[p.second]) <= K / 10;
    }
    tm += g.post.size() + 2.0 * g.crosses.size();
    kids += 2.0 * g.crosses.size();
    muts += g.muts.size();
    for (int m : g.muts) {
      if (pos.count(m)) mfront += pos[m] < K / 2;
      else cm++;
    }
  }
  auto binom = [&](const char* key, double got, double nn, double p, double slackLow = 0) {
    const double t = 8 * std::sqrt(nn * p * (1 - p)) + 1e-9;
    c.check(got <= nn * p + t && got >= nn * p - t - slackLow, key, key, ": ", got, " of ", nn, " with probability ", p);
  };
  if (gens == 0) {
    c.check(pc == 0 && pm == 0, "crossover-rate", "no offspring at all with pc=", pc, " pm=", pm);
    return;
  }
  if (pc == 0 || pm == 1 || pc == 1 || true) {
    // generations without any offspring are invisible when pc and pm are tiny; K >= 100 makes that negligible unless both are 0
    binom("crossover-rate", parents, tc, pc, gens);
    binom("mutation-rate", muts, tm, pm);
    binom("mutation-of-children", cm, kids, pm);
    if (parents > 0) binom("crossover-position", front, parents, 0.5);
    if (muts - cm > 0) binom("mutation-position", mfront, muts - cm, 0.5);
    if (pairs > 0) {
      const double d = K / 10, p = (2 * d * K - d * (d + 1)) / ((double)K * (K - 1));  // P(|i-j| <= d) for a random pair
      binom("pairing", near, pairs, p);
    }
  }
}

PBT_TEST(soga_rates_small, "populations of 2..24 over generations that add up to about 6000 individuals; the number of couples and of mutants must be those of independent draws (the odd parent of a generation stays out), 8 sigma; non-trivial = probability strictly between 0 and 1", 300, 6000) {
  Sp sp;
  sp.m = c.s.chance(0.5) ? MonteCarlo : Truncation;
  sp.less = true;
  sp.runtime = c.s.chance(0.5);
  const int K = (int)c.s.i(2, 24), G = 6000 / K;
  const double pc = c.s.chance(0.5) ? c.s.pick({0.8, 0.3, 0.05, 0.5}) : c.s.real(0, 1), pm = c.s.chance(0.5) ? c.s.pick({0.05, 0.3, 0.1, 0.02}) : c.s.real(0, 1);
  sp.o.populationSize = K;
  sp.o.maxGenerations = G;
  sp.o.maxFailTimes = 0;
  sp.o.crossoverProb = pc;
  sp.o.mutateProb = pm;
  c.note(Enum2String(sp.m), " K=", K, " pc=", pc, " pm=", pm);
  c.nontrivial((pc > 0 && pc < 1) || (pm > 0 && pm < 1));
  World w(c);
  uint64_t n = c.s.raw(0xffffffff);
  w.fit = [&](const Rec&) -> std::vector<double> { return {(double)(pbt::mix(n += 7) >> 40)}; };
  size_t gen = 0;
  withSolver(sp, [&](auto& s, auto tag) {
    prepare(s, sp, w, tag);
    params(s, sp, tag);
    s.setOption(sp.o);
    s.initializePop();
    s.run();
    gen = s.generation();
    c.rethrow();
  });
  c.check((int)gen == G, "rounds", "ran ", gen, " generations instead of ", G);
  double couples = 0, muts = 0;
  for (auto& g : w.gens) couples += g.crosses.size(), muts += g.muts.size();
  const double odd = (1 - std::pow(1 - 2 * pc, K)) / 2, wantP = G * (K * pc - odd), sdP = std::sqrt(G * (K * pc * (1 - pc) + 1));
  c.check(std::fabs(2 * couples - wantP) <= 8 * sdP + 1, "crossover-rate", "populations of ", K, ": ", 2 * couples, " parents in ", G, " generations with probability ", pc, ", expected ", wantP);
  const double pool = (double)G * K + 2 * couples;
  c.check(std::fabs(muts - pool * pm) <= 8 * std::sqrt(pool * pm * (1 - pm)) + 1, "mutation-rate", "populations of ", K, ": ", muts, " mutants among ", pool, " with probability ", pm);
}
