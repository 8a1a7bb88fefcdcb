// SOGA driver: one random history of one solver instantiation, with everything the property checks need.
#pragma once
#include "ga.hpp"
namespace ga {

struct Sp {  // what is run
  SelectMethod m;
  bool less;
  bool runtime;
  GAOption o;
  int tour = 3, elite = 1;
  double lw = 0.1, lb = 0.9, ec = 0.8, boltz = 0;
  bool setBoltz = false;
  bool dflt = false;  // leave the selector's parameters at their documented defaults
};

template <SelectMethod M, FitnessOption F, RecordOption R, bool RT>
struct Mk {  // compile-time operators and an argument object, or run-time operators without one
  using O = Ops<double, true>;
  using type = SOGA<Var, F, R, M, Args, O::ini, O::fit, O::cro, O::mut>;
  static constexpr bool hasArgs = true, rec = R == RECORD_FITNESS;
  static constexpr SelectMethod sm = M;
};
template <SelectMethod M, FitnessOption F, RecordOption R>
struct Mk<M, F, R, true> {
  using type = SOGA<Var, F, R, M>;
  static constexpr bool hasArgs = false, rec = R == RECORD_FITNESS;
  static constexpr SelectMethod sm = M;
};

template <class S, class M>
void prepare(S& s, const Sp& sp, World& w, M) {
  if constexpr (M::hasArgs) {
    Args a;
    a.w = &w;
    a.magic = 4711;
    s.setArgs(a);
  } else {
    using O = Ops<double, false>;
    s.setiFun(O::ini);
    s.setfFun(O::fit);
    s.setcFun(O::cro);
    s.setmFun(O::mut);
  }
  w.snap = [&s] { return idsOf(s); };
}
template <class S, class M>
void params(S& s, const Sp& sp, M) {
  constexpr bool rt = M::sm == RunTimeSelectMethod;
  if constexpr (rt) s.setSelectMethod(sp.m);
  if (!sp.dflt) {
  if constexpr (rt || M::sm == Tournament) if (sp.m == Tournament) s.setTournamentSize(sp.tour);
  if constexpr (rt || M::sm == LinearRank) if (sp.m == LinearRank) s.setLinearSelectProbability(sp.lw, sp.lb);
  if constexpr (rt || M::sm == ExponentialRank) if (sp.m == ExponentialRank) s.setExponetialSelectBase(sp.ec);
  if constexpr (rt || M::sm == Boltzmann) if (sp.m == Boltzmann && sp.setBoltz) s.setBoltzmannSelectStrength(sp.boltz);
  if constexpr (rt || M::sm == EliteReserved) if (sp.m == EliteReserved) s.setEliteNum(sp.elite);
  }
  pbt::Ctx& c = W->c;
  if constexpr (rt || M::sm == Tournament) if (sp.m == Tournament) c.check(s.tournamentSize() == sp.tour, "parameter-lost", "tournamentSize() is ", s.tournamentSize(), " instead of ", sp.tour);
  if constexpr (rt || M::sm == LinearRank) if (sp.m == LinearRank) c.check(s.linearSelectWrostProbability() == sp.lw && s.linearSelectBestProbability() == sp.lb, "parameter-lost", "linear rank probabilities are not what was set");
  if constexpr (rt || M::sm == ExponentialRank) if (sp.m == ExponentialRank) c.check(s.exponetialSelectBase() == sp.ec, "parameter-lost", "exponential base is ", s.exponetialSelectBase(), " instead of ", sp.ec);
  if constexpr (rt || M::sm == Boltzmann) if (sp.m == Boltzmann && sp.setBoltz) c.check(s.boltzmannSelectStrength() == sp.boltz, "parameter-lost", "Boltzmann strength is ", s.boltzmannSelectStrength(), " instead of ", sp.boltz);
  if constexpr (rt || M::sm == EliteReserved) if (sp.m == EliteReserved) c.check(s.eliteNum() == sp.elite, "parameter-lost", "eliteNum() is ", s.eliteNum(), " instead of ", sp.elite);
  if constexpr (M::hasArgs) c.check(s.args().w == W && s.args().magic == 4711, "args-lost", "args() is not what was set");
}

// calls f(solver, tag) with the instantiation that fits sp
template <SelectMethod M, class Fn>
void withOne(const Sp& sp, Fn&& f) {
  auto go = [&](auto tag) {
    using T = decltype(tag);
    typename T::type s;
    f(s, tag);
  };
  if (sp.less) go(Mk<M, FITNESS_LESS_BETTER, M == RunTimeSelectMethod ? DONT_RECORD_FITNESS : RECORD_FITNESS, M == RunTimeSelectMethod>{});
  else go(Mk<M, FITNESS_GREATER_BETTER, RECORD_FITNESS, M == RunTimeSelectMethod>{});
}
template <class Fn>
void withSolver(const Sp& sp, Fn&& f) {
  if (sp.runtime) return withOne<RunTimeSelectMethod>(sp, f);
  switch (sp.m) {
    case RouletteWheel: return withOne<RouletteWheel>(sp, f);
    case Tournament: return withOne<Tournament>(sp, f);
    case Truncation: return withOne<Truncation>(sp, f);
    case MonteCarlo: return withOne<MonteCarlo>(sp, f);
    case Probability: return withOne<Probability>(sp, f);
    case LinearRank: return withOne<LinearRank>(sp, f);
    case ExponentialRank: return withOne<ExponentialRank>(sp, f);
    case Boltzmann: return withOne<Boltzmann>(sp, f);
    case StochasticUniversal: return withOne<StochasticUniversal>(sp, f);
    default: return withOne<EliteReserved>(sp, f);
  }
}
inline const SelectMethod kMethods[] = {RouletteWheel, Tournament, Truncation, MonteCarlo, Probability, LinearRank, ExponentialRank, Boltzmann, StochasticUniversal, EliteReserved};

// what the selectors do when nobody sets their parameters
inline void setDefaults(Sp& sp) {
  sp.tour = 3; sp.elite = 1; sp.lw = 0.1; sp.lb = 0.9; sp.ec = 0.8;
  sp.setBoltz = false;
}
// a new option has the documented values, whatever the memory held before
inline void optionDefaults(pbt::Ctx& c) {
  alignas(GAOption) unsigned char mem[sizeof(GAOption)];
  std::memset(mem, (int)c.s.pick({0x00, 0xff, 0x5a}), sizeof mem);
  const GAOption& d = *new (mem) GAOption();
  c.check(d.populationSize == 100 && d.maxGenerations == 300 && d.crossoverProb == 0.8 && d.mutateProb == 0.05, "option-default", "GAOption() has population ", d.populationSize, ", generations ", d.maxGenerations, ", crossover ", d.crossoverProb, ", mutation ", d.mutateProb);
  c.check(d.maxFailTimes >= 1 && d.maxFailTimes <= d.maxGenerations, "option-default", "GAOption() has ", d.maxFailTimes, " fail times");
}

inline Sp genSpec(pbt::Ctx& c) {
  Sp sp;
  sp.m = kMethods[c.s.idx(10)];
  sp.runtime = c.s.chance(0.4);
  sp.less = !c.s.chance(0.5);
  const int lo = sp.m == Tournament ? 3 : 1;
  sp.o.populationSize = c.s.chance(0.7) ? c.s.i(lo, 8) : c.s.i(lo, c.thorough ? 120 : 40);
  sp.o.crossoverProb = c.s.pick({0.8, 1.0, 0.0, 0.5, 0.2});
  sp.o.mutateProb = c.s.pick({0.05, 1.0, 0.0, 0.5, 0.2});
  sp.o.maxGenerations = c.s.chance(0.8) ? c.s.i(0, 8) : c.s.i(0, c.thorough ? 60 : 25);
  sp.o.maxFailTimes = c.s.chance(0.4) ? 0 : c.s.i(1, 6);
  if (c.s.chance(0.008)) {  // beyond any narrow counter
    c.label("large");
    if (c.s.chance(0.5)) { sp.o.populationSize = c.s.i(250, 560); sp.o.maxGenerations = c.s.i(1, 3); }
    else {
      sp.o.populationSize = c.s.i(lo, lo + 3);
      sp.o.maxGenerations = c.s.i(250, 330);
      sp.o.maxFailTimes = c.s.pick({0, 0, 200, 256, 290, 5000});
      if (c.s.chance(0.8)) sp.o.mutateProb = 1;
    }
  }
  const int K = (int)sp.o.populationSize;
  sp.tour = (int)c.s.i(2, std::max(2, K - 1));
  sp.elite = (int)c.s.i(1, K);
  if (c.s.chance(0.5)) {
    sp.lw = c.s.pick({0.0, 0.1, 0.5});
    sp.lb = c.s.pick({1.0, 0.9, 0.6});
  }
  sp.ec = c.s.pick({0.8, 0.5, 0.99, 0.1, 1e-6});
  sp.setBoltz = c.s.chance(0.5);
  sp.boltz = (sp.less ? -1 : 1) * c.s.pick({10.0, 1.0, 0.1, 1000.0});
  if (c.s.chance(0.1) && (sp.m != Tournament || K > 3)) {
    sp.dflt = true;
    setDefaults(sp);
    c.label("default-parameters");
  }
  return sp;
}

// how fitness values come about
inline void genFitness(pbt::Ctx& c, World& w, bool less) {
  const int mode = (int)c.s.idx(10);
  const double penalty = (less ? 1 : -1) * c.s.pick({1.0, 1e-12, 1e-280}) * std::numeric_limits<double>::max();
  const uint64_t salt = c.s.raw(0xffffffff);
  const double scale = c.s.pick({1.0, 1e-6, 100.0, 1e4, 1e12});
  auto cnt = std::make_shared<uint64_t>(0);
  World* pw = &w;
  w.fit = [=](const Rec& r) -> std::vector<double> {
    const uint64_t h = pbt::mix(salt * 1000003 + ++*cnt);
    const double u = (double)(h >> 11) * 0x1p-53;
    auto parent = [&] { return r.p1 ? pw->rec[r.p1].fit[0] : 0.0; };
    double f;
    switch (mode) {
      case 6: f = h % 3 == 0 ? penalty : (u - 0.5) * scale; break;                    // infeasible now and then
      case 0: f = (double)(h % 4); break;                                            // many ties
      case 7: f = 1 + (double)(h % 5) * std::numeric_limits<double>::epsilon(); break;  // differences in the last digit
      case 8: f = (u - 0.5) * 2 * std::numeric_limits<double>::max(); break;            // differences beyond the largest number
      case 9: f = u * 1e-305; break;                                                    // tiny
      case 1: f = 1.0; break;                                                        // all equal
      case 2: f = u * scale; break;
      case 3: f = (u - 0.5) * scale; break;
      case 4: f = r.kind == INIT ? u : parent() + (less ? -1 : 1) * (u - 0.6); break;  // improves now and then
      default: f = r.kind == INIT ? 10 : parent() + (h % 3 == 0 ? (less ? -1 : 1) : 0) - (h % 7 == 0 ? (less ? -2 : 2) : 0); break;
    }
    return {f};
  };
  static const char* nm[] = {"ties", "all-equal", "uniform", "signed", "improving", "steps", "penalty", "last-digit", "huge", "tiny"};
  c.label(std::string("fitness:") + nm[mode]);
  c.note(" fitness=", nm[mode], " scale=", scale);
}
inline void describe(pbt::Ctx& c, const Sp& sp) {
  c.label(std::string("method:") + Enum2String(sp.m));
  c.note(Enum2String(sp.m), sp.runtime ? " (run time)" : "", sp.less ? " minimise" : " maximise", " K=", sp.o.populationSize, " pc=", sp.o.crossoverProb, " pm=", sp.o.mutateProb, " G=", sp.o.maxGenerations, " fail=", sp.o.maxFailTimes, " tour=", sp.tour, " elite=", sp.elite);
}

struct Hist {
  Sp sp;
  std::vector<std::pair<size_t, size_t>> runs;  // generation(), failTimes() after each run
};

// what may change between two runs: options, parameters and (where chosen at run time) the method
inline void change(pbt::Ctx& c, Sp& sp) {
  if (sp.runtime && c.s.chance(0.5)) sp.m = kMethods[c.s.idx(10)];
  const int lo = sp.m == Tournament ? 3 + sp.dflt : 1;
  if ((int)sp.o.populationSize < lo || c.s.chance(0.6)) sp.o.populationSize = c.s.i(lo, 12);
  sp.o.crossoverProb = c.s.pick({0.8, 1.0, 0.0, 0.5, 0.2});
  sp.o.mutateProb = c.s.pick({0.05, 1.0, 0.0, 0.5, 0.2});
  const int K = (int)sp.o.populationSize;
  sp.tour = (int)c.s.i(2, std::max(2, K - 1));
  sp.elite = (int)c.s.i(1, K);
  sp.ec = c.s.pick({0.8, 0.5, 0.99, 0.1, 1e-6});
  if (sp.dflt) setDefaults(sp);
  c.note(" then ", Enum2String(sp.m), " K=", K, " pc=", sp.o.crossoverProb, " pm=", sp.o.mutateProb, " tour=", sp.tour, " elite=", sp.elite);
}

// initialise N individuals, then 1..4 runs; between two runs nothing, only the limits, or the whole configuration may
// change, and the population may be initialised again
// after(solver, world, runIndex, beforeIds) is called after each run
template <class After>
void history(pbt::Ctx& c, After&& after) {
  Sp sp = genSpec(c);
  describe(c, sp);
  World w(c);
  genFitness(c, w, sp.less);
  withSolver(sp, [&](auto& s, auto tag) {
    c.check(s.option().populationSize == 100 && s.option().maxGenerations == 300 && s.option().crossoverProb == 0.8 && s.option().mutateProb == 0.05, "option-default", "a new solver does not have the default option");
    prepare(s, sp, w, tag);
    params(s, sp, tag);
    auto init = [&] {
      const int extra = c.s.chance(0.5) ? 0 : (int)c.s.i(1, 12);
      GAOption o0 = sp.o;
      o0.populationSize += extra;
      s.setOption(o0);
      w.inits = 0;
      w.fresh_ = true;
      w.epochRec = w.rec.size();
      s.initializePop();
      c.check(s.population().size() == o0.populationSize, "initial-size", "initialised ", s.population().size(), " individuals instead of ", o0.populationSize);
      c.check(w.inits == (int)o0.populationSize, "initial-size", "initialised ", w.inits, " times for ", o0.populationSize, " individuals");
      for (const auto& g : s.population()) c.check(g.decision_variable.id >= (int)w.epochRec, "not-initialised", "an individual of the previous population is still there after initializePop()");
    };
    init();
    s.setOption(sp.o);
    const int nruns = (int)c.s.pick({1, 1, 2, 3, 4});
    for (int r = 0; r < nruns; r++) {
      if (r) {
        const bool big = c.s.chance(0.6);
        if (big) change(c, sp);
        sp.o.maxGenerations = c.s.i(0, 6);
        sp.o.maxFailTimes = c.s.i(0, 4);
        if (big) params(s, sp, tag);
        w.fresh_ = false;
        if (c.s.chance(0.3)) {
          c.label("initialised-again");
          c.note(" initialised again");
          init();
        }
        s.setOption(sp.o);
      }
      w.startRun(r + 1);
      const std::vector<int> before = w.before;
      s.run();
      c.rethrow();
      w.endRun();
      after(s, tag, w, sp, r, before);
    }
  });
}
}  // namespace ga
