// C26: what a solver does is a function of the random engine's state, the options and the user's functions: neither the
// number of threads nor their schedule nor the way the functions are supplied changes anything.
#include "common.hpp"
#define GENETIC (PART == 0 || PART >= 3)
#if GENETIC
#include <HeuristicFlow/Genetic>
#elif PART == 1
#include <HeuristicFlow/PSO>
#else
#include <HeuristicFlow/AOS>
#endif
#ifdef _OPENMP
#include <omp.h>
#endif
using namespace heu;
using V = std::vector<double>;
static int gSpin = 0, gObj = 2, gLand = 0;
static void spin(double x) {  // threads finish in another order
  if (!gSpin) return;
  uint64_t b;
  memcpy(&b, &x, 8);
  const int n = (int)(pbt::mix(b + gSpin) % 4) * 60;
  for (volatile int i = 0; i < n; i = i + 1) {}
}
template <class T>
static double objective(const T& x, int k) {
  double s = 0;
  for (int i = 0; i < (int)x.size(); i++) {
    const double z = (double)at(x, i);
    switch ((gLand + k) % 4) {
      case 0: s += (z - 0.3 * k - 0.1) * (z - 0.3 * k - 0.1) * (i + 1); break;
      case 1: s += std::sin(3 * z + k + i) + 0.1 * z * z; break;
      case 2: s += std::fabs(z - 0.2 * k) + 0.01 * i * z; break;
      default: s += std::cos(5 * z * (i + 1)) - 0.2 * z; break;
    }
  }
  spin(s);
  return s;
}
struct Args { int magic = 4711; };
#define TWO(...) __VA_ARGS__
static void threads(int n) {
  setThreadNum(n);
#ifdef _OPENMP
  omp_set_num_threads(n);
#endif
}
template <class T>
static void put(V& t, const T& x) {
  t.push_back((double)x.size());
  for (int i = 0; i < (int)x.size(); i++) t.push_back((double)at(x, i));
}
// one after the other from the same state; the first is the reference
static void compare(pbt::Ctx& c, uint64_t seed, const char* what, const std::vector<std::pair<std::string, std::function<V()>>>& ways) {
  V ref;
  for (size_t k = 0; k < ways.size(); k++) {
    hx::reseed(seed);
    const V t = ways[k].second();
    if (k == 0) { ref = t; continue; }
    size_t d = 0;
    while (d < t.size() && d < ref.size() && hx::eqv(t[d], ref[d])) d++;
    c.check(d == t.size() && d == ref.size(), "differs", what, ": ", ways[0].first, " and ", ways[k].first, " give different traces from number ", d, " of ", ref.size(), " on (", d < ref.size() ? ref[d] : 0.0, " and ", d < t.size() ? t[d] : 0.0, ")");
  }
}

#if GENETIC
namespace {
template <class T, class F>
struct Fn {
  static void ini(T* x) {
    if constexpr (!array_traits<T>::isFixedSize) x->resize(4);
    for (int i = 0; i < (int)x->size(); i++) at(*x, i) = randD(-2, 2);
  }
  static void fit(const T* x, F* f) {
    if constexpr (std::is_same_v<F, double>) *f = objective(*x, 0);
    else {
      f->resize(gObj);
      for (int k = 0; k < gObj; k++) (*f)[k] = objective(*x, k);
    }
  }
  static void cro(const T* a, const T* b, T* p, T* q) {
    *p = *a; *q = *b;
    for (int i = 0; i < (int)a->size(); i++) {
      const double r = randD();
      at(*p, i) = r * at(*a, i) + (1 - r) * at(*b, i);
      at(*q, i) = r * at(*b, i) + (1 - r) * at(*a, i);
    }
  }
  static void mut(const T* a, T* p) {
    *p = *a;
    at(*p, randIdx((int)a->size())) += randD(-0.5, 0.5);
  }
};
template <class T, class F>
struct FnA {
  using B = Fn<T, F>;
  static void ini(T* x, const Args*) { B::ini(x); }
  static void fit(const T* x, const Args*, F* f) { B::fit(x, f); }
  static void cro(const T* a, const T* b, T* p, T* q, const Args*) { B::cro(a, b, p, q); }
  static void mut(const T* a, T* p, const Args*) { B::mut(a, p); }
};
}  // namespace
struct Cfg {
  GAOption o, o2;
  SelectMethod m = Truncation;
  int p = 3;
  bool again = false;
};
struct So { static constexpr bool moga = false; };
template <class F>
struct Mo { static constexpr bool moga = true; using Ft = F; };
template <class S, class T>
static V traceGA(S& s, const Cfg& g, T, int th, int spinning) {
  threads(th);
  gSpin = spinning;
  V t;
  s.setOption(g.o);
  s.initializePop();
  auto photo = [&] {
    t.push_back((double)s.generation());
    t.push_back((double)s.failTimes());
    for (auto& x : s.population()) {
      put(t, x.decision_variable);
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(x.fitness)>>) t.push_back(x.fitness);
      else put(t, x.fitness);
    }
  };
  s.run();
  photo();
  if (g.again) {
    s.setOption(g.o2);
    s.run();
    photo();
  }
  if constexpr (T::moga) {
    std::vector<typename T::Ft> f;
    s.paretoFront(f);
    std::vector<V> a;
    for (auto& x : f) { V v; put(v, x); a.push_back(v); }
    std::sort(a.begin(), a.end());
    for (auto& v : a) t.insert(t.end(), v.begin(), v.end());
    put(t, s.bestFitness());
  } else t.push_back(s.bestFitness());
  return t;
}
template <class T, class F, class S>
static void rtFns(S& s) {
  s.setiFun(Fn<T, F>::ini); s.setfFun(Fn<T, F>::fit); s.setcFun(Fn<T, F>::cro); s.setmFun(Fn<T, F>::mut);
}
template <class T, class F, class S>
static void rtFnsA(S& s) {
  s.setArgs(Args());
  s.setiFun(FnA<T, F>::ini); s.setfFun(FnA<T, F>::fit); s.setcFun(FnA<T, F>::cro); s.setmFun(FnA<T, F>::mut);
}
static GAOption genOpt(pbt::Ctx& c) {
  GAOption o;
  o.populationSize = c.s.chance(0.7) ? c.s.i(4, 24) : c.s.i(4, c.thorough ? 150 : 60);
  o.maxGenerations = c.s.i(0, 8);
  o.maxFailTimes = c.s.chance(0.5) ? 0 : c.s.i(1, 6);
  o.crossoverProb = c.s.pick({0.8, 1.0, 0.5});
  o.mutateProb = c.s.pick({0.05, 0.5, 1.0});
  return o;
}
static Cfg genCfg(pbt::Ctx& c) {
  Cfg g;
  g.o = g.o2 = genOpt(c);
  g.o2.maxGenerations = c.s.i(0, 5);
  g.again = c.s.chance(0.4);
  gLand = (int)c.s.idx(4);
  gObj = (int)c.s.i(2, 4);
  g.p = (int)c.s.i(2, 5);
  c.note("K=", g.o.populationSize, " G=", g.o.maxGenerations, " pc=", g.o.crossoverProb, " pm=", g.o.mutateProb, " fail=", g.o.maxFailTimes, " landscape ", gLand, " objectives ", gObj);
  return g;
}
// a solver that has been run before, with other options, has no memory of it once it is initialised again
#define USED(NAME, SOLVER, SETUP, TAG, TH, SPIN) ways.push_back({NAME, [&]() -> V { SOLVER s; TWO SETUP; Cfg h = g; h.o = before; traceGA(s, h, TAG{}, 1, 0); hx::reseed(seed); return traceGA(s, g, TAG{}, TH, SPIN); }})
#define WAY(NAME, SOLVER, SETUP, TAG, TH, SPIN) ways.push_back({NAME, [&]() -> V { SOLVER s; TWO SETUP; return traceGA(s, g, TAG{}, TH, SPIN); }})

#if PART != 4
template <class T, SelectMethod M, FitnessOption F>
static void soga(pbt::Ctx& c) {
  const Cfg g = genCfg(c);
  const int th = (int)c.s.i(2, 12);
  const uint64_t seed = c.s.raw(0xffffffff);
  const GAOption before = genOpt(c);
  using X = Fn<T, double>;
  using XA = FnA<T, double>;
  using S0 = SOGA<T, F, DONT_RECORD_FITNESS, M>;
  using S1 = SOGA<T, F, RECORD_FITNESS, M, void, X::ini, X::fit, X::cro, X::mut>;
  using S2 = SOGA<T, F, DONT_RECORD_FITNESS, M, Args>;
  using S3 = SOGA<T, F, RECORD_FITNESS, M, Args, XA::ini, XA::fit, XA::cro, XA::mut>;
  using S4 = SOGA<T, F, DONT_RECORD_FITNESS, RunTimeSelectMethod>;
  c.label(std::string("SOGA ") + Enum2String(M));
  c.note(" ", Enum2String(M), " threads ", th);
  auto pre = [&](auto& s) { if constexpr (M == Boltzmann) s.setBoltzmannSelectStrength(F == FITNESS_LESS_BETTER ? -2.0 : 2.0); };
  std::vector<std::pair<std::string, std::function<V()>>> ways;
  WAY("one thread", S0, (rtFns<T, double>(s); pre(s)), So, 1, 0);
  WAY("several threads", S0, (rtFns<T, double>(s); pre(s)), So, th, 1);
  WAY("other delays", S0, (rtFns<T, double>(s); pre(s)), So, th, 2);
  WAY("compile-time functions, recording", S1, (pre(s)), So, th, 0);
  WAY("run-time functions with arguments", S2, (rtFnsA<T, double>(s); pre(s)), So, th, 0);
  WAY("compile-time functions with arguments, recording", S3, (s.setArgs(Args()); pre(s)), So, th, 3);
  WAY("the selection method chosen at run time", S4, (rtFns<T, double>(s); s.setSelectMethod(M); pre(s)), So, 1, 0);
  USED("a solver used before", S1, (pre(s)), So, 1, 0);
  compare(c, seed, "SOGA", ways);
  c.nontrivial(g.o.maxGenerations > 0);
}
#else
template <class T, int M, FitnessOption F>
static void nsga2(pbt::Ctx& c) {
  const Cfg g = genCfg(c);
  if (M > 0) gObj = M;
  const int th = (int)c.s.i(2, 12);
  const uint64_t seed = c.s.raw(0xffffffff);
  const GAOption before = genOpt(c);
  using Ft = Eigen::Array<double, M, 1>;
  using X = Fn<T, Ft>;
  using XA = FnA<T, Ft>;
  using S0 = NSGA2<T, M, F, DONT_RECORD_FITNESS>;
  using S1 = NSGA2<T, M, F, RECORD_FITNESS, void, X::ini, X::fit, X::cro, X::mut>;
  using S2 = NSGA2<T, M, F, DONT_RECORD_FITNESS, Args>;
  using S3 = NSGA2<T, M, F, RECORD_FITNESS, Args, XA::ini, XA::fit, XA::cro, XA::mut>;
  c.label("NSGA2");
  auto pre = [&](auto& s) { if constexpr (M < 0) s.setObjectiveNum(gObj); };
  std::vector<std::pair<std::string, std::function<V()>>> ways;
  WAY("one thread", S0, (rtFns<T, Ft>(s); pre(s)), Mo<Ft>, 1, 0);
  WAY("several threads", S0, (rtFns<T, Ft>(s); pre(s)), Mo<Ft>, th, 1);
  WAY("compile-time functions, recording", S1, (pre(s)), Mo<Ft>, th, 0);
  WAY("run-time functions with arguments", S2, (rtFnsA<T, Ft>(s); pre(s)), Mo<Ft>, th, 0);
  WAY("compile-time functions with arguments, recording", S3, (s.setArgs(Args()); pre(s)), Mo<Ft>, th, 3);
  USED("a solver used before", S1, (pre(s)), Mo<Ft>, 1, 0);
  compare(c, seed, "NSGA2", ways);
  c.nontrivial(g.o.maxGenerations > 0);
}
template <class T, int M, ReferencePointOption R>
static void nsga3(pbt::Ctx& c) {
  const Cfg g = genCfg(c);
  if (M > 0) gObj = M;
  const int th = (int)c.s.i(2, 12);
  const uint64_t seed = c.s.raw(0xffffffff);
  const GAOption before = genOpt(c);
  using Ft = Eigen::Array<double, M, 1>;
  using X = Fn<T, Ft>;
  using XA = FnA<T, Ft>;
  using S0 = NSGA3<T, M, DONT_RECORD_FITNESS, R>;
  using S1 = NSGA3<T, M, RECORD_FITNESS, R, void, X::ini, X::fit, X::cro, X::mut>;
  using S2 = NSGA3<T, M, DONT_RECORD_FITNESS, R, Args>;
  using S3 = NSGA3<T, M, RECORD_FITNESS, R, Args, XA::ini, XA::fit, XA::cro, XA::mut>;
  c.label("NSGA3");
  auto pre = [&](auto& s) {
    if constexpr (M < 0) s.setObjectiveNum(gObj);
    if constexpr (R == SINGLE_LAYER) s.setReferencePointPrecision(g.p);
    else s.setReferencePointPrecision(2, g.p);
  };
  std::vector<std::pair<std::string, std::function<V()>>> ways;
  WAY("one thread", S0, (rtFns<T, Ft>(s); pre(s)), Mo<Ft>, 1, 0);
  WAY("several threads", S0, (rtFns<T, Ft>(s); pre(s)), Mo<Ft>, th, 1);
  WAY("compile-time functions, recording", S1, (pre(s)), Mo<Ft>, th, 0);
  WAY("run-time functions with arguments", S2, (rtFnsA<T, Ft>(s); pre(s)), Mo<Ft>, th, 0);
  WAY("compile-time functions with arguments, recording", S3, (s.setArgs(Args()); pre(s)), Mo<Ft>, th, 3);
  USED("a solver used before", S1, (pre(s)), Mo<Ft>, 1, 0);
  compare(c, seed, "NSGA3", ways);
  c.nontrivial(g.o.maxGenerations > 0);
}
#endif
using SV = std::vector<double>;
using EA = Eigen::ArrayXd;
using A4 = std::array<double, 4>;
static constexpr auto L = FITNESS_LESS_BETTER, G = FITNESS_GREATER_BETTER;
#if PART == 0
PBT_TEST(genetic, "SOGA with five selection methods: the same engine state, options and pure functions, run with one thread, with 2..12 threads and delays that shuffle their order, with functions supplied at run time or compile time, with or without an argument object and a record, and with the selection method chosen at compile or run time; populations, fitness and counters of one or two runs must agree exactly; non-trivial = at least one generation", 4000, 60000) {
  switch (c.s.idx(5)) {
    case 0: return soga<SV, RouletteWheel, L>(c);
    case 1: return soga<EA, Truncation, G>(c);
    case 2: return soga<A4, MonteCarlo, L>(c);
    case 3: return soga<SV, Probability, G>(c);
    default: return soga<EA, LinearRank, L>(c);
  }
}
#elif PART == 3
PBT_TEST(genetic2, "the same for SOGA with the four other selection methods", 3200, 48000) {
  switch (c.s.idx(4)) {
    case 0: return soga<A4, ExponentialRank, G>(c);
    case 1: return soga<SV, Boltzmann, L>(c);
    case 2: return soga<EA, StochasticUniversal, G>(c);
    default: return soga<A4, EliteReserved, L>(c);
  }
}
#else
PBT_TEST(genetic3, "the same for NSGA2 and NSGA3 with static and run-time objective counts, with the reported front", 3200, 48000) {
  switch (c.s.idx(4)) {
    case 0: return nsga2<SV, 2, L>(c);
    case 1: return nsga2<EA, Eigen::Dynamic, G>(c);
    case 2: return nsga3<A4, 3, SINGLE_LAYER>(c);
    default: return nsga3<SV, Eigen::Dynamic, DOUBLE_LAYER>(c);
  }
}
#endif
#else
namespace {
template <class T>
struct Fn {
  static void fit(const T* x, double* f) { *f = objective(*x, 0); }
};
template <class T>
struct FnA {
  static void fit(const T* x, const Args*, double* f) { *f = objective(*x, 0); }
};
}  // namespace
#if PART == 1
struct Cfg {
  PSOOption o;
  int dim = 3, r = 1, c = 3, th = 2;
  bool again = false;
};
template <class S, class T>
static V trace(S& s, const Cfg& g, T*, int th, int spinning) {
  threads(th);
  gSpin = spinning;
  if constexpr (!array_traits<T>::isFixedSize) {
    if constexpr (array_traits<T>::isEigenClass && array_traits<T>::isMatrix) s.setDimensions(g.r, g.c);
    else s.setDimensions(g.dim);
  }
  s.setPVRange(-2, 3, 0.5);
  s.setOption(g.o);
  s.initializePop();
  V t;
  auto photo = [&] {
    t.push_back((double)s.generation());
    t.push_back((double)s.failTimes());
    for (auto& p : s.population()) {
      put(t, p.position); put(t, p.velocity); put(t, p.pBest.position);
      t.push_back(p.fitness); t.push_back(p.pBest.fitness);
    }
    put(t, s.globalBest().position);
    t.push_back(s.bestFitness());
  };
  photo();
  s.run();
  photo();
  if (g.again) { s.run(); photo(); }
  return t;
}
static PSOOption genOpt(pbt::Ctx& c) {
  PSOOption o;
  o.populationSize = c.s.chance(0.7) ? c.s.i(1, 24) : c.s.i(1, 120);
  o.maxGeneration = c.s.i(0, 12);
  o.maxFailTimes = c.s.chance(0.5) ? 0 : c.s.i(1, 6);
  return o;
}
template <class T, FitnessOption F>
static void swarm(pbt::Ctx& c) {
  constexpr auto B = BoxShape::SQUARE_BOX;
  Cfg g;
  const auto before = genOpt(c);
  g.o = genOpt(c);
  g.r = (int)c.s.i(1, 4); g.c = (int)c.s.i(1, 4); g.dim = (int)c.s.i(1, 8);
  g.again = c.s.chance(0.4);
  gLand = (int)c.s.idx(4);
  const int th = (int)c.s.i(2, 12);
  const uint64_t seed = c.s.raw(0xffffffff);
  c.note("N=", g.o.populationSize, " G=", g.o.maxGeneration, " fail=", g.o.maxFailTimes, " dim=", g.dim, " landscape ", gLand, " threads ", th);
  T* tag = nullptr;
  std::vector<std::pair<std::string, std::function<V()>>> ways;
#define WAY(NAME, SETUP, TH, SPIN, ...) ways.push_back({NAME, [&]() -> V { __VA_ARGS__ s; TWO SETUP; return trace(s, g, tag, TH, SPIN); }})
  WAY("one thread", (s.setfFun(Fn<T>::fit)), 1, 0, PSO<T, B, F, DONT_RECORD_FITNESS>);
  WAY("several threads", (s.setfFun(Fn<T>::fit)), th, 1, PSO<T, B, F, DONT_RECORD_FITNESS>);
  WAY("other delays", (s.setfFun(Fn<T>::fit)), th, 2, PSO<T, B, F, DONT_RECORD_FITNESS>);
  WAY("a compile-time function, recording", (), th, 0, PSO<T, B, F, RECORD_FITNESS, void, Fn<T>::fit>);
  WAY("a run-time function with arguments", (s.setArgs(Args()); s.setfFun(FnA<T>::fit)), th, 0, PSO<T, B, F, DONT_RECORD_FITNESS, Args>);
  WAY("a compile-time function with arguments", (s.setArgs(Args())), th, 3, PSO<T, B, F, RECORD_FITNESS, Args, FnA<T>::fit>);
  ways.push_back({"a solver used before", [&]() -> V {
    PSO<T, B, F, RECORD_FITNESS, void, Fn<T>::fit> s;
    Cfg h = g;
    h.o = before;
    h.dim = g.dim + 1;
    trace(s, h, tag, 1, 0);
    hx::reseed(seed);
    return trace(s, g, tag, th, 0);
  }});
  compare(c, seed, "PSO", ways);
  c.nontrivial(g.o.maxGeneration > 0);
}
PBT_TEST(swarm_, "PSO in six containers: one thread, 2..12 threads with delays, function at run or compile time, with or without arguments and record; positions, velocities, personal and global bests and counters of one or two runs must agree exactly; non-trivial = at least one generation", 6000, 100000) {
  switch (c.s.idx(6)) {
    case 0: return swarm<std::vector<double>, FITNESS_LESS_BETTER>(c);
    case 1: return swarm<Eigen::ArrayXd, FITNESS_GREATER_BETTER>(c);
    case 2: return swarm<std::array<double, 5>, FITNESS_LESS_BETTER>(c);
    case 3: return swarm<Eigen::Array<double, 3, 1>, FITNESS_LESS_BETTER>(c);
    case 4: return swarm<Eigen::ArrayXXd, FITNESS_GREATER_BETTER>(c);
    default: return swarm<std::vector<float>, FITNESS_LESS_BETTER>(c);
  }
}
#else
struct Cfg {
  AOSOption o;
  int dim = 3, r = 1, c = 3;
  bool again = false;
};
template <class S, class T>
static V trace(S& s, const Cfg& g, T*, int th, int spinning) {
  threads(th);
  gSpin = spinning;
  if constexpr (!array_traits<T>::isFixedSize) {
    if constexpr (array_traits<T>::isEigenClass && array_traits<T>::isMatrix) s.setDimensions(g.r, g.c);
    else s.setDimensions(g.dim);
  }
  s.setRange(-2, 3);
  s.setDelta(0.5);
  s.setOption(g.o);
  s.initializePop();
  V t;
  auto photo = [&] {
    t.push_back((double)s.generation());
    t.push_back((double)s.earlyStopCounter());
    for (auto& e : s.electrons()) { put(t, e.state); t.push_back(e.energy); }
    for (auto& l : s.layers()) { t.push_back((double)l.size()); t.push_back(l.bindingEnergy); }
    put(t, s.bestElectron().state);
    put(t, s.bindingState());
    t.push_back(s.bindingEnergy());
  };
  s.run();
  photo();
  if (g.again) { s.run(); photo(); }
  return t;
}
static AOSOption genOpt(pbt::Ctx& c) {
  AOSOption o;
  o.electronNum = c.s.chance(0.7) ? c.s.i(2, 24) : c.s.i(2, 100);
  o.maxLayerNum = c.s.i(1, std::min<int>(6, (int)o.electronNum));
  o.maxGeneration = c.s.i(0, 10);
  o.maxEarlyStop = c.s.i(1, 8);
  o.photonRate = c.s.pick({0.1, 0.5, 0.9});
  return o;
}
template <class T, FitnessOption F>
static void atoms(pbt::Ctx& c) {
  using B = ContinousBox<T, BoxShape::SQUARE_BOX>;
  Cfg g;
  const auto before = genOpt(c);
  g.o = genOpt(c);
  g.r = (int)c.s.i(1, 4); g.c = (int)c.s.i(1, 4); g.dim = (int)c.s.i(1, 8);
  g.again = c.s.chance(0.4);
  gLand = (int)c.s.idx(4);
  const int th = (int)c.s.i(2, 12);
  const uint64_t seed = c.s.raw(0xffffffff);
  c.note("N=", g.o.electronNum, " layers=", g.o.maxLayerNum, " G=", g.o.maxGeneration, " stop=", g.o.maxEarlyStop, " dim=", g.dim, " landscape ", gLand, " threads ", th);
  T* tag = nullptr;
  std::vector<std::pair<std::string, std::function<V()>>> ways;
#define WAY(NAME, SETUP, TH, SPIN, ...) ways.push_back({NAME, [&]() -> V { __VA_ARGS__ s; TWO SETUP; return trace(s, g, tag, TH, SPIN); }})
  WAY("one thread", (s.setfFun(Fn<T>::fit)), 1, 0, AOS<B, F, DONT_RECORD_FITNESS>);
  WAY("several threads", (s.setfFun(Fn<T>::fit)), th, 1, AOS<B, F, DONT_RECORD_FITNESS>);
  WAY("other delays", (s.setfFun(Fn<T>::fit)), th, 2, AOS<B, F, DONT_RECORD_FITNESS>);
  WAY("a compile-time function, recording", (), th, 0, AOS<B, F, RECORD_FITNESS, void, Fn<T>::fit>);
  WAY("a run-time function with arguments", (s.setArg(Args()); s.setfFun(FnA<T>::fit)), th, 0, AOS<B, F, DONT_RECORD_FITNESS, Args>);
  WAY("a compile-time function with arguments", (s.setArg(Args())), th, 3, AOS<B, F, RECORD_FITNESS, Args, FnA<T>::fit>);
  ways.push_back({"a solver used before", [&]() -> V {
    AOS<B, F, RECORD_FITNESS, void, Fn<T>::fit> s;
    Cfg h = g;
    h.o = before;
    h.dim = g.dim + 1;
    trace(s, h, tag, 1, 0);
    hx::reseed(seed);
    return trace(s, g, tag, th, 0);
  }});
  compare(c, seed, "AOS", ways);
  c.nontrivial(g.o.maxGeneration > 0);
}
PBT_TEST(atoms_, "AOS in six containers: one thread, 2..12 threads with delays, function at run or compile time, with or without arguments and record; electrons, energies, layers, binding states and counters of one or two runs must agree exactly; non-trivial = at least one generation", 6000, 100000) {
  switch (c.s.idx(6)) {
    case 0: return atoms<std::vector<double>, FITNESS_LESS_BETTER>(c);
    case 1: return atoms<Eigen::ArrayXd, FITNESS_GREATER_BETTER>(c);
    case 2: return atoms<std::array<double, 5>, FITNESS_LESS_BETTER>(c);
    case 3: return atoms<Eigen::Array<double, 3, 1>, FITNESS_LESS_BETTER>(c);
    case 4: return atoms<Eigen::ArrayXXd, FITNESS_GREATER_BETTER>(c);
    default: return atoms<std::vector<float>, FITNESS_LESS_BETTER>(c);
  }
}
#endif
#endif
