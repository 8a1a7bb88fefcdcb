// NSGA2 / NSGA3 driver: one random history of one solver instantiation, with everything the property checks need.
#pragma once
#include "ga.hpp"
namespace ga {

struct Mp {
  int algo = 2;   // 2 or 3
  int combo = 0;
  int M = 2;
  bool less = true, dbl = false, rec = false;
  GAOption o;
  int p = 3, pi = 2, po = 3;
};

template <int ALGO, int M, FitnessOption F, RecordOption R, ReferencePointOption RP, bool CT>
struct Ty;
template <int M, FitnessOption F, RecordOption R, ReferencePointOption RP>
struct Ty<2, M, F, R, RP, true> {
  using O = Ops<Eigen::Array<double, M, 1>, true>;
  using type = NSGA2<Var, M, F, R, Args, O::ini, O::fit, O::cro, O::mut>;
};
template <int M, FitnessOption F, RecordOption R, ReferencePointOption RP>
struct Ty<3, M, F, R, RP, true> {
  using O = Ops<Eigen::Array<double, M, 1>, true>;
  using type = NSGA3<Var, M, R, RP, Args, O::ini, O::fit, O::cro, O::mut>;
};
template <int M, FitnessOption F, RecordOption R, ReferencePointOption RP>
struct Ty<2, M, F, R, RP, false> { using type = NSGA2<Var, M, F, R>; };
template <int M, FitnessOption F, RecordOption R, ReferencePointOption RP>
struct Ty<3, M, F, R, RP, false> { using type = NSGA3<Var, M, R, RP>; };

template <int ALGO, int M, FitnessOption F, RecordOption R, ReferencePointOption RP, bool CT>
struct Mm {
  using Fit = Eigen::Array<double, M, 1>;
  static constexpr bool hasArgs = CT, rec = R == RECORD_FITNESS, three = ALGO == 3, dbl = RP == DOUBLE_LAYER, less = F == FITNESS_LESS_BETTER;
  static constexpr int ct = M;
  using type = typename Ty<ALGO, M, F, R, RP, CT>::type;
};
#ifndef MOGA_ONLY3
using A0 = Mm<2, 2, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, SINGLE_LAYER, true>;
using A1 = Mm<2, 3, FITNESS_GREATER_BETTER, RECORD_FITNESS, SINGLE_LAYER, false>;
using A2 = Mm<2, Eigen::Dynamic, FITNESS_LESS_BETTER, RECORD_FITNESS, SINGLE_LAYER, true>;
using A3 = Mm<2, Eigen::Dynamic, FITNESS_GREATER_BETTER, DONT_RECORD_FITNESS, SINGLE_LAYER, false>;
#endif
#ifndef MOGA_ONLY2
using B0 = Mm<3, 2, FITNESS_LESS_BETTER, RECORD_FITNESS, DOUBLE_LAYER, false>;
using B1 = Mm<3, 3, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, SINGLE_LAYER, true>;
using B2 = Mm<3, Eigen::Dynamic, FITNESS_LESS_BETTER, RECORD_FITNESS, SINGLE_LAYER, false>;
using B3 = Mm<3, Eigen::Dynamic, FITNESS_LESS_BETTER, DONT_RECORD_FITNESS, DOUBLE_LAYER, true>;
#endif

template <class Fn>
void withMoga(Mp& m, Fn&& f) {
  auto go = [&](auto tag) -> void {
    using T = decltype(tag);
    typename T::type s;
    f(s, tag);
  };
#ifndef MOGA_ONLY3
  if (m.algo == 2) {
    switch (m.combo) {
      case 0: return go(A0{});
      case 1: return go(A1{});
      case 2: return go(A2{});
      default: return go(A3{});
    }
  }
#endif
#ifndef MOGA_ONLY2
  switch (m.combo) {
    case 0: return go(B0{});
    case 1: return go(B1{});
    case 2: return go(B2{});
    default: return go(B3{});
  }
#endif
}

inline Mp genMoga(pbt::Ctx& c) {
  Mp m;
#if defined(MOGA_ONLY2)
  m.algo = 2;
#elif defined(MOGA_ONLY3)
  m.algo = 3;
#else
  m.algo = c.s.chance(0.5) ? 2 : 3;
#endif
  m.combo = (int)c.s.idx(4);
  if (m.algo == 2) {
    m.less = m.combo == 0 || m.combo == 2;
    m.M = m.combo == 0 ? 2 : m.combo == 1 ? 3 : (int)c.s.i(2, 6);
    m.rec = m.combo == 1 || m.combo == 2;
  } else {
    m.M = m.combo == 0 ? 2 : m.combo == 1 ? 3 : (int)c.s.i(2, 5);
    m.dbl = m.combo == 0 || m.combo == 3;
    m.rec = m.combo == 0 || m.combo == 2;
    m.p = (int)c.s.i(2, m.M == 2 ? 12 : 6);
    m.pi = (int)c.s.i(2, 4);
    m.po = (int)c.s.i(2, 5);
  }
  m.o.populationSize = c.s.chance(0.7) ? c.s.i(1, 10) : c.s.i(1, c.thorough ? 80 : 40);
  m.o.crossoverProb = c.s.pick({0.8, 1.0, 0.0, 0.5, 0.2});
  m.o.mutateProb = c.s.pick({0.05, 1.0, 0.0, 0.5, 0.2});
  m.o.maxGenerations = c.s.chance(0.8) ? c.s.i(0, 6) : c.s.i(0, c.thorough ? 40 : 15);
  m.o.maxFailTimes = c.s.chance(0.5) ? 0 : c.s.i(1, 4);
  if (m.combo >= 2 && c.s.chance(0.04)) {  // many objectives
    m.M = (int)(c.s.chance(0.5) ? c.s.i(7, m.algo == 2 ? 20 : 10) : c.s.i(7, 32));  // HEU_MAX_RUNTIME_OBJNUM is 32
    m.p = (int)c.s.i(2, m.M > 10 ? 2 : 3);
    m.pi = 2;
    m.po = (int)c.s.i(2, m.M > 10 ? 2 : 3);
    c.label("many-objectives");
  }
  if (c.s.chance(0.008)) {  // beyond any narrow counter
    c.label("large");
    if (c.s.chance(0.5)) { m.o.populationSize = c.s.i(130, 330); m.o.maxGenerations = c.s.i(1, 2); }
    else { m.o.populationSize = c.s.i(1, 4); m.o.maxGenerations = c.s.i(250, 300); m.o.mutateProb = 1; m.o.maxFailTimes = 0; }
  }
  return m;
}

inline void genFitness(pbt::Ctx& c, World& w, const Mp& m) {
  const int mode = (int)c.s.idx(12), M = m.M;
  const double penalty = (m.less ? 1 : -1) * c.s.pick({1.0, 1e-12, 1e-280}) * std::numeric_limits<double>::max();
  const uint64_t salt = c.s.raw(0xffffffff);
  std::vector<double> scale, off;
  for (int k = 0; k < M; k++) {
    scale.push_back(c.s.pick({1.0, 1.0, 1.0, 1e-6, 1e6, 100.0}));
    off.push_back(c.s.pick({0.0, 0.0, 1.0, -3.0}));
  }
  const int flat = (int)c.s.idx(M);
  auto cnt = std::make_shared<uint64_t>(0);
  World* pw = &w;
  const bool less = m.less;
  w.nobj = M;
  w.fit = [=](const Rec& r) {
    const uint64_t h0 = ++*cnt;
    auto h = [&](int k) { return pbt::mix(salt * 1000003 + h0 * 64 + k); };
    auto u = [&](int k) { return (double)(h(k) >> 11) * 0x1p-53; };
    std::vector<double> f(M);
    double sum = 0;
    for (int k = 0; k < M; k++) {
      switch (mode) {
        case 0: f[k] = (double)(h(k) % 3); break;
        case 1: f[k] = 1; break;
        case 9: f[k] = 1 + (double)(h(k) % 4) * std::numeric_limits<double>::epsilon(); break;  // differences in the last digit
        case 10: f[k] = (u(k) - 0.5) * 1e40; break;
        case 11: f[k] = u(k) * 1e-40; break;
        case 8: f[k] = h(61) % 3 == 0 ? penalty : u(k) * scale[k] + off[k] * scale[k]; break;  // infeasible now and then
        case 2: case 3: f[k] = u(k) * scale[k] + off[k] * scale[k]; break;
        case 4: f[k] = k == flat ? 2.0 : u(k); break;
        case 5: f[k] = u(k) + 0.01; sum += f[k]; break;
        case 6: f[k] = r.kind == INIT ? u(k) : pw->rec[r.p1].fit[k] + (less ? -1 : 1) * (u(k) - 0.45) * 0.3; break;
        default: f[k] = -std::log(u(k) + 1e-9); sum += f[k]; break;
      }
    }
    if (mode == 5 || mode == 7)
      for (auto& x : f) x /= sum;                     // a plane: nobody dominates anybody (up to rounding)
    if (mode == 7)
      for (int k = 0; k < M; k++) f[k] = (f[k] * (less ? 1 : -1) + (h(60) % 3) * 0.2 * (less ? 1 : -1)) * scale[k];  // three parallel planes
    return f;
  };
  static const char* nm[] = {"grid", "all-equal", "uniform", "uniform-scaled", "flat-objective", "plane", "improving", "planes-scaled", "penalty", "last-digit", "huge", "tiny"};
  c.label(std::string("fitness:") + nm[mode]);
  c.note(" fitness=", nm[mode]);
}
inline void describe(pbt::Ctx& c, const Mp& m) {
  c.label(pbt::cat("NSGA", m.algo, " combo ", m.combo));
  c.note("NSGA", m.algo, " combo ", m.combo, " M=", m.M, m.less ? " minimise" : " maximise", " K=", m.o.populationSize, " pc=", m.o.crossoverProb, " pm=", m.o.mutateProb, " G=", m.o.maxGenerations);
  if (m.algo == 3) { if (m.dbl) c.note(" precision ", m.pi, "/", m.po); else c.note(" precision ", m.p); }
}

template <class S, class T>
void prepare(S& s, const Mp& m, World& w, T) {
  if constexpr (T::hasArgs) {
    Args a;
    a.w = &w;
    a.magic = 4711;
    s.setArgs(a);
  } else {
    using O = Ops<typename T::Fit, false>;
    s.setiFun(O::ini);
    s.setfFun(O::fit);
    s.setcFun(O::cro);
    s.setmFun(O::mut);
  }
  if constexpr (T::ct == Eigen::Dynamic) s.setObjectiveNum(m.M);
  if constexpr (T::three) {
    if constexpr (T::dbl) s.setReferencePointPrecision(m.pi, m.po);
    else s.setReferencePointPrecision(m.p);
  }
  w.snap = [&s] { return idsOf(s); };
}

template <class After>
void mogaHistory(pbt::Ctx& c, After&& after) {
  Mp m = genMoga(c);
  describe(c, m);
  World w(c);
  genFitness(c, w, m);
  withMoga(m, [&](auto& s, auto tag) {
    prepare(s, m, w, tag);
    c.check((int)s.objectiveNum() == m.M, "objective-count", "objectiveNum() is ", s.objectiveNum(), " for ", m.M, " objectives");
    using T = decltype(tag);
    auto init = [&] {
      GAOption o0 = m.o;
      o0.populationSize = std::max<int64_t>(1, (int64_t)o0.populationSize + (int64_t)c.s.pick({0, 0, 1, 5, 12, -1, -3}));
      s.setOption(o0);
      w.fresh_ = true;
      w.epochRec = w.rec.size();
      s.initializePop();
      c.check(s.population().size() == o0.populationSize, "initial-size", "initialised ", s.population().size(), " individuals instead of ", o0.populationSize);
      for (const auto& g : s.population()) c.check(g.decision_variable.id >= (int)w.epochRec, "not-initialised", "an individual of the previous population is still there after initializePop()");
    };
    init();
    s.setOption(m.o);
    const int nruns = (int)c.s.pick({1, 1, 2, 3, 4});
    for (int r = 0; r < nruns; r++) {
      if (r) {
        m.o.maxGenerations = c.s.i(0, 5);
        m.o.maxFailTimes = c.s.i(0, 3);
        if (c.s.chance(0.6)) {
          if (c.s.chance(0.6)) m.o.populationSize = c.s.i(1, 12);
          m.o.crossoverProb = c.s.pick({0.8, 1.0, 0.0, 0.5, 0.2});
          m.o.mutateProb = c.s.pick({0.05, 1.0, 0.0, 0.5, 0.2});
          c.note(" then K=", m.o.populationSize, " pc=", m.o.crossoverProb, " pm=", m.o.mutateProb);
        }
        w.fresh_ = false;
        if (c.s.chance(0.3)) {
          c.label("initialised-again");
          c.note(" initialised again");
          if (c.s.chance(0.5)) {
            if constexpr (T::ct == Eigen::Dynamic) {
              m.M = (int)c.s.i(2, 6);
              s.setObjectiveNum(m.M);
              c.note(" M=", m.M);
            }
            if constexpr (T::three) {
              m.p = (int)c.s.i(2, 5);
              m.pi = (int)c.s.i(2, 4);
              m.po = (int)c.s.i(2, 4);
              if constexpr (T::dbl) s.setReferencePointPrecision(m.pi, m.po);
              else s.setReferencePointPrecision(m.p);
            }
            genFitness(c, w, m);
          }
          init();
        }
        s.setOption(m.o);
      }
      w.startRun(r + 1);
      const std::vector<int> before = w.before;
      s.run();
      c.rethrow();
      w.endRun();
      after(s, tag, w, m, r, before);
    }
  });
}

inline bool dom(bool less, const std::vector<double>& a, const std::vector<double>& b) {
  bool strict = false;
  for (size_t k = 0; k < a.size(); k++) {
    if (less ? a[k] > b[k] : a[k] < b[k]) return false;
    strict |= a[k] != b[k];
  }
  return strict;
}
// by how many of the others each member is dominated
inline std::vector<int> domCount(const World& w, bool less, const std::vector<int>& ids) {
  std::vector<int> n(ids.size(), 0);
  for (size_t i = 0; i < ids.size(); i++)
    for (size_t j = 0; j < ids.size(); j++) n[i] += dom(less, w.rec[ids[j]].fit, w.rec[ids[i]].fit);
  return n;
}
// the part of non-dominated sorting that NSGA2 and NSGA3 share: sizes, membership, layers in order
// returns the layer that had to be split (empty if none) as indices into G.pre
inline std::vector<int> layersRespected(pbt::Ctx& c, World& w, const Mp& m, const Gen& G, size_t g) {
  const int K = (int)m.o.populationSize, N = (int)G.pre.size();
  c.check((int)G.post.size() == std::min(K, N), "size-not-restored", "NSGA", m.algo, ": generation ", g, " has ", G.post.size(), " survivors of ", N, ", population size is ", K);
  std::set<int> pre(G.pre.begin(), G.pre.end()), post(G.post.begin(), G.post.end());
  c.check(post.size() == G.post.size() && std::includes(pre.begin(), pre.end(), post.begin(), post.end()), "survivor-invented", "NSGA", m.algo, ": survivors ", show(G.post), " of ", show(G.pre));
  if (N <= K) return {};
  c.nontrivial();
  const std::vector<int> n = domCount(w, m.less, G.pre);
  int worstIn = -1, bestOut = INT_MAX;
  for (int i = 0; i < N; i++) {
    if (post.count(G.pre[i])) worstIn = std::max(worstIn, n[i]);
    else bestOut = std::min(bestOut, n[i]);
  }
  c.check(worstIn <= bestOut, "layer-order", "NSGA", m.algo, ": a survivor is dominated by ", worstIn, " individuals, somebody eliminated only by ", bestOut);
  std::vector<int> split;
  if (worstIn == bestOut)
    for (int i = 0; i < N; i++) if (n[i] == worstIn) split.push_back(i);
  return split;
}
}  // namespace ga
