// AOS driver: random histories of one of 21 solver instantiations.  The atom is photographed through its public
// accessors when the first energy of a generation is asked for, and before and after every run.
#pragma once
#include "common.hpp"
#include <HeuristicFlow/AOS>
#include <array>
#include <mutex>

namespace aos {
using namespace heu;
using V = std::vector<double>;

struct El { V x; double e = 0; bool computed = false; };
struct La { std::vector<int> who; V bs; double be = 0; int best = -1; };   // indices into Snap::e
struct Snap {
  std::vector<El> e;
  std::vector<La> l;
  V bs;
  double be = 0;
  int best = -1;      // index of bestElectron(), -1 if it is none of electrons()
  V bestX;
  double bestE = 0;
  bool stray = false; // a layer mentions something that is not in electrons()
};
struct World {
  pbt::Ctx& c;
  std::mutex mu;
  uint64_t calls = 0;
  bool watching = false;
  uint64_t expect = 0;              // evaluations still to come in this round
  std::function<Snap(bool)> snap;
  std::vector<Snap> snaps;
  std::function<double(const V&)> f;   // pure
  std::function<V()> init;
  std::vector<V> inited, asked;
  explicit World(pbt::Ctx& c_) : c(c_) {}
};
inline World* W = nullptr;
struct Args { World* w = nullptr; int magic = 0; };

template <class T>
V toV(const T& t) {
  V r(t.size());
  for (size_t i = 0; i < r.size(); i++) r[i] = (double)at(t, (int)i);
  return r;
}
inline double evaluate(const V& x) {
  std::lock_guard<std::mutex> g(W->mu);
  W->calls++;
  W->asked.push_back(x);
  if (W->watching) {
    if (W->expect == 0) {
      W->snaps.push_back(W->snap(true));
      for (auto& e : W->snaps.back().e) W->expect += !e.computed;
    }
    if (W->expect) W->expect--;
  }
  return W->f(x);
}
template <class T>
void fillV(T& t, const V& v, int rows, int cols) {
  if constexpr (array_traits<T>::isFixedSize) {}
  else if constexpr (!array_traits<T>::isEigenClass) t.resize(v.size());
  else t.resize(rows, cols);
  for (size_t i = 0; i < v.size(); i++) at(t, (int)i) = (typename array_traits<T>::Scalar_t)v[i];
}
inline int gRows = 1, gCols = 1;
template <class T>
void custom(T* x) {
  fillV(*x, W->init(), gRows, gCols);
  W->inited.push_back(toV(*x));
}
namespace {
template <class T, bool A>
struct Ops;
template <class T>
struct Ops<T, false> {
  static void fit(const T* x, double* f) { *f = evaluate(toV(*x)); }
  static void ini(T* x) { custom(x); }
};
template <class T>
struct Ops<T, true> {
  static void chk(const Args* a) {
    if (a && a->w == W && a->magic == 4711) return;
    std::lock_guard<std::mutex> g(W->mu);
    W->c.soft(false, "args-lost", "the functions do not see the argument object that was set");
  }
  static void fit(const T* x, const Args* a, double* f) { chk(a); *f = evaluate(toV(*x)); }
  static void ini(T* x, const Args* a) { chk(a); custom(x); }
};
}  // namespace

enum Init { DEF, CTI, RTI };
enum Kind { SQ, RE, INF, FIX };
template <class T, Kind K> struct BoxOf { using type = ContinousBox<T, BoxShape::SQUARE_BOX>; };
template <class T> struct BoxOf<T, RE> { using type = ContinousBox<T, BoxShape::RECTANGLE_BOX>; };
template <class T> struct BoxOf<T, INF> { using type = GaussianBox<T>; };
template <class T> struct BoxOf<T, FIX> {
  using S = typename array_traits<T>::Scalar_t;
  using type = FixedContinousBox17<T, encode(S(-5.0)), encode(S(3.0)), encode(S(1.5))>;
};
template <class T, Kind K, FitnessOption F, RecordOption R, bool A, bool CTF, Init I>
struct Ty {
  using Ar = std::conditional_t<A, Args, void>;
  using O = Ops<T, A>;
  using Box = typename BoxOf<T, K>::type;
  template <bool ctf, int i, class = void> struct pick;
  template <class U> struct pick<true, DEF, U> { using type = AOS<Box, F, R, Ar, O::fit>; };
  template <class U> struct pick<false, DEF, U> { using type = AOS<Box, F, R, Ar>; };
  template <class U> struct pick<true, CTI, U> { using type = AOS<Box, F, R, Ar, O::fit, O::ini>; };
  template <class U> struct pick<false, CTI, U> { using type = AOS<Box, F, R, Ar, nullptr, O::ini>; };
  template <class U> struct pick<true, RTI, U> { using type = AOS<Box, F, R, Ar, O::fit, nullptr>; };
  template <class U> struct pick<false, RTI, U> { using type = AOS<Box, F, R, Ar, nullptr, nullptr>; };
  using type = typename pick<CTF, I>::type;
  using Var = T;
  using Ops_t = O;
  static constexpr Kind kind = K;
  static constexpr bool less = F == FITNESS_LESS_BETTER, rec = R == RECORD_FITNESS, args = A, ctf = CTF;
  static constexpr Init in = I;
};
constexpr auto LE = FITNESS_LESS_BETTER, GR = FITNESS_GREATER_BETTER;
constexpr auto REC = RECORD_FITNESS, NOR = DONT_RECORD_FITNESS;
using T0 = Ty<std::array<double, 3>, SQ, LE, REC, false, false, DEF>;
using T1 = Ty<std::vector<double>, RE, GR, NOR, true, true, DEF>;
using T2 = Ty<Eigen::Array<double, 4, 1>, RE, LE, NOR, true, false, CTI>;
using T3 = Ty<Eigen::ArrayXd, SQ, GR, REC, false, false, RTI>;
using T4 = Ty<Eigen::Array<double, 1, Eigen::Dynamic>, RE, LE, REC, false, true, DEF>;
using T5 = Ty<Eigen::ArrayXXd, SQ, LE, NOR, false, false, DEF>;
using T6 = Ty<std::array<double, 5>, INF, GR, REC, true, false, DEF>;
using T7 = Ty<Eigen::ArrayXXd, RE, GR, REC, true, true, RTI>;
using T8 = Ty<std::vector<float>, SQ, LE, REC, true, false, CTI>;
using T9 = Ty<Eigen::Array<float, Eigen::Dynamic, 1>, RE, LE, NOR, false, true, DEF>;
using T10 = Ty<Eigen::VectorXd, SQ, GR, NOR, true, true, DEF>;
using T11 = Ty<Eigen::ArrayXd, INF, LE, NOR, false, true, DEF>;
using T12 = Ty<Eigen::Array<double, 3, 1>, FIX, LE, REC, false, true, DEF>;
using T13 = Ty<std::vector<double>, FIX, GR, REC, true, false, RTI>;
using T14 = Ty<Eigen::ArrayXXd, RE, LE, NOR, false, true, DEF>;
using T15 = Ty<Eigen::Matrix<float, 2, 3, Eigen::RowMajor>, INF, GR, REC, false, false, DEF>;
using T16 = Ty<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>, SQ, LE, REC, true, true, DEF>;
using T17 = Ty<Eigen::RowVectorXd, RE, GR, NOR, false, false, DEF>;
using T18 = Ty<std::array<float, 4>, RE, LE, REC, true, true, CTI>;
using T19 = Ty<Eigen::MatrixXd, INF, LE, NOR, false, true, DEF>;
using T20 = Ty<Eigen::Matrix3d, FIX, GR, REC, true, true, DEF>;

struct Sp {
  int combo = 0, dim = 1, rows = 1, cols = 1;
  Kind kind = SQ;
  bool less = true, rec = false, flt = false, custom = false;
  V lo, hi, de;
  AOSOption o;
};
template <class Fn>
void withSolver(int combo, Fn&& f) {
  auto go = [&](auto tag) -> void {
    using T = decltype(tag);
    typename T::type s;
    f(s, tag);
  };
#define AOS_CASE(k) case k: return go(T##k{});
  switch (combo) {
#if PART == 0
    AOS_CASE(0) AOS_CASE(1) AOS_CASE(2) AOS_CASE(3) AOS_CASE(4) AOS_CASE(5) default: return go(T6{});
#elif PART == 1
    AOS_CASE(7) AOS_CASE(8) AOS_CASE(9) AOS_CASE(10) AOS_CASE(11) AOS_CASE(12) default: return go(T13{});
#elif PART == 2
    AOS_CASE(14) AOS_CASE(15) AOS_CASE(16) AOS_CASE(17) AOS_CASE(18) AOS_CASE(19) default: return go(T20{});
#endif
  }
}
// layersReady: the layers carry binding state, energy and best
template <class S>
Snap snapOf(const S& s, bool hasRun) {
  Snap r;
  std::map<const void*, int> at;
  for (const auto& p : s.electrons()) {
    at[&p] = (int)r.e.size();
    El q;
    q.x = toV(p.state);
    q.computed = p.isComputed;
    if (q.computed) q.e = p.energy;
    r.e.push_back(q);
  }
  for (const auto& l : s.layers()) {
    La q;
    for (const auto* p : l) {
      auto it = at.find(p);
      if (it == at.end()) r.stray = true;
      else q.who.push_back(it->second);
    }
    if (hasRun) {
      q.bs = toV(l.bindingState);
      q.be = l.bindingEnergy;
      q.best = l.layerBestIdx;
    }
    r.l.push_back(q);
  }
  if (hasRun && (!r.l.empty())) {
    r.bs = toV(s.bindingState());
    r.be = s.bindingEnergy();
    auto it = at.find(&s.bestElectron());
    if (it != at.end()) {
      r.best = it->second;
      r.bestX = r.e[it->second].x;
      r.bestE = r.e[it->second].e;
    }
  }
  return r;
}

inline void genFitness(pbt::Ctx& c, World& w, const Sp& sp) {
  const int mode = (int)c.s.idx(10);
  const double penalty = c.s.pick({1.0, 1e-12, 1e-280}) * std::numeric_limits<double>::max();
  V target(sp.dim), span(sp.dim);
  for (int i = 0; i < sp.dim; i++) {
    const double lo = sp.kind == INF ? sp.lo[i] - 2 * sp.hi[i] : sp.lo[i], hi = sp.kind == INF ? sp.lo[i] + 2 * sp.hi[i] : sp.hi[i];
    target[i] = lo + (hi - lo) * c.s.pick({0.3, 0.5, 0.0, 1.0, 1.4});
    span[i] = hi - lo;
  }
  const bool less = sp.less;
  w.f = [=](const V& x) {
    double d = 0, s = 0;
    uint64_t h = 77;
    for (size_t i = 0; i < x.size(); i++) {
      const double z = (x[i] - target[i]) / span[i];
      d += z * z;
      s += z;
      uint64_t b;
      memcpy(&b, &x[i], 8);
      h = pbt::mix(h ^ b);
    }
    double f = 0;
    switch (mode) {
      case 0: f = d; break;
      case 1: f = std::floor(8 * d) / 8; break;                // plateaus: ties
      case 2: f = 1; break;                                    // flat
      case 3: f = s; break;
      case 6: f = s > 0 ? penalty : d; break;                  // infeasible in half of the space
      case 4: f = (double)(h >> 40); break;                    // noise (pure)
      case 7: f = 1 + (double)(h % 5) * std::numeric_limits<double>::epsilon(); break;                             // differences in the last digit
      case 8: f = ((double)(h >> 11) * 0x1p-53 - 0.5) * 2 * std::numeric_limits<double>::max(); break;             // differences beyond the largest number
      case 9: f = d * 1e-305; break;                           // tiny
      default: f = d + 0.3 * std::sin(20 * s); break;
    }
    return less ? f : -f;
  };
  static const char* nm[] = {"sphere", "plateaus", "flat", "linear", "noise", "waves", "penalty", "last-digit", "huge", "tiny"};
  c.label(std::string("fitness:") + nm[mode]);
  c.note(" fitness=", nm[mode]);
}
template <class S, class T>
void setBox(S& s, const Sp& sp, T) {
  using Var = typename T::Var;
  using Sc = typename array_traits<Var>::Scalar_t;
  if constexpr (!array_traits<Var>::isFixedSize) {
    if constexpr (array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) s.setDimensions(sp.rows, sp.cols);
    else s.setDimensions(sp.dim);
  }
  if constexpr (T::kind == SQ) { s.setRange((Sc)sp.lo[0], (Sc)sp.hi[0]); s.setDelta((Sc)sp.de[0]); }
  else if constexpr (T::kind == INF) { s.setMu((Sc)sp.lo[0]); s.setSigma((Sc)sp.hi[0]); s.setDelta((Sc)sp.de[0]); }
  else if constexpr (T::kind == RE) {
    Var a, b, v;
    fillV(a, sp.lo, sp.rows, sp.cols); fillV(b, sp.hi, sp.rows, sp.cols); fillV(v, sp.de, sp.rows, sp.cols);
    if (W->c.s.chance(0.25)) {  // the dimensions are set: entry by entry
      W->c.check((int)s.min().size() == sp.dim && (int)s.max().size() == sp.dim && (int)s.delta().size() == sp.dim, "dimension", "after setDimensions() the bounds have ", s.min().size(), ", ", s.max().size(), ", ", s.delta().size(), " entries instead of ", sp.dim);
      for (int i = 0; i < sp.dim; i++) { at(s.min(), i) = (Sc)sp.lo[i]; at(s.max(), i) = (Sc)sp.hi[i]; at(s.delta(), i) = (Sc)sp.de[i]; }
    } else {
      s.setRange(a, b);
      s.setDelta(v);
    }
  }
  pbt::Ctx& c = W->c;
  const S& k = s;
  c.check(k.dimensions() == sp.dim, "dimension", "dimensions() is ", k.dimensions(), " instead of ", sp.dim);
  if constexpr (!array_traits<Var>::isFixedSize && array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) c.check(k.boxRows() == sp.rows && k.boxCols() == sp.cols, "dimension", "the box is ", k.boxRows(), "x", k.boxCols(), " instead of ", sp.rows, "x", sp.cols);
  for (int i = 0; i < sp.dim; i++) {
    if constexpr (T::kind == INF) c.check(k.mu() == (Sc)sp.lo[i] && k.sigma() == (Sc)sp.hi[i] && k.min(i) == -INFINITY && k.max(i) == INFINITY, "box-lost", "the gaussian box is not what was set");
    else c.check(k.min(i) == (Sc)sp.lo[i] && k.max(i) == (Sc)sp.hi[i], "box-lost", "coordinate ", i, " reads [", k.min(i), ",", k.max(i), "] instead of [", sp.lo[i], ",", sp.hi[i], "]");
    c.check(k.delta(i) == (Sc)sp.de[i], "box-lost", "delta of coordinate ", i, " reads ", k.delta(i), " instead of ", sp.de[i]);
  }
}
static int gMinDim = 0;
template <class T>
Sp genSpec(pbt::Ctx& c, int combo, T) {
  using Var = typename T::Var;
  using Sc = typename array_traits<Var>::Scalar_t;
  Sp sp;
  sp.combo = combo;
  sp.less = T::less; sp.kind = T::kind; sp.rec = T::rec; sp.flt = std::is_same_v<Sc, float>; sp.custom = T::in != DEF;
  if constexpr (array_traits<Var>::isFixedSize) sp.dim = array_traits<Var>::sizeCT;
  else if constexpr (array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) { sp.rows = (int)c.s.i(1, 4); sp.cols = (int)c.s.i(1, 3); sp.dim = sp.rows * sp.cols; }
  else sp.dim = c.s.chance(0.05) ? (int)c.s.i(8, 40) : (int)c.s.i(1, 7);
  if (gMinDim && !array_traits<Var>::isFixedSize) {
    if constexpr (array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) { sp.rows = (int)c.s.i(3, 5); sp.cols = (int)c.s.i(gMinDim / 3, 6); sp.dim = sp.rows * sp.cols; }
    else sp.dim = (int)c.s.i(gMinDim, 2 * gMinDim);
  }
  if constexpr (!array_traits<Var>::isFixedSize && array_traits<Var>::isEigenClass && !array_traits<Var>::isMatrix) {
    if constexpr (array_traits<Var>::isColVector) { sp.rows = sp.dim; sp.cols = 1; } else { sp.rows = 1; sp.cols = sp.dim; }
  }
  gRows = sp.rows; gCols = sp.cols;
  for (int i = 0; i < sp.dim; i++) {
    if (sp.kind == FIX) { sp.lo.push_back(-5); sp.hi.push_back(3); sp.de.push_back(1.5); continue; }
    if (i && sp.kind != RE) { sp.lo.push_back(sp.lo[0]); sp.hi.push_back(sp.hi[0]); sp.de.push_back(sp.de[0]); continue; }
    const double lo = c.s.pick({0.0, -1.0, 3.0, -100.0, -0.5}), wd = c.s.pick({1.0, 0.25, 10.0, 100.0});
    sp.lo.push_back(lo);                                     // INF: mean
    sp.hi.push_back(sp.kind == INF ? wd : lo + wd);          // INF: deviation
    sp.de.push_back((float)(wd * c.s.pick({0.125, 0.01, 0.5, 2.0, 0.7})));
  }
  sp.o.electronNum = c.s.chance(0.6) ? c.s.i(1, 8) : c.s.i(1, c.thorough ? 60 : 30);
  int big = 0;
  if (c.s.chance(0.008)) {  // beyond any narrow counter
    c.label("large");
    big = 1 + (int)c.s.idx(2);
    sp.o.electronNum = big == 1 ? c.s.i(250, 560) : c.s.i(1, 4);
  }
  sp.o.maxLayerNum = c.s.chance(0.5) ? c.s.i(1, std::min<int64_t>(5, sp.o.electronNum)) : c.s.i(1, sp.o.electronNum);
  sp.o.maxGeneration = c.s.chance(0.8) ? c.s.i(0, 6) : c.s.i(0, c.thorough ? 50 : 20);
  sp.o.maxEarlyStop = c.s.chance(0.5) ? 1000 : c.s.i(1, 5);
  sp.o.photonRate = c.s.pick({0.1, 0.0, 1.0, 0.5, 0.9});
  if (big == 1) sp.o.maxGeneration = c.s.i(1, 3);
  if (big == 2) { sp.o.maxGeneration = c.s.i(250, 330); sp.o.maxEarlyStop = c.s.pick({1000, 1000, 200, 256, 290}); }
  return sp;
}
inline void describe(pbt::Ctx& c, const Sp& sp) {
  c.label(pbt::cat("combo ", sp.combo));
  c.note("combo ", sp.combo, " dim=", sp.dim, " N=", sp.o.electronNum, " layers<=", sp.o.maxLayerNum, " G=", sp.o.maxGeneration, " early=", sp.o.maxEarlyStop, " photon=", sp.o.photonRate, " min=", hx::show(sp.lo), " max=", hx::show(sp.hi), " delta=", hx::show(sp.de));
}
struct After {
  Sp sp;
  int run = 0;
  size_t generation0 = 0, generation = 0, early0 = 0, early = 0;
  Snap before, last;
  std::vector<Snap> gens;        // at the start of each round of evaluations of this run
  V record;
  uint64_t calls = 0;
  AOSOption opt;
};
template <class S, class T>
void prepare(pbt::Ctx& c, World& w, S& s, Sp& sp, T tag) {
  if constexpr (T::args) {
    Args a;
    a.w = &w;
    a.magic = 4711;
    if (c.s.chance(0.5)) s.setArg(a);
    else s.arg() = a;
    c.check(std::as_const(s).arg().w == &w && std::as_const(s).arg().magic == 4711, "args-lost", "arg() is not what was set");
  }
  if constexpr (!T::ctf) s.setfFun(T::Ops_t::fit);
  if constexpr (T::in == RTI) s.setiFun(T::Ops_t::ini);
  setBox(s, sp, tag);
  uint64_t n = c.s.raw(0xffffffff);
  w.init = [&sp, n]() mutable {
    V x(sp.dim);
    for (int i = 0; i < sp.dim; i++) x[i] = (double)(float)(sp.lo[i] + (sp.hi[i] - sp.lo[i]) * (0.01 + 0.98 * ((pbt::mix(++n) >> 11) * 0x1p-53)));
    return x;
  };
  w.snap = [&s](bool r) { return snapOf(s, r); };
  s.setOption(sp.o);
}
template <class Fn, class FnInit>
void history(pbt::Ctx& c, Fn&& after, FnInit&& onInit) {
  setThreadNum((int)c.s.i(1, 16));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  withSolver(combo, [&](auto& s, auto tag) {
    using T = decltype(tag);
    Sp sp = genSpec(c, combo, tag);
    describe(c, sp);
    genFitness(c, w, sp);
    prepare(c, w, s, sp, tag);
    const int inits = c.s.chance(0.2) ? 2 : 1;
    for (int k = 0; k < inits; k++) {
      if (k && c.s.chance(0.6)) {  // another problem for the same solver
        sp = genSpec(c, combo, tag);
        c.note(" again: ");
        describe(c, sp);
        genFitness(c, w, sp);
        setBox(s, sp, tag);
      }
      if (c.s.chance(0.3)) s.option() = sp.o;
      else s.setOption(sp.o);
      w.inited.clear();
      w.asked.clear();
      s.initializePop();
      c.rethrow();
      onInit(sp, snapOf(s, false), w, s.generation(), s.earlyStopCounter(), s.dimensions());
      const int runs = (int)c.s.pick({1, 1, 2, 3});
      for (int r = 0; r < runs; r++) {
        After a;
        if (r) {
          sp.o.maxGeneration = s.generation() + c.s.i(0, 5);
          sp.o.maxEarlyStop = c.s.chance(0.6) ? 1000 : c.s.i(1, 4);
          if (c.s.chance(0.3)) sp.o.photonRate = c.s.pick({0.0, 1.0, 0.5});
          if (c.s.chance(0.3)) {  // a smaller or greater atom
            c.label("atom resized");
            sp.o.electronNum = c.s.chance(0.6) ? c.s.i(1, 8) : c.s.i(1, 40);
            sp.o.maxLayerNum = c.s.i(1, sp.o.electronNum);
            c.note(" now N=", sp.o.electronNum, " layers<=", sp.o.maxLayerNum);
          }
          s.setOption(sp.o);
        }
        a.generation0 = s.generation();
        a.early0 = s.earlyStopCounter();
        a.before = snapOf(s, r > 0);
        w.watching = true;
        w.expect = 0;
        w.asked.clear();
        const uint64_t c0 = w.calls;
        const size_t s0 = w.snaps.size();
        s.run();
        w.watching = false;
        c.rethrow();
        a.sp = sp;
        a.run = r;
        a.last = snapOf(s, true);
        a.gens.assign(w.snaps.begin() + s0, w.snaps.end());
        a.generation = s.generation();
        a.early = s.earlyStopCounter();
        a.calls = w.calls - c0;
        a.opt = s.option();
        if constexpr (T::rec) a.record.assign(s.record().begin(), s.record().end());
        after(a, w);
      }
    }
  });
  W = nullptr;
}
inline bool better(bool less, double a, double b) { return less ? a < b : a > b; }
}  // namespace aos
