// PSO driver: random histories of one of 18 solver instantiations.  The swarm is photographed through population()
// and globalBest() when the first fitness of a generation is asked for, and after every run.
#pragma once
#include "common.hpp"
#include <HeuristicFlow/PSO>
#include <array>
#include <mutex>

namespace pso {
using namespace heu;
using V = std::vector<double>;

struct Pt { V x, v, pb; double pbf = 0, f = 0; };
struct Snap {
  std::vector<Pt> p;
  V gb;
  double gbf = 0;
  int run = 0;
};
struct World {
  pbt::Ctx& c;
  std::mutex mu;
  uint64_t calls = 0;
  bool watching = false;
  uint64_t perGen = 1, genCalls = 0;
  std::function<Snap()> snap;
  std::vector<Snap> snaps;
  std::function<double(const V&)> f;   // pure
  std::function<void(V&, V&)> init;    // custom initialisation
  std::vector<V> inited;               // positions the custom initialisation produced
  std::vector<V> asked;                // positions evaluated since the last reset
  int run = 0;
  explicit World(pbt::Ctx& c_) : c(c_) {}
};
inline World* W = nullptr;
struct Args { World* w = nullptr; int magic = 0; };

template <class T>
V toV(const T& t) {
  V r(t.size());
  for (size_t i = 0; i < r.size(); i++) r[i] = (double)at(t, (int)i);
  return r;
}
inline double evaluate(const V& x) {
  std::lock_guard<std::mutex> g(W->mu);
  W->calls++;
  W->asked.push_back(x);
  if (W->watching) {
    if (W->genCalls % W->perGen == 0) {
      W->snaps.push_back(W->snap());
      W->snaps.back().run = W->run;
    }
    W->genCalls++;
  }
  return W->f(x);
}
template <class T>
void fillV(T& t, const V& v) {
  if constexpr (array_traits<T>::isFixedSize) {}
  else if constexpr (!array_traits<T>::isEigenClass) t.resize(v.size());
  for (size_t i = 0; i < v.size(); i++) at(t, (int)i) = (typename array_traits<T>::Scalar_t)v[i];
}
template <class T>
void custom(T* x, T* v, int rows, int cols) {
  V a, b;
  W->init(a, b);
  if constexpr (!array_traits<T>::isFixedSize && array_traits<T>::isEigenClass) { x->resize(rows, cols); v->resize(rows, cols); }
  fillV(*x, a);
  fillV(*v, b);
  W->inited.push_back(toV(*x));
}
inline int gRows = 1, gCols = 1;

namespace {
template <class T, bool A>
struct Ops;
template <class T>
struct Ops<T, false> {
  static void fit(const T* x, double* f) { *f = evaluate(toV(*x)); }
  static void ini(T* x, T* v) { custom(x, v, gRows, gCols); }
};
template <class T>
struct Ops<T, true> {
  static void chk(const Args* a) {
    if (a && a->w == W && a->magic == 4711) return;
    std::lock_guard<std::mutex> g(W->mu);
    W->c.soft(false, "args-lost", "the functions do not see the argument object that was set");
  }
  static void fit(const T* x, const Args* a, double* f) { chk(a); *f = evaluate(toV(*x)); }
  static void ini(T* x, T* v, const Args* a) { chk(a); custom(x, v, gRows, gCols); }
};
}  // namespace

enum Init { DEF, CTI, RTI };
template <class T, BoxShape B, FitnessOption F, RecordOption R, bool A, bool CTF, Init I>
struct Ty {
  using Ar = std::conditional_t<A, Args, void>;
  using O = Ops<T, A>;
  template <bool ctf, int i, class = void> struct pick;
  template <class U> struct pick<true, DEF, U> { using type = PSO<T, B, F, R, Ar, O::fit>; };
  template <class U> struct pick<false, DEF, U> { using type = PSO<T, B, F, R, Ar>; };
  template <class U> struct pick<true, CTI, U> { using type = PSO<T, B, F, R, Ar, O::fit, O::ini>; };
  template <class U> struct pick<false, CTI, U> { using type = PSO<T, B, F, R, Ar, nullptr, O::ini>; };
  template <class U> struct pick<true, RTI, U> { using type = PSO<T, B, F, R, Ar, O::fit, nullptr>; };
  template <class U> struct pick<false, RTI, U> { using type = PSO<T, B, F, R, Ar, nullptr, nullptr>; };
  using type = typename pick<CTF, I>::type;
  using Var = T;
  using Ops_t = O;
  static constexpr bool sq = B == BoxShape::SQUARE_BOX, less = F == FITNESS_LESS_BETTER, rec = R == RECORD_FITNESS, args = A, ctf = CTF;
  static constexpr Init in = I;
};
constexpr auto SQ = BoxShape::SQUARE_BOX, RE = BoxShape::RECTANGLE_BOX;
constexpr auto LE = FITNESS_LESS_BETTER, GR = FITNESS_GREATER_BETTER;
constexpr auto REC = RECORD_FITNESS, NOR = DONT_RECORD_FITNESS;
using T0 = Ty<std::array<double, 3>, SQ, LE, REC, false, false, DEF>;
using T1 = Ty<std::vector<double>, RE, GR, NOR, true, true, DEF>;
using T2 = Ty<Eigen::Array<double, 4, 1>, RE, LE, NOR, true, false, CTI>;
using T3 = Ty<Eigen::ArrayXd, SQ, GR, REC, false, false, RTI>;
using T4 = Ty<Eigen::Array<double, 1, Eigen::Dynamic>, RE, LE, REC, false, true, DEF>;
using T5 = Ty<Eigen::ArrayXXd, SQ, LE, NOR, false, false, DEF>;
using T6 = Ty<Eigen::ArrayXXd, RE, GR, REC, true, true, RTI>;
using T7 = Ty<std::vector<float>, SQ, LE, REC, true, false, CTI>;
using T8 = Ty<Eigen::Array<float, Eigen::Dynamic, 1>, RE, LE, NOR, false, true, DEF>;
using T9 = Ty<Eigen::VectorXd, SQ, GR, NOR, true, true, DEF>;
using T10 = Ty<std::array<double, 5>, RE, GR, REC, true, false, RTI>;
using T11 = Ty<Eigen::Array<double, 2, 2>, SQ, LE, REC, false, true, DEF>;
using T12 = Ty<Eigen::ArrayXXd, RE, LE, NOR, false, true, DEF>;
using T13 = Ty<Eigen::Matrix<float, 2, 3, Eigen::RowMajor>, RE, GR, REC, false, false, DEF>;
using T14 = Ty<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>, RE, LE, REC, true, true, DEF>;
using T15 = Ty<std::array<float, 4>, RE, GR, NOR, false, true, CTI>;
using T16 = Ty<Eigen::RowVectorXd, SQ, LE, NOR, true, false, DEF>;
using T17 = Ty<Eigen::Matrix3d, RE, LE, REC, false, false, DEF>;

struct Sp {
  int combo = 0, dim = 1, rows = 1, cols = 1;
  bool less = true, sq = true, rec = false, flt = false, custom = false;
  V lo, hi, vm;
  PSOOption o;
};
template <class Fn>
void withSolver(int combo, Fn&& f) {
  auto go = [&](auto tag) -> void {
    using T = decltype(tag);
    typename T::type s;
    f(s, tag);
  };
#define PSO_CASE(k) case k: return go(T##k{});
  switch (combo) {
#if PART == 0
    PSO_CASE(0) PSO_CASE(1) PSO_CASE(2) PSO_CASE(3) PSO_CASE(4) default: return go(T5{});
#elif PART == 1
    PSO_CASE(6) PSO_CASE(7) PSO_CASE(8) PSO_CASE(9) PSO_CASE(10) default: return go(T11{});
#else
    PSO_CASE(12) PSO_CASE(13) PSO_CASE(14) PSO_CASE(15) PSO_CASE(16) default: return go(T17{});
#endif
  }
}
template <class S>
Snap snapOf(const S& s, bool withFitness) {
  Snap r;
  for (const auto& p : s.population()) {
    Pt q;
    q.x = toV(p.position);
    q.v = toV(p.velocity);
    q.pb = toV(p.pBest.position);
    q.pbf = p.pBest.fitness;
    if (withFitness) q.f = p.fitness;
    r.p.push_back(q);
  }
  r.gb = toV(s.globalBest().position);
  r.gbf = s.globalBest().fitness;
  return r;
}

inline void genFitness(pbt::Ctx& c, World& w, const Sp& sp) {
  const int mode = (int)c.s.idx(10);
  const double penalty = c.s.pick({1.0, 1e-12, 1e-280, 2.0}) * std::numeric_limits<double>::max();  // the largest number, or infinity
  V target(sp.dim);
  for (int i = 0; i < sp.dim; i++) target[i] = sp.lo[i] + (sp.hi[i] - sp.lo[i]) * c.s.pick({0.3, 0.5, 0.0, 1.0, 1.4});
  V span(sp.dim);
  for (int i = 0; i < sp.dim; i++) span[i] = sp.hi[i] - sp.lo[i];
  const bool less = sp.less;
  w.f = [=](const V& x) {
    double d = 0, s = 0;
    uint64_t h = 77;
    for (size_t i = 0; i < x.size(); i++) {
      const double z = (x[i] - target[i]) / span[i];
      d += z * z;
      s += z;
      uint64_t b;
      memcpy(&b, &x[i], 8);
      h = pbt::mix(h ^ b);
    }
    double f = 0;
    switch (mode) {
      case 0: f = d; break;
      case 1: f = std::floor(8 * d) / 8; break;                // plateaus: ties
      case 2: f = 1; break;                                    // flat
      case 3: f = s; break;
      case 6: f = s > 0 ? penalty : d; break;                  // infeasible in half of the space
      case 4: f = (double)(h >> 40); break;                    // noise (pure)
      case 7: f = 1 + (double)(h % 5) * std::numeric_limits<double>::epsilon(); break;                             // differences in the last digit
      case 8: f = ((double)(h >> 11) * 0x1p-53 - 0.5) * 2 * std::numeric_limits<double>::max(); break;             // differences beyond the largest number
      case 9: f = d * 1e-305; break;                           // tiny
      default: f = d + 0.3 * std::sin(20 * s); break;
    }
    return less ? f : -f;
  };
  static const char* nm[] = {"sphere", "plateaus", "flat", "linear", "noise", "waves", "penalty", "last-digit", "huge", "tiny"};
  c.label(std::string("fitness:") + nm[mode]);
  c.note(" fitness=", nm[mode]);
}

// the box and the velocity limit are set together, separately or through the references, and must read back
template <class S, class T>
void setBox(S& s, const Sp& sp, T, int how = 0) {
  using Var = typename T::Var;
  using Sc = typename array_traits<Var>::Scalar_t;
  if constexpr (!array_traits<Var>::isFixedSize) {
    if constexpr (array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) s.setDimensions(sp.rows, sp.cols);
    else s.setDimensions(sp.dim);
  }
  auto set = [&](const auto& a, const auto& b, const auto& v) {
    if (how == 0) s.setPVRange(a, b, v);
    else if (how == 1) { s.setMaxVelocity(v); s.setRange(a, b); }
    else { s.posMin() = a; s.posMax() = b; s.maxVelocity() = v; }
  };
  if constexpr (T::sq) set((Sc)sp.lo[0], (Sc)sp.hi[0], (Sc)sp.vm[0]);
  else {
    Var a, b, v;
    if constexpr (!array_traits<Var>::isFixedSize && array_traits<Var>::isEigenClass) { a.resize(sp.rows, sp.cols); b.resize(sp.rows, sp.cols); v.resize(sp.rows, sp.cols); }
    fillV(a, sp.lo); fillV(b, sp.hi); fillV(v, sp.vm);
    if (how == 3) {  // the dimensions are set: entry by entry
      W->c.check((int)s.posMin().size() == sp.dim && (int)s.posMax().size() == sp.dim && (int)s.maxVelocity().size() == sp.dim, "dimension", "after setDimensions() the bounds have ", s.posMin().size(), ", ", s.posMax().size(), ", ", s.maxVelocity().size(), " entries instead of ", sp.dim);
      for (int i = 0; i < sp.dim; i++) { at(s.posMin(), i) = (Sc)sp.lo[i]; at(s.posMax(), i) = (Sc)sp.hi[i]; at(s.maxVelocity(), i) = (Sc)sp.vm[i]; }
    } else set(a, b, v);
  }
  pbt::Ctx& c = W->c;
  const S& k = s;
  c.check(k.dimensions() == sp.dim, "dimension", "dimensions() is ", k.dimensions(), " instead of ", sp.dim);
  if constexpr (!array_traits<Var>::isFixedSize && array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) c.check(k.boxRows() == sp.rows && k.boxCols() == sp.cols, "dimension", "the box is ", k.boxRows(), "x", k.boxCols(), " instead of ", sp.rows, "x", sp.cols);
  for (int i = 0; i < sp.dim; i++) c.check(k.posMin(i) == (Sc)sp.lo[i] && k.posMax(i) == (Sc)sp.hi[i] && k.maxVelocity(i) == (Sc)sp.vm[i], "box-lost", "coordinate ", i, " reads [", k.posMin(i), ",", k.posMax(i), "], velocity limit ", k.maxVelocity(i), " instead of [", sp.lo[i], ",", sp.hi[i], "] and ", sp.vm[i]);
  auto whole = [&](const auto& got, const V& want) {
    if constexpr (std::is_arithmetic_v<std::decay_t<decltype(got)>>) return (double)got == want[0];
    else return toV(got) == want;
  };
  c.check(whole(k.posMin(), sp.lo) && whole(k.posMax(), sp.hi) && whole(k.maxVelocity(), sp.vm), "box-lost", "posMin(), posMax() or maxVelocity() is not what was set");
}
template <class T>
Sp genSpec(pbt::Ctx& c, int combo, T) {
  using Var = typename T::Var;
  using Sc = typename array_traits<Var>::Scalar_t;
  Sp sp;
  sp.combo = combo;
  sp.less = T::less; sp.sq = T::sq; sp.rec = T::rec; sp.flt = std::is_same_v<Sc, float>; sp.custom = T::in != DEF;
  if constexpr (array_traits<Var>::isFixedSize) sp.dim = array_traits<Var>::sizeCT;
  else if constexpr (array_traits<Var>::isEigenClass && array_traits<Var>::isMatrix) { sp.rows = (int)c.s.i(1, 4); sp.cols = (int)c.s.i(1, 3); sp.dim = sp.rows * sp.cols; }
  else sp.dim = c.s.chance(0.05) ? (int)c.s.i(8, 40) : (int)c.s.i(1, 7);
  if constexpr (!array_traits<Var>::isFixedSize && array_traits<Var>::isEigenClass && !array_traits<Var>::isMatrix) {
    if constexpr (array_traits<Var>::isColVector) { sp.rows = sp.dim; sp.cols = 1; } else { sp.rows = 1; sp.cols = sp.dim; }
  }
  gRows = sp.rows; gCols = sp.cols;
  for (int i = 0; i < sp.dim; i++) {
    if (i && sp.sq) { sp.lo.push_back(sp.lo[0]); sp.hi.push_back(sp.hi[0]); sp.vm.push_back(sp.vm[0]); continue; }
    const double lo = c.s.pick({0.0, -1.0, 3.0, -100.0, -0.5}), wd = c.s.pick({1.0, 0.25, 10.0, 100.0});
    sp.lo.push_back(lo);
    sp.hi.push_back(lo + wd);
    sp.vm.push_back((float)(wd * c.s.pick({0.125, 0.01, 0.5, 2.0, 0.7})));
  }
  sp.o.populationSize = c.s.chance(0.6) ? c.s.i(1, 6) : c.s.i(1, c.thorough ? 60 : 25);
  sp.o.maxGeneration = c.s.chance(0.8) ? c.s.i(0, 8) : c.s.i(0, c.thorough ? 50 : 20);
  sp.o.maxFailTimes = c.s.chance(0.4) ? 0 : c.s.i(1, 5);
  sp.o.inertiaFactor = c.s.pick({0.8, 0.0, 1.0, 0.4, 1.1});
  sp.o.learnFactorP = c.s.pick({2.0, 0.0, 1.0, 0.5});
  sp.o.learnFactorG = c.s.pick({2.0, 0.0, 1.0, 0.5});
  if (c.s.chance(0.008)) {  // beyond any narrow counter
    c.label("large");
    if (c.s.chance(0.5)) { sp.o.populationSize = c.s.i(250, 560); sp.o.maxGeneration = c.s.i(1, 3); }
    else { sp.o.populationSize = c.s.i(1, 3); sp.o.maxGeneration = c.s.i(250, 330); sp.o.maxFailTimes = c.s.pick({0, 0, 200, 256, 290, 5000}); }
  }
  return sp;
}
inline void describe(pbt::Ctx& c, const Sp& sp) {
  c.label(pbt::cat("combo ", sp.combo));
  c.note("combo ", sp.combo, " dim=", sp.dim, " N=", sp.o.populationSize, " G=", sp.o.maxGeneration, " fail=", sp.o.maxFailTimes, " w=", sp.o.inertiaFactor, " cp=", sp.o.learnFactorP, " cg=", sp.o.learnFactorG, " min=", hx::show(sp.lo), " max=", hx::show(sp.hi), " vmax=", hx::show(sp.vm));
}
struct After {   // what is known after a run
  Sp sp;
  int run = 0;
  Snap before, last;             // before the run, after it
  std::vector<Snap> gens;        // at the start of each evaluation round of this run
  size_t generation = 0, fails = 0;
  V record;
  double best = 0;
  uint64_t calls = 0;            // evaluations of this run
  PSOOption opt;
};

template <class Fn, class FnInit>
void history(pbt::Ctx& c, Fn&& after, FnInit&& onInit) {
  setThreadNum((int)c.s.i(1, 16));
  const int combo = (int)c.s.idx(6) + PART * 6;
  World w(c);
  W = &w;
  withSolver(combo, [&](auto& s, auto tag) {
    using T = decltype(tag);
    Sp sp = genSpec(c, combo, tag);
    describe(c, sp);
    genFitness(c, w, sp);
    if constexpr (T::args) { Args a; a.w = &w; a.magic = 4711; s.setArgs(a); }
    if constexpr (!T::ctf) s.setfFun(T::Ops_t::fit);
    if constexpr (T::in == RTI) s.setiFun(T::Ops_t::ini);
    setBox(s, sp, tag, (int)c.s.idx(4));
    uint64_t n = c.s.raw(0xffffffff);
    w.init = [&](V& x, V& v) {
      x.resize(sp.dim); v.resize(sp.dim);
      for (int i = 0; i < sp.dim; i++) {
        auto u = [&] { return (double)(pbt::mix(++n) >> 11) * 0x1p-53; };
        x[i] = (double)(float)(sp.lo[i] + (sp.hi[i] - sp.lo[i]) * (0.01 + 0.98 * u()));
        v[i] = (double)(float)(sp.vm[i] * (2 * u() - 1) * 0.99);
      }
    };
    w.snap = [&s] { return snapOf(s, false); };
    const int inits = c.s.chance(0.2) ? 2 : 1;
    for (int k = 0; k < inits; k++) {
      if (k && c.s.chance(0.6)) {  // another problem for the same solver
        sp = genSpec(c, combo, tag);
        c.note(" again: ");
        describe(c, sp);
        genFitness(c, w, sp);
        setBox(s, sp, tag, (int)c.s.idx(4));
      }
      s.setOption(sp.o);
      w.inited.clear();
      w.asked.clear();
      s.initializePop();
      c.rethrow();
      onInit(sp, snapOf(s, true), w, s.generation(), s.failTimes(), s.dimensions());
      const int runs = (int)c.s.pick({1, 1, 2, 3});
      for (int r = 0; r < runs; r++) {
        After a;
        if (r) {
          sp.o.maxGeneration = c.s.i(0, 6);
          sp.o.maxFailTimes = c.s.i(0, 4);
          if (c.s.chance(0.3)) {
            sp.o.inertiaFactor = c.s.pick({0.8, 0.0, 1.0, 0.4, 1.1});
            sp.o.learnFactorP = c.s.pick({2.0, 0.0, 1.0, 0.5});
            sp.o.learnFactorG = c.s.pick({2.0, 0.0, 1.0, 0.5});
            c.note(" then w=", sp.o.inertiaFactor, " cp=", sp.o.learnFactorP, " cg=", sp.o.learnFactorG);
          }
          if (c.s.chance(0.15)) {  // a wider box
            for (int i = 0; i < sp.dim; i++) {
              const double wd = sp.hi[i] - sp.lo[i];
              sp.lo[i] -= wd;
              sp.hi[i] += 2 * wd;
              sp.vm[i] = (double)(float)(sp.vm[i] * 2);
            }
            c.note(" wider");
            setBox(s, sp, tag, (int)c.s.idx(4));
          }
          s.setOption(sp.o);
        }
        a.before = snapOf(s, true);
        w.run++;
        w.watching = true;
        w.perGen = sp.o.populationSize;
        w.genCalls = 0;
        w.asked.clear();
        const uint64_t c0 = w.calls;
        const size_t s0 = w.snaps.size();
        s.run();
        w.watching = false;
        c.rethrow();
        a.sp = sp;
        a.run = r;
        a.last = snapOf(s, true);
        a.gens.assign(w.snaps.begin() + s0, w.snaps.end());
        a.generation = s.generation();
        a.fails = s.failTimes();
        a.best = s.bestFitness();
        a.calls = w.calls - c0;
        a.opt = s.option();
        if constexpr (T::rec) a.record.assign(s.record().begin(), s.record().end());
        after(a, w);
      }
    }
  });
  W = nullptr;
}
inline bool better(bool less, double a, double b) { return less ? a < b : a > b; }
}  // namespace pso
