// C08: Pareto dominance against its definition, and the strict-partial-order laws, for fixed and dynamic objective counts.
#include "common.hpp"
#include <HeuristicFlow/EAGlobal>
using namespace heu;

template <class F>
static F gen(pbt::Ctx& c, int n, int mode) {
  F f;
  if constexpr (F::SizeAtCompileTime == Eigen::Dynamic) f.resize(n);
  for (int i = 0; i < n; i++) {
    switch (mode) {
      case 0: f[i] = (double)c.s.i(0, 2); break;
      case 1: f[i] = c.s.pick({-1.0, -0.0, 0.0, 1e-300, 1.0, 1.0 + 2.220446049250313e-16, 1e300, (double)INFINITY, (double)-INFINITY}); break;
      default: f[i] = c.s.real(-5, 5);
    }
  }
  return f;
}
template <class F>
static bool oracle(const F& a, const F& b, bool greater) {
  bool better = false;
  for (int i = 0; i < (int)a.size(); i++) {
    const double x = a[i], y = b[i];
    if (greater ? x < y : x > y) return false;
    better |= x != y;
  }
  return better;
}
template <int N>
static void law(pbt::Ctx& c) {
  using L = internal::Pareto<N, FITNESS_LESS_BETTER>;
  using G = internal::Pareto<N, FITNESS_GREATER_BETTER>;
  using F = typename L::Fitness_t;
  const int n = N > 0 ? N : (int)c.s.i(2, 9);
  const int mode = c.s.idx(3);
  F a = gen<F>(c, n, mode), b = gen<F>(c, n, mode), d = gen<F>(c, n, mode);
  switch (c.s.idx(5)) {
    case 0: b = a; break;
    case 1: b = a; b[c.s.idx(n)] = gen<F>(c, n, mode)[0]; break;                     // differ in one objective only
    case 2: b = a; for (int i = 0; i < n; i++) if (c.s.chance(0.4)) b[i] += 1; break;  // one-sided
    case 3: d = b; for (int i = 0; i < n; i++) if (c.s.chance(0.3)) d[i] += 1; break;
    default: break;
  }
  const bool lab = L::isStrongDominate(&a, &b), lba = L::isStrongDominate(&b, &a);
  const bool gab = G::isStrongDominate(&a, &b), gba = G::isStrongDominate(&b, &a);
  c.note(N > 0 ? "fixed " : "dynamic ", n, " a=", hx::show(a), " b=", hx::show(b), " d=", hx::show(d));
  c.check(lab == oracle(a, b, false), "less", "minimising: a dominates b reported ", lab);
  c.check(lba == oracle(b, a, false), "less", "minimising: b dominates a reported ", lba);
  c.check(gab == oracle(a, b, true), "greater", "maximising: a dominates b reported ", gab);
  c.check(gba == oracle(b, a, true), "greater", "maximising: b dominates a reported ", gba);
  c.check(!L::isStrongDominate(&a, &a) && !G::isStrongDominate(&a, &a), "irreflexive", "a point dominates itself");
  F e = a;
  c.check(!L::isStrongDominate(&a, &e) && !G::isStrongDominate(&e, &a), "irreflexive", "a point dominates an equal one");
  c.check(!(lab && lba) && !(gab && gba), "asymmetric", "both dominate each other");
  c.check(lab == gba, "reverse", "maximising is not the reverse of minimising");
  if (lab && L::isStrongDominate(&b, &d)) { c.label("chain"); c.check(L::isStrongDominate(&a, &d), "transitive", "a<b<d but not a<d"); }
  if (gab && G::isStrongDominate(&b, &d)) { c.label("chain"); c.check(G::isStrongDominate(&a, &d), "transitive", "a>b>d but not a>d"); }
  F na = -a, nb = -b;
  c.check(L::isStrongDominate(&na, &nb) == gab, "negate", "negated points give another answer");
  F ra = a.reverse(), rb = b.reverse();
  c.check(L::isStrongDominate(&ra, &rb) == lab, "permute", "order of the objectives matters");
  c.label("dominates", lab || gab);
  c.label("equal", (a == b).all());
  bool tie = false;
  for (int i = 0; i < n; i++) tie |= a[i] == b[i];
  c.nontrivial(lab || gab || tie);
}
PBT_TEST(dominance, "2..9 objectives (fixed and dynamic), grid / extreme / uniform values with equal, one-objective and one-sided pairs: definition, irreflexive, asymmetric, transitive, reversed by negation, order of objectives irrelevant; non-trivial = dominance or a tied objective", 200000, 6000000) {
  switch (c.s.idx(6)) {
    case 0: law<2>(c); break;
    case 1: law<3>(c); break;
    case 2: law<4>(c); break;
    case 3: law<5>(c); break;
    case 4: law<8>(c); break;
    default: law<Eigen::Dynamic>(c); break;
  }
}
