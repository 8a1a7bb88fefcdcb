// C09: single-objective test functions against their published definitions (evaluated in long double), for std and Eigen
// containers of fixed and dynamic size, with and without an argument object; plus the published minima.
#include "common.hpp"
#include <HeuristicFlow/EAGlobal>
using namespace heu;
using LD = long double;
using LV = std::vector<LD>;
static const LD PI = 3.14159265358979323846264338327950288L, E1 = 2.71828182845904523536028747135266250L;
static LD sq(LD x) { return x * x; }

struct Fn {
  const char* name;
  LD (*f)(const LV&);
  LD (*mag)(const LV&);  // size of the intermediate terms, for the rounding allowance
  double lim;            // published search range
  bool two;
};
static LD one(const LV&) { return 30; }
static const Fn FN[] = {
    {"ackley", [](const LV& v) { LD x = v[0], y = v[1]; return -20 * expl(-0.2L * sqrtl(0.5L * (x * x + y * y))) - expl(0.5L * (cosl(2 * PI * x) + cosl(2 * PI * y))) + E1 + 20; }, one, 5, true},
    {"beale", [](const LV& v) { LD x = v[0], y = v[1]; return sq(1.5L - x + x * y) + sq(2.25L - x + x * y * y) + sq(2.625L - x + x * y * y * y); },
     [](const LV& v) { LD x = fabsl(v[0]), y = fabsl(v[1]); return 3 * sq(2.625L + x + x * y + x * y * y + x * y * y * y); }, 4.5, true},
    {"GoldsteinPrice", [](const LV& v) { LD x = v[0], y = v[1]; return (1 + sq(x + y + 1) * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)) * (30 + sq(2 * x - 3 * y) * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)); },
     [](const LV& v) { LD x = fabsl(v[0]), y = fabsl(v[1]); return (1 + sq(x + y + 1) * (19 + 14 * x + 3 * x * x + 14 * y + 6 * x * y + 3 * y * y)) * (30 + sq(2 * x + 3 * y) * (18 + 32 * x + 12 * x * x + 48 * y + 36 * x * y + 27 * y * y)); }, 2, true},
    {"booth", [](const LV& v) { LD x = v[0], y = v[1]; return sq(x + 2 * y - 7) + sq(2 * x + y - 5); }, [](const LV& v) { return 10 * sq(7 + 2 * fabsl(v[0]) + 2 * fabsl(v[1])); }, 10, true},
    {"bukin", [](const LV& v) { LD x = v[0], y = v[1]; return 100 * sqrtl(fabsl(y - 0.01L * x * x)) + 0.01L * fabsl(x + 10); }, [](const LV& v) { return 100 + 100 * sqrtl(fabsl(v[1]) + sq(v[0])); }, 15, true},
    {"matyas", [](const LV& v) { LD x = v[0], y = v[1]; return 0.26L * (x * x + y * y) - 0.48L * x * y; }, [](const LV& v) { return sq(v[0]) + sq(v[1]); }, 10, true},
    {"levy", [](const LV& v) { LD x = v[0], y = v[1]; return sq(sinl(3 * PI * x)) + sq(x - 1) * (1 + sq(sinl(3 * PI * y))) + sq(y - 1) * (1 + sq(sinl(2 * PI * y))); }, [](const LV& v) { return (1 + fabsl(v[0]) + fabsl(v[1])) * (10 + 4 * sq(fabsl(v[0]) + 1) + 4 * sq(fabsl(v[1]) + 1)); }, 10, true},
    {"himmelblau", [](const LV& v) { LD x = v[0], y = v[1]; return sq(x * x + y - 11) + sq(x + y * y - 7); }, [](const LV& v) { return 4 * sq(11 + sq(v[0]) + sq(v[1]) + fabsl(v[0]) + fabsl(v[1])); }, 5, true},
    {"threeHumpCamel", [](const LV& v) { LD x = v[0], y = v[1]; return 2 * x * x - 1.05L * x * x * x * x + x * x * x * x * x * x / 6 + x * y + y * y; }, [](const LV& v) { LD x = fabsl(v[0]), y = fabsl(v[1]); return 4 * (x * x + x * x * x * x + x * x * x * x * x * x + x * y + y * y); }, 5, true},
    {"easom", [](const LV& v) { LD x = v[0], y = v[1]; return -cosl(x) * cosl(y) * expl(-(sq(x - PI) + sq(y - PI))); }, [](const LV& v) { return expl(-(sq(v[0] - PI) + sq(v[1] - PI))) * (10 + 10 * sq(fabsl(v[0]) + 4) + 10 * sq(fabsl(v[1]) + 4)) + 1e-30L; }, 10, true},
    {"crossInTray", [](const LV& v) { LD x = v[0], y = v[1]; return -0.0001L * powl(fabsl(sinl(x) * sinl(y) * expl(fabsl(100 - sqrtl(x * x + y * y) / PI))) + 1, 0.1L); }, [](const LV&) { return (LD)100; }, 10, true},
    {"eggHolder", [](const LV& v) { LD x = v[0], y = v[1]; return -(y + 47) * sinl(sqrtl(fabsl(x / 2 + (y + 47)))) - x * sinl(sqrtl(fabsl(x - (y + 47)))); }, [](const LV& v) { return (47 + fabsl(v[0]) + fabsl(v[1])) * (10 + sqrtl(50 + fabsl(v[0]) + fabsl(v[1]))); }, 512, true},
    {"holderTable", [](const LV& v) { LD x = v[0], y = v[1]; return -fabsl(sinl(x) * cosl(y) * expl(fabsl(1 - sqrtl(x * x + y * y) / PI))); }, [](const LV& v) { return 20 * (1 + hypotl(v[0], v[1])) * expl(fabsl(1 - hypotl(v[0], v[1]) / PI)); }, 10, true},
    {"McCormick", [](const LV& v) { LD x = v[0], y = v[1]; return sinl(x + y) + sq(x - y) - 1.5L * x + 2.5L * y + 1; }, [](const LV& v) { return 10 + 4 * sq(2 + fabsl(v[0]) + fabsl(v[1])); }, 4, true},
    {"schaffer2", [](const LV& v) { LD x = v[0], y = v[1]; return 0.5L + (sq(sinl(x * x - y * y)) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }, [](const LV& v) { return 10 + sq(v[0]) + sq(v[1]); }, 100, true},
    {"schaffer4", [](const LV& v) { LD x = v[0], y = v[1]; return 0.5L + (sq(cosl(sinl(fabsl(x * x - y * y)))) - 0.5L) / sq(1 + 0.001L * (x * x + y * y)); }, [](const LV& v) { return 10 + sq(v[0]) + sq(v[1]); }, 100, true},
    {"rastrigin", [](const LV& v) { LD r = 10 * (LD)v.size(); for (LD x : v) r += x * x - 10 * cosl(2 * PI * x); return r; }, [](const LV& v) { LD r = 1; for (LD x : v) r += 40 + 70 * fabsl(x) + x * x; return r * (LD)v.size(); }, 5.12, false},
    {"sphere", [](const LV& v) { LD r = 0; for (LD x : v) r += x * x; return r; }, [](const LV& v) { LD r = 0; for (LD x : v) r += x * x; return r * (LD)v.size(); }, 10, false},
    {"rosenbrock", [](const LV& v) { LD r = 0; for (size_t i = 0; i + 1 < v.size(); i++) r += 100 * sq(v[i + 1] - sq(v[i])) + sq(1 - v[i]); return r; }, [](const LV& v) { LD r = 0; for (size_t i = 0; i + 1 < v.size(); i++) r += 100 * sq(1 + fabsl(v[i + 1]) + sq(v[i])) + sq(1 + fabsl(v[i])); return r * (LD)v.size(); }, 3, false},
    {"styblinskiTang", [](const LV& v) { LD r = 0; for (LD x : v) r += x * x * x * x - 16 * x * x + 5 * x; return r / 2; }, [](const LV& v) { LD r = 1; for (LD x : v) r += x * x * x * x + 16 * x * x + 5 * fabsl(x); return r * (LD)v.size(); }, 5, false},
};
constexpr int NFN = sizeof(FN) / sizeof(FN[0]);

struct Arg { int unused = 3; };
template <class V, class F>
static void call(int k, const V& v, F* f, bool withArg) {
  using T = testFunctions<V, F>;
  using A = testFunctions<V, F, Arg>;
  Arg arg;
  switch (k) {
#define X(i, n) case i: if (withArg) A::n(&v, &arg, f); else T::n(&v, f); break;
    X(16, rastrigin) X(17, sphere) X(18, rosenbrock) X(19, styblinskiTang)
    default:
      if constexpr (sizeMayMatch<V, 2>::value) switch (k) {
        X(0, ackley) X(1, beale) X(2, GoldsteinPrice) X(3, booth) X(4, bukin) X(5, matyas) X(6, levy) X(7, himmelblau) X(8, threeHumpCamel) X(9, easom)
        X(10, crossInTray) X(11, eggHolder) X(12, holderTable) X(13, McCormick) X(14, schaffer2) X(15, schaffer4)
      }
#undef X
  }
}
static LD tolerance(const Fn& F, const LV& v, LD eps) {
  const LD base = F.f(v);
  LD worst = 0;
  // conditioning: how far the exact function moves when a coordinate moves by a few units in the last place
  for (size_t i = 0; i < v.size() && i < 4; i++)
    for (LD s : {-1.0L, 1.0L})
      for (LD d : {16 * eps, 2 * eps}) {
        LV w = v;
        w[i] += s * d * (fabsl(v[i]) + (LD)F.lim * 1e-3L);
        worst = std::max(worst, fabsl(F.f(w) - base));
      }
  return 4 * (LD)v.size() * worst + 24 * eps * (fabsl(base) + F.mag(v));
}
template <class V, class R>
static void evaluate(pbt::Ctx& c, const char* kind) {
  using S = typename array_traits<V>::Scalar_t;
  constexpr bool two = sizeMayMatch<V, 2>::value;
  const int k = two ? c.s.idx(NFN) : 16 + c.s.idx(NFN - 16);
  const Fn& F = FN[k];
  V v;
  int n = 2;
  if constexpr (array_traits<V>::isFixedSize) n = array_traits<V>::sizeCT;
  else { if (!F.two) n = (int)(c.s.chance(0.05) ? c.s.i(15, 200) : c.s.i(1, 14)); v.resize(n); }
  const int mode = c.s.idx(4);
  LV lv(n);
  for (int i = 0; i < n; i++) {
    S x;
    switch (mode) {
      case 0: x = (S)c.s.i(-(int)F.lim, (int)F.lim); break;
      case 1: x = (S)(c.s.pick({-2.0, -1.5, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.0}) * std::min(1.0, F.lim / 3)); break;
      default: x = (S)c.s.real(-F.lim, F.lim);
    }
    at(v, i) = x;
    lv[i] = (LD)x;
  }
  if (F.two && c.s.chance(0.1)) { at(v, 1) = at(v, 0); lv[1] = lv[0]; }
  R out = (R)c.s.pick({0.0, -7.0, 1e6, (double)NAN});
  const bool withArg = c.s.chance(0.35);
  call<V, R>(k, v, &out, withArg);
  const LD want = F.f(lv);
  const LD eps = std::max<LD>(std::numeric_limits<S>::epsilon(), std::numeric_limits<R>::epsilon());
  const LD tol = tolerance(F, lv, eps);
  c.note(F.name, " ", kind, withArg ? " with arg" : "", " x=", hx::show(v));
  c.check(std::isfinite((double)out) && fabsl((LD)out - want) <= tol, pbt::cat("value-", F.name), F.name, " at ", hx::show(v), " gives ", out, ", published formula gives ", (double)want, " (allowance ", (double)tol, ")");
  c.label(F.name);
  c.nontrivial(tol < 1e-3L * (1 + fabsl(want)));
}
PBT_TEST(formulas, "20 functions x 7 container types (std/Eigen, fixed/dynamic, float/double, with or without an argument object), points in the published range (integers, special fractions, uniform): equals the published formula computed in long double within a conditioning-based rounding allowance; non-trivial = allowance below 1e-3 relative", 160000, 5000000) {
  switch (c.s.idx(10)) {
    case 0: evaluate<std::array<double, 2>, double>(c, "array<double,2>"); break;
    case 1: evaluate<std::vector<double>, double>(c, "vector<double>"); break;
    case 2: evaluate<Eigen::Array2d, double>(c, "Array2d"); break;
    case 3: evaluate<Eigen::ArrayXd, double>(c, "ArrayXd"); break;
    case 4: evaluate<std::array<float, 2>, double>(c, "array<float,2>"); break;
    case 5: evaluate<Eigen::Array2d, float>(c, "Array2d->float"); break;
    case 6: evaluate<std::array<double, 7>, double>(c, "array<double,7>"); break;
    case 7: evaluate<Eigen::Array<double, 5, 1>, double>(c, "Array5d"); break;
    case 8: evaluate<std::vector<double>, double>(c, "vector<double>"); break;
    default: evaluate<Eigen::ArrayXd, double>(c, "ArrayXd"); break;
  }
}
// published minima
struct Min { int k; std::vector<double> at; double val; double tol; };
static const std::vector<Min> MINS = {
    {0, {0, 0}, 0, 1e-12}, {1, {3, 0.5}, 0, 1e-12}, {2, {0, -1}, 3, 1e-9}, {3, {1, 3}, 0, 1e-12}, {4, {-10, 1}, 0, 1e-5}, {5, {0, 0}, 0, 1e-12}, {6, {1, 1}, 0, 1e-12},
    {7, {3, 2}, 0, 1e-9}, {7, {-2.805118, 3.131312}, 0, 1e-7}, {7, {-3.779310, -3.283186}, 0, 1e-7}, {7, {3.584428, -1.848126}, 0, 1e-7}, {8, {0, 0}, 0, 1e-12}, {9, {M_PI, M_PI}, -1, 1e-9},
    {10, {1.34941, -1.34941}, -2.06261, 1e-5}, {10, {1.34941, 1.34941}, -2.06261, 1e-5}, {10, {-1.34941, 1.34941}, -2.06261, 1e-5}, {11, {512, 404.2319}, -959.6407, 1e-3},
    {12, {8.05502, 9.66459}, -19.2085, 1e-3}, {12, {-8.05502, 9.66459}, -19.2085, 1e-3}, {12, {8.05502, -9.66459}, -19.2085, 1e-3}, {13, {-0.54719, -1.54719}, -1.9133, 1e-3}, {14, {0, 0}, 0, 1e-12}, {15, {0, 1.25313}, 0.292579, 1e-4}};
template <class V>
static void minima(pbt::Ctx& c) {
  const Min& m = MINS[c.s.idx(MINS.size())];
  V v, w;
  if constexpr (!array_traits<V>::isFixedSize) { v.resize(2); w.resize(2); }
  const double rad = std::pow(10.0, c.s.real(-4, 0.3)), ang = c.s.real(0, 6.2831853);
  double p[2] = {m.at[0] + rad * std::cos(ang), m.at[1] + rad * std::sin(ang)};
  for (int i = 0; i < 2; i++) {
    at(v, i) = m.at[i];
    const double L = FN[m.k].lim;
    at(w, i) = std::max(-L, std::min(L, p[i]));
  }
  double f = 0, g = 0;
  call<V, double>(m.k, v, &f, false);
  call<V, double>(m.k, w, &g, c.s.chance(0.5));
  c.note(FN[m.k].name, " near its minimum ", hx::show(v), " against ", hx::show(w));
  c.check(std::fabs(f - m.val) <= m.tol, pbt::cat("minimum-", FN[m.k].name), FN[m.k].name, " at its published minimum gives ", f, ", published ", m.val);
  c.check(g >= m.val - 2 * m.tol - 1e-9, pbt::cat("below-minimum-", FN[m.k].name), FN[m.k].name, " at ", hx::show(w), " is ", g, ", below the published minimum ", m.val);
  c.nontrivial(g > f);
}
PBT_TEST(published_minima, "published minimum points and points within distance 2 of them (inside the search range): the published value is attained and nothing nearby is lower; non-trivial = neighbour is strictly worse", 30000, 600000) {
  switch (c.s.idx(4)) {
    case 0: minima<std::array<double, 2>>(c); break;
    case 1: minima<std::vector<double>>(c); break;
    case 2: minima<Eigen::Array2d>(c); break;
    default: minima<Eigen::ArrayXd>(c); break;
  }
}
// the same point in another container gives the same value; n-d functions do not depend on the order where they are symmetric
PBT_TEST(containers, "same random point of 2..14 dimensions in four container kinds: same value up to rounding, and rastrigin / sphere / Styblinski-Tang are symmetric in the coordinates; non-trivial = more than 2 dimensions", 20000, 500000) {
  const int n = (int)(c.s.chance(0.05) ? c.s.i(15, 200) : c.s.i(2, 14));
  const int k = 16 + c.s.idx(4);
  std::vector<double> a(n);
  Eigen::ArrayXd b(n);
  for (int i = 0; i < n; i++) a[i] = b[i] = c.s.real(-FN[k].lim, FN[k].lim);
  double fa = 0, fb = 0, fr = 0;
  call<std::vector<double>, double>(k, a, &fa, false);
  call<Eigen::ArrayXd, double>(k, b, &fb, false);
  Eigen::ArrayXd r = b.reverse();
  call<Eigen::ArrayXd, double>(k, r, &fr, false);
  LV lv(a.begin(), a.end());
  const double tol = (double)tolerance(FN[k], lv, std::numeric_limits<double>::epsilon());
  c.note(FN[k].name, " ", hx::show(a));
  c.nontrivial(n > 2);
  c.check(std::fabs(fa - fb) <= 2 * tol, "container", FN[k].name, ": vector gives ", fa, ", Eigen gives ", fb);
  if (k != 18) c.check(std::fabs(fr - fb) <= 2 * tol, "symmetry", FN[k].name, ": reversed coordinates give ", fr, " instead of ", fb);
}
