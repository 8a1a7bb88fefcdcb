// C10: multi-objective test functions against their published definitions (long double), all container combinations.
#include "common.hpp"
#include <HeuristicFlow/EAGlobal>
using namespace heu;
using LD = long double;
using LV = std::vector<LD>;
static const LD PI = 3.14159265358979323846264338327950288L;
static LD sq(LD x) { return x * x; }

static LV schaffer1(const LV& v, int) { return {v[0] * v[0], sq(v[0] - 2)}; }
static LV schaffer2(const LV& v, int) {
  LD x = v[0];
  return {x <= 1 ? -x : x <= 3 ? x - 2 : x <= 4 ? 4 - x : x - 4, sq(x - 5)};
}
static LV binhKorn(const LV& v, int) {
  LD x = v[0], y = v[1], g1 = sq(x - 5) + y * y - 25, g2 = 7.7L - sq(x - 8) - sq(y + 3);
  return {4 * x * x + 4 * y * y + (g1 > 0 ? 1e5L + g1 : 0), sq(x - 5) + sq(y - 5) + (g2 > 0 ? 1e5L + g2 : 0)};
}
static LV chankong(const LV& v, int) {
  LD x = v[0], y = v[1], g1 = x * x + y * y - 225, g2 = x - 3 * y + 10;
  return {2 + sq(x - 2) + sq(y - 1) + (g1 > 0 ? 1e5L + g1 : 0), 9 * x - sq(y - 1) + (g2 > 0 ? 1e5L + g2 : 0)};
}
static LV poloni(const LV& v, int) {
  LD x = v[0], y = v[1];
  LD A1 = 0.5L * sinl(1) - 2 * cosl(1) + sinl(2) - 1.5L * cosl(2), A2 = 1.5L * sinl(1) - cosl(1) + 2 * sinl(2) - 0.5L * cosl(2);
  LD B1 = 0.5L * sinl(x) - 2 * cosl(x) + sinl(y) - 1.5L * cosl(y), B2 = 1.5L * sinl(x) - cosl(x) + 2 * sinl(y) - 0.5L * cosl(y);
  return {1 + sq(A1 - B1) + sq(A2 - B2), sq(x + 3) + sq(y + 1)};
}
static LV viennet(const LV& v, int) {
  LD x = v[0], y = v[1], r = x * x + y * y;
  return {0.5L * r + sinl(r), sq(3 * x - 2 * y + 4) / 8 + sq(x - y + 1) / 27 + 15, 1 / (r + 1) - 1.1L * expl(-r)};
}
static LV fonseca(const LV& v, int) {
  LD a = 0, b = 0, s = 1 / sqrtl((LD)v.size());
  for (LD x : v) { a += sq(x - s); b += sq(x + s); }
  return {1 - expl(-a), 1 - expl(-b)};
}
static LV kursawe(const LV& v, int) {
  LD a = 0, b = 0;
  for (size_t i = 0; i + 1 < v.size(); i++) a += -10 * expl(-0.2L * sqrtl(sq(v[i]) + sq(v[i + 1])));
  for (LD x : v) b += powl(fabsl(x), 0.8L) + 5 * sinl(x * x * x);
  return {a, b};
}
static LD rast(const LV& v, int M) {
  LD g = (LD)(v.size() - M + 1);
  for (size_t i = M - 1; i < v.size(); i++) g += sq(v[i] - 0.5L) - cosl(20 * PI * (v[i] - 0.5L));
  return 100 * g;
}
static LD sph(const LV& v, int M) {
  LD g = 0;
  for (size_t i = M - 1; i < v.size(); i++) g += sq(v[i] - 0.5L);
  return g;
}
static LV dtlz1(const LV& v, int M) {
  LV f(M);
  LD g = rast(v, M);
  for (int m = 0; m < M; m++) {
    LD p = 0.5L * (1 + g);
    for (int i = 0; i < M - 1 - m; i++) p *= v[i];
    if (m > 0) p *= 1 - v[M - 1 - m];
    f[m] = p;
  }
  return f;
}
static LV onSphere(const LV& ang, LD g, int M) {
  LV f(M);
  for (int m = 0; m < M; m++) {
    LD p = 1 + g;
    for (int i = 0; i < M - 1 - m; i++) p *= cosl(ang[i]);
    if (m > 0) p *= sinl(ang[M - 1 - m]);
    f[m] = p;
  }
  return f;
}
static LV ang2(const LV& v, int M, LD al) { LV a(M - 1); for (int i = 0; i < M - 1; i++) a[i] = powl(v[i], al) * PI / 2; return a; }
static LV dtlz2(const LV& v, int M) { return onSphere(ang2(v, M, 1), sph(v, M), M); }
static LV dtlz3(const LV& v, int M) { return onSphere(ang2(v, M, 1), rast(v, M), M); }
static LV dtlz4(const LV& v, int M) { return onSphere(ang2(v, M, 100), sph(v, M), M); }
static LV dtlz4a(const LV& v, int M) { return onSphere(ang2(v, M, 7), sph(v, M), M); }
static LV curve(const LV& v, int M, LD g) {
  LV a(M - 1);
  a[0] = PI / 2 * v[0];
  for (int i = 1; i < M - 1; i++) a[i] = PI / (4 * (1 + g)) * (1 + 2 * g * v[i]);
  return onSphere(a, g, M);
}
static LV dtlz5(const LV& v, int M) { return curve(v, M, sph(v, M)); }
static LV dtlz6(const LV& v, int M) {
  LD g = 0;
  for (size_t i = M - 1; i < v.size(); i++) g += powl(v[i], 0.1L);
  return curve(v, M, g);
}
static LV dtlz7(const LV& v, int M) {
  LD g = 0;
  for (size_t i = M - 1; i < v.size(); i++) g += v[i];
  g = 1 + 9 * g / (LD)(v.size() - M + 1);
  LV f(M);
  LD h = M;
  for (int i = 0; i < M - 1; i++) { f[i] = v[i]; h -= v[i] / (1 + g) * (1 + sinl(3 * PI * v[i])); }
  f[M - 1] = (1 + g) * h;
  return f;
}
static LV dtlz8(const LV& v, int M) {
  const int N = (int)v.size();
  LV f(M), r;
  for (int j = 0; j < M; j++) {
    f[j] = 0;
    for (int i = j * N / M; i <= (j + 1) * N / M && i < N; i++) f[j] += v[i];
    f[j] /= (LD)(N / M);
  }
  r = f;
  for (int j = 0; j < M - 1; j++) { LD g = f[M - 1] + 4 * f[j] - 1; if (g < 0) r[j] += 1e3L - g; }
  LD mn = INFINITY;
  for (int i = 0; i < M - 1; i++) for (int j = 0; j < M - 1; j++) if (i != j) mn = std::min(mn, f[i] + f[j]);
  LD g = 2 * f[M - 1] + mn - 1;
  if (g < 0) r[M - 1] += 1e3L - g;
  return r;
}
static LV dtlz9(const LV& v, int M) {
  const int N = (int)v.size();
  LV f(M), r;
  for (int j = 0; j < M; j++) {
    f[j] = 0;
    for (int i = j * N / M; i <= (j + 1) * N / M && i < N; i++) f[j] += powl(v[i], 0.1L);
  }
  r = f;
  for (int j = 0; j < M - 1; j++) { LD g = sq(f[M - 1]) + sq(f[j]) - 1; if (g < 0) r[j] += 1e3L - g; }
  return r;
}

using Ref = LV (*)(const LV&, int);
template <class V, class F, class Fun>
static void cmp(pbt::Ctx& c, const char* name, Ref ref, int n, int m, double lo, double hi, bool presized, bool tiny, Fun fun) {
  V v;
  F f;
  if constexpr (!array_traits<V>::isFixedSize) v.resize(n);
  if constexpr (!array_traits<F>::isFixedSize) f.resize(presized ? m : (int)c.s.i(0, 5));
  LV lv(n);
  const int mode = c.s.idx(4);
  for (int i = 0; i < n; i++) {
    double x;
    switch (mode) {
      case 0: x = lo + (hi - lo) * c.s.pick({0.0, 0.25, 0.5, 0.75, 1.0}); break;
      case 1: x = std::floor(lo + (hi - lo) * c.s.unit()); break;
      default: x = c.s.real(lo, hi);
    }
    if (tiny && c.s.chance(0.8)) x *= 0.15;  // reach the infeasible side of DTLZ8 / DTLZ9
    if (tiny && mode == 3) x = std::pow(x * 0.3, 12);
    at(v, i) = (typename array_traits<V>::Scalar_t)x;
    lv[i] = at(v, i);
  }
  for (int i = 0; i < (int)f.size(); i++) at(f, i) = c.s.pick({0.0, 1.0, -3.5, 1e9});
  fun(v, f);
  c.note(name, " n=", n, " m=", m, " x=", hx::show(v));
  c.check((int)f.size() == m, "size", name, " leaves ", f.size(), " objectives, expected ", m);
  const LV want = ref(lv, m);
  const LD eps = std::max<LD>(std::numeric_limits<typename array_traits<V>::Scalar_t>::epsilon(), std::numeric_limits<typename array_traits<F>::Scalar_t>::epsilon());
  LV worst(m, 0);
  for (int i = 0; i < n; i++)
    for (LD s : {-1.0L, 1.0L})
      for (LD d : {16 * eps, 2 * eps}) {
        LV w = lv;
        w[i] += s * d * (fabsl(lv[i]) + 1e-3L);
        if (hi <= 1 && lo >= 0) w[i] = std::max(0.0L, w[i]);
        const LV g = ref(w, m);
        for (int k = 0; k < m; k++) worst[k] = std::max(worst[k], fabsl(g[k] - want[k]));
      }
  LD norm = 1;
  for (LD x : want) norm = std::max(norm, fabsl(x));
  bool sharp = true;
  for (int k = 0; k < m; k++) {
    const LD tol = 4 * n * worst[k] + 64 * eps * n * (norm + 100);
    sharp &= tol < 1e-3L * (1 + fabsl(want[k]));
    c.check(fabsl((LD)at(f, k) - want[k]) <= tol, pbt::cat("value-", name), name, " objective ", k, " is ", at(f, k), ", published formula gives ", (double)want[k], " (allowance ", (double)tol, ")");
  }
  c.label(name);
  c.nontrivial(sharp);
}
struct Arg { int unused = 5; };
#define CALL(NAME, FN) [&](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::FN(&v, &a, &f); else testFunctions<V, F>::FN(&v, &f); }
// N, M: compile-time sizes (0 = dynamic)
template <class V, class F, int N, int M>
static void all(pbt::Ctx& c) {
  const bool withArg = c.s.chance(0.3);
  constexpr bool v1 = sizeMayMatch<V, 1>::value, v2 = sizeMayMatch<V, 2>::value, f2 = sizeMayMatch<F, 2>::value, f3 = sizeMayMatch<F, 3>::value;
  std::vector<std::function<void()>> todo;
  if constexpr (v1 && f2) {
    todo.push_back([&] { cmp<V, F>(c, "Schaffer1", schaffer1, 1, 2, -10, 10, false, false, CALL("", Schaffer1)); });
    todo.push_back([&] { cmp<V, F>(c, "Schaffer2", schaffer2, 1, 2, -5, 10, false, false, CALL("", Schaffer2)); });
  }
  if constexpr (v2 && f2) {
    todo.push_back([&] { cmp<V, F>(c, "BinhKorn", binhKorn, 2, 2, -6, 14, false, false, CALL("", BinhKorn)); });
    todo.push_back([&] { cmp<V, F>(c, "ChangkongHaimes", chankong, 2, 2, -20, 20, false, false, CALL("", ChangkongHaimes)); });
    todo.push_back([&] { cmp<V, F>(c, "Poloni", poloni, 2, 2, -3.15, 3.15, false, false, CALL("", Poloni)); });
  }
  if constexpr (v2 && f3) todo.push_back([&] { cmp<V, F>(c, "Viennet", viennet, 2, 3, -3, 3, false, false, CALL("", viennet)); });
  if constexpr (f2 && (N == 0 || N >= 2)) {
    const int n = N ? N : (int)(c.s.chance(0.05) ? c.s.i(10, 100) : c.s.i(2, 9));
    todo.push_back([&, n] { cmp<V, F>(c, "FonsecaFleming", fonseca, n, 2, -4, 4, true, false, CALL("", FonsecaFleming)); });
    todo.push_back([&, n] { cmp<V, F>(c, "Kursawe", kursawe, n, 2, -5, 5, true, false, CALL("", Kursawe)); });
  }
  if constexpr ((N == 0 || M == 0 || N >= M) && (N == 0 || N >= 2)) {
    const int m = M ? M : N ? (int)c.s.i(2, std::min(N, 5)) : (int)(c.s.chance(0.15) ? c.s.i(7, 20) : c.s.i(2, 6));
    const int n = N ? N : m + (int)(c.s.chance(0.1) ? c.s.i(9, 60) : c.s.i(0, 8));
    auto D = [&](const char* name, Ref r, auto fun) { todo.push_back([&c, name, r, n, m, fun] { cmp<V, F>(c, name, r, n, m, 0, 1, true, false, fun); }); };
    D("DTLZ1", dtlz1, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ1(&v, &a, &f); else testFunctions<V, F>::DTLZ1(&v, &f); });
    D("DTLZ2", dtlz2, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ2(&v, &a, &f); else testFunctions<V, F>::DTLZ2(&v, &f); });
    D("DTLZ3", dtlz3, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ3(&v, &a, &f); else testFunctions<V, F>::DTLZ3(&v, &f); });
    D("DTLZ4", dtlz4, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::template DTLZ4<>(&v, &a, &f); else testFunctions<V, F>::template DTLZ4<>(&v, &f); });
    D("DTLZ4a", dtlz4a, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::template DTLZ4<7>(&v, &a, &f); else testFunctions<V, F>::template DTLZ4<7>(&v, &f); });
    D("DTLZ5", dtlz5, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ5(&v, &a, &f); else testFunctions<V, F>::DTLZ5(&v, &f); });
    D("DTLZ6", dtlz6, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ6(&v, &a, &f); else testFunctions<V, F>::DTLZ6(&v, &f); });
    D("DTLZ7", dtlz7, [withArg](const V& v, F& f) { Arg a; if (withArg) testFunctions<V, F, Arg>::DTLZ7(&v, &a, &f); else testFunctions<V, F>::DTLZ7(&v, &f); });
    if constexpr ((M == 0 || M >= 3) && (N == 0 || N >= 4) && (N == 0 || M == 0 || N > M)) {
      const int m8 = M ? M : N ? (int)c.s.i(3, std::min(N - 1, 5)) : (int)(c.s.chance(0.15) ? c.s.i(7, 20) : c.s.i(3, 6));
      const int n8 = N ? N : m8 + (int)(c.s.chance(0.1) ? c.s.i(21, 200) : c.s.i(1, 20));
      if (n8 > m8) {
        todo.push_back([&, n8, m8] { cmp<V, F>(c, "DTLZ8", dtlz8, n8, m8, 0, 1, true, c.s.chance(0.5), CALL("", DTLZ8)); });
        todo.push_back([&, n8, m8] { cmp<V, F>(c, "DTLZ9", dtlz9, n8, m8, 0, 1, true, c.s.chance(0.5), CALL("", DTLZ9)); });
      }
    }
  }
  todo[c.s.idx(todo.size())]();
}
template <int N>
using AD = std::array<double, N>;
template <int N>
using ED = Eigen::Array<double, N, 1>;
using VD = std::vector<double>;
using XD = Eigen::ArrayXd;
#ifndef PART
#define PART 0
#endif
#if PART == 0
PBT_TEST(formulas_0, "8 classical functions and DTLZ1-9 (any objective count 2..20, several compile-time sizes) x 4x4 std/Eigen, fixed/dynamic variable and fitness containers, with or without an argument object; points on corners, integers and uniform, feasible and penalised: equals the published formula in long double within a conditioning-based allowance; non-trivial = allowance below 1e-3 relative", 40000, 1000000) {
  switch (c.s.idx(8)) {
    case 0: all<AD<1>, AD<2>, 1, 2>(c); break;
    case 1: all<ED<2>, AD<2>, 2, 2>(c); break;
    case 2: all<AD<2>, XD, 2, 0>(c); break;
    case 3: all<XD, ED<3>, 0, 3>(c); break;
    case 4: all<VD, VD, 0, 0>(c); break;
    case 5: all<XD, VD, 0, 0>(c); break;
    case 6: all<ED<12>, ED<5>, 12, 5>(c); break;
    case 7: all<ED<4>, ED<4>, 4, 4>(c); break;
  }
}
#endif
#if PART == 1
PBT_TEST(formulas_1, "8 classical functions and DTLZ1-9 (any objective count 2..20, several compile-time sizes) x 4x4 std/Eigen, fixed/dynamic variable and fitness containers, with or without an argument object; points on corners, integers and uniform, feasible and penalised: equals the published formula in long double within a conditioning-based allowance; non-trivial = allowance below 1e-3 relative", 40000, 1000000) {
  switch (c.s.idx(8)) {
    case 0: all<ED<1>, ED<2>, 1, 2>(c); break;
    case 1: all<AD<2>, AD<3>, 2, 3>(c); break;
    case 2: all<ED<2>, VD, 2, 0>(c); break;
    case 3: all<VD, ED<4>, 0, 4>(c); break;
    case 4: all<XD, XD, 0, 0>(c); break;
    case 5: all<AD<7>, AD<3>, 7, 3>(c); break;
    case 6: all<AD<12>, ED<4>, 12, 4>(c); break;
    case 7: all<ED<6>, ED<2>, 6, 2>(c); break;
  }
}
#endif
#if PART == 2
PBT_TEST(formulas_2, "8 classical functions and DTLZ1-9 (any objective count 2..20, several compile-time sizes) x 4x4 std/Eigen, fixed/dynamic variable and fitness containers, with or without an argument object; points on corners, integers and uniform, feasible and penalised: equals the published formula in long double within a conditioning-based allowance; non-trivial = allowance below 1e-3 relative", 40000, 1000000) {
  switch (c.s.idx(8)) {
    case 0: all<AD<2>, ED<2>, 2, 2>(c); break;
    case 1: all<ED<2>, ED<3>, 2, 3>(c); break;
    case 2: all<VD, AD<2>, 0, 2>(c); break;
    case 3: all<XD, AD<3>, 0, 3>(c); break;
    case 4: all<VD, XD, 0, 0>(c); break;
    case 5: all<ED<7>, ED<3>, 7, 3>(c); break;
    case 6: all<ED<11>, AD<4>, 11, 4>(c); break;
    case 7: all<AD<10>, VD, 10, 0>(c); break;
  }
}
#endif
#if PART == 3
template <int N>
using FD = Eigen::Array<float, N, 1>;
using RX = Eigen::Array<double, 1, Eigen::Dynamic>;
PBT_TEST(formulas_3, "the same with matrices, row vectors, single precision and mixed precision", 40000, 1000000) {
  switch (c.s.idx(12)) {
    case 0: all<Eigen::VectorXd, XD, 0, 0>(c); break;
    case 1: all<Eigen::Matrix<double, 7, 1>, ED<3>, 7, 3>(c); break;
    case 2: all<Eigen::RowVector2d, Eigen::Vector2d, 2, 2>(c); break;
    case 3: all<RX, RX, 0, 0>(c); break;
    case 4: all<Eigen::Array<double, 1, 8>, Eigen::Array<double, 1, 4>, 8, 4>(c); break;
    case 5: all<Eigen::RowVectorXd, VD, 0, 0>(c); break;
    case 6: all<std::vector<float>, std::vector<float>, 0, 0>(c); break;
    case 7: all<Eigen::ArrayXf, Eigen::ArrayXf, 0, 0>(c); break;
    case 8: all<std::array<float, 6>, std::array<float, 3>, 6, 3>(c); break;
    case 9: all<FD<5>, ED<3>, 5, 3>(c); break;
    case 10: all<Eigen::VectorXf, Eigen::Vector4d, 0, 4>(c); break;
    default: all<XD, Eigen::ArrayXf, 0, 0>(c); break;
  }
}
#endif
