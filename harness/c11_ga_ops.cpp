// C11: the ready-made initialisation, crossover and mutation operators do what their documentation says.
#include "common.hpp"
#include <HeuristicFlow/Genetic>
using namespace heu;

template <class V>
using Sc = typename array_traits<V>::Scalar_t;
template <class V>
constexpr bool dyn = !array_traits<V>::isFixedSize;
struct NoBox { int dummy = 5; };

template <class V>
static void sizeTo(V& v, int n) {
  if constexpr (dyn<V>) v.resize(n);
}
template <class V>
static V gen(pbt::Ctx& c, int n, int style) {
  V v;
  sizeTo(v, n);
  for (int i = 0; i < n; i++) {
    if constexpr (std::is_same_v<Sc<V>, bool>) v[i] = c.s.raw(1);
    else if constexpr (std::is_floating_point_v<Sc<V>>) v[i] = style >= 2 ? (Sc<V>)(std::numeric_limits<Sc<V>>::max() * (Sc<V>)c.s.real(0.125, 1)) * (style == 2 ? 1 : -1) : style == 0 ? (Sc<V>)c.s.i(-3, 3) : (Sc<V>)(c.s.real(-1, 1) * std::pow(10.0, (double)c.s.i(-3, 6)));
    else v[i] = (Sc<V>)c.s.i(-100, 100);
  }
  return v;
}
template <class V>
static int pickN(pbt::Ctx& c) {
  return dyn<V> ? (int)(c.s.chance(0.985) ? c.s.i(1, 9) : c.s.i(10, 300)) : (int)array_traits<V>::sizeCT;
}
template <class V>
static std::vector<Sc<V>> flat(const V& v) {
  std::vector<Sc<V>> r;
  for (int i = 0; i < (int)v.size(); i++) r.push_back(v[i]);
  return r;
}

// ---------------------------------------------------------------- arithmetic crossover
template <class V, int NUM, int DEN>
static void arith(pbt::Ctx& c, bool X, bool args) {
  constexpr DivCode R = DivEncode<NUM, DEN>::code;
  const double r = (double)NUM / DEN;
  const int n = pickN<V>(c);
  // huge: every coordinate of both parents near the largest number, with one sign, so that no mean overflows
  const bool huge = c.s.chance(0.1);
  const int hs = 2 + (huge && c.s.chance(0.5));
  const V a = gen<V>(c, n, huge ? hs : (int)c.s.idx(2)), b = c.s.chance(0.1) ? a : gen<V>(c, n, huge ? hs : (int)c.s.idx(2));
  c.label("coordinates near the largest number", huge);
  const V a0 = a, b0 = b;
  V x, y;
  if (X) { sizeTo(x, (int)c.s.i(0, 12)); sizeTo(y, (int)c.s.i(0, 12)); }
  else { sizeTo(x, n); sizeTo(y, n); }
  NoBox nb;
  if (X) {
    if constexpr (dyn<V>) {
      if (args) GADefaults<V, NoBox>::template cFunXd<R>(&a, &b, &x, &y, &nb);
      else GADefaults<V>::template cFunXd<R>(&a, &b, &x, &y);
    }
  } else {
    if (args) GADefaults<V, NoBox>::template cFunNd<R>(&a, &b, &x, &y, &nb);
    else GADefaults<V>::template cFunNd<R>(&a, &b, &x, &y);
  }
  c.check((int)x.size() == n && (int)y.size() == n, "child-size", "children have sizes ", x.size(), ",", y.size(), " parents ", n);
  c.check(flat(a) == flat(a0) && flat(b) == flat(b0), "parent-changed", "a parent was modified");
  const double eps = std::is_same_v<Sc<V>, float> ? 4e-7 : 4e-16;
  for (int i = 0; i < n; i++) {
    const double p = a[i], q = b[i], tol = eps * std::fabs(p) + eps * std::fabs(q);
    c.check(std::fabs(x[i] - (r * p + (1 - r) * q)) <= tol, "arithmetic", "c1[", i, "]=", x[i], " from ", p, ",", q, " ratio ", r);
    c.check(std::fabs(y[i] - (r * q + (1 - r) * p)) <= tol, "arithmetic", "c2[", i, "]=", y[i], " from ", p, ",", q, " ratio ", r);
    c.nontrivial(p != q);
  }
}
template <class V>
static void arithV(pbt::Ctx& c) {
  const bool X = dyn<V> && c.s.chance(0.5), args = c.s.chance(0.5);
  switch (c.s.idx(5)) {
    case 0: arith<V, 1, 5>(c, X, args); break;
    case 1: arith<V, 1, 2>(c, X, args); break;
    case 2: arith<V, 1, 10>(c, X, args); break;
    case 3: arith<V, 9, 10>(c, X, args); break;
    default: arith<V, 1, 3>(c, X, args); break;
  }
}
using A5 = std::array<double, 5>;
using F3 = std::array<float, 3>;
using E4 = Eigen::Array<double, 4, 1>;
using R6 = Eigen::Array<double, 1, 6>;
using V3 = Eigen::Matrix<float, 3, 1>;
using I5 = std::array<int, 5>;
using EI = Eigen::ArrayXi;
using EI3 = Eigen::Array<int, 3, 1>;
using EB = Eigen::Array<bool, Eigen::Dynamic, 1>;
using AC = std::array<unsigned char, 4>;

PBT_TEST(arithmetic_crossover, "container (std/Eigen, fixed/dynamic, float/double, row/column), ratio, form (N or X, with or without an argument object), parents with equal and mixed-magnitude coordinates; children are r*p1+(1-r)*p2 and its mirror, parents untouched, sizes right; non-trivial = parents differ", 60000, 1500000) {
  switch (c.s.idx(8)) {
    case 0: arithV<A5>(c); break;
    case 1: arithV<std::vector<double>>(c); break;
    case 2: arithV<std::vector<float>>(c); break;
    case 3: arithV<E4>(c); break;
    case 4: arithV<Eigen::ArrayXd>(c); break;
    case 5: arithV<R6>(c); break;
    case 6: arithV<Eigen::VectorXd>(c); break;
    default: arithV<F3>(c); break;
  }
}

// ---------------------------------------------------------------- swap and random-pick crossover
template <class V>
static void swapV(pbt::Ctx& c) {
  const int n = pickN<V>(c);
  const V a = gen<V>(c, n, 1), b = gen<V>(c, n, 1);
  const bool X = dyn<V> && c.s.chance(0.5), args = c.s.chance(0.5);
  NoBox nb;
  const auto fa = flat(a), fb = flat(b);
  const int reps = c.s.chance(0.05) ? 400 : 5;
  std::vector<int> cuts(n + 1, 0);
  bool distinct = true;
  for (int i = 0; i < n; i++) distinct &= fa[i] != fb[i];
  for (int rep = 0; rep < reps; rep++) {
    V x, y;
    if (X) { sizeTo(x, (int)c.s.i(0, 12)); sizeTo(y, (int)c.s.i(0, 12)); }
    else { sizeTo(x, n); sizeTo(y, n); }
    if (X) {
      if constexpr (dyn<V>) {
        if (args) GADefaults<V, NoBox>::cFunSwapXs(&a, &b, &x, &y, &nb);
        else GADefaults<V>::cFunSwapXs(&a, &b, &x, &y);
      }
    } else {
      if (args) GADefaults<V, NoBox>::cFunSwapNs(&a, &b, &x, &y, &nb);
      else GADefaults<V>::cFunSwapNs(&a, &b, &x, &y);
    }
    c.check(flat(a) == fa && flat(b) == fb, "parent-changed", "a parent was modified");
    const auto fx = flat(x), fy = flat(y);
    c.check((int)fx.size() == n && (int)fy.size() == n, "child-size", "children have sizes ", fx.size(), ",", fy.size(), " parents ", n);
    int cut = -1;
    for (int k = 0; k <= n && cut < 0; k++) {  // one cut point explains both children
      bool ok1 = true;
      for (int i = 0; i < n; i++) ok1 &= fx[i] == (i < k ? fa[i] : fb[i]) && fy[i] == (i < k ? fb[i] : fa[i]);
      if (ok1) cut = k;
    }
    c.check(cut >= 0, "swap-crossover", "children ", hx::show(fx), " and ", hx::show(fy), " are no one-point crossover of ", hx::show(fa), " and ", hx::show(fb));
    cuts[cut]++;
  }
  c.nontrivial(distinct && n > 1);
  if (reps > 100 && distinct) {  // every inner cut point is reachable, none dominates
    for (int k = 1; k < n; k++) c.check(cuts[k] > 0 || reps < 30 * n, "swap-cut-points", "cut point ", k, " of ", n, " never happened in ", reps, " crossovers");
    for (int k = 0; k <= n; k++) c.check(n < 3 || cuts[k] <= 0.75 * reps, "swap-cut-points", "cut point ", k, " of ", n, " happened ", cuts[k], " times in ", reps);
  }
}
template <class V, int NUM, int DEN>
static void randP(pbt::Ctx& c) {
  constexpr DivCode P = DivEncode<NUM, DEN>::code;
  const double p = (double)NUM / DEN;
  const int n = pickN<V>(c);
  V a = gen<V>(c, n, 1), b = gen<V>(c, n, 1);
  for (int i = 0; i < n; i++) {  // make every coordinate tell the parents apart
    if constexpr (std::is_same_v<Sc<V>, bool>) b[i] = !a[i];
    else b[i] = a[i] + 1;
  }
  const V ca = a, cb = b;
  const bool X = dyn<V> && c.s.chance(0.5), args = c.s.chance(0.5);
  NoBox nb;
  const auto fa = flat(a), fb = flat(b);
  const int reps = c.s.chance(0.1) ? 1000 : 3;
  std::vector<double> k1(n, 0), k2(n, 0);
  for (int rep = 0; rep < reps; rep++) {
    V x, y;
    if (X) { sizeTo(x, (int)c.s.i(0, 12)); sizeTo(y, (int)c.s.i(0, 12)); }
    else { sizeTo(x, n); sizeTo(y, n); }
    if (X) {
      if constexpr (dyn<V>) {
        if (args) GADefaults<V, NoBox>::template cFunRandXs<P>(&ca, &cb, &x, &y, &nb);
        else GADefaults<V>::template cFunRandXs<P>(&ca, &cb, &x, &y);
      }
    } else {
      if (args) GADefaults<V, NoBox>::template cFunRandNs<P>(&ca, &cb, &x, &y, &nb);
      else GADefaults<V>::template cFunRandNs<P>(&ca, &cb, &x, &y);
    }
    c.check(flat(ca) == fa && flat(cb) == fb, "parent-changed", "a parent was modified");
    const auto fx = flat(x), fy = flat(y);
    c.check((int)fx.size() == n && (int)fy.size() == n, "child-size", "children have sizes ", fx.size(), ",", fy.size(), " parents ", n);
    for (int i = 0; i < n; i++) {
      c.check(fx[i] == fa[i] || fx[i] == fb[i], "random-crossover", "c1[", i, "]=", +fx[i], " is neither ", +fa[i], " nor ", +fb[i]);
      c.check(fy[i] == fa[i] || fy[i] == fb[i], "random-crossover", "c2[", i, "]=", +fy[i], " is neither ", +fa[i], " nor ", +fb[i]);
      k1[i] += fx[i] == fa[i];
      k2[i] += fy[i] == fb[i];
    }
  }
  c.nontrivial(n > 1);
  c.note(" p=", p, " n=", n, " reps=", reps, X ? " X" : " N", args ? " args" : "");
  const double t = 8 * std::sqrt(p * (1 - p) * reps) + 1;
  for (int i = 0; i < n && reps > 100; i++) {
    c.check(std::fabs(k1[i] - p * reps) <= t, "random-crossover-rate", "c1[", i, "] came from p1 ", k1[i], " times of ", reps, ", probability ", p);
    c.check(std::fabs(k2[i] - p * reps) <= t, "random-crossover-rate", "c2[", i, "] came from p2 ", k2[i], " times of ", reps, ", probability ", p);
  }
}
template <class V>
static void randV(pbt::Ctx& c) {
  switch (c.s.idx(4)) {
    case 0: randP<V, 1, 2>(c); break;
    case 1: randP<V, 1, 5>(c); break;
    case 2: randP<V, 9, 10>(c); break;
    default: randP<V, 2, 3>(c); break;
  }
}
template <class V>
static void discreteV(pbt::Ctx& c) {
  if (c.s.chance(0.5)) swapV<V>(c);
  else randV<V>(c);
}
PBT_TEST(discrete_crossover, "container x (one-point swap, per-coordinate pick with probability 1/2, 1/5, 9/10, 2/3) x form; children consist of the parents' coordinates as documented, cut points and pick rates follow the law (8 sigma), parents untouched, sizes right; non-trivial = parents differ in more than one coordinate", 60000, 1500000) {
  switch (c.s.idx(10)) {
    case 0: discreteV<A5>(c); break;
    case 1: discreteV<std::vector<double>>(c); break;
    case 2: discreteV<std::vector<int>>(c); break;
    case 3: discreteV<E4>(c); break;
    case 4: discreteV<Eigen::ArrayXd>(c); break;
    case 5: discreteV<R6>(c); break;
    case 6: discreteV<EI>(c); break;
    case 7: discreteV<EB>(c); break;
    case 8: discreteV<AC>(c); break;
    default: discreteV<I5>(c); break;
  }
}

// ---------------------------------------------------------------- initialisation without a box
template <class V, int A, int B, int D>
static void iniR(pbt::Ctx& c) {
  const double lo = (double)A / D, hi = (double)B / D;
  const int n = pickN<V>(c);
  const int reps = 100;
  double sum = 0, mn = 1e300, mx = -1e300;
  const bool f = c.s.chance(0.3);
  for (int r = 0; r < reps; r++) {
    V v;
    sizeTo(v, n);
    for (int i = 0; i < n; i++) v[i] = -12345;
    if (f) GADefaults<V>::template iFunNf<DivEncode<A, D>::code, DivEncode<B, D>::code>(&v);
    else GADefaults<V>::template iFunNd<DivEncode<A, D>::code, DivEncode<B, D>::code>(&v);
    c.check((int)v.size() == n, "init-size", "initialisation changed the size to ", v.size());
    for (int i = 0; i < n; i++) {
      c.check(v[i] >= (Sc<V>)lo && v[i] <= (Sc<V>)hi, "init-range", "v[", i, "]=", v[i], " outside [", lo, ",", hi, "]");
      sum += v[i]; mn = std::min<double>(mn, v[i]); mx = std::max<double>(mx, v[i]);
    }
  }
  const double w = hi - lo, N = (double)reps * n;
  c.nontrivial();
  c.check(std::fabs(sum / N - (lo + hi) / 2) <= 8 * w / std::sqrt(12 * N), "init-uniform", "mean ", sum / N, " on [", lo, ",", hi, "]");
  c.check(mn <= lo + w * 40 / N && mx >= hi - w * 40 / N, "init-uniform", "[", mn, ",", mx, "] does not cover [", lo, ",", hi, "]");
}
template <class V>
static void iniV(pbt::Ctx& c) {
  switch (c.s.idx(3)) {
    case 0: iniR<V, 0, 1, 1>(c); break;
    case 1: iniR<V, -5, 5, 1>(c); break;
    default: iniR<V, 1, 7, 4>(c); break;
  }
}
PBT_TEST(initialisation, "container and compile-time range; 100 initialisations stay in the range, cover it and average to its middle (8 sigma); non-trivial = every case", 6000, 150000) {
  switch (c.s.idx(6)) {
    case 0: iniV<A5>(c); break;
    case 1: iniV<std::vector<double>>(c); break;
    case 2: iniV<E4>(c); break;
    case 3: iniV<Eigen::ArrayXd>(c); break;
    case 4: iniV<R6>(c); break;
    default: iniV<F3>(c); break;
  }
}

// ---------------------------------------------------------------- operators that take their range from a box
template <class V, BoxShape BS, bool REAL>
static void boxed(pbt::Ctx& c) {
  using S = Sc<V>;
  using Box = std::conditional_t<REAL, ContinousBox<V, BS>, DiscretBox<V, BS>>;
  using D = GADefaults<V, Box>;
  Box box;
  const int n = pickN<V>(c);
  std::vector<S> lo(n), hi(n), de(n);
  const bool wide = !REAL && !std::is_same_v<S, bool> && c.s.chance(0.2);
  for (int i = 0; i < n; i++) {
    if (BS == BoxShape::SQUARE_BOX && i) { lo[i] = lo[0]; hi[i] = hi[0]; de[i] = de[0]; continue; }
    if constexpr (std::is_same_v<S, bool>) { lo[i] = 0; hi[i] = 1; }
    else if constexpr (REAL) { lo[i] = (S)c.s.real(-5, 5); hi[i] = lo[i] + (S)c.s.pick({1.0, 0.25, 10.0}); de[i] = (S)c.s.pick({0.1, 0.01, 1.0}); }
    else if (wide) {
      using L = std::numeric_limits<S>;
      do { lo[i] = c.s.chance(0.3) ? L::min() : (S)c.s.raw(UINT64_MAX); hi[i] = c.s.chance(0.3) ? L::max() : (S)c.s.raw(UINT64_MAX); } while (lo[i] == hi[i]);
      if (lo[i] > hi[i]) std::swap(lo[i], hi[i]);
    } else { lo[i] = (S)c.s.i(std::is_unsigned_v<S> ? 0 : -20, 20); hi[i] = lo[i] + (S)c.s.i(1, 9); }
  }
  auto vec = [&](const std::vector<S>& x) { V v; sizeTo(v, n); for (int i = 0; i < n; i++) v[i] = x[i]; return v; };
  if constexpr (dyn<V>) { if (BS == BoxShape::SQUARE_BOX) box.setDimensions(n); }
  if constexpr (BS == BoxShape::SQUARE_BOX) {
    if constexpr (!std::is_same_v<S, bool>) box.setRange(lo[0], hi[0]);
    if constexpr (REAL) box.setDelta(de[0]);
  } else {
    box.setRange(vec(lo), vec(hi));
    if constexpr (REAL) box.setDelta(vec(de));
  }
  c.note(" n=", n, " lo=", hx::show(lo), " hi=", hx::show(hi));
  V v;
  D::template iFun<>(&v, &box);
  c.check((int)v.size() == n, "box-init-size", "initialised ", v.size(), " of ", n);
  for (int i = 0; i < n; i++) c.check(v[i] >= lo[i] && v[i] <= hi[i], "box-init-range", "v[", i, "]=", +v[i], " outside [", +lo[i], ",", +hi[i], "]");
  if (c.s.chance(0.4)) for (int i = 0; i < n; i++) v[i] = c.s.chance(0.5) ? lo[i] : hi[i];
  const V src = v;
  const auto fs = flat(src);
  const int reps = 30 * n + 20;
  std::vector<int> touched(n, 0);
  std::map<long double, int> seen0;
  const int mode = REAL ? 0 : (int)c.s.idx(2);
  const long double others0 = (long double)hi[0] - (long double)lo[0];
  for (int r = 0; r < reps; r++) {
    V w;
    if (c.s.raw(1)) sizeTo(w, n);
    if (mode == 0) D::template mFun<>(&src, &w, &box);
    else if constexpr (!REAL) D::template mFun_s<>(&src, &w, &box);
    c.check(flat(src) == fs, "parent-changed", "the mutation source was modified");
    c.check((int)w.size() == n, "child-size", "mutant of size ", w.size());
    int diff = 0;
    for (int i = 0; i < n; i++) {
      c.check(w[i] >= lo[i] && w[i] <= hi[i], "mutant-range", "w[", i, "]=", +w[i], " outside [", +lo[i], ",", +hi[i], "]");
      if (w[i] != fs[i]) { diff++; touched[i]++; if (i == 0) seen0[(long double)w[i]]++; }
      if (mode == 0 && REAL) c.check(std::fabs((double)w[i] - (double)fs[i]) <= de[i] * (1 + 1e-6), "mutant-step", "step ", w[i] - fs[i], " exceeds ", de[i]);
      if (mode == 0 && !REAL) c.check(std::fabs((long double)w[i] - (long double)fs[i]) <= 1, "mutant-step", "step from ", +fs[i], " to ", +w[i]);
    }
    c.check(diff <= 1 && (diff == 1 || mode == 0), "mutant-one-coordinate", diff, " coordinates changed");
  }
  for (int i = 0; i < n; i++) c.check(touched[i] > 0 || reps < 30 * n, "mutant-coordinates", "coordinate ", i, " of ", n, " never mutated in ", reps, " mutations");
  c.nontrivial(n > 1);
  c.label("wide integer range", wide);
  if (mode == 1 && wide && others0 >= 1024 && touched[0] >= 20) {  // the new values spread over both halves of the range
    int low = 0;
    for (auto& p : seen0) low += p.first < (long double)lo[0] + ((long double)hi[0] - (long double)lo[0]) / 2 ? p.second : 0;
    c.check(std::fabs(low - touched[0] * 0.5) <= 4 * std::sqrt((double)touched[0]) + 1, "symbolic-uniform", low, " of ", touched[0], " new values in the lower half of [", +lo[0], ",", +hi[0], "]");
  }
  if (mode == 1) {  // uniform over the other values
    const double others = (double)((long double)hi[0] - (long double)lo[0]), e = touched[0] / others;
    if (e > 3) for (auto& p : seen0) c.check(std::fabs(p.second - e) <= 8 * std::sqrt(e) + 3, "symbolic-uniform", "value ", (double)p.first, " chosen ", p.second, " times, expected ", e);
    if (others <= 3 && touched[0] >= 60 * others) c.check((double)seen0.size() == others, "symbolic-uniform", "only ", seen0.size(), " of ", others, " other values ever chosen");
  }
}
PBT_TEST(box_operators, "container x box shape x real/integer/boolean box; iFun gives a point of the box, mFun one local step, mFun_s another value of one coordinate (uniform over the others), source untouched; non-trivial = more than one dimension", 8000, 200000) {
  switch (c.s.idx(15)) {
    case 12: boxed<std::vector<int64_t>, BoxShape::SQUARE_BOX, false>(c); break;
    case 13: boxed<std::array<uint64_t, 3>, BoxShape::RECTANGLE_BOX, false>(c); break;
    case 14: boxed<std::array<unsigned, 2>, BoxShape::SQUARE_BOX, false>(c); break;
    case 0: boxed<A5, BoxShape::SQUARE_BOX, true>(c); break;
    case 1: boxed<A5, BoxShape::RECTANGLE_BOX, true>(c); break;
    case 2: boxed<std::vector<double>, BoxShape::SQUARE_BOX, true>(c); break;
    case 3: boxed<std::vector<double>, BoxShape::RECTANGLE_BOX, true>(c); break;
    case 4: boxed<Eigen::ArrayXd, BoxShape::RECTANGLE_BOX, true>(c); break;
    case 5: boxed<E4, BoxShape::SQUARE_BOX, true>(c); break;
    case 6: boxed<I5, BoxShape::SQUARE_BOX, false>(c); break;
    case 7: boxed<std::vector<int>, BoxShape::RECTANGLE_BOX, false>(c); break;
    case 8: boxed<EI, BoxShape::SQUARE_BOX, false>(c); break;
    case 9: boxed<EI3, BoxShape::RECTANGLE_BOX, false>(c); break;
    case 10: boxed<AC, BoxShape::RECTANGLE_BOX, false>(c); break;
    default: boxed<EB, BoxShape::SQUARE_BOX, false>(c); break;
  }
}
