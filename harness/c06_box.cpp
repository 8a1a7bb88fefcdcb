// C06: initialising and clamping always yield a point of the declared shape inside the box; clamping is exact.
#include "boxes.hpp"

template <class V, class Box>
static void initAndClamp(pbt::Ctx& c, Box& b, const bx::Spec<V>& sp) {
  using S = typename array_traits<V>::Scalar_t;
  const int n = sp.n();
  const Box& cb = b;
  // --- initialise
  std::vector<S> seenLo(n, S()), seenHi(n, S());
  const int reps = c.s.chance(0.1) ? 200 : 4;
  std::vector<std::map<long double, int>> hist(n);
  for (int rep = 0; rep < reps; rep++) {
    V v;
    if constexpr (!array_traits<V>::isFixedSize) { if (c.s.chance(0.5)) { bx::Spec<V> o; bx::chooseShape(c, o); bx::sizeTo(v, o.rows, o.cols); } }
    cb.initialize(&v);
    c.check((int)v.size() == n, "init-size", "initialised size ", v.size(), ", expected ", n);
    if constexpr (bx::isMat<V>) c.check(v.rows() == sp.rows && v.cols() == sp.cols, "init-shape", "initialised shape ", v.rows(), "x", v.cols());
    for (int i = 0; i < n; i++) {
      const S x = at(v, i);
      c.check(x >= sp.lo[i] && x <= sp.hi[i], "init-outside", "dimension ", i, " initialised to ", +x, " outside [", +sp.lo[i], ",", +sp.hi[i], "]");
      if (rep == 0 || x < seenLo[i]) seenLo[i] = x;
      if (rep == 0 || x > seenHi[i]) seenHi[i] = x;
      if (reps >= 200) hist[i][(long double)x]++;
    }
  }
  if (reps >= 200)
    for (int i = 0; i < n; i++) {
      const long double w = (long double)sp.hi[i] - sp.lo[i];
      if (std::is_integral_v<S> && w <= 7)  // P(miss) <= 8*(7/8)^200 ~ 2e-11 per dimension
        for (long double k = sp.lo[i]; k <= sp.hi[i]; k++) c.check(hist[i].count(k), "init-support", "dimension ", i, ": value ", (double)k, " of [", +sp.lo[i], ",", +sp.hi[i], "] never drawn in 200");
      else if (w > 1e-3L * std::max(std::fabs((long double)sp.lo[i]), std::fabs((long double)sp.hi[i])))
        c.check(((long double)seenLo[i] - (long double)sp.lo[i]) <= w * 0.2L && ((long double)sp.hi[i] - seenHi[i]) <= w * 0.2L, "init-coverage", "dimension ", i, ": 200 draws span [", +seenLo[i], ",", +seenHi[i], "] of [", +sp.lo[i], ",", +sp.hi[i], "]");
    }
  if constexpr (std::is_integral_v<S> && !std::is_same_v<S, bool>)
    if (reps >= 200)
      for (int i = 0; i < n; i++) {  // wide ranges are not drawn from a coarse grid
        int odd[3] = {0, 0, 0};
        for (auto& kv : hist[i]) for (int k = 0; k < 3; k++) odd[k] += kv.second * (int)(((uint64_t)(S)kv.first >> k) & 1);
        if ((long double)sp.hi[i] - (long double)sp.lo[i] >= 64 && (long double)sp.hi[i] - (long double)sp.lo[i] < 3e15L)  // doubles resolve these
          for (int k = 0; k < 3; k++) c.check(odd[k] > 30 && odd[k] < 170, "init-granularity", "dimension ", i, ": bit ", k, " is set in ", odd[k], " of 200 draws from [", +sp.lo[i], ",", +sp.hi[i], "]");
      }
  // --- clamp
  V v;
  bx::sizeTo(v, sp.rows, sp.cols);
  for (int i = 0; i < n; i++) {
    S x;
    switch (c.s.idx(6)) {
      case 0: x = sp.lo[i]; break;
      case 1: x = sp.hi[i]; break;
      case 2: x = std::numeric_limits<S>::max(); break;
      case 3: x = std::numeric_limits<S>::lowest(); break;
      default: x = bx::smallVal<S>(c); break;
    }
    if constexpr (std::is_floating_point_v<S>) { if (c.s.chance(0.1)) x = c.s.chance(0.5) ? std::numeric_limits<S>::infinity() : -std::numeric_limits<S>::infinity(); }
    at(v, i) = x;
  }
  const auto before = bx::flat(v);
  std::vector<S> want(n);
  bool moved = false;
  for (int i = 0; i < n; i++) { want[i] = before[i] < sp.lo[i] ? sp.lo[i] : before[i] > sp.hi[i] ? sp.hi[i] : before[i]; moved |= want[i] != before[i]; }
  V one = v;
  const int k = (int)c.s.idx(n);
  cb.applyConstraint(&one, k);
  for (int i = 0; i < n; i++) c.check(at(one, i) == (i == k ? want[i] : before[i]), "clamp-one", "clamping dimension ", k, " of ", hx::show(before), " gave ", hx::show(bx::flat(one)));
  cb.applyConstraint(&v);
  for (int i = 0; i < n; i++) c.check(at(v, i) == want[i], "clamp", "clamping ", hx::show(before), " gave ", hx::show(bx::flat(v)), ", nearest point of the box is ", hx::show(want));
  c.nontrivial(moved);
  c.label("clamp moved something", moved);
}

PBT_TEST(discrete_boxes, "container x integer/boolean/real scalar x square/rectangular/compile-time range with bounds at the limits of the type; 4 or 200 initialisations and one arbitrary point to clamp, against nearest-point clamping; non-trivial = clamping had to move the point", 60000, 1500000) {
  bx::discrete(c, [](pbt::Ctx& c, auto& b, auto& sp) { initAndClamp(c, b, sp); });
}
PBT_TEST(continuous_boxes, "as above for continuous boxes over 17 container/shape combinations, infinities included when clamping", 60000, 1500000) {
  bx::continuous(c, [](pbt::Ctx& c, auto& b, auto& sp) { initAndClamp(c, b, sp); });
}

template <class V>
static void gaussian(pbt::Ctx& c, const char* name) {
  using S = typename array_traits<V>::Scalar_t;
  GaussianBox<V> b;
  bx::Spec<V> sp;
  bx::chooseShape(c, sp);
  bx::setDims<V>(b, sp);
  const bool unit = c.s.chance(0.3);
  const double mu = unit ? 0 : c.s.real(-50, 50), sg = unit ? std::ldexp(1, (int)c.s.i(-9, 9)) : std::pow(10.0, c.s.real(-3, 3));
  b.setMu((S)mu);
  b.setSigma((S)sg);
  b.setDelta((S)1);
  c.note(name, " ", sp.rows, "x", sp.cols, " mu=", mu, " sigma=", sg);
  const int n = sp.n(), N = 4000 / n + 1;
  double m = 0, m2 = 0, coarse = 0;
  for (int r = 0; r < N; r++) {
    V v;
    b.initialize(&v);
    c.check((int)v.size() == n, "init-size", "initialised size ", v.size(), ", expected ", n);
    for (int i = 0; i < n; i++) { coarse += (double)at(v, i) == (double)(float)at(v, i); const double z = ((double)at(v, i) - (double)b.mu()) / (double)b.sigma(); m += z; m2 += z * z; }
    const auto before = bx::flat(v);
    b.applyConstraint(&v);
    b.applyConstraint(&v, (int)c.s.idx(n));
    c.check(bx::flat(v) == before, "unbounded-clamp", "clamping changed a point of an unbounded box");
  }
  c.nontrivial();
  const double k = (double)N * n, q = std::sqrt(k);
  if (unit && std::is_same_v<S, double>) c.check(coarse < 0.1 * k, "gauss-granularity", coarse, " of ", k, " draws have the precision of a float only");
  const double slack = 4e-7 * std::fabs(mu) / sg * (std::is_same_v<S, float> ? 1 : 0);
  c.check(std::fabs(m / k) < 8 / q + slack, "gauss-mean", "standardised mean ", m / k);
  c.check(std::fabs(m2 / k - 1) < 8 * std::sqrt(2.0) / q + 4 * slack + slack * slack, "gauss-variance", "standardised second moment ", m2 / k);
}
PBT_TEST(gaussian_boxes, "unbounded boxes over 4 containers: initial points follow N(mu, sigma) (8-sigma test on mean and variance), clamping never changes a point; non-trivial = every case", 600, 12000) {
  switch (c.s.idx(4)) {
    case 0: gaussian<std::vector<double>>(c, "vector<double>"); break;
    case 1: gaussian<std::array<double, 3>>(c, "array<double>"); break;
    case 2: gaussian<Eigen::ArrayXXd>(c, "ArrayXXd"); break;
    default: gaussian<Eigen::Array<float, 4, 1>>(c, "Array4f"); break;
  }
}
