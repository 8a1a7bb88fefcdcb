// C07: one local step changes exactly one coordinate, by at most the box's step size, and stays inside the box.
#include "boxes.hpp"

template <class V, class Box>
static void steps(pbt::Ctx& c, Box& b, const bx::Spec<V>& sp) {
  using S = typename array_traits<V>::Scalar_t;
  constexpr bool isBool = std::is_same_v<S, bool>;
  const int n = sp.n();
  const Box& cb = b;
  V v;
  bx::sizeTo(v, sp.rows, sp.cols);
  for (int i = 0; i < n; i++) {
    switch (c.s.idx(4)) {
      case 0: at(v, i) = sp.lo[i]; break;
      case 1: at(v, i) = sp.hi[i]; break;
      default:
        if constexpr (isBool) at(v, i) = (bool)c.s.raw(1);
        else if constexpr (std::is_floating_point_v<S>) at(v, i) = std::min(sp.hi[i], std::max(sp.lo[i], (S)(sp.lo[i] + ((double)sp.hi[i] - (double)sp.lo[i]) * c.s.unit())));
        else at(v, i) = (S)c.s.i((int64_t)sp.lo[i], (int64_t)sp.hi[i]);
    }
  }
  const V start = v;
  const bool walk = c.s.chance(0.5);  // a walk, or many single steps from the same point
  const int N = 30 * n + 60;
  std::vector<int> up(n, 0), down(n, 0), still(1, 0);
  std::vector<double> biggest(n, 0);
  bool atEdge = false;
  for (int k = 0; k < N; k++) {
    if (!walk) v = start;
    const auto before = bx::flat(v);
    cb.applyDelta(&v);
    c.check((int)v.size() == n, "step-size", "the step changed the number of coordinates");
    int changed = -1;
    for (int i = 0; i < n; i++) {
      const S x = at(v, i);
      c.check(x >= sp.lo[i] && x <= sp.hi[i], "step-outside", "step moved dimension ", i, " from ", +before[i], " to ", +x, " outside [", +sp.lo[i], ",", +sp.hi[i], "]");
      if (x == before[i]) continue;
      c.check(changed < 0, "step-many", "one step changed dimensions ", changed, " and ", i);
      changed = i;
      const long double d = (long double)x - (long double)before[i];
      const long double eps = std::is_floating_point_v<S> ? 4 * (long double)std::numeric_limits<S>::epsilon() * (std::fabs((long double)before[i]) + std::fabs((long double)sp.delta[i])) : 0;
      c.check(std::fabs(d) <= (long double)sp.delta[i] + eps, "step-too-long", "step moved dimension ", i, " from ", +before[i], " to ", +x, ", more than ", +sp.delta[i]);
      if constexpr (std::is_integral_v<S>) c.check(std::fabs(d) == 1, "step-not-unit", "integer step of ", (double)d);
      (d > 0 ? up : down)[i]++;
      biggest[i] = std::max(biggest[i], (double)std::fabs(d));
    }
    if (changed < 0) {
      still[0]++;
      if (isBool) c.fail("bool-not-flipped", "a boolean step left ", hx::show(before), " unchanged");
      bool edge = false;
      for (int i = 0; i < n; i++) edge |= before[i] == sp.lo[i] || before[i] == sp.hi[i];
      if constexpr (std::is_integral_v<S>) c.check(edge, "step-lost", "an integer step left interior point ", hx::show(before), " unchanged");
      atEdge |= edge;
    }
  }
  c.nontrivial(n > 1);
  c.label("touched an edge", atEdge);
  c.label("walk", walk);
  // every coordinate and both directions are reachable: from a fixed interior point with ~30 visits per coordinate
  if (!walk)
    for (int i = 0; i < n; i++) {
      const bool in = at(start, i) > sp.lo[i] && at(start, i) < sp.hi[i];
      const bool tiny = std::is_floating_point_v<S> && !((double)sp.delta[i] > 1e-4 * std::fabs((double)at(start, i)));
      if (!tiny && (isBool || in)) {
        // P(no visit) ~ (1-1/n)^(30n+60) < e^-30
        c.check(up[i] + down[i] > 0, "step-never", "dimension ", i, " of ", n, " never changed in ", N, " steps");
        if (!isBool && N >= 60 * n) c.check(up[i] > 0 && down[i] > 0, "step-one-sided", "dimension ", i, " only ever moved one way in ", up[i] + down[i], " moves");
        if (std::is_floating_point_v<S> && (double)sp.hi[i] - (double)at(start, i) > (double)sp.delta[i] && (double)at(start, i) - (double)sp.lo[i] > (double)sp.delta[i] && up[i] + down[i] >= 25)
          c.check(biggest[i] > 0.2 * (double)sp.delta[i], "step-too-short", "dimension ", i, ": largest of ", up[i] + down[i], " steps is ", biggest[i], ", step size ", sp.delta[i]);
      }
    }
}
PBT_TEST(discrete_steps, "container x scalar x box kind with bounds at the limits of the type, start points at and between the bounds; 30n+60 steps as a walk or from one point: one coordinate per step, unit length, inside the box, every coordinate reachable; non-trivial = more than one dimension", 40000, 1000000) {
  bx::discrete(c, [](pbt::Ctx& c, auto& b, auto& sp) { steps(c, b, sp); });
}
PBT_TEST(continuous_steps, "as above for continuous boxes: length at most the box's step size, inside the box, both directions, and large enough to be the declared step size", 40000, 1000000) {
  bx::continuous(c, [](pbt::Ctx& c, auto& b, auto& sp) { steps(c, b, sp); });
}
template <class V>
static void gaussian(pbt::Ctx& c) {
  using S = typename array_traits<V>::Scalar_t;
  GaussianBox<V> b;
  bx::Spec<V> sp;
  bx::chooseShape(c, sp);
  bx::setDims<V>(b, sp);
  b.setMu((S)c.s.real(-50, 50));
  b.setSigma((S)1);
  const S d = (S)std::pow(10.0, c.s.real(-2, 3));
  b.setDelta(d);
  const int n = sp.n();
  sp.lo.assign(n, std::numeric_limits<S>::lowest() / 4);
  sp.hi.assign(n, std::numeric_limits<S>::max() / 4);
  sp.delta.assign(n, d);
  c.check(std::isinf(b.min()) && b.min() < 0 && std::isinf(b.max()) && b.max() > 0 && std::isinf(b.min(0)) && std::isinf(b.max(0)), "box-bounds", "an unbounded box reports bounds");
  const GaussianBox<V>& cb = b;
  c.check(cb.delta() == d && cb.delta(0) == d && cb.sigma() == (S)1 && cb.variance() == (S)1 && b.dimensions() == n, "box-delta", "an unbounded box does not report what was set");
  c.note("unbounded ", sp.rows, "x", sp.cols, " delta=", d);
  V v;
  b.initialize(&v);
  c.nontrivial(n > 1);
  double big = 0;
  for (int k = 0; k < 200; k++) {
    const auto before = bx::flat(v);
    b.applyDelta(&v);
    int ch = 0;
    for (int i = 0; i < n; i++) {
      const double m = std::fabs((double)at(v, i) - (double)before[i]);
      ch += m != 0;
      big = std::max(big, m);
      c.check(m <= (double)d + 4 * (double)std::numeric_limits<S>::epsilon() * (std::fabs((double)before[i]) + d), "step-too-long", "unbounded step of ", m, " exceeds ", d);
    }
    c.check(ch <= 1, "step-many", "one step changed ", ch, " dimensions");
  }
  c.check(big > 0.5 * (double)d || (double)d < 1e-4 * 50, "step-too-short", "largest of 200 steps is ", big, ", step size ", d);
}
PBT_TEST(gaussian_steps, "unbounded boxes: 200 steps of at most the step size on one coordinate; non-trivial = more than one dimension", 3000, 60000) {
  switch (c.s.idx(4)) {
    case 0: gaussian<std::vector<double>>(c); break;
    case 1: gaussian<std::array<double, 3>>(c); break;
    case 2: gaussian<Eigen::ArrayXXd>(c); break;
    default: gaussian<Eigen::Array<float, 4, 1>>(c); break;
  }
}
