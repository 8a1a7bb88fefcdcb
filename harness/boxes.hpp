// Box kinds shared by C06 (initialise / clamp) and C07 (local step).
#pragma once
#include "common.hpp"
#include <HeuristicFlow/EAGlobal>
using namespace heu;

namespace bx {
using heu::array_traits;

template <class V>
constexpr bool isMat = !array_traits<V>::isVector;
template <class V>
constexpr bool isFixed = array_traits<V>::isFixedSize;

template <class S>
S smallVal(pbt::Ctx& c) {
  if constexpr (std::is_same_v<S, bool>) return c.s.raw(1);
  else if constexpr (std::is_floating_point_v<S>) {
    switch (c.s.idx(4)) {
      case 0: return (S)c.s.i(-10, 10);
      case 1: return (S)c.s.real(-1e3, 1e3);
      case 2: return (S)(c.s.real(-1, 1) * std::pow(10.0, (double)c.s.i(-12, 12)));
      default: return (S)c.s.real(-1, 1);
    }
  } else {
    using L = std::numeric_limits<S>;
    switch (c.s.idx(5)) {
      case 0: return L::max();
      case 1: return L::min();
      default: return (S)c.s.i(std::max<int64_t>(-20, (int64_t)std::max<long double>((long double)L::min(), -20)), 40);
    }
  }
}
// a strictly increasing pair; integers: narrow ranges at the ends of the type, all of the type and anything between
template <class S>
std::pair<S, S> range(pbt::Ctx& c) {
  if constexpr (std::is_floating_point_v<S>) {
    S a = smallVal<S>(c), b = smallVal<S>(c);
    if (c.s.chance(0.15)) b = std::nextafter(a, std::numeric_limits<S>::max());
    if (a > b) std::swap(a, b);
    if (a == b) b = a + (S)1 + std::fabs(a);
    return {a, b};
  } else if constexpr (std::is_same_v<S, bool>) {
    return {false, true};
  } else {
    using L = std::numeric_limits<S>;
    const long double tmin = std::max<long double>((long double)L::min(), -4e18L), tmax = std::min<long double>((long double)L::max(), 4e18L);
    int64_t lo, hi;
    switch (c.s.idx(8)) {
      case 5: return {L::min(), L::max()};
      case 6: case 7: {  // anywhere, as wide as it comes
        S a = (S)c.s.raw(UINT64_MAX), b = (S)c.s.raw(UINT64_MAX);
        if (a == b) b = (S)(a == L::max() ? L::min() : a + 1);
        return {std::min(a, b), std::max(a, b)};
      }
      case 0: lo = (int64_t)tmin; hi = lo + c.s.i(1, 30); break;
      case 1: hi = (int64_t)tmax; lo = hi - c.s.i(1, 30); break;
      case 2: lo = (int64_t)std::max<long double>(tmin, -128); hi = (int64_t)std::min<long double>(tmax, 255); break;
      default: lo = c.s.i((int64_t)std::max<long double>(tmin, -20), 20); hi = lo + c.s.i(1, 30); break;
    }
    return {(S)lo, (S)hi};
  }
}

template <class V>
void sizeTo(V& v, int r, int k) {
  if constexpr (!isFixed<V>) {
    if constexpr (isMat<V>) v.resize(r, k);
    else v.resize(r * k);
  }
}
template <class V>
std::vector<typename array_traits<V>::Scalar_t> flat(const V& v) {
  std::vector<typename array_traits<V>::Scalar_t> o;
  for (int i = 0; i < (int)v.size(); i++) o.push_back(at(v, i));
  return o;
}

// what a case knows about its box
template <class V>
struct Spec {
  using S = typename array_traits<V>::Scalar_t;
  std::vector<S> lo, hi, delta;
  int rows = 1, cols = 1;
  int n() const { return rows * cols; }
};

template <class V>
void chooseShape(pbt::Ctx& c, Spec<V>& sp) {
  if constexpr (isFixed<V>) {
    if constexpr (isMat<V>) { sp.rows = array_traits<V>::rowsCT; sp.cols = array_traits<V>::colsCT; }
    else { sp.rows = array_traits<V>::sizeCT; sp.cols = 1; }
  } else if constexpr (isMat<V>) {
    const int top = c.s.chance(0.993) ? 5 : 20;
    sp.rows = (int)c.s.i(1, top); sp.cols = (int)c.s.i(1, top);
    if constexpr (V::RowsAtCompileTime != Eigen::Dynamic) sp.rows = V::RowsAtCompileTime;
    if constexpr (V::ColsAtCompileTime != Eigen::Dynamic) sp.cols = V::ColsAtCompileTime;
  } else {
    sp.rows = (int)c.s.i(1, c.s.chance(0.993) ? 12 : 400); sp.cols = 1;
  }
}
template <class V, class Box>
void setDims(Box& b, const Spec<V>& sp) {
  if constexpr (!isFixed<V>) {
    if constexpr (isMat<V>) b.setDimensions(sp.rows, sp.cols);
    else b.setDimensions(sp.n());
  }
}

template <class V, class Box>
void checkShape(pbt::Ctx& c, const Box& b, const Spec<V>& sp) {
  c.check(b.dimensions() == sp.n(), "dimensions", "box reports ", b.dimensions(), " dimensions, expected ", sp.n());
  if constexpr (isMat<V>) c.check(b.boxRows() == sp.rows && b.boxCols() == sp.cols, "box-shape", "box reports ", b.boxRows(), "x", b.boxCols(), ", expected ", sp.rows, "x", sp.cols);
  for (int i = 0; i < sp.n(); i++) c.check(b.min(i) == sp.lo[i] && b.max(i) == sp.hi[i], "box-bounds", "dimension ", i, " reports [", +b.min(i), ",", +b.max(i), "], set [", +sp.lo[i], ",", +sp.hi[i], "]");
}

// kind: 0 discrete square, 1 discrete rectangle, 2 continuous square, 3 continuous rectangle
template <class V, int KIND, class F>
void withBox(pbt::Ctx& c, const char* name, F f) {
  using S = typename array_traits<V>::Scalar_t;
  Spec<V> sp;
  chooseShape(c, sp);
  using Box = std::conditional_t<KIND == 0, DiscretBox<V, BoxShape::SQUARE_BOX>,
              std::conditional_t<KIND == 1, DiscretBox<V, std::is_same_v<S, bool> ? BoxShape::SQUARE_BOX : BoxShape::RECTANGLE_BOX>,
              std::conditional_t<KIND == 2, ContinousBox<V, BoxShape::SQUARE_BOX>, ContinousBox<V, BoxShape::RECTANGLE_BOX>>>>;
  Box b;
  if (c.s.chance(0.25)) {  // the box served another purpose before
    Spec<V> old;
    chooseShape(c, old);
    setDims<V>(b, old);
    if constexpr (KIND == 0 || KIND == 2) {
      auto r = range<S>(c);
      if constexpr (!std::is_same_v<S, bool>) b.setRange(r.first, r.second);
      if constexpr (KIND == 2) b.setDelta((S)1);
    } else {
      V lo, hi;
      sizeTo(lo, old.rows, old.cols);
      sizeTo(hi, old.rows, old.cols);
      for (int i = 0; i < old.n(); i++) { auto r = range<S>(c); at(lo, i) = r.first; at(hi, i) = r.second; }
      b.setRange(lo, hi);
      if constexpr (KIND == 3) { for (int i = 0; i < old.n(); i++) at(hi, i) = (S)1; b.setDelta(hi); }
    }
    c.label("reconfigured");
  }
  setDims<V>(b, sp);
  const int n = sp.n();
  if constexpr (KIND == 0 || KIND == 2) {
    auto r = range<S>(c);
    sp.lo.assign(n, r.first);
    sp.hi.assign(n, r.second);
    if constexpr (!std::is_same_v<S, bool>) {
      if (c.s.chance(0.3)) { b.min() = r.first; b.max() = r.second; } else b.setRange(r.first, r.second);
    }
  } else {
    V lo, hi;
    sizeTo(lo, sp.rows, sp.cols);
    sizeTo(hi, sp.rows, sp.cols);
    for (int i = 0; i < n; i++) { auto r = range<S>(c); at(lo, i) = r.first; at(hi, i) = r.second; sp.lo.push_back(r.first); sp.hi.push_back(r.second); }
    c.check((int)b.min().size() == n && (int)b.max().size() == n, "box-shape", "after setDimensions() the bounds have ", b.min().size(), " and ", b.max().size(), " entries instead of ", n);
    if constexpr (isMat<V>) c.check(b.min().rows() == sp.rows && b.max().rows() == sp.rows && b.min().cols() == sp.cols && b.max().cols() == sp.cols, "box-shape", "after setDimensions() the bounds are ", b.min().rows(), "x", b.min().cols(), " and ", b.max().rows(), "x", b.max().cols());
    switch (c.s.idx(4)) {
      case 0: b.min() = lo; b.max() = hi; break;
      case 1: for (int i = 0; i < n; i++) { at(b.min(), i) = sp.lo[i]; at(b.max(), i) = sp.hi[i]; } break;
      default: b.setRange(lo, hi);
    }
  }
  if constexpr (KIND >= 2) {
    auto dl = [&](int i) { double w = (double)sp.hi[i] - (double)sp.lo[i]; S d = (S)(w * c.s.pick({0.001, 0.05, 0.3, 1.0, 3.0})); return d > 0 ? d : std::numeric_limits<S>::min(); };
    if constexpr (KIND == 2) { S d = dl(0); sp.delta.assign(n, d); b.setDelta(d); }
    else { V d; sizeTo(d, sp.rows, sp.cols); for (int i = 0; i < n; i++) { at(d, i) = dl(i); sp.delta.push_back(at(d, i)); } if (c.s.chance(0.5)) b.setDelta(d); else if (c.s.chance(0.5)) b.delta() = d; else { c.check((int)b.delta().size() == n, "box-shape", "after setDimensions() delta has ", b.delta().size(), " entries instead of ", n); for (int i = 0; i < n; i++) at(b.delta(), i) = sp.delta[i]; } }
    for (int i = 0; i < n; i++) c.check(b.delta(i) == sp.delta[i], "box-delta", "dimension ", i, " reports step ", b.delta(i), ", set ", sp.delta[i]);
    if constexpr (isMat<V>) for (int i = 0; i < n; i++) c.check(b.delta(i % sp.rows, i / sp.rows) == sp.delta[i], "box-delta", "entry (", i % sp.rows, ",", i / sp.rows, ") reports step ", b.delta(i % sp.rows, i / sp.rows));
  } else {
    sp.delta.assign(n, (S)1);
  }
  c.note(name, " ", sp.rows, "x", sp.cols, " lo=", hx::show(sp.lo), " hi=", hx::show(sp.hi), KIND >= 2 ? " delta=" : "", KIND >= 2 ? hx::show(sp.delta) : "");
  c.label(name);
  checkShape(c, b, sp);
  const Box& cb = b;
  if constexpr (KIND == 0 || KIND == 2) c.check(cb.min() == sp.lo[0] && cb.max() == sp.hi[0], "box-bounds", "min()/max() differ from the range that was set");
  else c.check(flat<V>(cb.min()) == sp.lo && flat<V>(cb.max()) == sp.hi, "box-bounds", "min()/max() differ from the range that was set");
  if constexpr (KIND == 2) c.check(cb.delta() == sp.delta[0] && b.delta() == sp.delta[0], "box-delta", "delta() differs from the step that was set");
  if constexpr (KIND == 3) c.check(flat<V>(cb.delta()) == sp.delta, "box-delta", "delta() differs from the steps that were set");
  if (c.s.chance(0.2)) {  // a copy is the same box
    Box d(b);
    b = Box();
    checkShape(c, d, sp);
    return f(c, d, sp);
  }
  f(c, b, sp);
}
// boxes whose range is part of the type
template <class V, class Box, class F>
void withFixed(pbt::Ctx& c, const char* name, double lo, double hi, double delta, F f) {
  using S = typename array_traits<V>::Scalar_t;
  Spec<V> sp;
  chooseShape(c, sp);
  Box b;
  setDims<V>(b, sp);
  sp.lo.assign(sp.n(), (S)lo);
  sp.hi.assign(sp.n(), (S)hi);
  sp.delta.assign(sp.n(), (S)delta);
  c.note(name, " ", sp.rows, "x", sp.cols, " lo=", lo, " hi=", hi);
  c.label(name);
  checkShape(c, b, sp);
  c.check(b.min() == (S)lo && b.max() == (S)hi, "box-bounds", name, " reports [", +b.min(), ",", +b.max(), "]");
  f(c, b, sp);
}

template <class F>
void discrete(pbt::Ctx& c, F f) {
  using namespace Eigen;
  switch (c.s.idx(27)) {
    case 0: withBox<std::array<int, 5>, 0>(c, "discrete square array<int>", f); break;
    case 1: withBox<std::vector<int>, 0>(c, "discrete square vector<int>", f); break;
    case 2: withBox<Array<int, 4, 1>, 0>(c, "discrete square Array4i", f); break;
    case 3: withBox<ArrayXi, 0>(c, "discrete square ArrayXi", f); break;
    case 4: withBox<Array<int, 2, 3>, 0>(c, "discrete square Array23i", f); break;
    case 5: withBox<ArrayXXi, 0>(c, "discrete square ArrayXXi", f); break;
    case 6: withBox<std::array<uint8_t, 4>, 0>(c, "discrete square array<uint8>", f); break;
    case 7: withBox<std::vector<unsigned>, 0>(c, "discrete square vector<unsigned>", f); break;
    case 8: withBox<std::array<int8_t, 3>, 0>(c, "discrete square array<int8>", f); break;
    case 9: withBox<std::vector<int64_t>, 0>(c, "discrete square vector<int64>", f); break;
    case 10: withBox<std::array<bool, 10>, 0>(c, "boolean array", f); break;
    case 11: withBox<Array<bool, 6, 1>, 0>(c, "boolean Array6", f); break;
    case 12: withBox<Array<bool, Dynamic, Dynamic>, 0>(c, "boolean ArrayXX", f); break;
    case 13: withBox<std::array<double, 3>, 0>(c, "discrete square array<double>", f); break;
    case 14: withBox<std::array<int, 5>, 1>(c, "discrete rectangle array<int>", f); break;
    case 15: withBox<std::vector<int>, 1>(c, "discrete rectangle vector<int>", f); break;
    case 16: withBox<Array<int, 2, 3>, 1>(c, "discrete rectangle Array23i", f); break;
    case 17: withBox<ArrayXXi, 1>(c, "discrete rectangle ArrayXXi", f); break;
    case 18: withBox<Array<uint8_t, Dynamic, 1>, 1>(c, "discrete rectangle ArrayX<uint8>", f); break;
    case 22: withBox<std::vector<uint64_t>, 0>(c, "discrete square vector<uint64>", f); break;
    case 23: withBox<VectorXi, 1>(c, "discrete rectangle VectorXi", f); break;
    case 24: withBox<Array<int, 2, 3, RowMajor>, 0>(c, "discrete square row-major Array23i", f); break;
    case 25: withBox<Matrix<int64_t, Dynamic, 2>, 1>(c, "discrete rectangle MatrixX2<int64>", f); break;
    case 26: withBox<std::array<short, 2>, 1>(c, "discrete rectangle array<short>", f); break;
    case 19: withFixed<std::array<int, 4>, FixedDiscreteBox<std::array<int, 4>, -3, 6>>(c, "compile-time discrete array<int>", -3, 6, 1, f); break;
    case 20: withFixed<ArrayXXi, FixedDiscreteBox<ArrayXXi, 10, 12>>(c, "compile-time discrete ArrayXXi", 10, 12, 1, f); break;
    default: withFixed<std::vector<uint8_t>, FixedDiscreteBox<std::vector<uint8_t>, 0, 255>>(c, "compile-time discrete vector<uint8>", 0, 255, 1, f); break;
  }
}
template <class F>
void continuous(pbt::Ctx& c, F f) {
  using namespace Eigen;
  switch (c.s.idx(22)) {
    case 0: withBox<std::array<double, 4>, 2>(c, "continuous square array<double>", f); break;
    case 1: withBox<std::vector<double>, 2>(c, "continuous square vector<double>", f); break;
    case 2: withBox<Array4d, 2>(c, "continuous square Array4d", f); break;
    case 3: withBox<ArrayXd, 2>(c, "continuous square ArrayXd", f); break;
    case 4: withBox<Array<double, 2, 3>, 2>(c, "continuous square Array23d", f); break;
    case 5: withBox<ArrayXXf, 2>(c, "continuous square ArrayXXf", f); break;
    case 6: withBox<std::array<float, 3>, 2>(c, "continuous square array<float>", f); break;
    case 7: withBox<std::array<double, 4>, 3>(c, "continuous rectangle array<double>", f); break;
    case 8: withBox<std::vector<double>, 3>(c, "continuous rectangle vector<double>", f); break;
    case 9: withBox<Array4d, 3>(c, "continuous rectangle Array4d", f); break;
    case 10: withBox<ArrayXf, 3>(c, "continuous rectangle ArrayXf", f); break;
    case 11: withBox<Array<double, 2, 3>, 3>(c, "continuous rectangle Array23d", f); break;
    case 12: withBox<ArrayXXf, 3>(c, "continuous rectangle ArrayXXf", f); break;
    case 17: withBox<VectorXd, 2>(c, "continuous square VectorXd", f); break;
    case 18: withBox<MatrixXd, 3>(c, "continuous rectangle MatrixXd", f); break;
    case 19: withBox<Matrix<double, 2, 3, RowMajor>, 2>(c, "continuous square row-major Matrix23d", f); break;
    case 20: withBox<Matrix<float, 3, Dynamic>, 3>(c, "continuous rectangle Matrix3Xf", f); break;
    case 21: withBox<Array<double, 1, 5>, 3>(c, "continuous rectangle row Array15d", f); break;
    case 13: withFixed<std::array<double, 3>, FixedContinousBox17<std::array<double, 3>, encode(-2.5), encode(7.0), encode(0.125)>>(c, "compile-time continuous array<double>", -2.5, 7, 0.125, f); break;
    case 14: withFixed<ArrayXXf, FixedContinousBox17<ArrayXXf, encode(-10.0f), encode(5.0f), encode(0.5f)>>(c, "compile-time continuous ArrayXXf", -10, 5, 0.5, f); break;
    case 15: withFixed<ArrayXd, FixedContinousBox17<ArrayXd, encode(0.0), encode(100.0), encode(30.0)>>(c, "compile-time continuous ArrayXd", 0, 100, 30, f); break;
#if __cplusplus >= 202002L
    default: withFixed<ArrayXd, FixedContinousBox20<ArrayXd, -4.0, 4.0, 0.25>>(c, "compile-time C++20 continuous ArrayXd", -4, 4, 0.25, f); break;
#else
    default: withFixed<Array4f, FixedContinousBox17<Array4f, encode(1.0f), encode(1.5f), encode(0.01f)>>(c, "compile-time continuous Array4f", 1, 1.5, 0.01f, f); break;
#endif
  }
}
}  // namespace bx
