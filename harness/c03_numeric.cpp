// C03: factorials, combinations, extrema, sign and the chaotic sequence are exact / self-consistent.
#include "common.hpp"
#include <HeuristicFlow/src/Global/LogisticChaos.hpp>
#include <utility>
using namespace heu;
typedef unsigned __int128 u128;

template <class I>
static void factOne(pbt::Ctx& c, const char* tn) {
  // largest n with n! representable
  int top = 0;
  for (u128 f = 1; top < 40 && f * (top + 1) <= (u128)std::numeric_limits<I>::max(); top++) f *= top + 1;
  const int n = (int)c.s.i(0, top);
  u128 f = 1;
  for (int k = 2; k <= n; k++) f *= k;
  const I got = fractorial<I>(I(n));
  c.note(tn, " ", n, "!");
  c.nontrivial(n >= 2);
  c.check((u128)got == f, "factorial", tn, " ", n, "! = ", (uint64_t)got, ", expected ", (uint64_t)f);
}
PBT_TEST(factorial, "type and n with representable n!; exact value; non-trivial = n >= 2", 20000, 20000) {
  switch (c.s.idx(4)) {
    case 0: factOne<int>(c, "int"); break;
    case 1: factOne<size_t>(c, "size_t"); break;
    case 2: factOne<int64_t>(c, "int64"); break;
    default: factOne<uint32_t>(c, "uint32"); break;
  }
}

template <class I>
static void chooseOne(pbt::Ctx& c, const char* tn) {
  const u128 top = (u128)std::numeric_limits<I>::max();
  const u128 cap = (u128)1 << 100;
  static std::vector<std::vector<u128>> tri = [cap] {  // saturating Pascal triangle
    std::vector<std::vector<u128>> t(401);
    for (int n = 0; n <= 400; n++) {
      t[n].assign(n + 1, 1);
      for (int k = 1; k < n; k++) t[n][k] = std::min(cap, t[n - 1][k - 1] + t[n - 1][k]);
    }
    return t;
  }();
  u128 N, K, want;
  if (c.s.chance(0.3)) {  // huge N, the result is representable for few K
    N = c.s.chance(0.3) ? top - c.s.raw(5) : (u128)c.s.i(1, (int64_t)std::min<u128>(top, (u128)INT64_MAX));
    K = 0; want = 1;
    const u128 k = c.s.raw(4);
    while (K < k && want * (N - K) / (K + 1) <= top && want < ((u128)1 << 63)) { want = want * (N - K) / (K + 1); K++; }
    if (c.s.chance(0.5)) K = N - K;
    c.label("huge N");
  } else {
    const int n = (int)(c.s.chance(0.5) ? c.s.i(0, 70) : c.s.i(0, 400));
    N = std::min<u128>(n, top);
    int k = (int)c.s.i(0, (int)N);
    while (tri[(int)N][k] > top) k = k <= (int)N / 2 ? k - 1 : k + 1;
    // half the time the largest result that fits
    if (c.s.chance(0.5)) while (k < (int)N / 2 && tri[(int)N][k + 1] <= top) k++;
    K = k;
    want = tri[(int)N][k];
  }
  const I got = NchooseK<I>(I(N), I(K));
  c.note(tn, " C(", (uint64_t)N, ",", (uint64_t)K, ")");
  c.nontrivial(K > 0 && K < N);
  c.label("N>20", N > 20);
  c.label("close to the limit", want > top / 4);
  c.check((u128)got == want, "combination", tn, " C(", (uint64_t)N, ",", (uint64_t)K, ") = ", (uint64_t)got, ", expected ", (uint64_t)want);
}
PBT_TEST(combinations, "type, N (up to the limit of the type) and K with a representable C(N,K), against a Pascal triangle and 128-bit arithmetic; half of them the largest result that fits; non-trivial = 0 < K < N", 100000, 2000000) {
  switch (c.s.idx(5)) {
    case 0: chooseOne<int>(c, "int"); break;
    case 1: chooseOne<size_t>(c, "size_t"); break;
    case 2: chooseOne<uint32_t>(c, "uint32"); break;
    case 3: chooseOne<short>(c, "short"); break;
    default: chooseOne<int64_t>(c, "int64"); break;
  }
}

template <class T, size_t... I>
static void extremeOf(pbt::Ctx& c, const std::vector<T>& v, std::index_sequence<I...>) {
  const T mn = heu::min(v[I]...), mx = heu::max(v[I]...);
  c.check(mn == *std::min_element(v.begin(), v.end()), "minimum", "min of ", hx::show(v), " = ", mn);
  c.check(mx == *std::max_element(v.begin(), v.end()), "maximum", "max of ", hx::show(v), " = ", mx);
}
template <class T>
static std::vector<T> anyOf(pbt::Ctx& c, size_t n) {
  std::vector<T> v(n);
  for (auto& x : v) x = c.s.chance(0.5) ? (T)c.s.raw(4) : (T)c.s.raw(UINT64_MAX);
  return v;
}
template <class T>
static void extremes(pbt::Ctx& c, std::vector<T> v) {
  switch (v.size()) {
    case 2: extremeOf(c, v, std::make_index_sequence<2>()); break;
    case 3: extremeOf(c, v, std::make_index_sequence<3>()); break;
    case 4: extremeOf(c, v, std::make_index_sequence<4>()); break;
    case 5: extremeOf(c, v, std::make_index_sequence<5>()); break;
    case 6: extremeOf(c, v, std::make_index_sequence<6>()); break;
    case 7: extremeOf(c, v, std::make_index_sequence<7>()); break;
    default: extremeOf(c, v, std::make_index_sequence<8>()); break;
  }
}
PBT_TEST(extrema, "2..8 ints or doubles with ties; run-time min/max against the standard library; non-trivial = not all equal", 40000, 800000) {
  const size_t n = (size_t)c.s.i(2, 8);
  if (c.s.chance(0.3)) {
    if (c.s.chance(0.5)) { auto v = anyOf<int64_t>(c, n); c.nontrivial(std::set<int64_t>(v.begin(), v.end()).size() > 1); c.note(hx::show(v)); extremes(c, v); }
    else { auto v = anyOf<size_t>(c, n); c.nontrivial(std::set<size_t>(v.begin(), v.end()).size() > 1); c.note(hx::show(v)); extremes(c, v); }
  } else if (c.s.chance(0.5)) {
    std::vector<int> v(n);
    for (auto& x : v) x = c.s.chance(0.5) ? (int)c.s.i(-3, 3) : (int)c.s.i(INT32_MIN, INT32_MAX);
    c.note(hx::show(v));
    c.nontrivial(std::set<int>(v.begin(), v.end()).size() > 1);
    extremes(c, v);
  } else {
    std::vector<double> v(n);
    for (auto& x : v) x = c.s.chance(0.8) ? c.s.real(-100, 100) : c.s.chance(0.5) ? c.s.real(-1e300, 1e300) : c.s.real(-1e-300, 1e-300);
    c.note(hx::show(v));
    c.nontrivial(std::set<double>(v.begin(), v.end()).size() > 1);
    extremes(c, v);
  }
}

#ifndef TABLE_SEED
#define TABLE_SEED 1
#endif
constexpr uint64_t cmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
constexpr int ctVal(size_t row, size_t k) {
  const uint64_t r = cmix(cmix(row * 16 + k) ^ (TABLE_SEED * 77777777ull));
  return r % 3 == 0 ? int(r >> 32) : int((r >> 32) % 9) - 4;
}
struct CtRow { std::vector<int> v; int mn, mx; };
template <size_t Row, size_t... K>
static CtRow ctRow(std::index_sequence<K...>) {
  return {{ctVal(Row, K)...}, min_v<int, ctVal(Row, K)...>, max_v<int, ctVal(Row, K)...>};
}
template <size_t... R>
static std::vector<CtRow> ctTable(std::index_sequence<R...>) { return {ctRow<R>(std::make_index_sequence<1 + R % 9>())...}; }
PBT_TEST(extrema_compile_time, "270 integer packs of 1..9 values drawn from the seed at compile time; non-trivial = pack of at least 2", 270, 270) {
  static const auto T = ctTable(std::make_index_sequence<270>());
  const auto& r = T[c.s.idx(270)];
  c.note(hx::show(r.v));
  c.nontrivial(r.v.size() > 1);
  c.check(r.mn == *std::min_element(r.v.begin(), r.v.end()), "minimum", "compile-time min of ", hx::show(r.v), " = ", r.mn);
  c.check(r.mx == *std::max_element(r.v.begin(), r.v.end()), "maximum", "compile-time max of ", hx::show(r.v), " = ", r.mx);
}

PBT_TEST(sign_square_gauss, "mixed-magnitude reals and ints; sign, square and the Gaussian density against their formulas; non-trivial = argument not 0", 40000, 800000) {
  const double x = c.s.real(-50, 50);
  const int k = (int)c.s.i(-1000, 1000);
  double tiny = c.s.real(-1, 1) * std::pow(10.0, -(double)c.s.i(0, 300));
  if (c.s.chance(0.2)) tiny = (c.s.chance(0.5) ? 1 : -1) * (c.s.chance(0.5) ? (double)c.s.i(0, 3) * 5e-324 : c.s.chance(0.5) ? c.s.real(0, 1) * 2e-308 : std::numeric_limits<double>::max() * c.s.unit());
  const float tf = (float)c.s.i(-3, 3) * (c.s.chance(0.5) ? 1.4e-45f : 1e-38f);
  c.check(sign(tf) == (float)((tf > 0) - (tf < 0)), "sign", "float sign(", tf, ")=", sign(tf));
  const long double tl = (long double)tiny * 1e-20L;
  c.check(sign(tl) == (tl > 0) - (tl < 0), "sign", "long double sign(", (double)tl, "e-20)");
  const unsigned un = (unsigned)c.s.i(0, 3) * (c.s.chance(0.5) ? 1u : 0x55555555u);
  c.check(sign(un) == (un > 0 ? 1u : 0u), "sign", "sign(unsigned ", un, ")=", sign(un));
  const int64_t wide = c.s.i(INT64_MIN, INT64_MAX);
  c.check(sign(tiny) == (tiny > 0) - (tiny < 0), "sign", "sign(", tiny, ")=", sign(tiny));
  c.check(sign(wide) == (wide > 0) - (wide < 0), "sign", "sign(", wide, ")=", sign(wide));
  c.check(sign((short)k) == (k > 0) - (k < 0), "sign", "sign(short ", k, ")=", sign((short)k));
  c.check(square((float)tiny) == (float)tiny * (float)tiny && square((int64_t)(wide >> 33)) == (wide >> 33) * (wide >> 33), "square", "square of ", tiny, " or ", wide >> 33);
  c.note("x=", x, " k=", k);
  c.nontrivial(x != 0 && k != 0);
  c.check(sign(x) == (x > 0) - (x < 0), "sign", "sign(", x, ")=", sign(x));
  c.check(sign(k) == (k > 0) - (k < 0), "sign", "sign(", k, ")=", sign(k));
  c.check(sign((float)x) == (float)((x > 0) - (x < 0)), "sign", "float sign(", x, ")=", sign((float)x));
  c.check(square(x) == x * x && square(k) == k * k, "square", "square of ", x, " or ", k);
  const double mu = c.s.real(-20, 20), sg = c.s.real(0.05, 10);
  const long double z = ((long double)x - mu) / sg;
  const double want = (double)(expl(-z * z / 2) / (sg * sqrtl(2 * 3.14159265358979323846264338327950288L)));
  const double got = gaussianCurve<double>(x, mu, sg);
  const float gf = gaussianCurve<float>((float)x, (float)mu, (float)sg);
  const long double zf = ((long double)(float)x - (float)mu) / (float)sg;
  const double wf = (double)(expl(-zf * zf / 2) / ((float)sg * sqrtl(2 * 3.14159265358979323846264338327950288L)));
  c.check(hx::near(gf, wf, 3e-6 * (1 + (double)(zf * zf)), 1e-36), "gaussian", "float density at ", x, " for mu ", mu, " sigma ", sg, " is ", gf, ", expected ", wf);
  c.check(hx::near(gaussianCurve<double>(x), gaussianCurve<double>(x, 0, 1), 0, 0), "gaussian", "the default density is not the standard normal one at ", x);
  c.check(hx::near(got, want, 1e-9, 1e-290), "gaussian", "density at ", x, " for mu ", mu, " sigma ", sg, " is ", got, ", expected ", want);
}

PBT_TEST(chaos_sequence, "a start value in (0,1) and a random mix of single steps, bulk iteration and array generation; every form must follow x -> 4x(1-x) bit-for-bit up to one rounding of the same formula, stay in [0,1], and stop exactly at the requested length; non-trivial = at least two forms used", 20000, 400000) {
  double x = 0;
  while (!(x > 0 && x < 1)) {
    const double e = std::pow(2.0, -(double)c.s.i(2, 53));
    x = c.s.chance(0.2) ? c.s.real(0.01, 0.99) : c.s.chance(0.7) ? c.s.unit() * 0.999 + 0.0005 : c.s.pick({e, 1 - e, e * e, 0.5, 0.75, 0.25, 1e-300});
  }
  LogisticChaos ch(x);
  c.check(ch.value() == x, "chaos-start", "value() is ", ch.value(), " after construction from ", x);
  const int ops = (int)c.s.i(1, 6);
  std::set<int> kinds;
  c.note("start ", x, " ops");
  // two rounding orders of the same product are admissible; rebase the model on the library after each step
  auto step = [&](double from, double to, const char* what) {
    const double a = from * (4.0 * (1 - from)), b = 4.0 * from * (1 - from);
    c.check(hx::near(to, a, 1e-15, 0) || hx::near(to, b, 1e-15, 0), "chaos-step", what, ": ", from, " -> ", to, ", expected ", a);
    c.check(to >= 0 && to <= 1, "chaos-range", what, ": left [0,1]: ", to);
  };
  for (int k = 0; k < ops; k++) {
    const int kind = (int)c.s.idx(3), n = (int)(c.s.chance(0.93) ? c.s.i(0, 12) : c.s.chance(0.9) ? c.s.i(0, 300) : c.s.i(300, 150000));
    c.label("long sequence", n > 65536);
    kinds.insert(kind);
    c.note(" ", kind, "x", n);
    double cur = ch.value();
    if (kind == 0) {
      for (int q = 0; q < n; q++) { const double r = ch(); c.check(r == ch.value(), "chaos-value", "step returned ", r, " but value() is ", ch.value()); step(cur, r, "single step"); cur = r; }
    } else if (kind == 1) {
      LogisticChaos ref(ch);
      ch.iterate((size_t)n);
      for (int q = 0; q < n; q++) ref();
      c.check(ch.value() == ref.value(), "chaos-iterate", "bulk iteration by ", n, " gives ", ch.value(), ", stepping gives ", ref.value());
    } else {
      std::vector<double> d(n + 2, -5.0);
      ch.makeSequence(d.data() + 1, (size_t)n);
      c.check(d[0] == -5.0 && d[n + 1] == -5.0, "chaos-overrun", "array generation of ", n, " wrote outside the destination");
      for (int q = 1; q <= n; q++) { step(cur, d[q], "array"); cur = d[q]; }
      c.check(ch.value() == cur, "chaos-value", "value() after array generation is ", ch.value(), ", last element is ", cur);
    }
  }
  c.nontrivial(kinds.size() >= 2);
  LogisticChaos dflt;
  c.check(dflt.value() >= 0 && dflt.value() < 1, "chaos-start", "default start ", dflt.value());
}
