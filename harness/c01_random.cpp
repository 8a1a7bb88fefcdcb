// C01: random draws stay inside the requested interval, reach all of it, evenly, and fill exactly what was asked.
#include "common.hpp"
using namespace heu;

template <class I>
static void idxOne(pbt::Ctx& c, const char* tn) {
  using L = std::numeric_limits<I>;
  // widths are limited to what a float resolves exactly (2^24), and to bounds the type can hold
  const int64_t tmax = (int64_t)std::min<long double>((long double)L::max(), 1e9L);
  const int64_t tmin = (int64_t)std::max<long double>((long double)L::min(), -1e9L);
  const bool two = c.s.chance(0.6);
  const int64_t cap = std::min<int64_t>(two ? tmax - tmin : tmax, (int64_t)1 << 24);
  int64_t n = c.s.chance(0.6) ? c.s.i(1, std::min<int64_t>(cap, 24)) : c.s.i(1, cap);
  if (c.s.chance(0.1)) n = cap;
  int64_t lo = 0;
  if (two) {
    lo = c.s.i(tmin, tmax - n);
    if (c.s.chance(0.3)) lo = std::max<int64_t>(tmin, std::min<int64_t>(tmax - n, -n / 2));
  }
  c.note(tn, " lo=", lo, " n=", n, two ? " two-argument" : " one-argument");
  const bool small = n <= 24;
  const int draws = small ? (int)(n * 400) : 400;
  std::vector<uint32_t> cnt(small ? n : 0, 0);
  int64_t mn = INT64_MAX, mx = INT64_MIN;
  for (int k = 0; k < draws; k++) {
    const I v = two ? randIdx<I>(I(lo), I(lo + n)) : randIdx<I>(I(n));
    const int64_t w = (int64_t)v;
    c.check(w >= lo && w < lo + n, "index-out-of-range", tn, " draw ", w, " outside [", lo, ",", lo + n, ")");
    if (small) cnt[w - lo]++;
    mn = std::min(mn, w);
    mx = std::max(mx, w);
  }
  c.label(two ? "two-arg" : "one-arg");
  c.label("single-value range", n == 1);
  if (small) {
    const double p = 1.0 / n, sd = std::sqrt(draws * p * (1 - p));
    for (int k = 0; k < n; k++) {
      c.check(cnt[k] > 0, "index-never-drawn", tn, " value ", lo + k, " of [", lo, ",", lo + n, ") never drawn in ", draws);
      c.check(std::fabs(cnt[k] - draws * p) <= 8 * sd + 1, "index-not-uniform", tn, " value ", lo + k, " drawn ", cnt[k], " of ", draws, " expected ", draws * p);
    }
  } else {
    // 400 draws: both outer 10% of the range are hit except with probability 2*0.9^400 < 1e-18
    c.check(mn - lo <= n / 10 + 1 && lo + n - 1 - mx <= n / 10 + 1, "index-range-not-covered", tn, " draws span [", mn, ",", mx, "] of [", lo, ",", lo + n, ")");
  }
  c.nontrivial(n > 1);
}

template <class I>
static void idxHuge(pbt::Ctx& c, const char* tn) {
  using L = std::numeric_limits<I>;
  using U = std::make_unsigned_t<I>;
  const bool two = c.s.chance(0.5);
  I lo = 0, end = L::max();
  if (two) {  // any pair of bounds of the type
    if (c.s.chance(0.25)) lo = L::min();
    else {
      lo = (I)c.s.raw(UINT64_MAX); end = (I)c.s.raw(UINT64_MAX);
      if (lo > end) std::swap(lo, end);
      if (lo == end) { if (end == L::max()) lo--; else end++; }
    }
  } else if (c.s.chance(0.6)) end = (I)(L::max() - (I)c.s.raw(std::min<uint64_t>(L::max() / 2, 4096)));
  else end = (I)(1 + c.s.raw((uint64_t)L::max() - 1));
  const uint64_t n = (U)((U)end - (U)lo);
  c.note(tn, two ? " two-argument" : " one-argument", " lo=", +lo, " end=", +end);
  c.nontrivial(n > 4096);
  const int N = 600;
  int bit[4] = {0, 0, 0, 0}, half = 0;
  for (int k = 0; k < N; k++) {
    const I v = two ? randIdx<I>(lo, end) : randIdx<I>(end);
    c.check(v >= lo && v < end, "index-out-of-range", tn, " draw ", +v, " outside [", +lo, ",", +end, ")");
    const uint64_t d = (U)((U)v - (U)lo);
    half += d < n / 2;
    for (int b = 0; b < 4; b++) bit[b] += (int)(d >> b & 1);
  }
  if (n >= 4096) {  // 8 sigma of a fair coin, 600 times: 98; the odd ends of the range weigh less than 2 draws
    c.check(std::abs(half - N / 2) <= 100, "index-not-uniform", tn, ": ", half, " of ", N, " draws in the lower half of [", +lo, ",", +end, ")");
    if (n < (1ull << 49)) {  // a double resolves the lowest bits
      for (int b = 0; b < 4; b++) c.check(std::abs(bit[b] - N / 2) <= 100, "index-granularity", tn, ": bit ", b, " of the offset is set in ", bit[b], " of ", N, " draws from [", +lo, ",", +end, ")");
      c.label("granularity judged");
    }
  }
}
PBT_TEST(index_draws_wide, "any pair of bounds the integer type holds, one- and two-argument; 600 draws: range, halves evenly, no coarse grid (low bits of the offset even, for widths below 2^49); non-trivial = width beyond 4096", 60000, 1500000) {
  switch (c.s.idx(8)) {
    case 0: idxHuge<int>(c, "int"); break;
    case 1: idxHuge<unsigned>(c, "unsigned"); break;
    case 2: idxHuge<size_t>(c, "size_t"); break;
    case 3: idxHuge<int64_t>(c, "int64"); break;
    case 4: idxHuge<short>(c, "short"); break;
    case 5: idxHuge<uint16_t>(c, "uint16"); break;
    case 6: idxHuge<int8_t>(c, "int8"); break;
    default: idxHuge<long>(c, "long"); break;
  }
}

PBT_TEST(index_draws, "an integer type, a lower bound and a width 1..2^24 (widths <=24 biased); 400 draws per value are checked for range, full support and 8-sigma uniformity; non-trivial = width > 1", 100000, 3000000) {
  switch (c.s.idx(8)) {
    case 0: idxOne<int>(c, "int"); break;
    case 1: idxOne<unsigned>(c, "unsigned"); break;
    case 2: idxOne<size_t>(c, "size_t"); break;
    case 3: idxOne<int64_t>(c, "int64"); break;
    case 4: idxOne<int8_t>(c, "int8"); break;
    case 5: idxOne<uint8_t>(c, "uint8"); break;
    case 6: idxOne<int16_t>(c, "int16"); break;
    default: idxOne<uint16_t>(c, "uint16"); break;
  }
}

static double bound(pbt::Ctx& c) {
  switch (c.s.idx(4)) {
    case 0: return (double)c.s.i(-10, 10);
    case 1: return c.s.real(-1e3, 1e3);
    case 2: return c.s.real(-1, 1) * std::pow(10.0, (double)c.s.i(-300, 300));
    default: return 0;
  }
}

PBT_TEST(real_draws, "bounds of mixed magnitude (equal bounds included), scalar and array forms; 600 draws must lie in the closed interval, cover its four quarters evenly; array forms must fill exactly the requested cells; non-trivial = width > 0", 200000, 5000000) {
  double a = bound(c), b = bound(c);
  if (c.s.chance(0.15)) b = a + std::fabs(a) * 1e-15 * (double)c.s.i(0, 4);
  double lo = std::min(a, b), hi = std::max(a, b);
  const int form = (int)c.s.idx(5);
  if (form == 1 || form == 3) {  // every length fills exactly that many cells
    const int len = (int)(c.s.chance(0.9) ? c.s.i(0, 64) : c.s.i(0, 4100));
    c.note("fill of ", len, " ");
    std::vector<double> f(len + 2, NAN);
    if (form == 1) randD(f.data() + 1, len, lo, hi); else randD(f.data() + 1, len);
    c.check(std::isnan(f[0]) && std::isnan(f[len + 1]), "array-form-overrun", "a fill of ", len, " wrote next to the destination");
    const double fl = form == 1 ? lo : 0, fh = form == 1 ? hi : 1;
    for (int k = 1; k <= len; k++) c.check(f[k] >= fl && f[k] <= fh, "array-form-unfilled", "a fill of ", len, " left cell ", k - 1, " at ", f[k]);
    if (fh - fl > 0.5 * std::max(std::fabs(fl), std::fabs(fh)))
      for (int k = 2; k <= len; k++) c.check(f[k] != f[k - 1], "array-form-repeats", "a fill of ", len, " repeats the value ", f[k], " in neighbouring cells");
  }
  c.note("form ", form, " lo=", lo, " hi=", hi);
  const int N = 600;
  std::vector<double> v(N + 2, -777.125);
  double L = lo, H = hi;
  bool open = false;
  switch (form) {
    case 0: for (int k = 0; k < N; k++) v[1 + k] = randD(lo, hi); break;
    case 1: randD(v.data() + 1, N, lo, hi); break;
    case 2: for (int k = 0; k < N; k++) v[1 + k] = randD(); L = 0; H = 1; open = true; break;
    case 3: randD(v.data() + 1, N); L = 0; H = 1; open = true; break;
    default: for (int k = 0; k < N; k++) v[1 + k] = randF(); L = 0; H = 1; open = true; break;
  }
  c.check(v[0] == -777.125 && v[N + 1] == -777.125, "array-form-overrun", "cells next to the destination were modified");
  int q[4] = {0, 0, 0, 0};
  const double w = H - L;
  for (int k = 1; k <= N; k++) {
    c.check(v[k] >= L && v[k] <= H && !(open && v[k] == H), "real-out-of-range", "draw ", v[k], " outside [", L, ",", H, open ? ")" : "]");
    if (w > 0) { int z = (int)((v[k] - L) / w * 4); q[z > 3 ? 3 : z]++; }
  }
  c.nontrivial(w > 0);
  // full precision: an interval whose doubles are at least 2^-46 of its width dense has many values between
  // two multiples of 2^-24 of its width, and the draws must spread over them
  if (form <= 3 && w > 1e-3 * std::max(std::fabs(L), std::fabs(H))) {
    double m = 0;
    for (int k = 1; k <= N; k++) { double u = (v[k] - L) / w * 67108864.0; m += u - std::floor(u); }
    c.check(std::fabs(m / N - 0.5) < 8 * 0.28868 / std::sqrt((double)N), "real-granularity", "draws from [", L, ",", H, "] lie on a coarse grid: mean position within steps of 2^-26 of the width ", m / N);
    c.label("granularity judged");
  }
  c.label("tiny width", w > 0 && w <= 1e-12 * std::max(std::fabs(L), std::fabs(H)));
  if (w > 1e-9 * std::max(std::fabs(L), std::fabs(H)))
    for (int z = 0; z < 4; z++)  // sd = sqrt(600*3/16) ~ 10.6
      c.check(std::abs(q[z] - N / 4) <= 85, "real-not-uniform", "quarter ", z, " of [", L, ",", H, "] drawn ", q[z], " of ", N);
}

PBT_TEST(normal_draws, "a mean and a standard deviation; 4000 draws are standardised; mean, variance, symmetry and tails must match the normal law within 8 sigma; non-trivial = sigma > 0", 20000, 400000) {
  const double mu = c.s.real(-100, 100), sg = c.s.chance(0.1) ? 0.0 : std::pow(10.0, c.s.real(-4, 4));
  const int form = (int)c.s.idx(3);
  c.note("form ", form, " mu=", mu, " sigma=", sg);
  const int N = 4000;
  double m = 0, m2 = 0;
  int pos = 0, in1 = 0, far = 0;
  for (int k = 0; k < N; k++) {
    double z;
    if (form == 0) z = normD();
    else if (form == 1) z = normF();
    else {
      double x = normD(mu, sg);
      if (sg == 0) { c.check(x == mu, "normal-degenerate", "sigma 0 gave ", x, " for mu ", mu); continue; }
      z = (x - mu) / sg;
    }
    m += z; m2 += z * z; pos += z > 0; in1 += std::fabs(z) < 1; far += std::fabs(z) > 2.5758;
  }
  if (form == 2 && sg == 0) return;
  c.nontrivial();
  m /= N; m2 /= N;
  const double r = std::sqrt((double)N);
  c.check(std::fabs(m) < 8 / r, "normal-mean", "standardised mean ", m);
  c.check(std::fabs(m2 - 1) < 8 * std::sqrt(2.0) / r, "normal-variance", "standardised second moment ", m2);
  c.check(std::fabs(pos / (double)N - 0.5) < 8 * 0.5 / r, "normal-symmetry", "fraction positive ", pos / (double)N);
  c.check(std::fabs(in1 / (double)N - 0.682689) < 8 * 0.4655 / r, "normal-shape", "fraction within one sigma ", in1 / (double)N);
  c.check(std::fabs(far / (double)N - 0.01) < 8 * 0.0995 / r, "normal-tail", "fraction beyond 2.576 sigma ", far / (double)N);
}
