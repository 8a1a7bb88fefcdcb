// C02: numbers passed through the compile-time encodings come back unchanged.
#include "common.hpp"
#include <utility>
using namespace heu;

static uint64_t bitsOf(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static uint32_t bitsOf(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static double d64(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static float f32(uint32_t b) { float d; memcpy(&d, &b, 4); return d; }

// bit patterns biased to the edges: all-ones / all-zeros / single-bit mantissas, extreme exponents
static uint64_t pattern(pbt::Ctx& c, int mant, int expo) {
  const uint64_t mm = (1ull << mant) - 1, em = (1ull << expo) - 1;
  uint64_t e, m;
  switch (c.s.idx(6)) {
    case 0: e = (em >> 1) + c.s.raw(4) - 2; break;
    case 1: e = c.s.raw(3); break;
    case 2: e = em - c.s.raw(3); break;
    default: e = c.s.raw(em); break;
  }
  switch (c.s.idx(7)) {
    case 0: m = 0; break;
    case 1: m = mm; break;
    case 2: m = 1ull << c.s.raw(mant - 1); break;
    case 3: m = mm ^ (1ull << c.s.raw(mant - 1)); break;
    case 4: m = mm << c.s.raw(mant - 1) & mm; break;
    case 5: m = mm - c.s.raw(40); break;
    default: m = c.s.raw(mm); break;
  }
  return (c.s.raw(1) << (mant + expo)) | ((e & em) << mant) | m;
}

template <class F, class Code, class U>
static void roundTrip(pbt::Ctx& c, U b, F v, const char* tn) {
  const bool nan = v != v;
  const Code code = encode(v);
  const F back = decode(code);
  c.note(tn, " bits=", (uint64_t)b, " value=", v);
  if (nan) {
    c.check(back != back, "nan-lost", tn, " NaN decoded to ", back);
    c.label("nan");
    return;
  }
  c.nontrivial(v != 0);
  c.label("subnormal", std::fpclassify(v) == FP_SUBNORMAL);
  c.label("infinite", std::isinf(v));
  c.check(back == v, "value-changed", tn, " value ", v, " (bits ", (uint64_t)b, ") came back as ", back, " (code ", (uint64_t)code, ")");
  if (v != 0) c.check((U)code == b, "code-not-ieee", tn, " code ", (uint64_t)code, " differs from the IEEE pattern ", (uint64_t)b);
  // the code itself denotes the value: decode is the inverse on every pattern
  const F direct = decode(Code(b));
  c.check(direct == v, "decode-wrong", tn, " pattern ", (uint64_t)b, " denotes ", v, " but decodes to ", direct);
}

PBT_TEST(double_bits, "64-bit patterns biased to boundary exponents and mantissas; decode(encode(x))==x, encode gives the IEEE pattern, decode reads it; non-trivial = finite non-zero or infinite", 60000, 1500000) {
  const uint64_t b = pattern(c, 52, 11);
  roundTrip<double, binCode64, uint64_t>(c, b, d64(b), "double");
}
PBT_TEST(float_bits, "32-bit patterns, as for double", 100000, 2500000) {
  const uint32_t b = (uint32_t)pattern(c, 23, 8);
  roundTrip<float, binCode32, uint32_t>(c, b, f32(b), "float");
}
PBT_TEST(decimal_values, "short decimal literals and their neighbours, the values users write as template arguments", 20000, 500000) {
  const double m = (double)c.s.i(-99999, 99999), v = m * std::pow(10.0, (double)c.s.i(-12, 12));
  const double w = c.s.chance(0.5) ? v : std::nextafter(v, c.s.chance(0.5) ? 1e300 : -1e300);
  roundTrip<double, binCode64, uint64_t>(c, bitsOf(w), w, "double");
  const float f = (float)v, g = c.s.chance(0.5) ? f : std::nextafterf(f, c.s.chance(0.5) ? 1e30f : -1e30f);
  roundTrip<float, binCode32, uint32_t>(c, bitsOf(g), g, "float");
}

// ---------------------------------------------------------------- codes that exist only as template arguments:
// a table instantiated from VERIF_SEED at compile time
#ifndef TABLE_SEED
#define TABLE_SEED 1
#endif
constexpr uint64_t cmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
constexpr uint64_t rnd(size_t i, int k) { return cmix(cmix(i * 8 + k) ^ (TABLE_SEED * 0x9876543211ull)); }

constexpr int32_t divNum(size_t i) {
  const uint64_t r = rnd(i, 0);
  switch (r % 5) {
    case 0: return int32_t(r >> 40) % 100;
    case 1: return -(int32_t(r >> 40) % 100);
    case 2: return INT32_MAX - int32_t((r >> 40) % 3);
    case 3: return INT32_MIN + int32_t((r >> 40) % 3);
    default: return int32_t(r >> 32);
  }
}
constexpr uint32_t divDen(size_t i) {
  const uint64_t r = rnd(i, 1);
  switch (r % 4) {
    case 0: return 1 + uint32_t(r >> 40) % 100;
    case 1: return UINT32_MAX - uint32_t((r >> 40) % 3);
    case 2: return 1;
    default: return uint32_t(r >> 32) | 1;
  }
}
struct DivRow { int32_t a; uint32_t b; int32_t n; uint32_t d; double real; };
template <size_t I>
constexpr DivRow divRow() {
  using D = DivDecode<DivEncode<divNum(I), divDen(I)>::code>;
  return {divNum(I), divDen(I), D::numerator, D::denominator, D::real};
}
constexpr uint64_t p10(int n) { uint64_t r = 1; for (int i = 0; i < n; i++) r *= 10; return r; }
constexpr int powDigits(size_t i) { return 1 + int(rnd(i, 2) % 16); }  // documented: 16 digits
constexpr int64_t powSig(size_t i) {
  const uint64_t r = rnd(i, 3), lim = p10(powDigits(i));
  const uint64_t m = (r % 7 == 0) ? lim - 1 : (r % 7 == 1) ? lim / 10 : (r >> 3) % lim;
  return (rnd(i, 5) & 1) ? -int64_t(m) : int64_t(m);
}
constexpr int16_t powExp(size_t i) {
  const uint64_t r = rnd(i, 4);
  return r % 4 == 0 ? int16_t(r >> 8) % 5 : r % 4 == 1 ? int16_t((r >> 8) % 3 ? 255 : -255) : int16_t(int((r >> 8) % 511) - 255);
}
struct PowRow { int64_t s; int e; double real; bool stripped; };
constexpr int64_t strip(int64_t v) { while (v != 0 && v % 10 == 0) v /= 10; return v; }
template <size_t I>
constexpr PowRow powRow() {
  constexpr PowCode code = PowEncode<powSig(I), powExp(I)>::code;
  return {powSig(I), powExp(I), PowDecode<code>::real, code == PowEncode<strip(powSig(I)), powExp(I)>::code};
}
constexpr size_t kRows = 400;
template <size_t... I>
static std::vector<DivRow> divTable(std::index_sequence<I...>) { return {divRow<I>()...}; }
template <size_t... I>
static std::vector<PowRow> powTable(std::index_sequence<I...>) { return {powRow<I>()...}; }

PBT_TEST(fraction_codes, "400 numerator/denominator pairs drawn from the seed at compile time (extremes biased); decoding gives back both integers and their quotient; non-trivial = numerator not 0", 400, 400) {
  static const auto T = divTable(std::make_index_sequence<kRows>());
  const DivRow r = T[c.s.idx(kRows)];
  c.note("fraction ", r.a, "/", r.b);
  c.nontrivial(r.a != 0);
  c.check(r.n == r.a && r.d == r.b, "fraction-parts", r.a, "/", r.b, " came back as ", r.n, "/", r.d);
  c.check(r.real == double(r.a) / double(r.b), "fraction-value", r.a, "/", r.b, " decodes to ", r.real);
}
PBT_TEST(power_codes, "400 (coefficient of up to 16 digits, power in [-255,255]) pairs drawn from the seed at compile time; decoding gives d.ddd x 10^power with the coefficient's leading digit before the point, to 1e-12; trailing zeros of the coefficient do not matter; non-trivial = coefficient not 0", 400, 400) {
  static const auto T = powTable(std::make_index_sequence<kRows>());
  const PowRow r = T[c.s.idx(kRows)];
  c.note("coefficient ", r.s, " power ", r.e);
  c.nontrivial(r.s != 0);
  long double m = std::fabs((long double)r.s);
  while (m >= 10) m /= 10;
  const long double want = (r.s < 0 ? -m : m) * powl(10.0L, r.e);
  c.check(std::fabs((double)(r.real - want)) <= 1e-12 * std::fabs((double)want), "power-value", r.s, " power ", r.e, " decodes to ", r.real, ", expected ", (double)want);
  c.check(r.stripped, "power-trailing-zeros", r.s, " and the same coefficient without trailing zeros have different codes");
}
// encode and decode inside constant expressions
constexpr uint64_t ctBits(size_t i) {
  const uint64_t r = rnd(i, 6), q = rnd(i, 7), mm = (1ull << 52) - 1;
  const uint64_t e = r % 5 == 0 ? (q >> 5) % 3 : r % 5 == 1 ? 2047 - (q >> 5) % 3 : r % 5 == 2 ? 1020 + (q >> 5) % 8 : (q >> 5) % 2048;
  const uint64_t m = q % 5 == 0 ? 0 : q % 5 == 1 ? mm : q % 5 == 2 ? mm << ((r >> 8) % 52) & mm : (r >> 3) & mm;
  return (r >> 63 << 63) | (e << 52) | (e == 2047 ? 0 : m);
}
constexpr uint32_t ctBits32(size_t i) {
  const uint64_t b = ctBits(i);
  const uint32_t e = uint32_t(b >> 52 & 2047), e8 = e == 2047 ? 255 : e < 3 ? e : e > 1019 && e < 1028 ? e - 896 : e % 255;
  return uint32_t(b >> 63 << 31) | e8 << 23 | (e8 == 255 ? 0 : uint32_t(b >> 29 & 0x7fffff));
}
struct CtCode { uint64_t bits; double v; uint64_t code; double back; uint32_t bits32; float v32; uint32_t code32; float back32; };
template <size_t I>
static CtCode ctCode() {
  constexpr double v = __builtin_bit_cast(double, ctBits(I));
  constexpr binCode64 k = encode(v);
  constexpr double d = decode(k);
  constexpr float f = __builtin_bit_cast(float, ctBits32(I));
  constexpr binCode32 kf = encode(f);
  constexpr float df = decode(kf);
  return {ctBits(I), v, (uint64_t)k, d, ctBits32(I), f, (uint32_t)kf, df};
}
template <size_t... I>
static std::vector<CtCode> ctCodes(std::index_sequence<I...>) { return {ctCode<I>()...}; }
PBT_TEST(constant_expressions, "300 doubles and floats drawn from the seed at compile time (extreme exponents and mantissas biased), encoded and decoded in constant expressions; non-trivial = neither is 0", 300, 300) {
  static const auto T = ctCodes(std::make_index_sequence<300>());
  const CtCode& r = T[c.s.idx(300)];
  c.note("double ", r.v, " float ", r.v32);
  c.nontrivial(r.v != 0 && r.v32 != 0);
  c.check(r.back == r.v && r.back32 == r.v32, "value-changed", "at compile time ", r.v, " came back as ", r.back, ", float ", r.v32, " as ", r.back32);
  c.check((r.v == 0 || r.code == r.bits) && (r.v32 == 0 || r.code32 == r.bits32), "code-not-ieee", "compile-time code ", r.code, " / ", r.code32, " differs from the IEEE pattern ", r.bits, " / ", r.bits32);
}
PBT_TEST(named_constants, "each named mathematical constant equals its mathematical value to 1e-8 relative accuracy... every constant is drawn", 200, 200) {
  struct K { const char* n; double got; long double want; };
  const long double pi = 3.14159265358979323846264338327950288L;
  static const K k[] = {
      {"Half", DivDecode<DivCode_Half>::real, 0.5L}, {"Pi", DivDecode<DivCode_Pi>::real, pi},
      {"2Pi", DivDecode<DivCode_Pi_mul_2>::real, 2 * pi}, {"3Pi", DivDecode<DivCode_Pi_mul_3>::real, 3 * pi},
      {"4Pi", DivDecode<DivCode_Pi_mul_4>::real, 4 * pi}, {"6Pi", DivDecode<DivCode_Pi_mul_6>::real, 6 * pi},
      {"Pi/2", DivDecode<DivCode_Pi_div_2>::real, pi / 2}, {"Pi/3", DivDecode<DivCode_Pi_div_3>::real, pi / 3},
      {"Pi/4", DivDecode<DivCode_Pi_div_4>::real, pi / 4}, {"Pi/6", DivDecode<DivCode_Pi_div_6>::real, pi / 6},
      {"Sqrt2", DivDecode<DivCode_Sqrt2>::real, sqrtl(2)}, {"1/Sqrt2", DivDecode<DivCode_one_div_Sqrt2>::real, 1 / sqrtl(2)},
      {"E", DivDecode<DivCode_E>::real, expl(1)}};
  const K& x = k[c.s.idx(13)];
  c.note(x.n, " = ", x.got);
  c.nontrivial();
  c.check(std::fabs((double)(x.got - x.want)) <= 1e-12 * (double)x.want, "constant-value", x.n, " is ", x.got, ", relative error ", (double)((x.got - x.want) / x.want));
}
