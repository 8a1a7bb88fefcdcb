// C20: particles obey the PSO motion law and never leave the box or exceed the velocity limit.
#include "pso.hpp"
using namespace pso;

struct XY { double x, y; };
// clip a convex polygon by a*x + b*y <= e
static std::vector<XY> clip(const std::vector<XY>& p, double a, double b, double e) {
  std::vector<XY> r;
  for (size_t i = 0; i < p.size(); i++) {
    const XY u = p[i], v = p[(i + 1) % p.size()];
    const double fu = a * u.x + b * u.y - e, fv = a * v.x + b * v.y - e;
    if (fu <= 0) r.push_back(u);
    if ((fu < 0 && fv > 0) || (fu > 0 && fv < 0)) {
      const double t = fu / (fu - fv);
      r.push_back({u.x + t * (v.x - u.x), u.y + t * (v.y - u.y)});
    }
  }
  return r;
}

static void inBox(pbt::Ctx& c, const Sp& sp, const Snap& s, const char* when) {
  for (size_t k = 0; k < s.p.size(); k++) {
    auto& p = s.p[k];
    c.check((int)p.x.size() == sp.dim && (int)p.v.size() == sp.dim, "dimension", when, ": particle ", k, " has ", p.x.size(), " coordinates instead of ", sp.dim);
    for (int i = 0; i < sp.dim; i++) {
      c.check(p.x[i] >= sp.lo[i] && p.x[i] <= sp.hi[i], "outside-box", when, ": particle ", k, " coordinate ", i, " is ", p.x[i], ", box [", sp.lo[i], ",", sp.hi[i], "]");
      c.check(std::abs(p.v[i]) <= sp.vm[i], "too-fast", when, ": particle ", k, " velocity ", i, " is ", p.v[i], ", limit ", sp.vm[i]);
      c.check(p.pb[i] >= sp.lo[i] && p.pb[i] <= sp.hi[i], "outside-box", when, ": best position of particle ", k, " coordinate ", i, " is ", p.pb[i]);
    }
  }
  for (int i = 0; i < sp.dim; i++) c.check(s.gb[i] >= sp.lo[i] && s.gb[i] <= sp.hi[i], "outside-box", when, ": global best coordinate ", i, " is ", s.gb[i]);
}

// from (x,v) to (x2,v2) given the bests used
static void law(pbt::Ctx& c, const Sp& sp, const Pt& a, const Pt& b, const V& gb, size_t k) {
  const double eps = sp.flt ? 4e-6 : 1e-11;
  std::vector<XY> poly = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  for (int i = 0; i < sp.dim; i++) {
    const double size = std::abs(a.x[i]) + std::abs(b.v[i]) + std::abs(sp.lo[i]) + std::abs(sp.hi[i]) + sp.vm[i] + std::abs(a.v[i]);
    const double want = std::min(std::max(a.x[i] + b.v[i], sp.lo[i]), sp.hi[i]);
    c.check(std::abs(want - b.x[i]) <= eps * size, "position-law", "particle ", k, " coordinate ", i, ": from ", a.x[i], " with velocity ", b.v[i], " to ", b.x[i]);
    const double A = sp.o.learnFactorP * (b.pb[i] - a.x[i]), B = sp.o.learnFactorG * (gb[i] - a.x[i]), e = b.v[i] - sp.o.inertiaFactor * a.v[i];
    const double tol = eps * (std::abs(A) + std::abs(B) + size);
    if (b.v[i] < sp.vm[i]) poly = clip(poly, A, B, e + tol);      // not cut off above: law <= v
    if (b.v[i] > -sp.vm[i]) poly = clip(poly, -A, -B, -e + tol);  // not cut off below: law >= v
    c.check(!poly.empty(), "velocity-law", "particle ", k, " coordinate ", i, ": velocity ", a.v[i], " became ", b.v[i], " at ", a.x[i], ", own best ", b.pb[i], ", global best ", gb[i], "; no pair of random factors in [0,1] explains all coordinates");
  }
}

PBT_TEST(histories, "18 instantiations (std / Eigen, float / double, fixed / dynamic, vector / matrix, square / rectangle box, both directions, compile or run time functions, default or custom initialisation), 1..25 particles, 1..16 threads, options, boxes and velocity limits, 1..2 initialisations with 1..3 runs; every photographed swarm must be inside the box and the velocity limit, and every move explained by the PSO law with one pair of random factors; non-trivial = at least one move", 30000, 500000) {
  history(c, [&](const After& a, World& w) {
    std::vector<Snap> all = a.gens;
    c.check(!all.empty(), "no-evaluation", "a run evaluated nothing");
    for (auto& s : all) inBox(c, a.sp, s, "during the run");
    inBox(c, a.sp, a.last, "after the run");
    for (size_t g = 0; g + 1 < all.size(); g++) {
      c.nontrivial();
      for (size_t k = 0; k < all[g].p.size(); k++) law(c, a.sp, all[g].p[k], all[g + 1].p[k], all[g + 1].gb, k);
    }
    for (size_t k = 0; k < a.last.p.size(); k++) {
      c.check(all[0].p[k].x == a.before.p[k].x && all[0].p[k].v == a.before.p[k].v, "moved-at-start", "particle ", k, " moved before the first evaluation of the run");
      c.check(all.back().p[k].x == a.last.p[k].x && all.back().p[k].v == a.last.p[k].v, "moved-after-end", "particle ", k, " moved after the last evaluation of the run");
    }
  }, [&](const Sp& sp, const Snap& s, World& w, size_t g, size_t f, int dims) {
    c.check(s.p.size() == sp.o.populationSize, "initial-size", "initialised ", s.p.size(), " particles instead of ", sp.o.populationSize);
    c.check(dims == sp.dim, "dimension", "dimensions() is ", dims, " instead of ", sp.dim);
    inBox(c, sp, s, "after initialisation");
    if (sp.custom) {
      c.check(w.inited.size() == s.p.size(), "initial-size", "the custom initialisation was called ", w.inited.size(), " times");
      for (size_t k = 0; k < s.p.size(); k++) c.check(s.p[k].x == w.inited[k], "initial-position", "particle ", k, " does not start where the custom initialisation put it");
    }
  });
}

PBT_TEST(spread, "a large swarm with default initialisation: positions must be uniform over the box (8 sigma); then ten generations in a huge box: the two random factors recovered from each move must be uniform on [0,1], unrelated to each other and to those of the next particle; non-trivial = always", 240, 4000) {
  setThreadNum((int)c.s.i(1, 16));
  const int combo = (int)c.s.idx(6) + PART * 6;
  World w(c);
  W = &w;
  c.nontrivial();
  withSolver(combo, [&](auto& s, auto tag) {
    using T = decltype(tag);
    Sp sp = genSpec(c, combo, tag);
    sp.o.populationSize = 600;
    sp.o.maxGeneration = 10;
    sp.o.maxFailTimes = 0;
    sp.o.inertiaFactor = 0.4;
    sp.o.learnFactorP = 1;
    sp.o.learnFactorG = 0.75;
    for (auto& v : sp.vm) v = (sp.hi[0] - sp.lo[0]) * 1000;
    describe(c, sp);
    genFitness(c, w, sp);
    w.f = [&](const V& x) { double d = 0; for (double z : x) d = d * 1.7 + std::sin(z * 37 + d); return d; };
    if constexpr (T::args) { Args a; a.w = &w; a.magic = 4711; s.setArgs(a); }
    if constexpr (!T::ctf) s.setfFun(T::Ops_t::fit);
    if constexpr (T::in == RTI) s.setiFun(T::Ops_t::ini);
    setBox(s, sp, tag);
    uint64_t n = c.s.raw(0xffffffff);
    w.init = [&](V& x, V& v) {
      x.resize(sp.dim); v.resize(sp.dim);
      for (int i = 0; i < sp.dim; i++) {
        x[i] = (double)(float)(sp.lo[i] + (sp.hi[i] - sp.lo[i]) * ((pbt::mix(++n) >> 11) * 0x1p-53));
        v[i] = 0;
      }
    };
    w.snap = [&s] { return snapOf(s, false); };
    s.setOption(sp.o);
    s.initializePop();
    const Snap s0 = snapOf(s, true);
    if (!sp.custom) {
      for (int i = 0; i < sp.dim; i++) {
        double m = 0, q = 0;
        for (auto& p : s0.p) { const double u = (p.x[i] - sp.lo[i]) / (sp.hi[i] - sp.lo[i]); m += u; q += (u - 0.5) * (u - 0.5); }
        const double N = s0.p.size();
        c.check(std::abs(m / N - 0.5) < 8 * std::sqrt(1 / 12.0 / N), "initial-spread", "mean initial coordinate ", i, " is at ", m / N, " of the box");
        c.check(std::abs(q / N - 1 / 12.0) < 8 * std::sqrt(1 / 180.0 / N), "initial-spread", "variance of initial coordinate ", i, " is ", q / N, " of the squared box width");
      }
    }
    // a box so wide that nothing is cut off while flying
    Sp wide = sp;
    for (int i = 0; i < sp.dim; i++) { wide.lo[i] = sp.lo[i] - 1000 * (sp.hi[i] - sp.lo[i]); wide.hi[i] = sp.hi[i] + 1000 * (sp.hi[i] - sp.lo[i]); wide.vm[i] = 5000 * (sp.hi[i] - sp.lo[i]); }
    if (sp.sq) for (int i = 1; i < sp.dim; i++) { wide.lo[i] = wide.lo[0]; wide.hi[i] = wide.hi[0]; wide.vm[i] = wide.vm[0]; }
    setBox(s, wide, tag);
    w.watching = true;
    w.perGen = 600;
    w.genCalls = 0;
    s.run();
    c.rethrow();
    if (sp.dim < 2 || sp.flt) { c.label("factors:not-recoverable"); return; }
    c.label("factors:recovered");
    std::vector<std::array<double, 3>> r;  // factor P, factor G, index
    for (size_t g = 0; g + 1 < w.snaps.size(); g++)
      for (size_t k = 0; k < 600; k++) {
        const Pt &a = w.snaps[g].p[k], &b = w.snaps[g + 1].p[k];
        double aa = 0, ab = 0, bb = 0, ae = 0, be = 0;
        for (int i = 0; i < sp.dim; i++) {
          const double A = sp.o.learnFactorP * (b.pb[i] - a.x[i]), B = sp.o.learnFactorG * (w.snaps[g + 1].gb[i] - a.x[i]), e = b.v[i] - sp.o.inertiaFactor * a.v[i];
          aa += A * A; ab += A * B; bb += B * B; ae += A * e; be += B * e;
        }
        const double det = aa * bb - ab * ab;
        if (!(det > 1e-4 * aa * bb) || aa * bb == 0) continue;
        r.push_back({(ae * bb - be * ab) / det, (be * aa - ae * ab) / det, (double)(g * 1000 + k)});
      }
    if (r.size() < 200) { c.label("factors:too-few"); return; }
    const double N = r.size();
    double m[2] = {0, 0}, v[2] = {0, 0}, cc = 0, nx = 0, nn = 0;
    for (size_t i = 0; i < r.size(); i++) {
      for (int k = 0; k < 2; k++) {
        c.check(r[i][k] > -1e-6 && r[i][k] < 1 + 1e-6, "factor-range", "a random factor is ", r[i][k]);
        m[k] += r[i][k] - 0.5;
        v[k] += (r[i][k] - 0.5) * (r[i][k] - 0.5);
      }
      cc += (r[i][0] - 0.5) * (r[i][1] - 0.5);
      if (i + 1 < r.size() && r[i + 1][2] == r[i][2] + 1) { nx += (r[i][0] - 0.5) * (r[i + 1][0] - 0.5) + (r[i][1] - 0.5) * (r[i + 1][1] - 0.5); nn += 2; }
    }
    for (int k = 0; k < 2; k++) {
      c.check(std::abs(m[k] / N) < 8 * std::sqrt(1 / 12.0 / N), "factor-mean", "mean of random factor ", k, " is ", m[k] / N + 0.5);
      c.check(std::abs(v[k] / N - 1 / 12.0) < 8 * std::sqrt(1 / 180.0 / N), "factor-variance", "variance of random factor ", k, " is ", v[k] / N);
    }
    c.check(std::abs(cc / N) < 8 / 12.0 / std::sqrt(N), "factor-correlation", "the two random factors have covariance ", cc / N);
    if (nn > 100) c.check(std::abs(nx / nn) < 8 / 12.0 / std::sqrt(nn), "factor-correlation", "factors of neighbouring particles have covariance ", nx / nn);
  });
  W = nullptr;
}
