// C23: electrons start and stay in the box and move by the photon law or by a bounded random step.
#include "aos.hpp"
using namespace aos;

static void inBox(pbt::Ctx& c, const Sp& sp, const Snap& s, const char* when) {
  for (size_t k = 0; k < s.e.size(); k++) {
    auto& x = s.e[k].x;
    c.check((int)x.size() == sp.dim, "dimension", when, ": electron ", k, " has ", x.size(), " coordinates instead of ", sp.dim);
    for (int i = 0; i < sp.dim; i++) {
      if (sp.kind == INF) c.check(std::isfinite(x[i]), "not-finite", when, ": electron ", k, " coordinate ", i, " is ", x[i]);
      else c.check(x[i] >= sp.lo[i] && x[i] <= sp.hi[i], "outside-box", when, ": electron ", k, " coordinate ", i, " is ", x[i], ", box [", sp.lo[i], ",", sp.hi[i], "]");
    }
  }
}
static double clamp(const Sp& sp, int i, double x) { return sp.kind == INF ? x : std::min(std::max(x, sp.lo[i]), sp.hi[i]); }
static bool inside(const Sp& sp, int i, double base, double l, double h, double x) {
  const double eps = (sp.flt ? 4e-6 : 1e-11) * (std::abs(base) + std::abs(l) + std::abs(h) + std::abs(x) + (sp.kind == INF ? 0 : std::abs(sp.lo[i]) + std::abs(sp.hi[i])));
  return x >= clamp(sp, i, base + l) - eps && x <= clamp(sp, i, base + h) + eps;
}
static bool photon(const Sp& sp, const Snap& s, int layer, int parent, const V& y) {
  const La& l = s.l[layer];
  const V& x = s.e[parent].x;
  const bool inner = better(sp.less, s.e[parent].e, l.be);
  const V& L = inner ? s.e[l.who[l.best]].x : s.bestX;
  const V& B = inner ? l.bs : s.bs;
  const double d = inner ? 1 : layer + 1;
  for (int i = 0; i < sp.dim; i++) {
    const double h = (std::max(0.0, L[i]) + std::max(0.0, -B[i])) / d, lo = (std::min(0.0, L[i]) + std::min(0.0, -B[i])) / d;
    if (!inside(sp, i, x[i], lo, h, y[i])) return false;
  }
  return true;
}
static bool step(const Sp& sp, const Snap& s, int parent, const V& y) {
  for (int i = 0; i < sp.dim; i++)
    if (!inside(sp, i, s.e[parent].x[i], -sp.de[i], sp.de[i], y[i])) return false;
  return true;
}
static void law(pbt::Ctx& c, const Sp& sp, const Snap& s) {
  std::vector<int> kids, parents, layerOf;
  for (size_t k = 0; k < s.e.size(); k++) if (!s.e[k].computed) kids.push_back((int)k);
  for (size_t l = 0; l < s.l.size(); l++) {
    if (!s.l[l].who.empty() && (s.l[l].best < 0 || s.l[l].best >= (int)s.l[l].who.size())) c.check(false, "layer-best", "layer ", l, " of ", s.l[l].who.size(), " electrons has its best at ", s.l[l].best);
    for (int p : s.l[l].who) { parents.push_back(p); layerOf.push_back((int)l); }
  }
  c.check(!s.stray && s.best >= 0, "stale-electron", "a layer or the best electron refers to an electron that is not in the atom");
  c.check(kids.size() == parents.size(), "offspring", parents.size(), " electrons in layers had ", kids.size(), " offspring");
  // every electron moves once: a perfect matching of parents and offspring must exist
  const int n = (int)kids.size();
  auto ok = [&](int p, int k) {
    const V& y = s.e[kids[k]].x;
    return (sp.o.photonRate < 1 && photon(sp, s, layerOf[p], parents[p], y)) || (sp.o.photonRate > 0 && step(sp, s, parents[p], y));
  };
  std::vector<int> of(n, -1);   // kid -> parent
  for (int p = 0; p < n; p++) {
    std::vector<char> seen(n, 0);
    std::function<bool(int)> grow = [&](int q) {
      for (int d = 0; d < n; d++) {
        const int k = (q + d) % n;
        if (seen[k] || !ok(q, k)) continue;
        seen[k] = 1;
        if (of[k] < 0 || grow(of[k])) { of[k] = q; return true; }
      }
      return false;
    };
    c.check(grow(p), "motion-law", "no offspring can come from electron ", hx::show(s.e[parents[p]].x), " (energy ", s.e[parents[p]].e, ") of layer ", layerOf[p], "; the one at its place is ", hx::show(s.e[kids[p]].x), "; layer best ", hx::show(s.e[s.l[layerOf[p]].who[s.l[layerOf[p]].best]].x), " mean ", hx::show(s.l[layerOf[p]].bs), " energy ", s.l[layerOf[p]].be, "; atom best ", hx::show(s.bestX), " mean ", hx::show(s.bs));
  }
}

PBT_TEST(histories, "21 instantiations (std / Eigen, float / double, fixed / dynamic, vector / matrix, square / rectangle / unbounded / compile time box, both directions, compile or run time functions, default or custom initialisation), 1..30 electrons, 1..16 threads, options and boxes, 1..2 initialisations with 1..3 runs; every photographed atom must be inside the box and its offspring explained one to one by the photon law or the random step; non-trivial = at least one generation of offspring", 24000, 400000) {
  history(c, [&](const After& a, World& w) {
    for (size_t g = 0; g < a.gens.size(); g++) {
      inBox(c, a.sp, a.gens[g], "during the run");
      if (a.gens[g].l.empty()) continue;   // initial electrons
      c.nontrivial();
      law(c, a.sp, a.gens[g]);
    }
    inBox(c, a.sp, a.last, "after the run");
  }, [&](const Sp& sp, const Snap& s, World& w, size_t g, size_t f, int dims) {
    c.check(s.e.size() == sp.o.electronNum, "initial-size", "initialised ", s.e.size(), " electrons instead of ", sp.o.electronNum);
    c.check(dims == sp.dim, "dimension", "dimensions() is ", dims, " instead of ", sp.dim);
    inBox(c, sp, s, "after initialisation");
    if (sp.custom) {
      c.check(w.inited.size() == s.e.size(), "initial-size", "the custom initialisation was called ", w.inited.size(), " times");
      for (size_t k = 0; k < s.e.size(); k++) c.check(s.e[k].x == w.inited[k], "initial-position", "electron ", k, " does not start where the custom initialisation put it");
    }
  });
}

PBT_TEST(spread, "300 electrons, default initialisation must be uniform over the box (or Gaussian) and, with steps far smaller than the box, the share of random steps must be photonRate and the steps uniform in (-delta,delta) (8 sigma); non-trivial = always", 320, 5000) {
  setThreadNum((int)c.s.i(1, 16));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  c.nontrivial();
  withSolver(combo, [&](auto& s, auto tag) {
    Sp sp = genSpec(c, combo, tag);
    sp.o.electronNum = 300;
    sp.o.maxGeneration = 6;
    sp.o.maxEarlyStop = 1000;
    sp.o.maxLayerNum = c.s.i(1, 10);
    for (auto& d : sp.de) if (sp.kind != FIX) d = (float)((sp.kind == INF ? sp.hi[0] : sp.hi[0] - sp.lo[0]) * 1e-3);
    describe(c, sp);
    w.f = [](const V& x) { double d = 0; for (double z : x) d = d * 1.7 + std::sin(z * 37 + d); return d; };
    prepare(c, w, s, sp, tag);
    s.initializePop();
    const Snap s0 = snapOf(s, false);
    if (!sp.custom)
      for (int i = 0; i < sp.dim; i++) {
        double m = 0, q = 0;
        const double N = s0.e.size(), tv = sp.kind == INF ? 1 : 1 / 12.0, qv = sp.kind == INF ? 2 : 1 / 180.0;
        for (auto& p : s0.e) { const double u = sp.kind == INF ? (p.x[i] - sp.lo[i]) / sp.hi[i] : (p.x[i] - sp.lo[i]) / (sp.hi[i] - sp.lo[i]) - 0.5; m += u; q += u * u; }
        c.check(std::abs(m / N) < 8 * std::sqrt(tv / N), "initial-spread", "mean initial coordinate ", i, " is off by ", m / N);
        c.check(std::abs(q / N - tv) < 8 * std::sqrt(qv / N), "initial-spread", "variance of initial coordinate ", i, " is ", q / N, " instead of ", tv);
      }
    w.watching = true;
    w.expect = 0;
    s.run();
    c.rethrow();
    if (sp.kind == FIX) return;
    double kids = 0, steps = 0, sum = 0, sq = 0, cnt = 0, cross = 0, ccnt = 0;
    for (auto& g : w.snaps) {
      if (g.l.empty()) continue;
      std::vector<int> parents;
      for (auto& l : g.l) for (int p : l.who) parents.push_back(p);
      // parents far from every other one: an offspring within delta of such a parent is its own
      std::vector<char> alone(parents.size(), 1);
      for (size_t x = 0; x < parents.size(); x++)
        for (size_t y = 0; y < x; y++) {
          bool far = false;
          for (int i = 0; i < sp.dim && !far; i++) far = std::abs(g.e[parents[x]].x[i] - g.e[parents[y]].x[i]) > 2.01 * sp.de[i];
          if (!far) alone[x] = alone[y] = 0;
        }
      for (auto& k : g.e) {
        if (k.computed) continue;
        kids++;
        for (size_t q = 0; q < parents.size(); q++) {
          const int p = parents[q];
          bool near = true, edge = false;
          for (int i = 0; i < sp.dim && near; i++) {
            near = std::abs(k.x[i] - g.e[p].x[i]) <= sp.de[i] * (1 + 1e-5) + (sp.flt ? 4e-7 : 1e-13) * std::abs(k.x[i]);
            edge |= sp.kind != INF && (g.e[p].x[i] - sp.de[i] <= sp.lo[i] || g.e[p].x[i] + sp.de[i] >= sp.hi[i]);
          }
          if (!near) continue;
          steps++;
          if (edge || sp.flt || !alone[q]) break;
          double u0 = 0;
          for (int i = 0; i < sp.dim; i++) {
            const double u = (k.x[i] - g.e[p].x[i]) / sp.de[i];
            sum += u; sq += u * u; cnt++;
            if (i) { cross += u * u0; ccnt++; }
            u0 = u;
          }
          break;
        }
      }
    }
    // some photon moves are tiny too, so the share is checked where that cannot hide a wrong rate
    const double r = sp.o.photonRate, sd = 8 * std::sqrt(std::max(r * (1 - r), 1e-9) * kids);
    c.check(steps >= r * kids - sd - 1e-9, "photon-rate", "only ", steps, " of ", kids, " moves are random steps, photonRate is ", r);
    // an unbounded box of several dimensions: photon moves are not cut off and hardly ever that short
    if (sp.kind == INF && sp.dim >= 3) {
      c.label("rate:both");
      c.check(steps <= r * kids + sd + 0.2 * kids, "photon-rate", steps, " of ", kids, " moves are random steps, photonRate is ", r);
    }
    if (r == 1 && cnt > 200) {
      c.label("steps:uniform");
      c.check(std::abs(sum / cnt) < 8 * std::sqrt(1 / 3.0 / cnt) + 0.02, "step-spread", "mean step is ", sum / cnt, " delta");
      c.check(std::abs(sq / cnt - 1 / 3.0) < 8 * std::sqrt(4 / 45.0 / cnt) + 0.02, "step-spread", "mean squared step is ", sq / cnt, " delta^2");
      if (ccnt > 200) c.check(std::abs(cross / ccnt) < 8 / 3.0 / std::sqrt(ccnt) + 0.02, "step-correlation", "steps of neighbouring coordinates have covariance ", cross / ccnt);
    }
  });
  W = nullptr;
}

// The distribution of the moves: sums over all offspring of one generation do not depend on whose offspring is whose, and
// the parents, layers and means are known, so their expectation and variance can be simulated with an independent engine.
PBT_TEST(moves, "many generations of 1..40 electrons: the sums of offspring coordinates, of their squares and of products of neighbouring coordinates must agree with an independent simulation of the laws of motion (factors and steps uniform and independent for each coordinate, share photonRate of steps, orbits divided by the layer's number); with one electron also the fourth mixed moment of its moves (8 sigma); non-trivial = at least 300 offspring", 360, 8000) {
  setThreadNum((int)c.s.i(1, 4));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  withSolver(combo, [&](auto& s, auto tag) {
    Sp sp = genSpec(c, combo, tag);
    const bool single = c.s.chance(0.4);
    sp.o.electronNum = single ? 1 : c.s.i(2, 40);
    sp.o.maxLayerNum = c.s.i(1, std::min<int>(8, (int)sp.o.electronNum));
    sp.o.maxGeneration = std::max<int>(4, (int)((single ? c.s.i(1500, 4000) : c.s.i(400, 1500)) / sp.o.electronNum));
    sp.o.maxEarlyStop = 100000;
    if (c.s.chance(0.7)) sp.o.photonRate = c.s.pick({0.0, 0.0, 0.1, 0.5, 1.0});
    describe(c, sp);
    const uint64_t salt = c.s.raw(0xffffffff);
    const int land = (int)c.s.idx(3);
    w.f = [salt, land](const V& x) {
      double d = 0;
      uint64_t h = salt;
      for (double z : x) {
        uint64_t b;
        memcpy(&b, &z, 8);
        h = pbt::mix(h ^ b);
        d = d * 1.7 + std::sin(z * 37 + d);
      }
      return land == 0 ? d : land == 1 ? (double)(h >> 11) * 0x1p-53 : (double)(h % 5);
    };
    prepare(c, w, s, sp, tag);
    s.initializePop();
    w.watching = true;
    w.expect = 0;
    s.run();
    c.rethrow();
    uint64_t state = salt + 1;
    auto u01 = [&] { return (double)(pbt::mix(state += 0x9e3779b97f4a7c15ull) >> 11) * 0x1p-53; };
    const int D = sp.dim, NS = 24;
    struct Acc { double diff = 0, var = 0, tol = 0, top = 0; size_t n = 0; };
    std::vector<Acc> m1(D), m2(D), cr(D), m4(D);
    size_t kids = 0;
    for (auto& g : w.snaps) {
      if (g.l.empty()) continue;
      std::vector<int> ks;
      for (size_t k = 0; k < g.e.size(); k++) if (!g.e[k].computed) ks.push_back((int)k);
      std::vector<std::pair<int, int>> ps;
      for (size_t l = 0; l < g.l.size(); l++) for (int p : g.l[l].who) ps.push_back({p, (int)l});
      if (ks.size() != ps.size() || g.stray || g.best < 0) return;   // judged by histories
      kids += ks.size();
      // centre and reach of the generation, from the parents alone
      V mid(D, 0), reach(D, 0);
      for (auto& p : ps) for (int i = 0; i < D; i++) mid[i] += g.e[p.first].x[i] / ps.size();
      struct Src { const V *x, *L, *B; double d; };
      std::vector<Src> src;
      for (auto& p : ps) {
        const La& l = g.l[p.second];
        const bool inner = better(sp.less, g.e[p.first].e, l.be);
        src.push_back({&g.e[p.first].x, inner ? &g.e[l.who[l.best]].x : &g.bestX, inner ? &l.bs : &g.bs, inner ? 1.0 : p.second + 1.0});
        for (int i = 0; i < D; i++) {
          reach[i] = std::max(reach[i], std::abs((*src.back().L)[i]) + std::abs((*src.back().B)[i]));
          if (sp.o.photonRate > 0) reach[i] = std::max(reach[i], sp.de[i]);
        }
      }
      bool fine = true;
      for (int i = 0; i < D; i++) fine = fine && std::isfinite(reach[i]) && reach[i] > 1e-30 && reach[i] < 1e30 && std::isfinite(mid[i]);
      if (!fine) continue;
      auto value = [&](const V& y, const V& x, int what, int i) -> double {
        const int j = (i + 1) % D;
        const double a = (y[i] - mid[i]) / reach[i], b = (y[j] - mid[j]) / reach[j];
        if (what == 0) return a;
        if (what == 1) return a * a;
        if (what == 2) return a * b;
        const double p = (y[i] - x[i]) / reach[i], q = (y[j] - x[j]) / reach[j];
        return p * p * q * q;
      };
      for (size_t q = 0; q < ps.size(); q++) {
        std::vector<V> ys;
        for (int k = 0; k < NS; k++) {
          V y(D);
          const bool rs = u01() < sp.o.photonRate;
          for (int i = 0; i < D; i++) {
            const double a = u01(), b = u01(), e = u01();
            y[i] = clamp(sp, i, rs ? (*src[q].x)[i] + (2 * a - 1) * sp.de[i] : (*src[q].x)[i] + a * (b * (*src[q].L)[i] - e * (*src[q].B)[i]) / src[q].d);
          }
          ys.push_back(y);
        }
        auto add = [&](Acc& A, int what, int i) {
          double mean = 0, sq = 0, top = 0;
          for (auto& y : ys) { const double v = value(y, *src[q].x, what, i); mean += v / NS; top = std::max(top, std::abs(v)); }
          for (auto& y : ys) { const double v = value(y, *src[q].x, what, i) - mean; sq += v * v / (NS - 1); }
          A.diff -= mean;
          A.var += sq * (1 + 1.0 / NS);
          A.tol += (sp.flt ? 1e-5 : 1e-9) * (1 + top);
          const double v = value(g.e[ks[q]].x, *src[q].x, what, i);
          A.diff += v;
          A.top = std::max({A.top, top, std::abs(v)});
          A.n++;
        };
        for (int i = 0; i < D; i++) {
          add(m1[i], 0, i);
          add(m2[i], 1, i);
          if (D > 1) add(cr[i], 2, i);
          if (D > 1 && single) add(m4[i], 3, i);
        }
      }
    }
    if (kids < 300) return;
    c.nontrivial();
    if (single) c.label("one electron");
    auto judge = [&](const std::vector<Acc>& a, const char* name) {
      for (int i = 0; i < D; i++)
        if (a[i].n >= 300) c.check(std::abs(a[i].diff) <= 2 * a[i].top + 8 * std::sqrt(a[i].var) + a[i].tol + 1e-9, "move-law", name, " of coordinate ", i, " over ", a[i].n, " offspring is off by ", a[i].diff / std::sqrt(a[i].var), " sigma (photonRate ", sp.o.photonRate, ")");
    };
    judge(m1, "the mean");
    judge(m2, "the spread");
    judge(cr, "the covariance with the next coordinate");
    judge(m4, "the mixed fourth moment");
  });
  W = nullptr;
}

// In many dimensions an atom is so sparse that an offspring is next to its own parent, so each layer's moves can be judged.
PBT_TEST(orbits, "20..60 electrons in 4, but mostly 12..24 dimensions, up to as many layers, 40 times initialised and run for one generation without random steps; offspring that are clearly nearest to one parent must, layer by layer and separately for electrons better and worse than their layer's mean, move as far as an independent simulation of the photon law says (8 sigma and 15%); non-trivial = at least two layers with 100 or more clear offspring", 300, 4000) {
  setThreadNum((int)c.s.i(1, 4));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  withSolver(combo, [&](auto& s, auto tag) {
    gMinDim = 12;
    Sp sp = genSpec(c, combo, tag);
    gMinDim = 0;
    if (sp.dim < 4) return;
    if (sp.kind != FIX)
      for (int i = 0; i < sp.dim; i++) { sp.lo[i] = sp.kind == INF ? 0 : -64; sp.hi[i] = 64; sp.de[i] = 1; }
    sp.o.electronNum = c.s.i(20, 60);
    sp.o.maxLayerNum = c.s.chance(0.5) ? c.s.i(4, 12) : c.s.i(4, sp.o.electronNum);
    sp.o.maxGeneration = 1;
    sp.o.maxEarlyStop = 100000;
    sp.o.photonRate = 0;
    describe(c, sp);
    const bool less = sp.less;
    const int land = (int)c.s.idx(2);
    w.f = [less, land](const V& x) {
      double d = 0, t = 0;
      for (double z : x) { d += z * z; t = t * 1.7 + std::sin(z * 37 + t); }
      return (less ? 1 : -1) * (land ? d : t);
    };
    prepare(c, w, s, sp, tag);
    uint64_t state = c.s.raw(0xffffffff);
    auto u01 = [&] { return (double)(pbt::mix(state += 0x9e3779b97f4a7c15ull) >> 11) * 0x1p-53; };
    struct Acc { double diff = 0, sum = 0, var = 0; int n = 0; };
    std::map<std::pair<int, int>, Acc> acc;
    int all = 0, dropped = 0;
    for (int rep = 0; rep < 40; rep++) {
      s.initializePop();
      w.snaps.clear();
      w.watching = true;
      w.expect = 0;
      s.run();
      w.watching = false;
      c.rethrow();
      for (auto& g : w.snaps) {
        if (g.l.empty() || g.stray || g.best < 0) continue;
        std::vector<std::pair<int, int>> ps;
        for (size_t l = 0; l < g.l.size(); l++) for (int p : g.l[l].who) ps.push_back({p, (int)l});
        std::vector<int> owner(ps.size(), 0);
        for (auto& k : g.e) {
          if (k.computed) continue;
          all++;
          double d1 = INFINITY, d2 = INFINITY;
          int who = -1;
          for (size_t p = 0; p < ps.size(); p++) {
            double d = 0;
            for (int i = 0; i < sp.dim; i++) { const double z = (k.x[i] - g.e[ps[p].first].x[i]) / sp.de[0]; d += z * z; }
            if (d < d1) { d2 = d1; d1 = d; who = (int)p; } else d2 = std::min(d2, d);
          }
          if (!(d2 > 2 * d1) || owner[who]++) { dropped++; continue; }
          const La& l = g.l[ps[who].second];
          const V& x = g.e[ps[who].first].x;
          const bool inner = better(sp.less, g.e[ps[who].first].e, l.be);
          const V &L = inner ? g.e[l.who[l.best]].x : g.bestX, &B = inner ? l.bs : g.bs;
          const double dv = inner ? 1 : ps[who].second + 1;
          double norm = 0;
          for (int i = 0; i < sp.dim; i++) norm += (std::abs(L[i]) + std::abs(B[i])) * (std::abs(L[i]) + std::abs(B[i])) / (dv * dv);
          if (!(norm > 1e-300) || !std::isfinite(norm)) continue;
          auto dist = [&](const V& y) { double d = 0; for (int i = 0; i < sp.dim; i++) d += (y[i] - x[i]) * (y[i] - x[i]); return d / norm; };
          double mean = 0, sq = 0;
          const int NS = 24;
          for (int q = 0; q < NS; q++) {
            V y(sp.dim);
            for (int i = 0; i < sp.dim; i++) { const double a = u01(), b = u01(), e = u01(); y[i] = clamp(sp, i, x[i] + a * (b * L[i] - e * B[i]) / dv); }
            const double v = dist(y);
            mean += v / NS;
            sq += v * v / NS;
          }
          Acc& A = acc[{ps[who].second, inner}];
          A.diff += dist(k.x) - mean;
          A.sum += mean;
          A.var += std::max(0.0, sq - mean * mean) * (1 + 1.0 / NS) * NS / (NS - 1);
          A.n++;
        }
      }
    }
    if (dropped > 0.03 * all) { c.label("too close"); return; }
    int judged = 0;
    for (auto& [k, A] : acc) {
      if (A.n < 100) continue;
      judged++;
      c.check(std::abs(A.diff) <= 8 * std::sqrt(A.var) + 0.15 * A.sum + 1e-9 * A.n, "orbit", "the squared moves of ", A.n, " electrons ", k.second ? "better" : "worse", " than the mean of layer ", k.first, " add up to ", A.sum + A.diff, " instead of ", A.sum, " (sigma ", std::sqrt(A.var), ")");
    }
    c.nontrivial(judged >= 2);
  });
  W = nullptr;
}
