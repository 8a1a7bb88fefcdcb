// C18: NSGA3 reference points are the complete simplex lattice of the requested precision(s).
#define MOGA_ONLY3
#include "moga.hpp"
using namespace ga;

// all vectors of non-negative integers that sum up to p
static void lattice(int M, int p, std::vector<int>& cur, std::map<std::vector<int>, int>& out) {
  if ((int)cur.size() == M - 1) {
    cur.push_back(p);
    out[cur]++;
    cur.pop_back();
    return;
  }
  for (int k = 0; k <= p; k++) {
    cur.push_back(k);
    lattice(M, p - k, cur, out);
    cur.pop_back();
  }
}
static std::map<std::vector<int>, int> lattice(int M, int p) {
  std::map<std::vector<int>, int> r;
  std::vector<int> cur;
  lattice(M, p, cur, r);
  return r;
}
static uint64_t choose(int n, int k) {
  uint64_t r = 1;
  for (int i = 1; i <= k; i++) r = r * (n - k + i) / i;
  return r;
}
// the points must be those of a lattice of precision p on the plane sum = s
static void isLattice(pbt::Ctx& c, const std::vector<std::vector<double>>& pts, int M, int p, double s, const char* what) {
  std::map<std::vector<int>, int> got;
  for (auto& x : pts) {
    std::vector<int> k(M);
    for (int j = 0; j < M; j++) {
      const double v = x[j] / s * p;
      k[j] = (int)std::lround(v);
      c.check(std::abs(v - k[j]) < 1e-9 * p, "off-lattice", what, ": a reference point has coordinate ", x[j], ", which is no multiple of ", s, "/", p);
      c.check(x[j] >= -1e-12 * s, "outside-orthant", what, ": a reference point has the negative coordinate ", x[j]);
    }
    got[k]++;
  }
  c.check(got == lattice(M, p), "incomplete", what, ": the ", pts.size(), " reference points are not each lattice point of precision ", p, " in ", M, " dimensions once");
}

PBT_TEST(points, "number of objectives 2..8 (fixed 2, 3 or dynamic), single layer precision 2..20 or double layer 2..8 x 2..8, up to thousands of points, initialised 1..4 times with different precisions and objective numbers, among them lattices of equal size (and a run in between); the columns must be each lattice point once, of the unit plane or of a smaller parallel plane for the inner layer, and the published counts and precisions must agree; non-trivial = more than three points", 3000, 40000) {
  Mp m = genMoga(c);
  World w(c);
  if (m.combo >= 2) m.M = (int)c.s.i(2, 8);
  genFitness(c, w, m);
  describe(c, m);
  withMoga(m, [&](auto& s, auto tag) {
    using T = decltype(tag);
    prepare(s, m, w, tag);
    m.o.populationSize = c.s.i(1, 6);
    m.o.maxGenerations = 2;
    s.setOption(m.o);
    const int rounds = (int)c.s.i(1, 4);
    for (int r = 0; r < rounds; r++) {
      // another lattice, sometimes of the same number of points, must replace the old one
      const int pairing = r ? (int)c.s.idx(4) : 0;
      bool chosen = false;
      if (pairing >= 2 && T::ct == Eigen::Dynamic) {
        if (!T::dbl && pairing == 2 && m.p >= 2 && m.p <= 7 && m.M >= 3) {
          std::swap(m.M, m.p);  // C(p+M-1, p) is symmetric in p and M-1
          m.M += 1; m.p -= 1;
          chosen = true;
        } else
          m.M = (int)c.s.i(2, 8);
        c.note(" M=", m.M);
        genFitness(c, w, m);
        if constexpr (T::ct == Eigen::Dynamic) s.setObjectiveNum(m.M);
      } else if (pairing == 1 && T::dbl) {
        std::swap(m.pi, m.po);
        chosen = true;
      }
      c.label(chosen ? "lattice of equal size" : r ? "another lattice" : "first lattice");
      if constexpr (T::dbl) {
        if (!chosen) do { m.pi = (int)c.s.i(2, 8); m.po = (int)c.s.i(2, 8); if (m.M > 5) { m.pi = std::min(m.pi, 4); m.po = std::min(m.po, 4); } } while (choose(m.M + m.po - 1, m.po) > (c.thorough ? 10000u : 1200u));
        s.setReferencePointPrecision(m.pi, m.po);
        c.check((int)s.innerPrecision() == m.pi && (int)s.outerPrecision() == m.po, "precision-lost", "precisions are ", s.innerPrecision(), "/", s.outerPrecision(), " instead of ", m.pi, "/", m.po);
        c.note(" ", m.pi, "/", m.po);
      } else {
        if (!chosen) m.p = (int)c.s.i(2, 20);
        while (choose(m.M + m.p - 1, m.p) > (c.thorough ? 10000u : 1200u)) m.p--;
        s.setReferencePointPrecision(m.p);
        c.check((int)s.referencePointPrecision() == m.p, "precision-lost", "precision is ", s.referencePointPrecision(), " instead of ", m.p);
        c.note(" ", m.p);
      }
      s.initializePop();
      if (c.s.chance(0.3)) {
        w.run = r + 1;
        w.varying = true;
        s.run();
        c.rethrow();
      }
      const auto& R = s.referencePoints();
      c.check(R.rows() == m.M, "dimension", "reference points have ", R.rows(), " coordinates for ", m.M, " objectives");
      c.check((size_t)R.cols() == s.referencePointCount(), "count", "referencePointCount() is ", s.referencePointCount(), ", there are ", R.cols(), " reference points");
      std::vector<std::vector<double>> pts;
      for (int k = 0; k < R.cols(); k++) {
        std::vector<double> v(m.M);
        for (int j = 0; j < m.M; j++) v[j] = R(j, k);
        pts.push_back(v);
      }
      c.nontrivial(pts.size() > 3);
      auto sum = [](const std::vector<double>& v) { double t = 0; for (double x : v) t += x; return t; };
      if constexpr (!T::dbl) {
        c.check(pts.size() == choose(m.M + m.p - 1, m.p), "count", "there are ", pts.size(), " reference points of precision ", m.p, " in ", m.M, " dimensions");
        for (auto& v : pts) c.check(std::abs(sum(v) - 1) < 1e-9, "off-plane", "a reference point has coordinate sum ", sum(v));
        isLattice(c, pts, m.M, m.p, 1, "single layer");
      } else {
        std::vector<std::vector<double>> in, out;
        for (auto& v : pts) (sum(v) > 1 - 1e-9 ? out : in).push_back(v);
        c.check(in.size() == choose(m.M + m.pi - 1, m.pi) && out.size() == choose(m.M + m.po - 1, m.po), "count", "there are ", in.size(), " inner and ", out.size(), " outer reference points, precisions ", m.pi, "/", m.po, " in ", m.M, " dimensions");
        for (auto& v : out) c.check(std::abs(sum(v) - 1) < 1e-9, "off-plane", "an outer reference point has coordinate sum ", sum(v));
        const double t = sum(in[0]);
        c.check(t > 0, "off-plane", "an inner reference point has coordinate sum ", t);
        for (auto& v : in) c.check(std::abs(sum(v) - t) < 1e-9, "off-plane", "inner reference points have coordinate sums ", sum(v), " and ", t);
        isLattice(c, out, m.M, m.po, 1, "outer layer");
        isLattice(c, in, m.M, m.pi, t, "inner layer");
      }
    }
  });
}
