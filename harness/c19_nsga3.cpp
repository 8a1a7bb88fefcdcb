// C19: NSGA3 keeps whole dominance layers and fills the rest from the least occupied reference directions.
#define MOGA_ONLY3
#include "moga.hpp"
using namespace ga;
using V = std::vector<double>;

struct Niche {  // reference model of the documented normalise / associate steps
  bool ok = false;
  const char* why = "";
  std::vector<V> t;                 // normalised objectives
  std::vector<std::vector<int>> a;  // possible reference points of each individual (one unless ambiguous)
  std::vector<V> d;                 // squared distance to each reference point
  std::vector<double> tol;
};
// Gauss elimination in long double; returns |det|, solves A x = b
static long double solve(std::vector<std::vector<long double>> A, std::vector<long double> b, std::vector<long double>& x) {
  const int n = (int)b.size();
  long double det = 1;
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k; i < n; i++) if (std::fabs(A[i][k]) > std::fabs(A[p][k])) p = i;
    if (A[p][k] == 0) return 0;
    std::swap(A[p], A[k]); std::swap(b[p], b[k]);
    det *= A[k][k];
    for (int i = 0; i < n; i++) if (i != k) {
      const long double f = A[i][k] / A[k][k];
      for (int j = k; j < n; j++) A[i][j] -= f * A[k][j];
      b[i] -= f * b[k];
    }
  }
  x.resize(n);
  for (int k = 0; k < n; k++) x[k] = b[k] / A[k][k];
  return std::fabs(det);
}
template <class R>
static Niche model(const std::vector<V>& f, const R& ref) {
  Niche q;
  const int n = (int)f.size(), M = (int)f[0].size();
  V ideal(M, INFINITY);
  for (auto& x : f) for (int k = 0; k < M; k++) ideal[k] = std::min(ideal[k], x[k]);
  std::vector<int> ext(M, 0);
  for (int k = 0; k < M; k++) {
    for (int i = 0; i < n; i++) if (f[i][k] > f[ext[k]][k]) ext[k] = i;
    for (int i = 0; i < n; i++) if (f[i][k] == f[ext[k]][k] && f[i] != f[ext[k]]) { q.why = "extreme point ambiguous"; if (f[i][k] != ideal[k]) return q; }
  }
  std::vector<std::vector<long double>> PT(M, std::vector<long double>(M));  // rows = extreme points, columns scaled by objective
  V rng(M);
  long double norm = 1;
  bool flat = false;
  for (int k = 0; k < M; k++) {
    rng[k] = f[ext[k]][k] - ideal[k];
    flat |= rng[k] == 0;
  }
  V inter(M);
  long double det = 0;
  std::vector<long double> x;
  if (!flat) {
    for (int e = 0; e < M; e++) for (int k = 0; k < M; k++) PT[e][k] = ((long double)f[ext[e]][k] - ideal[k]) / rng[k];
    for (int k = 0; k < M; k++) { long double s = 0; for (int e = 0; e < M; e++) s += PT[e][k] * PT[e][k]; norm *= std::sqrt(s); }
    det = solve(PT, std::vector<long double>(M, 1), x) / norm;
  }
  if (det < 1e-13L) {
    for (int k = 0; k < M; k++) inter[k] = rng[k] == 0 ? 1 : rng[k];
  } else if (det > 1e-5L) {
    for (int k = 0; k < M; k++) {
      if (std::fabs(x[k]) < 1e-6L) { q.why = "parallel plane"; return q; }
      inter[k] = (double)(rng[k] / x[k]);
    }
  } else { q.why = "nearly singular"; return q; }
  const int C = (int)ref.cols();
  for (int i = 0; i < n; i++) {
    V t(M), d(C);
    double t2 = 0;
    for (int k = 0; k < M; k++) { t[k] = (f[i][k] - ideal[k]) / inter[k]; t2 += t[k] * t[k]; }
    double best = INFINITY;
    for (int c = 0; c < C; c++) {
      double ws = 0, ww = 0, e = 0;
      for (int k = 0; k < M; k++) { ws += ref(k, c) * t[k]; ww += ref(k, c) * ref(k, c); }
      for (int k = 0; k < M; k++) { const double z = t[k] - ws / ww * ref(k, c); e += z * z; }
      d[c] = e;
      best = std::min(best, e);
    }
    const double tol = 1e-7 * t2;
    std::vector<int> a;
    for (int c = 0; c < C; c++) if (d[c] <= best + tol) a.push_back(c);
    q.t.push_back(t); q.d.push_back(d); q.a.push_back(a); q.tol.push_back(tol);
  }
  q.ok = true;
  return q;
}

template <class S>
static void niches(pbt::Ctx& c, const S& s, World& w, const Mp& m, const Gen& G, const std::vector<int>& split) {
  const std::vector<int> n = domCount(w, m.less, G.pre);
  const int worst = n[split[0]];
  std::set<int> post(G.post.begin(), G.post.end());
  std::vector<V> f;
  std::vector<int> role;  // 0 selected before, 1 picked from the split layer, 2 eliminated
  for (size_t i = 0; i < G.pre.size(); i++) {
    if (n[i] > worst) continue;
    f.push_back(w.rec[G.pre[i]].fit);
    role.push_back(n[i] < worst ? 0 : post.count(G.pre[i]) ? 1 : 2);
  }
  const auto& ref = s.referencePoints();
  const Niche q = model(f, ref);
  if (!q.ok) { c.label(std::string("skipped:") + q.why); return; }
  const int C = (int)ref.cols();
  std::vector<int> lo(C, 0), hi(C, 0), hi0(C, 0), picked(C, 0);
  std::vector<char> elim(C, 0);
  V bestPick(C, INFINITY), bestDef(C, INFINITY);
  for (size_t i = 0; i < f.size(); i++) {
    const bool def = q.a[i].size() == 1;
    for (int a : q.a[i]) {
      if (role[i] != 2) hi[a]++;
      if (role[i] == 0) hi0[a]++;
      if (role[i] == 1) bestPick[a] = std::min(bestPick[a], q.d[i][a] - q.tol[i]);
    }
    if (def) {
      const int a = q.a[i][0];
      if (role[i] != 2) lo[a]++;
      if (role[i] == 1) picked[a] = 1;
      if (role[i] == 2) elim[a] = 1;
      if (role[i] != 0) bestDef[a] = std::min(bestDef[a], q.d[i][a] + q.tol[i]);
    }
  }
  bool any = false;
  for (int a = 0; a < C; a++) {
    if (elim[a])
      for (int b = 0; b < C; b++)
        if (b != a && picked[b]) {
          any = true;
          c.check(hi[a] >= lo[b] - 1, "niche-order", "a member of the split layer near reference point ", a, " (", hi[a], " survivors) was eliminated while one near reference point ", b, " (", lo[b], " survivors) was taken");
        }
    if (picked[a] && hi0[a] == 0) {
      any = true;
      c.check(bestPick[a] <= bestDef[a], "niche-not-nearest", "the empty niche of reference point ", a, " did not get its nearest candidate: squared distances ", bestPick[a], " and ", bestDef[a]);
    }
  }
  c.label(any ? "niches:checked" : "niches:nothing-to-compare");
}

PBT_TEST(histories, "number of objectives (2..5, fixed or dynamic), single or double reference layer of random precision, 1..40 individuals, options, fitness landscape (ties, planes, objectives of scale 1e-6..1e6, flat objective, improving), 1..3 runs; every observed selection is checked for size, membership, layer order, and against a reference model of normalisation and niches wherever that is unambiguous; non-trivial = somebody had to be eliminated", 20000, 700000) {
  mogaHistory(c, [&](auto& s, auto, World& w, const Mp& m, int r, const std::vector<int>&) {
    for (size_t g = 0; g < w.gens.size(); g++) {
      auto& G = w.gens[g];
      if ((int)G.run != r + 1 || !G.hasPre || !G.hasPost) continue;
      const auto split = layersRespected(c, w, m, G, g);
      if (!split.empty()) niches(c, s, w, m, G, split);
    }
    c.check(s.population().size() <= m.o.populationSize, "size-not-restored", "population of ", s.population().size(), " after the run");
  });
}

PBT_TEST(choices, "3..24 individuals with fixed objectives, one selection repeated 400 times with fresh randomness; how often each individual survives is compared (8 sigma) with 4000 runs of a reference model that breaks ties between equally occupied reference points, and between candidates of an occupied one, evenly; non-trivial = the model leaves something to chance", 150, 6000) {
  Mp m = genMoga(c);
  if (m.M > 5) m.M = 5;  // 400 repetitions
  World w(c);
  const int N = (int)c.s.i(3, 24), K = (int)c.s.i(1, N - 1), M = m.M;
  const bool planes = c.s.chance(0.6);
  const int near = (int)c.s.idx(3);  // crowd the candidates around a direction
  std::vector<V> F;
  for (int i = 0; i < N; i++) {
    V f(M);
    double t = 0;
    for (auto& x : f) { x = c.s.unit() + 1e-3; t += x; }
    if (near) for (auto& x : f) x = 0.2 + x * (near == 1 ? 0.1 : 0.3);
    t = 0;
    for (auto& x : f) t += x;
    if (planes) for (auto& x : f) x = x / t + (i % 3 == 0 ? 0.5 : 0);
    F.push_back(f);
  }
  w.nobj = M;
  w.fit = [&](const Rec& r) { return F[r.slot % N]; };
  describe(c, m);
  c.note(" N=", N, " choose ", K);
  V count(N, 0), want(N, 0);
  const int R = 400, Q = 4000;
  bool usable = true;
  withMoga(m, [&](auto& s, auto tag) {
    prepare(s, m, w, tag);
    std::vector<int> n(N, 0);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) n[i] += dom(true, F[j], F[i]);
    GAOption o;
    o.maxGenerations = 0;
    o.crossoverProb = 0;
    o.mutateProb = 0;
    for (int r = 0; r < R; r++) {
      w.run = r + 1;
      w.varying = true;
      o.populationSize = N;
      s.setOption(o);
      s.initializePop();
      o.populationSize = K;
      s.setOption(o);
      s.run();
      c.rethrow();
      for (const auto& g : s.population()) count[(g.decision_variable.id - 1) % N]++;
      w.gens.clear();
    }
    std::mt19937_64 rg(c.s.hash());  // reference model
    std::vector<int> ord(N);
    for (int i = 0; i < N; i++) ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return n[a] < n[b]; });
    const int worst = n[ord[K - 1]];
    std::vector<int> cand;
    std::vector<V> f;
    for (int i = 0; i < N; i++) if (n[i] <= worst) { cand.push_back(i); f.push_back(F[i]); }
    const auto& ref = s.referencePoints();
    const Niche q = model(f, ref);
    if (!q.ok) { usable = false; return; }
    for (auto& a : q.a) usable &= a.size() == 1;
    if (!usable) return;
    for (int rep = 0; rep < Q; rep++) {
      std::map<int, int> rho;
      std::map<int, std::vector<int>> fl;
      int have = 0;
      for (int k = 0; k < (int)ref.cols(); k++) rho[k] = 0;
      for (size_t i = 0; i < cand.size(); i++) {
        if (n[cand[i]] < worst) { rho[q.a[i][0]]++; have++; want[cand[i]] += 1; }
        else fl[q.a[i][0]].push_back((int)i);
      }
      if (cand.size() == (size_t)K) { for (auto& l : fl) for (int i : l.second) want[cand[i]] += 1; continue; }
      while (have < K) {
        int mn = INT_MAX;
        for (auto& x : rho) mn = std::min(mn, x.second);
        std::vector<int> mins;
        for (auto& x : rho) if (x.second == mn) mins.push_back(x.first);
        const int j = mins[rg() % mins.size()];
        auto& l = fl[j];
        if (l.empty()) { rho.erase(j); continue; }
        size_t p = 0;
        if (mn == 0) { for (size_t k = 1; k < l.size(); k++) if (q.d[l[k]][j] < q.d[l[p]][j]) p = k; }
        else p = rg() % l.size();
        want[cand[l[p]]] += 1;
        l.erase(l.begin() + p);
        rho[j]++;
        have++;
      }
    }
  });
  if (!usable) { c.label("ambiguous"); return; }
  for (int i = 0; i < N; i++) {
    const double p = want[i] / Q, v = std::max(p * (1 - p), 0.003);
    c.nontrivial(want[i] > 0 && want[i] < Q);
    c.check(std::abs(count[i] - R * p) <= 8 * std::sqrt(v * R * (1 + (double)R / Q)) + 1e-9, "survival-rate", "individual ", i, " survived ", count[i], " of ", R, " selections, the reference model says ", p * R);
  }
}
