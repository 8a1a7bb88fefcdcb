// C24: AOS keeps the best electrons, sorts them into layers and keeps true averages and bests of atom and layers.
#include "aos.hpp"
using namespace aos;

static bool close(const Sp& sp, double a, double b, double size) { return std::abs(a - b) <= (sp.flt ? 2e-5 : 1e-10) * (size + std::abs(a) + std::abs(b) + 1e-300); }

// could the electrons be spread over `max` or fewer layers by the density exp(-18 (i/k)^2)?
static bool shape(const std::vector<size_t>& size, size_t max, double n) {
  for (size_t k = size.size(); k <= max; k++) {
    double sum = 0;
    for (size_t i = 1; i <= k; i++) sum += std::exp(-18.0 * i * i / k / k);
    bool ok = true;
    for (size_t i = 0; i < k && ok; i++) {
      const double want = n * std::exp(-18.0 * (i + 1) * (i + 1) / k / k) / sum, have = i < size.size() ? size[i] : 0;
      // the last layers make up for what rounding gained or lost
      ok = std::abs(have - want) <= (i + 1 >= size.size() ? 1.0 + 0.5 * k : 1.0);
    }
    if (ok) return true;
  }
  return false;
}

// the atom s, right after selection out of `pool` (states and energies)
static void atom(pbt::Ctx& c, const Sp& sp, const std::vector<El>& pool, const Snap& s, const char* when) {
  c.check(!s.stray, "stale-electron", when, ": a layer refers to an electron that is not in the atom");
  c.check(s.best >= 0, "stale-electron", when, ": the best electron is not in the atom");
  std::vector<El> kept;
  for (auto& e : s.e) if (e.computed) kept.push_back(e);
  for (auto& e : kept) c.check(e.e == W->f(e.x), "wrong-energy", when, ": an electron at ", hx::show(e.x), " has energy ", e.e, " instead of ", W->f(e.x));
  auto order = [&](double a, double b) { return better(sp.less, a, b); };
  // survivors: the best ones of the pool
  const size_t n = std::min<size_t>(pool.size(), sp.o.electronNum);
  c.check(kept.size() == n, "survivors", when, ": ", kept.size(), " survivors of ", pool.size(), ", electronNum is ", sp.o.electronNum);
  std::vector<double> pe, ke;
  for (auto& e : pool) pe.push_back(e.e);
  for (auto& e : kept) ke.push_back(e.e);
  std::sort(pe.begin(), pe.end(), order);
  std::sort(ke.begin(), ke.end(), order);
  pe.resize(n);
  c.check(pe == ke, "survivors", when, ": survivors have energies ", hx::show(ke), ", the best of the pool are ", hx::show(pe));
  std::multiset<V> from;
  for (auto& e : pool) from.insert(e.x);
  for (auto& e : kept) {
    auto it = from.find(e.x);
    c.check(it != from.end(), "survivors", when, ": electron ", hx::show(e.x), " survived but was not there");
    from.erase(it);
  }
  // atom
  V mean(sp.dim, 0), size(sp.dim, 0);
  long double me = 0, se = 0;
  for (auto& e : pool) {
    for (int i = 0; i < sp.dim; i++) { mean[i] += e.x[i] / pool.size(); size[i] += std::abs(e.x[i]) / pool.size(); }
    me += e.e / pool.size();
    se += std::abs(e.e) / pool.size();
  }
  for (int i = 0; i < sp.dim; i++) c.check(close(sp, mean[i], s.bs[i], size[i]), "atom-mean", when, ": binding state ", i, " of the atom is ", s.bs[i], ", the mean is ", mean[i]);
  c.check(close(sp, (double)me, s.be, (double)se), "atom-mean", when, ": binding energy of the atom is ", s.be, ", the mean is ", (double)me);
  c.check(s.bestE == pe[0], "atom-best", when, ": best electron has energy ", s.bestE, ", the best is ", pe[0]);
  // layers
  c.check(!s.l.empty() && s.l.size() <= sp.o.maxLayerNum, "layer-number", when, ": ", s.l.size(), " layers, maxLayerNum is ", sp.o.maxLayerNum);
  std::set<int> seen;
  double outer = 0;
  for (size_t k = 0; k < s.l.size(); k++) {
    const La& l = s.l[k];
    c.check(!l.who.empty(), "empty-layer", when, ": layer ", k, " of ", s.l.size(), " is empty");
    V m(sp.dim, 0), z(sp.dim, 0);
    long double e = 0, ze = 0;
    double best = s.e[l.who[0]].e, worst = best;
    for (int p : l.who) {
      c.check(seen.insert(p).second, "layer-partition", when, ": an electron is twice in the layers");
      const double w = 1.0 / l.who.size();
      for (int i = 0; i < sp.dim; i++) { m[i] += s.e[p].x[i] * w; z[i] += std::abs(s.e[p].x[i]) * w; }
      e += s.e[p].e * w;
      ze += std::abs(s.e[p].e) * w;
      if (order(s.e[p].e, best)) best = s.e[p].e;
      if (order(worst, s.e[p].e)) worst = s.e[p].e;
    }
    c.check(!k || !order(best, outer), "layer-order", when, ": layer ", k, " holds energy ", best, ", better than ", outer, " of the layer inside it");
    outer = worst;
    c.check(l.best >= 0 && l.best < (int)l.who.size(), "layer-best", when, ": layer ", k, " of ", l.who.size(), " electrons has its best at ", l.best);
    c.check(s.e[l.who[l.best]].e == best, "layer-best", when, ": best of layer ", k, " has energy ", s.e[l.who[l.best]].e, ", the best is ", best);
    for (int i = 0; i < sp.dim; i++) c.check((int)l.bs.size() == sp.dim && close(sp, m[i], l.bs[i], z[i]), "layer-mean", when, ": binding state ", i, " of layer ", k, " is ", l.bs[i], ", the mean is ", m[i]);
    c.check(close(sp, (double)e, l.be, (double)ze), "layer-mean", when, ": binding energy of layer ", k, " is ", l.be, ", the mean is ", (double)e);
  }
  std::vector<size_t> sizes;
  for (auto& l : s.l) sizes.push_back(l.who.size());
  c.check(shape(sizes, std::min<size_t>(sp.o.maxLayerNum, kept.size()), (double)kept.size()), "layer-shape", when, ": ", kept.size(), " electrons were put into layers of ", hx::show(sizes), ", electronNum is ", sp.o.electronNum, ", maxLayerNum ", sp.o.maxLayerNum);
  c.check(seen.size() == kept.size(), "layer-partition", when, ": ", seen.size(), " of ", kept.size(), " electrons are in a layer");
  c.label(pbt::cat("layers ", std::min<size_t>(s.l.size(), 6)));
}

PBT_TEST(histories, "histories as in C23; a reference model replays each generation: pool = survivors + evaluated offspring, survivors = the electronNum best, means and best of the atom over the pool, layers = non-empty partition ordered by energy with true means and bests; non-trivial = at least one selection among offspring and two layers", 24000, 400000) {
  bool two = false, sel = false;
  history(c, [&](const After& a, World& w) {
    std::vector<El> pool = a.before.e;
    for (auto& e : pool) if (!e.computed) e.e = w.f(e.x);
    for (size_t g = 0; g < a.gens.size(); g++) {
      const Snap& s = a.gens[g];
      if (s.l.empty()) {   // the initial electrons
        c.check(g == 0 && a.run == 0, "no-layers", "an atom without layers in the middle of a run");
        continue;
      }
      atom(c, a.sp, pool, s, "during the run");
      two |= s.l.size() > 1;
      sel |= pool.size() > a.sp.o.electronNum;
      pool = s.e;
      for (auto& e : pool) if (!e.computed) e.e = w.f(e.x);
    }
    atom(c, a.sp, pool, a.last, "after the run");
    two |= a.last.l.size() > 1;
    sel |= pool.size() > a.sp.o.electronNum;
    c.nontrivial(two && sel);
  }, [&](const Sp&, const Snap&, World&, size_t, size_t, int) {});
}

PBT_TEST(layering, "5..80 electrons, 2..12 layers allowed, 60 generations: the sizes of the layers must follow the Gaussian density of some allowed layer number, and that number must vary; non-trivial = always", 800, 12000) {
  setThreadNum((int)c.s.i(1, 16));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  c.nontrivial();
  withSolver(combo, [&](auto& s, auto tag) {
    Sp sp = genSpec(c, combo, tag);
    sp.o.electronNum = c.s.i(5, 80);
    sp.o.maxLayerNum = c.s.i(2, std::min<int64_t>(12, sp.o.electronNum));
    sp.o.maxGeneration = 60;
    sp.o.maxEarlyStop = 100000;
    describe(c, sp);
    genFitness(c, w, sp);
    prepare(c, w, s, sp, tag);
    s.initializePop();
    w.watching = true;
    w.expect = 0;
    s.run();
    c.rethrow();
    std::map<size_t, int> count;
    for (auto& g : w.snaps) {
      if (g.l.empty()) continue;
      count[g.l.size()]++;
      std::vector<size_t> size;
      for (auto& l : g.l) size.push_back(l.who.size());
      c.check(shape(size, sp.o.maxLayerNum, (double)sp.o.electronNum), "layer-shape", sp.o.electronNum, " electrons were put into layers of ", hx::show(size));
    }
    // the layer number is drawn from 1..maxLayerNum; small atoms have too thin a tail to show it
    if (sp.o.maxLayerNum >= 5 && sp.o.electronNum >= 30) {
      c.label("number:checked");
      c.check(count.size() >= 2 && count.count(1), "layer-random", "60 generations had ", count.size(), " different numbers of layers, maxLayerNum is ", sp.o.maxLayerNum);
      // numbers from maxLayerNum on the outside are drawn as often as the others
      c.check(count.rbegin()->first >= 2 && count.rbegin()->first <= (size_t)sp.o.maxLayerNum, "layer-random", "at most ", count.rbegin()->first, " layers in 60 generations");
    }
  });
  W = nullptr;
}

// chance of at most k hits among n with probability p
static double atMost(int k, int n, double p) {
  double s = 0;
  for (int i = 0; i <= k; i++) s += std::exp(std::lgamma(n + 1.0) - std::lgamma(i + 1.0) - std::lgamma(n - i + 1.0) + i * std::log(p) + (n - i) * std::log1p(-p));
  return s;
}
PBT_TEST(number, "150..300 electrons, 4..8 layers allowed, 240 generations: each layer number from 1 to maxLayerNum must be drawn equally often (layer numbers that give the same sizes are counted together; chance of the counts below 1e-13 is a violation); non-trivial = always", 100, 2000) {
  setThreadNum((int)c.s.i(1, 4));
  const int combo = (int)c.s.idx(7) + PART * 7;
  World w(c);
  W = &w;
  c.nontrivial();
  withSolver(combo, [&](auto& s, auto tag) {
    Sp sp = genSpec(c, combo, tag);
    sp.o.electronNum = c.s.i(150, 300);
    sp.o.maxLayerNum = c.s.i(4, 8);
    sp.o.maxGeneration = 240;
    sp.o.maxEarlyStop = 100000;
    describe(c, sp);
    genFitness(c, w, sp);
    prepare(c, w, s, sp, tag);
    s.initializePop();
    w.watching = true;
    w.expect = 0;
    s.run();
    c.rethrow();
    const int M = (int)sp.o.maxLayerNum;
    const double n = (double)sp.o.electronNum;
    std::vector<V> ideal;
    for (int k = 1; k <= M; k++) {
      V v(M, 0);
      double sum = 0;
      for (int i = 1; i <= k; i++) sum += v[i - 1] = std::exp(-18.0 * i * i / k / k);
      for (auto& x : v) x *= n / sum;
      ideal.push_back(v);
    }
    auto dist = [&](const V& a, const V& b) { double d = 0; for (int i = 0; i < M; i++) d += std::abs(a[i] - b[i]); return d; };
    std::vector<int> group(M), count(M, 0);
    for (int k = 0; k < M; k++) {
      group[k] = k;
      for (int j = 0; j < k && group[k] == k; j++) if (dist(ideal[k], ideal[j]) < 3 + M) group[k] = group[j];  // rounding moves half an electron per layer
    }
    int total = 0;
    for (auto& g : w.snaps) {
      if (g.l.empty()) continue;
      V v(M, 0);
      for (size_t i = 0; i < g.l.size() && i < (size_t)M; i++) v[i] = (double)g.l[i].who.size();
      int best = 0;
      for (int k = 1; k < M; k++) if (dist(v, ideal[k]) < dist(v, ideal[best])) best = k;
      count[group[best]]++;
      total++;
    }
    for (int k = 0; k < M; k++) {
      if (group[k] != k) continue;
      int members = 0;
      for (int j = 0; j < M; j++) members += group[j] == k;
      if (members == M || total < 100) continue;
      c.label("number:checked");
      const double p = members / (double)M;
      c.check(atMost(count[k], total, p) > 1e-13 && atMost(total - count[k], total, 1 - p) > 1e-13, "layer-number-law", count[k], " of ", total, " generations look like ", k + 1, " layers (", members, " of the ", M, " allowed numbers look like that)");
    }
  });
  W = nullptr;
}
