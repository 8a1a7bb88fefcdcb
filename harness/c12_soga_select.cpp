// C12: each selection method restores the population size, invents nobody, and favours individuals as documented.
#include "soga.hpp"
using namespace ga;

static void structural(pbt::Ctx& c, World& w, const Sp& sp, const Gen& G, size_t g) {
  if (!G.hasPre || !G.hasPost) return;
  const int K = (int)sp.o.populationSize, N = (int)G.pre.size();
  c.check((int)G.post.size() == std::min(K, N), "size-not-restored", Enum2String(sp.m), ": generation ", g, " has ", G.post.size(), " survivors of ", N, ", population size is ", K);
  std::map<int, int> pre, post;
  for (int i : G.pre) pre[i]++;
  for (int i : G.post) post[i]++;
  if (N <= K) {
    c.check(pre == post, "needless-elimination", "nobody had to go, but ", ga::show(G.pre), " became ", ga::show(G.post));
    return;
  }
  c.nontrivial();
  for (auto& p : post) {
    c.check(pre.count(p.first), "survivor-invented", Enum2String(sp.m), ": survivor ", p.first, " was not there before the selection");
    if (sp.m != Tournament) c.check(p.second <= pre[p.first], "survivor-duplicated", Enum2String(sp.m), ": survivor ", p.first, " appears ", p.second, " times");
  }
  auto F = [&](int id) { return w.rec[id].fit[0]; };
  std::vector<double> fp, fs;
  for (int i : G.pre) fp.push_back(F(i));
  for (int i : G.post) fs.push_back(F(i));
  auto cmp = [&](double a, double b) { return better(sp.less, a, b); };
  std::sort(fp.begin(), fp.end(), cmp);
  std::sort(fs.begin(), fs.end(), cmp);
  if (sp.m == Truncation) c.check(std::equal(fs.begin(), fs.end(), fp.begin()), "truncation-not-best", "truncation kept something else than the ", K, " best");
  if (sp.m == EliteReserved)
    for (int e = 0; e < std::min(sp.elite, K); e++) c.check(fs[e] == fp[e], "elite-lost", "one of the ", sp.elite, " best did not survive");
  if (sp.m == Tournament)
    for (double f : fs) {
      int nb = 0;
      for (double x : fp) nb += !cmp(x, f);
      c.check(nb >= sp.tour, "tournament-weak-winner", "a survivor beats or ties only ", nb - 1, " others, a tournament has ", sp.tour);
    }
}

PBT_TEST(histories, "selection method (compile or run time), direction, operator style, 1..40 individuals, options, fitness landscape (ties, all equal, wide scales, improving), 1..3 runs of up to 25 generations; every observed selection is checked for size, membership, multiplicity and the method's deterministic guarantees; non-trivial = somebody had to be eliminated", 24000, 600000) {
  history(c, [&](auto& s, auto, World& w, const Sp& sp, int r, const std::vector<int>&) {
    for (size_t g = 0; g < w.gens.size(); g++)
      if ((int)w.gens[g].run == r + 1) structural(c, w, sp, w.gens[g], g);
    c.check(s.population().size() <= sp.o.populationSize, "size-not-restored", "population of ", s.population().size(), " after the run");
    c.check(s.selectMethod() == sp.m, "method-name", "selectMethod() is not the method in use");
  });
}

// inclusion probabilities of successive draws without replacement, weight given by its logarithm
static void successive(const std::vector<double>& lw, int K, std::vector<bool>& in, double p, std::vector<double>& out) {
  if (p == 0) return;
  if (K == 0) {
    for (size_t i = 0; i < in.size(); i++) if (in[i]) out[i] += p;
    return;
  }
  double mx = -INFINITY, sum = 0;
  int left = 0;
  for (size_t i = 0; i < in.size(); i++) if (!in[i]) { mx = std::max(mx, lw[i]); left++; }
  auto wt = [&](size_t i) { return mx == -INFINITY ? 1.0 : std::exp(lw[i] - mx); };
  for (size_t i = 0; i < in.size(); i++) if (!in[i]) sum += wt(i);
  for (size_t i = 0; i < in.size(); i++)
    if (!in[i]) {
      in[i] = true;
      successive(lw, K - 1, in, p * wt(i) / sum, out);
      in[i] = false;
    }
}

PBT_TEST(chances, "a method, its parameters and 2..6 individuals with distinct or tied integer-valued fitness; 8000 single selections of 1..3 survivors; each individual's survival frequency must match the documented law (roulette f-min, Probability p^K(1-p)^(N-K), linear and exponential in rank, exp(b f), uniform, tournament order statistics, SUS expected counts) within 8 sigma; non-trivial = unequal chances", 450, 12000) {
  Sp sp;
  sp.m = kMethods[c.s.idx(10)];
  sp.runtime = c.s.chance(0.3);
  sp.less = !c.s.chance(0.5);
  const int N = (int)c.s.i(2, 6);
  int K = (int)c.s.i(1, std::min(3, N - 1));
  if (sp.m == Tournament) K = 3;
  if (sp.m == Tournament && N < 4) return;
  sp.tour = 2;
  const bool ranked = sp.m == LinearRank || sp.m == ExponentialRank || sp.m == EliteReserved;
  std::vector<double> f(N);
  const int style = (int)c.s.idx(4);
  const double off = c.s.pick({0.0, -20.0, 1000.0, 3.0});
  for (int i = 0; i < N; i++) {
    bool dup;
    do {
      f[i] = style == 1 ? 0 : (double)c.s.i(0, 12);
      if (sp.m == Boltzmann && style == 2) f[i] = (double)c.s.i(0, 12) / 10;
      dup = false;
      if (ranked) for (int j = 0; j < i; j++) dup |= f[i] == f[j];
      if (dup && style == 1) { f[i] = i; dup = false; }
      if (dup) { f[i] = 20 + i; dup = false; }
    } while (dup);
  }
  for (auto& x : f) x += off;
  sp.elite = (int)c.s.i(1, K);
  sp.lw = c.s.pick({0.1, 0.0, 0.5, 0.3});
  sp.lb = c.s.pick({0.9, 1.0, 0.6});
  sp.ec = c.s.pick({0.8, 0.5, 0.99, 0.1});
  const bool defaults = c.s.chance(0.2);
  if (defaults) { sp.lw = 0.1; sp.lb = 0.9; sp.ec = 0.8; }
  sp.setBoltz = !defaults;
  sp.boltz = (sp.less ? -1 : 1) * c.s.pick({1.0, 10.0, 0.1, 0.01, 500.0});
  if (sp.setBoltz && c.s.chance(0.1)) sp.boltz = 0;
  const double b = sp.setBoltz ? sp.boltz : (sp.less ? -10 : 10);
  // expected survival counts
  std::vector<double> ex(N, 0), lw(N);
  std::vector<int> ord(N);
  for (int i = 0; i < N; i++) ord[i] = i;
  std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { return better(sp.less, f[x], f[y]); });
  std::vector<int> rank(N);
  for (int k = 0; k < N; k++) rank[ord[k]] = k;
  double mn = INFINITY, sum = 0;
  for (double x : f) mn = std::min(mn, sp.less ? -x : x);
  auto val = [&](int i) { return (sp.less ? -f[i] : f[i]) - mn; };
  for (int i = 0; i < N; i++) sum += val(i);
  std::vector<bool> in(N, false);
  int k = K;
  bool exact = true;
  auto choose = [](int n, int r) { double x = 1; for (int i = 0; i < r; i++) x = x * (n - i) / (i + 1); return n < r ? 0.0 : x; };
  switch (sp.m) {
    case RouletteWheel: for (int i = 0; i < N; i++) lw[i] = std::log(val(i)); break;
    case Probability:
      for (int i = 0; i < N; i++) { const double p = sum > 0 ? val(i) / sum : 1.0 / N; lw[i] = K * std::log(p) + (N - K) * std::log(1 - p); }
      break;
    case LinearRank: for (int i = 0; i < N; i++) lw[i] = std::log(sp.lw + (sp.lb - sp.lw) * (N - 1 - rank[i]) / (N - 1)); break;
    case ExponentialRank: for (int i = 0; i < N; i++) lw[i] = rank[i] * std::log(sp.ec); break;
    case Boltzmann: for (int i = 0; i < N; i++) lw[i] = b * f[i]; break;
    case MonteCarlo: for (int i = 0; i < N; i++) lw[i] = 0; break;
    case EliteReserved:
      for (int i = 0; i < N; i++) { lw[i] = std::log(val(i)); if (rank[i] < sp.elite) { in[i] = true; k--; } }
      break;
    default: exact = false;
  }
  if (exact) successive(lw, k, in, 1.0, ex);
  if (sp.m == Truncation) {  // ties at the cut share the places in an unspecified way: only clear cases
    for (int i = 0; i < N; i++) {
      int strictlyBetter = 0, notWorse = 0;
      for (int j = 0; j < N; j++) { strictlyBetter += better(sp.less, f[j], f[i]); notWorse += !better(sp.less, f[i], f[j]); }
      ex[i] = notWorse <= K ? 1 : strictlyBetter >= K ? 0 : -1;
    }
  }
  if (sp.m == Tournament)
    for (int i = 0; i < N; i++) {  // expected copies; tied individuals share
      int worse = 0, tied = 0;
      for (int j = 0; j < N; j++) { worse += better(sp.less, f[i], f[j]); tied += f[j] == f[i]; }
      ex[i] = K * (choose(worse + tied, sp.tour) - choose(worse, sp.tour)) / choose(N, sp.tour) / tied;
    }
  if (sp.m == StochasticUniversal)
    for (int i = 0; i < N; i++) {
      bool anyBig = false;
      for (int j = 0; j < N; j++) anyBig |= sum > 0 && val(j) > sum / K * (1 + 1e-9);
      if (sum <= 0) ex[i] = (double)K / N;
      else if (!anyBig) ex[i] = val(i) * K / sum;
      else ex[i] = val(i) >= sum / K * (1 + 1e-9) ? 1 : -1;
    }
  const int R = c.thorough ? 20000 : 8000;
  c.label(std::string("method:") + Enum2String(sp.m));
  c.note(Enum2String(sp.m), sp.runtime ? " (run time)" : "", sp.less ? " minimise" : " maximise", " N=", N, " K=", K, " f=", hx::show(f), " lw=", sp.lw, " lb=", sp.lb, " c=", sp.ec, " b=", b, " elite=", sp.elite);
  for (int i = 1; i < N; i++) c.nontrivial(ex[i] != ex[0]);
  std::vector<double> cnt(N, 0);
  World w(c);
  w.fit = [&](const Rec& r) -> std::vector<double> { return {f[r.slot % N]}; };
  withSolver(sp, [&](auto& s, auto tag) {
    prepare(s, sp, w, tag);
    params(s, sp, tag);
    GAOption o;
    o.maxGenerations = 0;
    for (int rep = 0; rep < R; rep++) {
      w.rec.resize(1);
      w.evals.resize(1);
      w.gens.clear();
      w.inits = 0;
      w.varying = true;
      o.populationSize = N;
      s.setOption(o);
      s.initializePop();
      o.populationSize = K;
      s.setOption(o);
      s.run();
      c.check((int)s.population().size() == K, "size-not-restored", Enum2String(sp.m), ": ", s.population().size(), " survivors instead of ", K);
      for (auto& g : s.population()) cnt[w.rec[g.decision_variable.id].slot]++;
    }
  });
  for (int i = 0; i < N; i++) {
    if (ex[i] < 0) continue;
    const double e = ex[i], got = cnt[i] / R;
    if (e == 0 || e >= 1 - 1e-15 && sp.m != Tournament) {
      c.check(std::fabs(got - e) <= 1e-9, "chance", Enum2String(sp.m), ": individual ", i, " with fitness ", f[i], " survives with frequency ", got, " instead of ", e);
      continue;
    }
    const double var = sp.m == Tournament ? (double)K * K / 4 : e * (1 - e);
    const double tol = 8 * std::sqrt(var / R) + 40.0 / R;
    c.check(std::fabs(got - e) <= tol, "chance", Enum2String(sp.m), ": individual ", i, " with fitness ", f[i], " survives with frequency ", got, " instead of ", e, " (+-", tol, ")");
  }
}

// the same laws in populations of realistic size, where the exact chances cannot be enumerated: the survivors of each block
// of ranks are compared with those of a reference that draws one after the other (Gumbel keys: the K largest of
// log(weight) + Gumbel noise are distributed exactly like K successive draws without replacement)
PBT_TEST(crowd, "a method, its parameters and 7..200 individuals with fitness that is uniform, integer, tied, geometric over 1..30 decades, improving towards one end, penalised with the greatest double or spread over all doubles; 300 single selections of 1..N-1 survivors and 300 of the reference; the mean number of survivors in each block of ranks must agree within 8 standard errors; non-trivial = the blocks' chances differ", 110, 2500) {
  Sp sp;
  sp.m = c.s.pick({RouletteWheel, ExponentialRank, LinearRank, Probability, Boltzmann, EliteReserved, StochasticUniversal, Tournament, MonteCarlo});
  sp.runtime = c.s.chance(0.3);
  sp.less = !c.s.chance(0.5);
  const int N = (int)(c.s.chance(0.4) ? c.s.i(7, 30) : c.s.i(31, 200));
  const int K = (int)(c.s.chance(0.5) ? (N + 1) / 2 : c.s.i(sp.m == Tournament ? 3 : 1, N - 1));
  if (sp.m == Tournament) sp.tour = (int)c.s.i(2, std::min(K - 1, 9));
  sp.elite = (int)c.s.i(1, K);
  if (c.s.chance(0.6)) sp.elite = std::min(sp.elite, 3);
  sp.lw = c.s.pick({0.1, 0.0, 0.5, 0.3});
  sp.lb = c.s.pick({0.9, 1.0, 0.6});
  sp.ec = c.s.pick({0.8, 0.5, 0.99, 0.1, 0.95, 1e-6});
  sp.setBoltz = true;
  sp.boltz = (sp.less ? -1 : 1) * c.s.pick({1.0, 10.0, 0.1, 500.0});
  const bool ranked = sp.m == LinearRank || sp.m == ExponentialRank || sp.m == EliteReserved || sp.m == Tournament;
  const int style = (int)c.s.idx(7);
  const double scale = c.s.pick({1.0, 1e-3, 1e6, 1e300}), decades = c.s.i(1, 30), off = c.s.pick({0.0, -20.0, 1000.0});
  uint64_t h = c.s.raw(0xffffffffffff);
  auto u = [&] { return ((double)(pbt::mix(++h) >> 12) + 0.5) * 0x1p-52; };
  std::vector<double> f(N);
  for (int i = 0; i < N; i++) {
    switch (style) {
      case 0: f[i] = u() * scale; break;
      case 1: f[i] = off + std::floor(u() * 50); break;
      case 2: f[i] = off + (u() < 0.5 ? 0 : std::floor(u() * 4)); break;
      case 5: f[i] = u() < 0.3 ? -std::numeric_limits<double>::max() * (ranked ? 1 - 0.1 * u() : 1) : off + std::floor(u() * 50); break;  // a penalty
      case 6: f[i] = (2 * u() - 1) * std::numeric_limits<double>::max(); break;
      case 3: f[i] = scale * std::pow(10.0, -u() * decades); break;
      default: f[i] = off + (double)i / N; break;
    }
    if (ranked) f[i] += style == 3 || style == 6 ? 0 : i * (double)((style == 0 ? scale : 1.0) / 4096);  // no ties
  }
  if (sp.less && style != 1) for (auto& x : f) x = -x;  // the interesting end is the good one
  for (int i = N - 1; i > 0; i--) std::swap(f[i], f[(int)(u() * (i + 1))]);
  std::vector<int> ord(N), rank(N);
  for (int i = 0; i < N; i++) ord[i] = i;
  std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { return better(sp.less, f[x], f[y]); });
  for (int k = 0; k < N; k++) rank[ord[k]] = k;
  if (ranked) for (int k = 1; k < N; k++) if (f[ord[k]] == f[ord[k - 1]]) return;
  double mn = INFINITY, sum = 0;
  for (double x : f) mn = std::min(mn, sp.less ? -x : x);
  auto val = [&](int i) { return (double)(((long double)(sp.less ? -f[i] : f[i]) - mn) / 1024); };  // without overflow
  for (int i = 0; i < N; i++) sum += val(i);
  std::vector<double> lw(N, 0);
  for (int i = 0; i < N; i++) switch (sp.m) {
    case RouletteWheel: case EliteReserved: lw[i] = std::log(val(i)); break;
    case Probability: { const double p = sum > 0 ? val(i) / sum : 1.0 / N; lw[i] = K * std::log(p) + (N - K) * std::log(std::max(0.0, 1 - p)); break; }
    case LinearRank: lw[i] = std::log(sp.lw + (sp.lb - sp.lw) * (N - 1 - rank[i]) / (N - 1)); break;
    case ExponentialRank: lw[i] = rank[i] ? rank[i] * std::log(sp.ec) : 0; break;
    case Boltzmann: lw[i] = sp.boltz * f[i]; break;
    default: break;
  }
  if (sp.m == Boltzmann) for (double x : lw) if (x == INFINITY) return;  // beyond any chance
  if (sp.m == EliteReserved) {  // the law of the rest is relative to the rest's worst, which is the same individual
    for (int i = 0; i < N; i++) if (rank[i] < sp.elite) lw[i] = INFINITY;
  }
  const int B = std::min(N, 10), R = c.thorough ? 800 : 300;
  double kinds = 0, kindsWant = 0;  // how many different individuals win tournaments
  auto block = [&](int i) { return rank[i] * B / N; };
  std::vector<double> ex(B, 0), exq(B, 0), got(B, 0), gotq(B, 0);
  bool exact = false;  // ex is the expectation itself
  if (sp.m == Tournament) {
    exact = true;
    auto lch = [](int n, int r) { return n < r ? -INFINITY : std::lgamma(n + 1.0) - std::lgamma(r + 1.0) - std::lgamma(n - r + 1.0); };
    for (int i = 0; i < N; i++) { const int worse = N - 1 - rank[i]; ex[block(i)] += K * std::exp(lch(worse, sp.tour - 1) - lch(N, sp.tour)); }
    for (int i = 0; i < N; i++) {  // independent tournaments
      const double p = std::exp(lch(N - 1 - rank[i], sp.tour - 1) - lch(N, sp.tour));
      kindsWant += 1 - std::pow(1 - p, K);
    }
  } else if (sp.m == StochasticUniversal) {
    exact = true;
    for (int i = 0; i < N; i++) {
      if (sum > 0 && val(i) > sum / K * (1 - 1e-9)) return;  // counted once, not as often as its share
      ex[block(i)] += sum > 0 ? val(i) * K / sum : (double)K / N;
    }
  } else {
    std::vector<std::pair<double, int>> key(N);
    std::vector<double> b(B);
    for (int rep = 0; rep < R; rep++) {
      for (int i = 0; i < N; i++) key[i] = {lw[i] == -INFINITY ? -1e300 * (1 + u()) : lw[i] == INFINITY ? 1e300 : lw[i] - std::log(-std::log(u())), i};
      std::nth_element(key.begin(), key.begin() + K - 1, key.end(), std::greater<>());
      std::fill(b.begin(), b.end(), 0);
      for (int k = 0; k < K; k++) b[block(key[k].second)]++;
      for (int k = 0; k < B; k++) { ex[k] += b[k] / R; exq[k] += b[k] * b[k] / R; }
    }
  }
  c.label(std::string("method:") + Enum2String(sp.m));
  c.note(Enum2String(sp.m), sp.runtime ? " (run time)" : "", sp.less ? " minimise" : " maximise", " N=", N, " K=", K, " style=", style, " lw=", sp.lw, " lb=", sp.lb, " c=", sp.ec, " b=", sp.boltz, " elite=", sp.elite, " tour=", sp.tour, " best f=", f[ord[0]], " median f=", f[ord[N / 2]], " worst f=", f[ord[N - 1]]);
  for (int k = 1; k < B; k++) c.nontrivial(std::fabs(ex[k] - ex[0]) > 0.05);
  World w(c);
  w.fit = [&](const Rec& r) -> std::vector<double> { return {f[r.slot % N]}; };
  withSolver(sp, [&](auto& s, auto tag) {
    prepare(s, sp, w, tag);
    params(s, sp, tag);
    GAOption o;
    o.maxGenerations = 0;
    std::vector<double> b(B);
    for (int rep = 0; rep < R; rep++) {
      w.rec.resize(1);
      w.evals.resize(1);
      w.gens.clear();
      w.inits = 0;
      w.varying = true;
      o.populationSize = N;
      s.setOption(o);
      s.initializePop();
      o.populationSize = K;
      s.setOption(o);
      s.run();
      c.check((int)s.population().size() == K, "size-not-restored", Enum2String(sp.m), ": ", s.population().size(), " survivors instead of ", K);
      std::fill(b.begin(), b.end(), 0);
      std::set<int> distinct;
      for (auto& g : s.population()) {
        b[block(w.rec[g.decision_variable.id].slot)]++;
        distinct.insert((int)w.rec[g.decision_variable.id].slot);
      }
      kinds += (double)distinct.size() / R;
      for (int k = 0; k < B; k++) { got[k] += b[k] / R; gotq[k] += b[k] * b[k] / R; }
    }
  });
  if (sp.m == Tournament) c.check(kinds >= 0.9 * kindsWant - 0.1, "tournament-variety", "on average ", kinds, " different individuals win ", K, " tournaments of ", sp.tour, " among ", N, ", independent tournaments give ", kindsWant);
  for (int k = 0; k < B; k++) {
    const double v1 = std::max(0.0, gotq[k] - got[k] * got[k]), v2 = exact ? 0 : std::max(0.0, exq[k] - ex[k] * ex[k]);
    // rare survivors: the sample variance may have missed them all
    const double rare = std::min(ex[k], 1.0) * (sp.m == Tournament ? 4 : 1);
    const double tol = 8 * std::sqrt((std::max(v1, rare * 0.5) + v2) / R) + 40.0 / R;
    c.check(std::fabs(got[k] - ex[k]) <= tol, "chance", Enum2String(sp.m), ": on average ", got[k], " of the individuals with ranks ", (k * N + B - 1) / B, "..", ((k + 1) * N + B - 1) / B - 1, " survive instead of ", ex[k], " (+-", tol, ")");
  }
}
