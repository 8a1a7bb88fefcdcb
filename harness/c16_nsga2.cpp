// C16: NSGA2 keeps whole dominance layers in order and the least crowded members of the layer it has to split.
#define MOGA_ONLY2
#include "moga.hpp"
using namespace ga;

static void crowding(pbt::Ctx& c, World& w, const Mp& m, const Gen& G, const std::vector<int>& split) {
  const int N = (int)G.pre.size();
  std::vector<double> cd(N, 0);
  double tol = 1e-9;
  for (int k = 0; k < m.M; k++) {
    std::vector<int> ord(N);
    for (int i = 0; i < N; i++) ord[i] = i;
    auto F = [&](int i) { return w.rec[G.pre[i]].fit[k]; };
    std::sort(ord.begin(), ord.end(), [&](int a, int b) { return F(a) < F(b); });
    for (int i = 1; i < N; i++) if (F(ord[i - 1]) == F(ord[i])) { c.label("crowding:ties"); return; }
    const double range = F(ord[N - 1]) - F(ord[0]);
    if (!(range > 1e-7)) return;
    tol = std::max(tol, 2e-10 / range);  // the library adds 1e-10 to the range
    cd[ord[0]] = cd[ord[N - 1]] = INFINITY;
    for (int i = 1; i + 1 < N; i++) cd[ord[i]] += (F(ord[i + 1]) - F(ord[i - 1])) / range;
  }
  c.label("crowding:checked");
  std::set<int> post(G.post.begin(), G.post.end());
  double minIn = INFINITY, maxOut = -1;
  for (int i : split) (post.count(G.pre[i]) ? minIn = std::min(minIn, cd[i]) : maxOut = std::max(maxOut, cd[i]));
  c.check(minIn >= maxOut * (1 - tol), "crowding-order", "a survivor of the split layer has crowding distance ", minIn, ", somebody eliminated from it has ", maxOut);
}

PBT_TEST(histories, "number of objectives (2..6, fixed or dynamic), direction, operator style, 1..40 individuals (initially more or fewer than the population size), options, fitness landscape (ties, all equal, planes, wide scales, flat objective, improving), 1..3 runs; every observed selection is checked for size, membership, layer order and crowding distance; non-trivial = somebody had to be eliminated", 60000, 2000000) {
  mogaHistory(c, [&](auto& s, auto, World& w, const Mp& m, int r, const std::vector<int>&) {
    for (size_t g = 0; g < w.gens.size(); g++) {
      auto& G = w.gens[g];
      if ((int)G.run != r + 1 || !G.hasPre || !G.hasPost) continue;
      const auto split = layersRespected(c, w, m, G, g);
      if (!split.empty()) crowding(c, w, m, G, split);
    }
    c.check(s.population().size() <= m.o.populationSize, "size-not-restored", "population of ", s.population().size(), " after the run");
  });
}
