// C21: personal and global bests are the best positions really visited, with their own fitness, and are never lost.
#include "pso.hpp"
using namespace pso;

PBT_TEST(bests, "as the motion histories (C20); personal bests, the global best, bestFitness() and the record are compared with the best over every position photographed so far, and every reported fitness with the fitness of the reported position; non-trivial = fitness differs between particles", 32000, 500000) {
  std::vector<double> own;   // best fitness of each particle since initialisation
  double glob = 0;
  auto absorb = [&](const Sp& sp, World& w, const Snap& s) {
    for (size_t k = 0; k < s.p.size(); k++) {
      const double f = w.f(s.p[k].x);
      if (better(sp.less, f, own[k])) own[k] = f;
      if (better(sp.less, f, glob)) glob = f;
      c.nontrivial(f != own[0]);
    }
  };
  auto verify = [&](const Sp& sp, World& w, const Snap& s, const char* when) {
    for (size_t k = 0; k < s.p.size(); k++) {
      auto& p = s.p[k];
      c.check(w.f(p.pb) == p.pbf, "pbest-inconsistent", when, ": the best of particle ", k, " claims fitness ", p.pbf, ", its position has ", w.f(p.pb));
      c.check(p.pbf == own[k], "pbest-wrong", when, ": the best of particle ", k, " is ", p.pbf, ", it has visited ", own[k]);
    }
    c.check(w.f(s.gb) == s.gbf, "gbest-inconsistent", when, ": the global best claims fitness ", s.gbf, ", its position has ", w.f(s.gb));
    c.check(s.gbf == glob, "gbest-wrong", when, ": the global best is ", s.gbf, ", the swarm has visited ", glob);
  };
  history(c, [&](const After& a, World& w) {
    V bests;
    for (size_t g = 0; g < a.gens.size(); g++) {
      if (g > 0) verify(a.sp, w, a.gens[g], "during the run");
      absorb(a.sp, w, a.gens[g]);
      bests.push_back(glob);
    }
    verify(a.sp, w, a.last, "after the run");
    c.check(a.best == glob, "best-fitness", "bestFitness() is ", a.best, ", the best visited fitness is ", glob);
    for (size_t k = 0; k < a.last.p.size(); k++) c.check(a.last.p[k].f == w.f(a.last.p[k].x), "fitness-stale", "particle ", k, " carries fitness ", a.last.p[k].f, ", its position has ", w.f(a.last.p[k].x));
    if (a.sp.rec) c.check(a.record == bests, "record-wrong", "record ", hx::show(a.record), ", best visited after each generation ", hx::show(bests));
  }, [&](const Sp& sp, const Snap& s, World& w, size_t, size_t, int) {
    own.clear();
    for (auto& p : s.p) {
      own.push_back(w.f(p.x));
      c.check(p.f == w.f(p.x) && p.pbf == p.f && p.pb == p.x, "initial-best", "after initialisation a particle's best is not where it is");
    }
    glob = own[0];
    for (double f : own) if (better(sp.less, f, glob)) glob = f;
    c.check(w.f(s.gb) == s.gbf, "gbest-inconsistent", "after initialisation the global best claims fitness ", s.gbf, ", its position has ", w.f(s.gb));
    c.check(std::count(own.begin(), own.end(), s.gbf) > 0, "initial-best", "after initialisation the global best belongs to nobody");
  });
}
