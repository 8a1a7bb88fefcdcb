// Shared by the genetic-solver harnesses: individuals carry an identity, every operator call is logged, and the
// population is photographed (through the public population()) when the first fitness of a generation is computed
// (before selection) and when the first crossover/mutation of a generation happens (after selection).
#pragma once
#include "common.hpp"
#include <HeuristicFlow/Genetic>
#include <atomic>
#include <memory>
#include <mutex>
#include <algorithm>

namespace ga {
using namespace heu;

inline std::string tagOf(int id) { return "individual number " + std::to_string(id) + " has a long enough tag"; }

struct Var {
  int id = 0;
  std::string tag;
};

enum Kind { INIT, CROSS, MUT };
struct Rec {
  Kind kind;
  int p1 = 0, p2 = 0, slot = 0;
  std::vector<double> fit;
};
struct World;
inline World* W = nullptr;
struct Args {
  World* w = nullptr;
  int magic = 0;
};

struct Gen {              // one generation as observed
  std::vector<int> pre;   // before selection (empty = not observed)
  std::vector<int> post;  // after selection
  bool hasPre = false, hasPost = false;
  std::vector<std::pair<int, int>> crosses;
  std::vector<int> muts;
  std::vector<int> children;
  uint64_t run = 0;
};

struct World {
  pbt::Ctx& c;
  std::vector<Rec> rec{1};
  std::vector<std::unique_ptr<std::atomic<int>>> evals;
  std::vector<Gen> gens;
  std::function<std::vector<int>()> snap;
  std::function<std::vector<double>(const Rec&)> fit;
  bool varying = true;  // last observed phase
  std::mutex mu;
  int nobj = 1;
  uint64_t run = 0;
  int inits = 0;
  std::vector<int> before;  // the population when the run began
  bool fresh_ = true;       // the run is the first one after an initialisation
  size_t epochRec = 1;      // first individual of the current initialisation
  explicit World(pbt::Ctx& c_) : c(c_) { evals.emplace_back(new std::atomic<int>(0)); W = this; }
  ~World() { W = nullptr; }

  int fresh(Kind k, int a, int b) {
    Rec r;
    r.kind = k;
    r.p1 = a;
    r.p2 = b;
    r.slot = inits;
    if (k == INIT) inits++;
    r.fit = fit(r);
    rec.push_back(r);
    evals.emplace_back(new std::atomic<int>(0));
    return (int)rec.size() - 1;
  }
  bool known(const Var* v) const { return v->id > 0 && v->id < (int)rec.size() && v->tag == tagOf(v->id); }
  void onFit(const Var* v) {
    if (!known(v)) {
      std::lock_guard<std::mutex> g(mu);
      c.soft(false, "fitness-of-unknown-individual", "fitness asked for an individual that no operator produced, id ", v->id);
      return;
    }
    {
      std::lock_guard<std::mutex> g(mu);
      if (varying) {
        varying = false;
        gens.emplace_back();
        gens.back().pre = snap();
        gens.back().hasPre = true;
        gens.back().run = run;
      }
    }
    ++*evals[v->id];
  }
  void onVary() {
    if (!varying) {
      varying = true;
      for (int id : snap())
        if (id) gens.back().post.push_back(id);
      gens.back().hasPost = true;
    } else if (gens.empty() || gens.back().run != run) {  // a generation without anything to evaluate
      quiet();
      for (int id : snap())
        if (id) gens.back().post.push_back(id);
      gens.back().hasPost = true;
    }
  }
  void quiet() {  // the first selection of a run whose members all were evaluated before
    gens.emplace_back();
    gens.back().run = run;
    gens.back().pre = before;
    gens.back().hasPre = true;
  }
  void startRun(uint64_t r) {
    run = r;
    varying = true;
    before = snap();
  }
  void endRun() {
    if (gens.empty() || gens.back().run != run) quiet();
    if (!gens.back().hasPost) {
      gens.back().post = snap();
      gens.back().hasPost = true;
    }
  }
  void onCross(const Var* a, const Var* b, Var* x, Var* y) {
    c.soft(known(a) && known(b), "parent-unknown", "crossover of an individual that no operator produced");
    c.soft(a != b && x != y && x != a && x != b && y != a && y != b, "crossover-aliasing", "crossover arguments alias");
    onVary();
    if (!known(a) || !known(b)) return;
    const int i = fresh(CROSS, a->id, b->id), j = fresh(CROSS, a->id, b->id);
    x->id = i; x->tag = tagOf(i);
    y->id = j; y->tag = tagOf(j);
    gens.back().crosses.push_back({a->id, b->id});
    gens.back().children.push_back(i);
    gens.back().children.push_back(j);
  }
  void onMut(const Var* a, Var* x) {
    c.soft(known(a), "mutation-source-unknown", "mutation of an individual that no operator produced");
    c.soft(a != x, "mutation-aliasing", "mutation in place");
    onVary();
    if (!known(a)) return;
    const int i = fresh(MUT, a->id, 0);
    x->id = i; x->tag = tagOf(i);
    gens.back().muts.push_back(a->id);
    gens.back().children.push_back(i);
  }
};

template <class F>
inline void put(F& f, const std::vector<double>& v) {
  if constexpr (std::is_same_v<F, double>) f = v[0];
  else {
    if (f.size() != (int)v.size()) {
      if constexpr (F::SizeAtCompileTime == Eigen::Dynamic) {
        W->c.soft(false, "fitness-not-sized", "objective vector has ", f.size(), " cells, ", v.size(), " objectives were set");
        f.resize((int)v.size());
      }
    }
    for (int k = 0; k < (int)v.size(); k++) f[k] = v[k];
  }
}
template <class F>
inline std::vector<double> get(const F& f) {
  if constexpr (std::is_same_v<F, double>) return {f};
  else return std::vector<double>(f.data(), f.data() + f.size());
}

// operators with and without an argument object (internal linkage: their address is a constant even under UBSan)
namespace {
template <class F, bool A>
struct Ops;
template <class F>
struct Ops<F, false> {
  static void ini(Var* v) { v->id = W->fresh(INIT, 0, 0); v->tag = tagOf(v->id); }
  static void fit(const Var* v, F* f) { W->onFit(v); if (W->known(v)) put(*f, W->rec[v->id].fit); }
  static void cro(const Var* a, const Var* b, Var* x, Var* y) { W->onCross(a, b, x, y); }
  static void mut(const Var* a, Var* x) { W->onMut(a, x); }
};
template <class F>
struct Ops<F, true> {
  static void chk(const Args* a) { W->c.soft(a && a->w == W && a->magic == 4711, "args-lost", "the operators do not see the argument object that was set"); }
  static void ini(Var* v, const Args* a) { chk(a); Ops<F, false>::ini(v); }
  static void fit(const Var* v, const Args* a, F* f) { if (!(a && a->w == W && a->magic == 4711)) { std::lock_guard<std::mutex> g(W->mu); chk(a); } Ops<F, false>::fit(v, f); }
  static void cro(const Var* p, const Var* q, Var* x, Var* y, const Args* a) { chk(a); W->onCross(p, q, x, y); }
  static void mut(const Var* p, Var* x, const Args* a) { chk(a); W->onMut(p, x); }
};

}  // namespace

template <class S>
std::vector<int> idsOf(const S& s) {
  std::vector<int> r;
  for (const auto& g : s.population()) r.push_back(g.decision_variable.id);
  return r;
}
inline std::string show(const std::vector<int>& v) {
  std::string r = "{";
  for (int i : v) r += pbt::cat(r.size() > 1 ? "," : "", i);
  return r + "}";
}
inline std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }

// every individual of the population is intact and carries its own fitness
template <class S>
void intact(pbt::Ctx& c, World& w, const S& s) {
  for (const auto& g : s.population()) {
    c.check(w.known(&g.decision_variable), "corrupt-individual", "population holds an individual that no operator produced, id ", g.decision_variable.id);
    c.check(get(g.fitness) == w.rec[g.decision_variable.id].fit, "fitness-mismatch", "individual ", g.decision_variable.id, " carries a fitness that is not its own");
  }
}
// each individual that passed a selection was evaluated exactly once
inline void evaluatedOnce(pbt::Ctx& c, World& w, const std::vector<int>& finalPop) {
  std::set<int> must(finalPop.begin(), finalPop.end());
  for (auto& g : w.gens) for (int i : g.pre) must.insert(i);
  for (int i : must) c.check(*w.evals[i] == 1, "evaluated-once", "individual ", i, " was evaluated ", (int)*w.evals[i], " times");
  for (size_t i = 1; i < w.rec.size(); i++) c.check(*w.evals[i] <= 1, "evaluated-once", "individual ", i, " was evaluated ", (int)*w.evals[i], " times");
}
// children are exactly what the operators made; parents come from the survivors; nobody pairs twice
inline void variation(pbt::Ctx& c, World& w, const std::vector<int>& finalPop) {
  for (size_t g = 0; g < w.gens.size(); g++) {
    auto& G = w.gens[g];
    if (!G.hasPost) continue;
    std::map<int, int> left;
    for (int i : G.post) left[i]++;
    for (auto& p : G.crosses) {
      c.check(left[p.first]-- > 0 && left[p.second]-- > 0, "parent-reused", "crossover in generation ", g, " used ", p.first, " x ", p.second, " although one of them is no survivor or was paired already");
    }
    std::map<int, int> src;
    for (int i : G.post) src[i]++;
    for (int i : G.children) if (w.rec[i].kind == CROSS) src[i]++;
    for (int m : G.muts) c.check(src[m]-- > 0, "mutation-source", "mutation in generation ", g, " used ", m, " which is not there or was mutated already");
    if (g + 1 < w.gens.size() && w.gens[g + 1].hasPre && w.gens[g + 1].run == G.run) {
      std::vector<int> e = G.post;
      e.insert(e.end(), G.children.begin(), G.children.end());
      c.check(sorted(e) == sorted(w.gens[g + 1].pre), "population-after-variation", "generation ", g, ": survivors ", show(G.post), " plus children ", show(G.children), " became ", show(w.gens[g + 1].pre));
    }
  }
}
// probabilities 0 and 1 leave nothing to chance
inline void certainRates(pbt::Ctx& c, World& w, const GAOption& o, int r) {
  for (auto& g : w.gens) {
    if ((int)g.run != r + 1 || !g.hasPost) continue;
    const size_t n = g.post.size(), x = g.crosses.size(), mu = g.muts.size();
    const bool last = &g == &w.gens.back();
    if (o.crossoverProb == 0) c.check(x == 0, "crossover-rate", "crossover probability 0 paired ", x, " couples");
    if (o.mutateProb == 0) c.check(mu == 0, "mutation-rate", "mutation probability 0 mutated ", mu);
    if (last || g.children.empty()) continue;
    if (o.crossoverProb == 1) c.check(x == n / 2, "crossover-rate", "crossover probability 1 paired ", x, " couples of ", n);
    if (o.mutateProb == 1) c.check(mu == n + 2 * x, "mutation-rate", "mutation probability 1 mutated ", mu, " of ", n + 2 * x);
  }
}
inline bool better(bool less, double a, double b) { return less ? a < b : a > b; }
}  // namespace ga
