// C05: the simple matrices behave like column-major arrays under any history of copies, moves, reshapes.
#include "common.hpp"
#include <HeuristicFlow/SimpleMatrix>
#include <memory>
using namespace heu;

static long gLive = 0, gBad = 0;
struct Tracked {  // detects use of memory that holds no object, and leaks of objects
  int v;
  Tracked* self;
  Tracked() : v(-1), self(this) { gLive++; }
  Tracked(int x) : v(x), self(this) { gLive++; }
  Tracked(const Tracked& o) : v(o.v), self(this) { gBad += o.self != &o; gLive++; }
  Tracked(Tracked&& o) noexcept : v(o.v), self(this) { gBad += o.self != &o; gLive++; }
  Tracked& operator=(const Tracked& o) { gBad += self != this || o.self != &o; v = o.v; return *this; }
  ~Tracked() { gBad += self != this; self = nullptr; gLive--; }
  bool operator==(const Tracked& o) const { return v == o.v; }
};
struct Big {  // larger than three pointers
  long a[5];
  bool operator==(const Big& o) const { return memcmp(a, o.a, sizeof a) == 0; }
};
static std::map<void*, size_t> gAlloc;
static long gAllocBad = 0;
template <class T>
struct Counting {
  using value_type = T;
  Counting() = default;
  template <class U> Counting(const Counting<U>&) {}
  T* allocate(size_t n) { T* p = std::allocator<T>().allocate(n); gAlloc[p] = n; return p; }
  void deallocate(T* p, size_t n) {
    if (!p) { gAllocBad += n != 0; return; }
    auto it = gAlloc.find(p);
    if (it == gAlloc.end() || it->second != n) gAllocBad++;
    if (it != gAlloc.end()) { gAlloc.erase(it); std::allocator<T>().deallocate(p, n); }
  }
  bool operator==(const Counting&) const { return true; }
  bool operator!=(const Counting&) const { return false; }
};

static int gNext = 0;
static int mkv(pbt::Ctx& c, int*) { return (int)c.s.raw(5) == 0 ? 0 : ++gNext; }
static double mkv(pbt::Ctx& c, double*) { return c.s.raw(5) == 0 ? 0.0 : ++gNext + 0.25; }
static std::string mkv(pbt::Ctx& c, std::string*) { return c.s.raw(1) ? "s" + std::to_string(++gNext) : "a string that is too long for the small buffer " + std::to_string(++gNext); }
static Tracked mkv(pbt::Ctx& c, Tracked*) { (void)c; return Tracked(++gNext); }
static Big mkv(pbt::Ctx& c, Big*) { (void)c; Big b; for (auto& x : b.a) x = ++gNext; return b; }

template <class T>
struct Ref {
  int r = 0, c = 0;
  std::vector<T> d;
};

template <class M, class T>
static void same(pbt::Ctx& c, M& m, const Ref<T>& ref, const char* what) {
  c.check((int)m.rows() == ref.r && (int)m.cols() == ref.c && (int)m.size() == ref.r * ref.c, "shape", what, ": ", m.rows(), "x", m.cols(), " size ", m.size(), ", model ", ref.r, "x", ref.c);
  const M& cm = m;
  for (int j = 0; j < ref.c; j++)
    for (int i = 0; i < ref.r; i++) {
      const T& w = ref.d[(size_t)j * ref.r + i];
      const int lin = j * ref.r + i;
      c.check(m(i, j) == w && cm(i, j) == w && m[lin] == w && cm[lin] == w && m(lin) == w && cm(lin) == w && m.data()[lin] == w && cm.data()[lin] == w, "element", what, ": element (", i, ",", j, ") differs from the model");
    }
  int k = 0;
  for (auto& e : m) { c.check(k < (int)ref.d.size() && e == ref.d[k], "iteration", what, ": iteration position ", k); k++; }
  c.check(k == ref.r * ref.c, "iteration", what, ": visited ", k);
  k = 0;
  if constexpr (std::is_same_v<M, MatrixMap<T>>) {
    for (const T* e = cm.cbegin(); e != cm.cend(); ++e, k++) c.check(k < (int)ref.d.size() && *e == ref.d[k], "iteration", what, ": const iteration position ", k);
  } else {
    for (auto& e : cm) { c.check(k < (int)ref.d.size() && e == ref.d[k], "iteration", what, ": const iteration position ", k); k++; }
  }
  c.check(k == ref.r * ref.c, "iteration", what, ": const iteration visited ", k);
}

template <class T, int FR = 3, int FC = 4>
static void run(pbt::Ctx& c, const char* tn) {
  gLive = 0; gBad = 0; gAllocBad = 0; gAlloc.clear(); gNext = 0;
  using D = MatrixDynamicSize<T, Counting<T>>;
  using F = MatrixFixedSize<T, FR, FC>;
  using Mp = MatrixMap<T>;
  c.note(tn, ":");
  bool moved = false, reshaped = false, mixed = false, grown = false;
  {
    std::vector<std::unique_ptr<D>> ds;
    std::vector<Ref<T>> dr;
    std::vector<int> rsv;  // storage asked for with reserve() and still owned
    F f, f2;
    Ref<T> fr, fr2;
    const int cap = std::max(FR * FC, c.s.chance(0.04) ? 1600 : 200), side = cap == 200 ? 14 : (int)std::sqrt((double)cap);
    std::vector<T> buf(cap, mkv(c, (T*)nullptr));
    Mp mp(buf.data(), 5, 6);
    Ref<T> mr;
    auto fillAll = [&](auto& m, Ref<T>& ref, int r, int cc) {
      ref.r = r; ref.c = cc; ref.d.clear();
      for (int k = 0; k < r * cc; k++) { ref.d.push_back(mkv(c, (T*)nullptr)); }
      for (int k = 0; k < r * cc; k++) {
        if (k % 2) m[k] = ref.d[k]; else m(k % r, k / r) = ref.d[k];
      }
    };
    fillAll(f, fr, FR, FC); fillAll(f2, fr2, FR, FC); fillAll(mp, mr, 5, 6);
    auto add = [&](std::unique_ptr<D> p, Ref<T> r) { ds.push_back(std::move(p)); dr.push_back(std::move(r)); rsv.push_back(0); };
    add(std::make_unique<D>(), Ref<T>{});
    { int r = (int)c.s.i(1, 12), k = (int)c.s.i(1, 12); auto p = std::make_unique<D>(r, k); Ref<T> ref; fillAll(*p, ref, r, k); add(std::move(p), ref); }
    const int ops = (int)c.s.i(1, 30);
    for (int o = 0; o < ops; o++) {
      const size_t a = c.s.idx(ds.size()), b = c.s.idx(ds.size());
      const char* what = "";
      switch (c.s.idx(17)) {
        case 0: {  // reshape / grow / shrink; contents are only promised when the element count is unchanged
          const int oldN = dr[a].r * dr[a].c;
          int r = (int)c.s.i(1, 12), k = (int)c.s.i(1, 12);
          if (c.s.chance(0.02)) { r = (int)c.s.i(1, 70); k = (int)c.s.i(1, 40); }
          if (c.s.chance(0.4) && oldN > 0) { do { r = (int)c.s.i(1, oldN); } while (oldN % r); k = oldN / r; }
          const bool kept = r * k <= rsv[a];
          const T* before = ds[a]->data();
          const int capBefore = ds[a]->capacity();
          ds[a]->resize(r, k);
          if (kept) {
            c.check(ds[a]->data() == before && ds[a]->capacity() == capBefore, "reserved-storage", "resize to ", r, "x", k, " reallocates although ", rsv[a], " elements were reserved");
            for (int q = 0; q < std::min(oldN, r * k); q++) c.check(ds[a]->data()[q] == dr[a].d[q], "reserved-storage", "resize within the reserved storage changed element ", q);
            grown = grown || r * k > oldN;
          } else rsv[a] = 0;
          c.check(ds[a]->capacity() >= r * k, "capacity", "capacity ", ds[a]->capacity(), " after resize to ", r, "x", k);
          if (r * k == oldN) { dr[a].r = r; dr[a].c = k; what = "reshape"; reshaped = true; }
          else { same(c, *ds[a], (fillAll(*ds[a], dr[a], r, k), dr[a]), "resize"); what = "resize"; reshaped = true; }
          break;
        }
        case 1: { int n = (int)(c.s.chance(0.97) ? c.s.i(0, 160) : c.s.i(0, 4000)); ds[a]->reserve(n); rsv[a] = std::max(rsv[a], n); c.check(ds[a]->capacity() >= n, "capacity", "capacity ", ds[a]->capacity(), " after reserve(", n, ")"); what = "reserve"; break; }
        case 2: case 3: if (dr[a].r) { int i = (int)c.s.idx(dr[a].r), j = (int)c.s.idx(dr[a].c); T v = mkv(c, (T*)nullptr); (*ds[a])(i, j) = v; dr[a].d[(size_t)j * dr[a].r + i] = v; what = "write"; } break;
        case 4: { T v = mkv(c, (T*)nullptr); ds[a]->fill(v); std::fill(dr[a].d.begin(), dr[a].d.end(), v); what = "fill"; break; }
        case 5: if (ds.size() < 6) { add(std::make_unique<D>(*ds[a]), Ref<T>(dr[a])); what = "copy construction"; } break;
        case 6: if (ds.size() < 6) { add(std::make_unique<D>(std::move(*ds[a])), Ref<T>(dr[a])); dr[a] = Ref<T>{}; rsv[a] = 0; same(c, *ds[a], dr[a], "moved-from matrix"); what = "move construction"; moved = true; } break;
        case 7: if (a != b) rsv[a] = 0; *ds[a] = *ds[b]; { auto t = dr[b]; dr[a] = t; } what = "copy assignment"; break;
        case 8: { D& r = (*ds[a] = std::move(*ds[b])); c.check(&r == ds[a].get(), "assignment-result", "move assignment does not return its target"); if (a != b) { dr[a] = dr[b]; dr[b] = Ref<T>{}; rsv[a] = rsv[b] = 0; } what = "move assignment"; moved = true; break; }
        case 9: rsv[a] = 0; *ds[a] = f; dr[a] = fr; what = "dynamic = fixed"; mixed = true; break;
        case 10: rsv[a] = 0; *ds[a] = mp; dr[a] = mr; what = "dynamic = map"; mixed = true; break;
        case 11: if (dr[a].r == FR && dr[a].c == FC) { f = *ds[a]; fr = dr[a]; what = "fixed = dynamic"; } else { rsv[a] = 0; ds[a]->resize(FR, FC); fillAll(*ds[a], dr[a], FR, FC); f2 = *ds[a]; fr2 = dr[a]; what = "resize, fixed = dynamic"; } mixed = true; break;
        case 12: f = f2; fr = fr2; what = "fixed = fixed"; break;
        case 13: mp = f; mr = fr; what = "map = fixed"; mixed = true; break;
        case 14: if (dr[a].r && dr[a].d.size() <= buf.size()) { mp = *ds[a]; mr = dr[a]; what = "map = dynamic"; mixed = true; } break;
        case 15: {
          if (c.s.chance(0.2)) { T v = mkv(c, (T*)nullptr); mp.fill(v); std::fill(mr.d.begin(), mr.d.end(), v); what = "map fill"; }
          else if (c.s.chance(0.5)) { int r = (int)c.s.i(1, side), k = (int)c.s.i(1, side); mp.resize(r, k); fillAll(mp, mr, r, k); what = "map reshape"; }
          else { std::vector<T> other(cap, mkv(c, (T*)nullptr)); Mp q(other.data(), 2, 3), q2(q); Ref<T> qr; q = mp; qr = mr; same(c, q, qr, "map deep copy"); Mp s(mp); T v = mkv(c, (T*)nullptr); s(0, 0) = v; mr.d[0] = v; what = "map copy shares storage"; }
          break; }
        case 16: { F g(f); same(c, g, fr, "fixed copy construction"); T v = mkv(c, (T*)nullptr); if (c.s.chance(0.5)) { f.fill(v); fr.d.assign(FR * FC, v); } else { int i = (int)c.s.idx(FR), j = (int)c.s.idx(FC); f(i, j) = v; fr.d[j * FR + i] = v; } what = "fixed write"; break; }
      }
      c.note(" ", what);
      for (size_t k = 0; k < ds.size(); k++) same(c, *ds[k], dr[k], what);
      same(c, f, fr, what); same(c, f2, fr2, what); same(c, mp, mr, what);
      for (int k = 0; k < mr.r * mr.c; k++) c.check(buf[k] == mr.d[k], "map-storage", what, ": the mapped storage differs at ", k);
      c.check(gBad == 0, "object-lifetime", what, ": an element was used without being constructed (", gBad, ")");
      c.check(gAllocBad == 0, "allocation", what, ": deallocation does not match its allocation");
    }
  }
  c.check(gLive == 0, "object-leak", gLive, " elements never destroyed");
  c.check(gBad == 0, "object-lifetime", "an element was destroyed without being constructed");
  c.check(gAlloc.empty() && gAllocBad == 0, "memory-leak", gAlloc.size(), " blocks never released");
  c.nontrivial(moved + reshaped + mixed >= 2);
  c.label(tn);
  c.label("moved", moved); c.label("reshaped", reshaped); c.label("mixed kinds", mixed); c.label("grown within the reserve", grown);
}

PBT_TEST(histories, "element type (int, double, string, lifetime-tracked object, 40-byte struct) and up to 30 operations over dynamic, fixed and mapped matrices (write, fill, resize, reshape, reserve, copy, move, self-assignment, assignment between kinds) against std::vector; contents, object lifetimes and allocations checked after every step; non-trivial = at least two of: move, reshape, assignment between kinds", 50000, 1200000) {
  switch (c.s.chance(0.98) ? c.s.idx(10) : 10) {
    case 5: run<int, 2, 9>(c, "int 2x9"); break;
    case 6: run<double, 7, 1>(c, "double 7x1"); break;
    case 7: run<std::string, 1, 6>(c, "string 1x6"); break;
    case 8: run<Tracked, 5, 2>(c, "tracked 5x2"); break;
    case 9: run<Big, 2, 5>(c, "big 2x5"); break;
    case 10: run<double, 24, 31>(c, "double 24x31"); break;
    case 0: run<int>(c, "int"); break;
    case 1: run<double>(c, "double"); break;
    case 2: run<std::string>(c, "string"); break;
    case 3: run<Tracked>(c, "tracked"); break;
    case 4: run<Big>(c, "big"); break;
  }
}
