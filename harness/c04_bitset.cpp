// C04: a packed array of N-bit integers behaves like a plain sequence of N-bit integers under any history.
#include "common.hpp"
#include <HeuristicFlow/SimpleMatrix>
using namespace heu;

template <int BITS, class BLOCK>
struct Model {
  using Set = multiBitSet<BITS, BLOCK>;
  using V = typename Set::value_t;
  static constexpr uint64_t kMax = BITS == 64 ? ~0ull : ((1ull << BITS) - 1);

  static V val(pbt::Ctx& c) {
    switch (c.s.idx(4)) {
      case 0: return V(kMax);
      case 1: return V(0);
      default: return V(c.s.raw(kMax));
    }
  }
  static void same(pbt::Ctx& c, Set& s, const std::vector<V>& m, const char* after) {
    c.check(s.size() == m.size(), "size", after, ": size ", s.size(), ", model ", m.size());
    c.check(s.capacity() >= s.size(), "capacity", after, ": capacity ", s.capacity(), " below size ", s.size());
    const Set& cs = s;
    for (size_t k = 0; k < m.size(); k++)
      c.check(V(cs[k]) == m[k] && V(s[k]) == m[k], "element", BITS, "-bit/", sizeof(BLOCK) * 8, ": after ", after, " element ", k, " of ", m.size(), " is ", +V(cs[k]), ", model ", +m[k]);
  }
  static void iterate(pbt::Ctx& c, Set& s, const std::vector<V>& m) {
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++k) {
      c.check(k < m.size() && it.index() == k && !it.isNull(), "iterator", "forward iterator at ", k);
      c.check(V(*it) == m[k], "iterator", "forward iteration reads ", +V(*it), " at ", k, ", model ", +m[k]);
    }
    c.check(k == m.size(), "iterator", "forward iteration visited ", k, " of ", m.size());
    const Set& cs = s;
    k = 0;
    for (auto it = cs.begin(); it != cs.end(); it++, ++k)
      c.check(k < m.size() && V(*it) == m[k], "iterator", "const iteration wrong at ", k);
    c.check(k == m.size(), "iterator", "const iteration visited ", k, " of ", m.size());
    if (m.empty()) return;
    k = 0;
    for (auto i = s.begin(); k < m.size(); k++) {
      auto old = i++;
      typename Set::constIterator_t ro(old);
      c.check(old.index() == k && i.index() == k + 1 && V(*old) == m[k] && V(*ro) == m[k] && ro.index() == k, "iterator", "post-increment or conversion to a const iterator wrong at ", k);
      c.check(old != i && !(old == i) && s.begin() + (int64_t)k == old, "iterator", "iterator comparison wrong at ", k);
      c.check(V(s.at(k)) == m[k] && V(cs.at(k)) == m[k] && !s.at(k).isNull(), "element", "at(", k, ") differs from the model");
    }
    {
      auto i = s.end();
      typename Set::constIterator_t j(cs.end());
      for (k = m.size(); k-- > 0;) {
        c.check((i--).index() == k + 1 && i.index() == k && V(*i) == m[k], "iterator", "post-decrement wrong at ", k);
        j--;
        c.check(V(*j) == m[k], "iterator", "const post-decrement wrong at ", k);
      }
      i = s.end();
      c.check(i == s.end() && i.isNull(), "iterator", "iterator assignment");
    }
    c.check(s.blocks() * sizeof(BLOCK) * 8 >= m.size() * BITS && s.data() != nullptr, "capacity", s.blocks(), " blocks for ", m.size(), " elements");
    auto it = s.end();
    for (k = m.size(); k-- > 0;) { --it; c.check(V(*it) == m[k], "iterator", "backward iteration wrong at ", k); }
    c.check(it == s.begin(), "iterator", "backward iteration does not end at begin()");
    c.check(s.end().isNull(), "iterator", "end() claims to be a valid element");
    c.check(V(*s.end()[-1]) == m.back() && V(*(s.begin() + (int64_t)(m.size() - 1))) == m.back() && V(*(s.end() - (int64_t)m.size())) == m.front(), "iterator", "iterator arithmetic");
    c.check(V(s.front()) == m.front() && V(s.back()) == m.back() && V(cs.front()) == m.front() && V(cs.back()) == m.back(), "front-back", "front/back differ from the model");
  }
  static void run(pbt::Ctx& c) {
    const size_t n0 = c.s.chance(0.2) ? 0 : (size_t)c.s.i(0, 80);
    std::vector<V> m(n0, V(0));
    Set s(n0);
    if (c.s.chance(0.3)) { Set d; c.check(d.size() == 0, "size", "default size"); s = d; m.clear(); }
    c.note(BITS, " bits in ", sizeof(BLOCK) * 8, "-bit blocks, start ", m.size(), ":");
    same(c, s, m, "construction");
    std::vector<Set*> side;
    std::vector<std::vector<V>> sideM;
    const int ops = (int)c.s.i(1, 40);
    int grew = 0, wrote = 0;
    for (int o = 0; o < ops; o++) {
      const int kind = (int)c.s.idx(15);
      const char* what = "";
      switch (kind) {
        case 0: case 1: { const V v = val(c); if (c.s.chance(0.5)) s.push_back(v); else s.emplace_back(v); m.push_back(v); what = "push_back"; grew++; break; }
        case 2: case 3: if (!m.empty()) {
          size_t k = c.s.idx(m.size()); V v = val(c);
          const bool oversize = BITS < (int)sizeof(V) * 8 && c.s.chance(0.2);
          V arg = oversize ? V(v | V(~V(kMax))) : v;  // extra bits are documented to be ignored
          V r = (s[k] = arg);
          c.check(r == v, "write-result", "writing ", +arg, " returned ", +r, ", expected ", +v);
          m[k] = v; what = "write"; wrote++; break; }
          break;
        case 4: if (!m.empty()) { size_t a = c.s.idx(m.size()), b = c.s.idx(m.size()); s[a] = s[b]; m[a] = m[b]; what = "element copy"; wrote++; } break;
        case 5: if (!m.empty()) { s.pop_back(); m.pop_back(); what = "pop_back"; } break;
        case 6: { size_t n = (size_t)(c.s.chance(0.98) ? c.s.i(0, 150) : c.s.i(0, 2500)); size_t keep = std::min(n, m.size()); s.resize(n); m.resize(n);
          for (size_t k = keep; k < n; k++) { V v = s[k]; c.check((uint64_t)v <= kMax, "new-element-range", "new element ", +v); m[k] = v; }
          what = "resize"; grew++; break; }
        case 7: { size_t n = (size_t)(c.s.chance(0.97) ? c.s.i(0, 150) : c.s.i(0, 4000)); s.reserve(n); c.check(s.capacity() >= n, "capacity", "capacity ", s.capacity(), " after reserve(", n, ")"); what = "reserve"; break; }
        case 8: s.shrink_to_fit(); what = "shrink_to_fit"; break;
        case 9: if (c.s.chance(0.3)) { s.clear(); m.clear(); what = "clear"; } break;
        case 10: { side.push_back(new Set(s)); sideM.push_back(m); what = "copy construction"; break; }
        case 11: if (!side.empty()) { size_t k = c.s.idx(side.size()); if (c.s.chance(0.5)) { s = *side[k]; m = sideM[k]; } else { *side[k] = s; sideM[k] = m; } what = "assignment"; } break;
        case 13: if (!m.empty()) { size_t a = c.s.idx(m.size()); V v = val(c); auto i = s.begin() + (int64_t)a; *i = v; m[a] = v; what = "write through an iterator"; wrote++; } break;
        case 14: if (!m.empty() && !side.empty()) {
          size_t k = c.s.idx(side.size());
          if (sideM[k].empty()) break;
          size_t a = c.s.idx(m.size()), b = c.s.idx(sideM[k].size());
          if (c.s.chance(0.5)) { s[a] = (*side[k])[b]; m[a] = sideM[k][b]; } else { (*side[k])[b] = s[a]; sideM[k][b] = m[a]; }
          what = "element copy between arrays"; wrote++; }
          break;
        case 12: if (c.s.chance(0.3)) { const Set& same_ = s; s = same_; what = "self assignment"; break; } else { Set t(std::move(s)); same(c, t, m, "move construction"); s = t; what = "move construction and copy back"; break; }
      }
      c.note(" ", what);
      same(c, s, m, what);
    }
    iterate(c, s, m);
    for (size_t k = 0; k < side.size(); k++) same(c, *side[k], sideM[k], "changes to another array");
    for (auto p : side) delete p;
    c.nontrivial(m.size() * BITS > sizeof(BLOCK) * 8 && (wrote + grew) > 1);
    c.label("element straddles blocks", (sizeof(BLOCK) * 8) % BITS != 0 && m.size() * BITS > sizeof(BLOCK) * 8);
    c.label(pbt::cat(sizeof(BLOCK) * 8, "-bit blocks"));
  }
};

PBT_TEST(histories, "element width (1..64) x block type, then up to 40 operations (push, write with and without extra bits, element copy, pop, resize, reserve, shrink, clear, copy, move, assign) against std::vector, everything compared after every step; non-trivial = more than one block in use and at least two writes/growths", 60000, 1500000) {
#define W(b, t) Model<b, t>::run
  static void (*const f[])(pbt::Ctx&) = {
      W(1, size_t), W(2, size_t), W(3, size_t), W(5, size_t), W(7, size_t), W(8, size_t), W(11, size_t), W(13, size_t), W(16, size_t), W(17, size_t),
      W(31, size_t), W(32, size_t), W(33, size_t), W(47, size_t), W(60, size_t), W(63, size_t), W(64, size_t),
      W(1, uint8_t), W(3, uint8_t), W(5, uint8_t), W(7, uint8_t), W(8, uint8_t), W(3, uint16_t), W(7, uint16_t), W(12, uint16_t), W(16, uint16_t),
      W(5, uint32_t), W(9, uint32_t), W(21, uint32_t), W(31, uint32_t), W(32, uint32_t)};
  f[c.s.idx(sizeof f / sizeof *f)](c);
}

PBT_TEST(large_arrays, "arrays of 2^24..2^26 bits (where float arithmetic is coarse): construct, grow, shrink, copy; first, last and random elements written and read back; non-trivial = every case", 40, 400) {
  using S7 = multiBitSet<7>;
  const size_t base = ((size_t)1 << (20 + c.s.raw(2))) * 64 / 7, n = base + (size_t)c.s.raw(40) - 20 + (size_t)c.s.raw(12);
  c.note("7-bit x ", n);
  c.nontrivial();
  S7 s(c.s.chance(0.5) ? n : 10);
  if (s.size() != n) { s.reserve(n); s.resize(n); }
  std::map<size_t, int> w;
  for (int k = 0; k < 20; k++) w[k == 0 ? n - 1 : k == 1 ? 0 : c.s.idx(n)] = (int)c.s.raw(127);
  for (auto& p : w) s[p.first] = (uint8_t)p.second;
  if (c.s.chance(0.5)) { s.push_back(99); s.shrink_to_fit(); w[n] = 99; }
  S7 t(s);
  S7 u;
  u = s;
  for (auto& p : w) c.check(s[p.first] == p.second && t[p.first] == p.second && u[p.first] == p.second, "element", "element ", p.first, " of ", n, " lost");
}
