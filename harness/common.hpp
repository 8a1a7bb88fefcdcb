// Shared by all harnesses: engine + deterministic reset of the library's global random state.
#pragma once
// everything the harnesses use themselves, so that they do not depend on what the library happens to include
#include <algorithm>
#include <array>
#include <atomic>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <HeuristicFlow/Global>
#include <pbt.hpp>

namespace hxfallback {  // chosen only when the library's engine lives under another name
template <int = 0>
std::mt19937& global_mt19937() { static std::mt19937 none; return none; }
}
namespace heu { namespace internal {} }

namespace hx {

// The library draws from one process-wide engine plus two normal distributions that each may hold a spare value.
// Bring all of it to a state that depends on `seed` only.
inline void reseed(uint64_t seed) {
  using namespace heu;
  using namespace heu::internal;
  using namespace hxfallback;
  auto& g = global_mt19937();
  g.seed(12345);
  {
    auto before = g;
    (void)heu::normD();
    if (!(before == g)) (void)heu::normD();  // a fresh pair was generated: consume the spare
  }
  {
    auto before = g;
    (void)heu::normF();
    if (!(before == g)) (void)heu::normF();
  }
  g.seed((std::mt19937::result_type)(seed * 2654435761u + 17));
  std::srand((unsigned)seed + 1);  // Eigen::Random
}
struct Init {
  Init() { pbt::resetHook() = [](uint64_t s) { reseed(s); }; }
};
static Init init_;

template <class V>
std::string show(const V& v) {
  std::string r = "[";
  for (int i = 0; i < (int)v.size(); i++) r += pbt::cat(i ? "," : "", +v[i]);
  return r + "]";
}
inline bool sameBits(double a, double b) {
  uint64_t x, y;
  memcpy(&x, &a, 8);
  memcpy(&y, &b, 8);
  return x == y;
}
// equality where every NaN equals every NaN and -0 == +0
template <class T>
bool eqv(T a, T b) {
  return a == b || (a != a && b != b);
}
inline bool near(double a, double b, double rtol, double atol) {
  if (a == b) return true;
  if (std::isnan(a) && std::isnan(b)) return true;
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace hx
