// Small property-based-testing engine used by every harness in /verif/harness.
//
// * Every random decision of a case is a bounded integer "choice" drawn through Src; a case is a pure
//   function of its choice sequence, so replay = re-reading the sequence and shrinking = simplifying it.
// * Cases run in forked workers.  A case that aborts (assertion, sanitizer report, signal) or burns its CPU
//   budget kills only its worker; the choices drawn so far live in shared memory, so it can be replayed.
// * A failure is shrunk, replayed three times in fresh processes and only then written to the result file.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail {
  std::string key, msg;
};

template <class... A>
std::string cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  (o << ... << a);
  return o.str();
}

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

constexpr size_t kMaxChoices = 1 << 17;
struct Shared {  // one per worker, MAP_SHARED
  volatile uint64_t caseIdx;
  volatile uint64_t nChoices;
  uint64_t choices[kMaxChoices];
  char desc[3200];
};
inline char*& liveDesc() {  // where a dying case leaves its description
  static char* p = nullptr;
  return p;
}

// ------------------------------------------------------------------ choice source
class Src {
 public:
  Src(uint64_t seed, Shared* sh) : rng_(seed), sh_(sh) {
    if (sh_) sh_->nChoices = 0;
  }
  Src(const std::vector<uint64_t>* replay, Shared* sh) : rng_(0), replay_(replay), sh_(sh) {
    if (sh_) sh_->nChoices = 0;
  }
  // uniform choice in [0,maxIncl]
  uint64_t raw(uint64_t maxIncl) {
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v > maxIncl) v = maxIncl;
    } else if (maxIncl == ~0ull) {
      v = rng_();
    } else {
      v = (uint64_t)(((unsigned __int128)rng_() * ((unsigned __int128)maxIncl + 1)) >> 64);
    }
    pos_++;
    hash_ = mix(hash_ ^ v);
    if (sh_ && sh_->nChoices < kMaxChoices) {
      sh_->choices[sh_->nChoices] = v;
      sh_->nChoices = sh_->nChoices + 1;
    }
    return v;
  }
  int64_t i(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + raw((uint64_t)hi - (uint64_t)lo)); }
  bool chance(double p) {  // shrinks to false
    return raw(9999) >= (uint64_t)((1.0 - p) * 10000.0);
  }
  size_t idx(size_t n) { return (size_t)raw(n - 1); }
  template <class T>
  T pick(std::initializer_list<T> l) {
    return *(l.begin() + idx(l.size()));
  }
  // real in [lo,hi], mixing interior points, end points, grid points
  double real(double lo, double hi) {
    switch (raw(9)) {
      case 0: return lo;
      case 1: return hi;
      case 2: case 3: {  // coarse grid: collisions and ties are likely
        double g = (double)raw(8) / 8.0;
        return lo + (hi - lo) * g > hi ? hi : lo + (hi - lo) * g;
      }
      default: {
        double u = (double)raw((1ull << 53) - 1) * 0x1p-53;
        double r = lo + (hi - lo) * u;
        return r < lo ? lo : (r > hi ? hi : r);
      }
    }
  }
  double unit() { return (double)raw((1ull << 53) - 1) * 0x1p-53; }
  uint64_t hash() const { return hash_; }
  size_t used() const { return pos_; }

 private:
  std::mt19937_64 rng_;
  const std::vector<uint64_t>* replay_ = nullptr;
  Shared* sh_;
  size_t pos_ = 0;
  uint64_t hash_ = 0x1234567;
};

// ------------------------------------------------------------------ per case context
struct Ctx {
  Src& s;
  bool thorough;
  bool nontriv = false;
  std::vector<std::string> labels;
  std::string desc;          // human readable form of the generated case
  bool wantDesc = false;     // only build descriptions when asked
  Fail first;                // recorded (not thrown) failure, for noexcept callbacks
  bool failed = false;

  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void label(const std::string& l, bool on = true) {
    if (on) labels.push_back(l);
  }
  template <class... A>
  void note(const A&... a) {
    if (wantDesc && desc.size() < 3000) {
      desc += cat(a...);
      if (liveDesc()) strncpy(liveDesc(), desc.c_str(), 3199);
    }
  }
  template <class... A>
  [[noreturn]] void fail(const std::string& key, const A&... a) {
    throw Fail{key, cat(a...)};
  }
  template <class... A>
  void check(bool ok, const char* key, const A&... a) {
    if (!ok) throw Fail{key, cat(a...)};
  }
  template <class... A>
  void check(bool ok, const std::string& key, const A&... a) {
    if (!ok) throw Fail{key, cat(a...)};
  }
  // usable inside callbacks invoked from noexcept code
  template <class... A>
  void soft(bool ok, const char* key, const A&... a) noexcept {
    if (ok || failed) return;
    failed = true;
    first = Fail{key, cat(a...)};
  }
  void rethrow() {
    if (failed) throw first;
  }
};

struct Test {
  std::string name;
  std::string rule;           // how cases are made / what is non-trivial
  uint64_t quick, thorough;   // case counts
  std::function<void(Ctx&)> fn;
  double cpuLimit = 20;       // CPU seconds for one case before it is called a hang
};
inline std::vector<Test>& tests() {
  static std::vector<Test> t;
  return t;
}
struct Reg {
  Reg(std::string n, std::string rule, uint64_t q, uint64_t th, std::function<void(Ctx&)> f, double cpu = 20) {
    tests().push_back({std::move(n), std::move(rule), q, th, std::move(f), cpu});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TEST(fnname, rule, q, th)                     \
  static void fnname(pbt::Ctx& c);                        \
  static pbt::Reg PBT_CAT(reg_, fnname)(#fnname, rule, q, th, fnname); \
  static void fnname(pbt::Ctx& c)

// hooks a harness may define to reset global state before each case
inline std::function<void(uint64_t)>& resetHook() {
  static std::function<void(uint64_t)> h;
  return h;
}

// ------------------------------------------------------------------ running one case
struct Outcome {
  bool failed = false;
  Fail f;
  bool nontriv = false;
  uint64_t hash = 0;
  std::vector<std::string> labels;
  std::string desc;
};

inline Outcome runCase(const Test& t, Src& s, bool thorough, bool wantDesc) {
  Outcome o;
  Ctx c{s, thorough};
  c.wantDesc = wantDesc;
  try {
    if (resetHook()) resetHook()(s.raw(0xffffffffull));
    t.fn(c);
    c.rethrow();
  } catch (const Fail& f) {
    o.failed = true;
    o.f = f;
  } catch (const std::exception& e) {
    o.failed = true;
    o.f = Fail{"exception", e.what()};
  }
  o.nontriv = c.nontriv;
  o.hash = s.hash();
  o.labels = std::move(c.labels);
  o.desc = std::move(c.desc);
  return o;
}

constexpr int kHangExit = 77;
inline void onCpu(int) { _exit(kHangExit); }
inline double cpuNow() {
  struct rusage u;
  getrusage(RUSAGE_SELF, &u);
  return u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec);
}
inline void armCpu(double sec) {
  struct itimerval tv {};
  tv.it_value.tv_sec = (long)sec;
  tv.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
  setitimer(ITIMER_PROF, &tv, nullptr);
}

// ------------------------------------------------------------------ wire protocol worker -> parent (a temp file each)
inline std::string esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r;
}
inline void putStr(std::ostream& o, const std::string& s) { o << s.size() << ' ' << s << '\n'; }
inline std::string getStr(std::istream& i) {
  size_t n = 0;
  if (!(i >> n) || n > (1u << 24)) { i.setstate(std::ios::failbit); return {}; }  // a killed worker leaves a cut record
  i.get();
  std::string s(n, 0);
  i.read(&s[0], n); i.get();
  return s;
}

struct Stats {
  uint64_t evals = 0, nontriv = 0, known = 0;
  double maxCpu = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

struct Options {
  uint64_t seed = 1;
  bool thorough = false;
  std::string prop = "X", variant = "", out, replayDir = ".", replayFile, only;
  std::vector<std::pair<std::string, std::string>> known;  // test,key
  int workers = 8;
  double budget = 240;  // wall seconds safety net for the whole binary
  double scale = 1;
};

inline double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// run one choice sequence in a forked child; returns failure key ("" = passed) and message
inline std::pair<std::string, std::string> runForked(const Test& t, const std::vector<uint64_t>& ch, bool thorough,
                                                     double cpu, std::string* desc = nullptr,
                                                     std::vector<uint64_t>* usedOut = nullptr, bool quiet = true) {
  int p[2];
  if (pipe(p)) abort();
  fflush(nullptr);
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1); dup2(fd, 2);
    }
    signal(SIGPROF, onCpu);
    armCpu(cpu);
    liveDesc() = sh->desc;
    Src s(&ch, sh);
    Outcome o = runCase(t, s, thorough, desc != nullptr);
    std::ostringstream w;
    w << (o.failed ? 1 : 0) << '\n';
    putStr(w, o.f.key); putStr(w, o.f.msg); putStr(w, o.desc);
    std::string b = w.str();
    size_t off = 0;
    while (off < b.size()) {
      ssize_t k = write(p[1], b.data() + off, b.size() - off);
      if (k <= 0) break;
      off += k;
    }
    _exit(0);
  }
  close(p[1]);
  std::string buf;
  char tmp[4096];
  ssize_t k;
  while ((k = read(p[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (usedOut) usedOut->assign(sh->choices, sh->choices + sh->nChoices);
  if (desc) *desc = sh->desc;
  munmap(sh, sizeof(Shared));
  if (WIFSIGNALED(st)) return {"crash", cat("killed by signal ", WTERMSIG(st))};
  int rc = WEXITSTATUS(st);
  if (rc == kHangExit) return {"hang", cat("no result within ", cpu, " CPU seconds")};
  if (rc != 0 || buf.empty()) return {"crash", cat("exited with status ", rc, " (assertion or sanitizer report)")};
  std::istringstream in(buf);
  int f; in >> f; in.get();
  std::string key = getStr(in), msg = getStr(in), d = getStr(in);
  if (desc) *desc = d;
  if (f) return {key, msg};
  return {"", ""};
}

inline std::vector<uint64_t> shrink(const Test& t, std::vector<uint64_t> best, const std::string& key, bool thorough,
                                    double budget, uint64_t* attempts) {
  if (key == "hang") return best;
  double t0 = now();
  auto fails = [&](const std::vector<uint64_t>& c, std::vector<uint64_t>* used) {
    ++*attempts;
    return runForked(t, c, thorough, t.cpuLimit, nullptr, used).first == key;
  };
  auto shorter = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    return a.size() != b.size() ? a.size() < b.size() : a < b;
  };
  bool progress = true;
  auto left = [&] { return now() - t0 < budget; };
  auto attempt = [&](std::vector<uint64_t> c) {
    if (!shorter(c, best)) return false;
    std::vector<uint64_t> used;
    if (!fails(c, &used)) return false;
    if (used.size() < c.size()) c.resize(used.size());
    if (!c.empty() && shorter(used, c)) c = used;
    best = c;
    progress = true;
    return true;
  };
  while (progress && left()) {
    progress = false;
    for (size_t len = best.size() / 2; len >= 1 && left(); len /= 2) {  // delete blocks
      for (size_t pos = 0; pos + len <= best.size() && left();) {
        std::vector<uint64_t> c(best.begin(), best.begin() + pos);
        c.insert(c.end(), best.begin() + pos + len, best.end());
        if (!attempt(c)) pos += len;
      }
    }
    for (size_t len = best.size() / 2; len >= 2 && left(); len /= 2)  // zero blocks
      for (size_t pos = 0; pos + len <= best.size() && left(); pos += len) {
        auto c = best;
        bool any = false;
        for (size_t q = pos; q < pos + len; q++) { any |= c[q] != 0; c[q] = 0; }
        if (any) attempt(c);
      }
    for (size_t k = 0; k < best.size() && left(); k++) {  // minimise single choices
      if (best[k] == 0) continue;
      auto c = best;
      c[k] = 0;
      if (attempt(c)) continue;
      uint64_t lo = 0;
      while (k < best.size() && best[k] - lo > 1 && left()) {
        auto d = best;
        d[k] = lo + (best[k] - lo) / 2;
        uint64_t mid = d[k];
        if (!attempt(d)) lo = mid;
      }
    }
  }
  return best;
}

struct Violation {
  std::string test, key, msg, desc, file;
  size_t len;
};

inline void writeReplay(const std::string& path, const Options& o, const Test& t, const std::vector<uint64_t>& ch,
                        const std::string& key, const std::string& msg, const std::string& desc) {
  std::ofstream f(path);
  f << "property " << o.prop << "\nvariant " << (o.variant.empty() ? "-" : o.variant) << "\ntest " << t.name
    << "\nthorough " << (o.thorough ? 1 : 0) << "\nkey " << key << "\nchoices " << ch.size() << "\n";
  for (auto v : ch) f << v << ' ';
  f << "\n# message: " << msg << "\n# case: " << desc << "\n";
}

inline int main_(int argc, char** argv) {
  Options o;
  for (int a = 1; a < argc; a++) {
    std::string s = argv[a];
    auto val = [&] { return std::string(argv[++a]); };
    if (s == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
    else if (s == "--tier") o.thorough = val() == "thorough";
    else if (s == "--prop") o.prop = val();
    else if (s == "--variant") o.variant = val();
    else if (s == "--out") o.out = val();
    else if (s == "--replay-dir") o.replayDir = val();
    else if (s == "--replay") o.replayFile = val();
    else if (s == "--only") o.only = val();
    else if (s == "--workers") o.workers = atoi(val().c_str());
    else if (s == "--budget") o.budget = atof(val().c_str());
    else if (s == "--scale") o.scale = atof(val().c_str());
    else if (s == "--known") { auto v = val(); auto k = v.find('|'); o.known.push_back({v.substr(0, k), v.substr(k + 1)}); }
  }
  if (!o.replayFile.empty()) {  // replay one saved case: exit 1 if it still fails
    std::ifstream f(o.replayFile);
    std::string w, name; size_t n = 0; int th = 0;
    std::vector<uint64_t> ch;
    while (f >> w) {
      if (w == "test") f >> name;
      else if (w == "thorough") f >> th;
      else if (w == "choices") { f >> n; ch.resize(n); for (auto& v : ch) f >> v; break; }
      else { std::string rest; std::getline(f, rest); }
    }
    for (auto& t : tests())
      if (t.name == name) {
        std::string d;
        auto r = runForked(t, ch, th, 3 * t.cpuLimit, &d, nullptr, false);
        printf("replay %s: %s %s\ncase: %s\n", name.c_str(), r.first.empty() ? "PASS" : "FAIL", (r.first + " " + r.second).c_str(), d.c_str());
        return r.first.empty() ? 0 : 1;
      }
    printf("no such test %s\n", name.c_str());
    return 2;
  }

  const double t0 = now();
  std::vector<Violation> viol;
  std::vector<std::string> flaky;
  std::map<std::pair<std::string, std::string>, std::string> knownSeen;
  std::ostringstream js;
  js << "{\"prop\":\"" << o.prop << "\",\"variant\":\"" << esc(o.variant) << "\",\"tests\":[";
  bool firstTest = true;
  uint64_t shrinkRuns = 0;
  int nActive = 0;
  for (auto& t : tests()) if (o.only.empty() || o.only == t.name) nActive++;
  int done = 0;
  for (auto& t : tests()) {
    if (!o.only.empty() && o.only != t.name) continue;
    const uint64_t total = std::max<uint64_t>(1, (uint64_t)((o.thorough ? t.thorough : t.quick) * o.scale));
    const double tStart = now();
    // fair share of the remaining budget, so that one slow test cannot starve the others
    const double share = std::max(2.0, (o.budget - (tStart - t0)) / (nActive - done) * 1.5);
    done++;
    const int W = (int)std::min<uint64_t>(o.workers, total);
    struct WState { pid_t pid = -1; Shared* sh; uint64_t next; std::string file; bool alive = false; };
    std::vector<WState> ws(W);
    char tmpl[] = "/tmp/pbtXXXXXX";
    std::string dir = mkdtemp(tmpl);
    const uint64_t base = mix(o.seed * 1000003ull ^ hashStr(t.name) ^ hashStr(o.variant));
    auto spawn = [&](int w) {
      auto& s = ws[w];
      fflush(nullptr);
      s.pid = fork();
      if (s.pid == 0) {
        int fd = open((s.file + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 1); dup2(fd, 2);
        signal(SIGPROF, onCpu);
        std::ofstream w_(s.file, std::ios::app);
        std::unordered_set<uint64_t> distinct;
        int samples = 0;
        double maxCpu = 0;
        for (uint64_t k = s.next; k < total; k += W) {
          if (now() - tStart > share) { w_ << "T\n"; break; }
          s.sh->caseIdx = k;
          armCpu(t.cpuLimit);
          Src src(mix(base + k * 0x51ed2701ull), s.sh);
          const bool wd = samples < 3 && (k / W) % 7 == 3;
          const double cpu0 = cpuNow();
          Outcome oc = runCase(t, src, o.thorough, wd);
          maxCpu = std::max(maxCpu, cpuNow() - cpu0);
          w_ << "C " << k << ' ' << (oc.nontriv ? 1 : 0) << ' ' << oc.hash << ' ' << oc.labels.size() << '\n';
          for (auto& l : oc.labels) putStr(w_, l);
          if (wd && oc.nontriv) { w_ << "S\n"; putStr(w_, oc.desc); samples++; }
          if (oc.failed) {
            w_ << "F " << k << "\n"; putStr(w_, oc.f.key); putStr(w_, oc.f.msg);
            w_ << s.sh->nChoices << '\n';
            for (uint64_t q = 0; q < s.sh->nChoices; q++) w_ << s.sh->choices[q] << ' ';
            w_ << "END\n";
            w_.flush();
            bool isKnown = false;
            for (auto& kn : o.known) isKnown |= kn.first == t.name && kn.second == oc.f.key;
            if (!isKnown) _exit(5);
          }
        }
        w_ << "M " << maxCpu << "\n";
        w_.flush();
        _exit(0);
      }
      s.alive = true;
    };
    for (int w = 0; w < W; w++) {
      ws[w].sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      ws[w].next = w;
      ws[w].file = dir + "/w" + std::to_string(w);
      spawn(w);
    }
    struct Cand { std::vector<uint64_t> ch; std::string key, msg; uint64_t k; };
    std::vector<Cand> cands;
    int deaths = 0;
    bool stopAll = false;
    while (true) {
      int alive = 0;
      for (auto& s : ws) alive += s.alive;
      if (!alive) break;
      int st;
      pid_t pid = wait(&st);
      if (pid < 0) break;
      for (int w = 0; w < W; w++) {
        auto& s = ws[w];
        if (!s.alive || s.pid != pid) continue;
        s.alive = false;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { stopAll = true; break; }
        if (stopAll && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) break;
        Cand c;
        c.k = s.sh->caseIdx;
        c.ch.assign(s.sh->choices, s.sh->choices + s.sh->nChoices);
        if (WIFEXITED(st) && WEXITSTATUS(st) == kHangExit) { c.key = "hang"; c.msg = "case did not finish within its CPU budget"; }
        else {
          c.key = "crash";
          std::ifstream e(s.file + ".err");
          std::string ln, all;
          while (std::getline(e, ln) && all.size() < 1200)
            if (ln.find("ERROR") != std::string::npos || ln.find("runtime error") != std::string::npos ||
                ln.find("Assert") != std::string::npos || ln.find("terminate") != std::string::npos ||
                ln.find("#") != std::string::npos)
              all += ln + " / ";
          c.msg = cat("worker died, status ", st, ": ", all);
        }
        bool isKnown = false;
        for (auto& kn : o.known) isKnown |= kn.first == t.name && kn.second == c.key;
        cands.push_back(c);
        deaths++;
        if (isKnown && deaths < 200) { s.next = c.k + W; if (s.next < total) spawn(w); }
        else stopAll = true;
        break;
      }
      if (stopAll)
        for (auto& s : ws) if (s.alive) kill(s.pid, SIGKILL);
    }
    // collect
    Stats S;
    bool truncated = false;
    for (int w = 0; w < W; w++) {
      std::ifstream f(ws[w].file);
      std::string tag;
      while (f >> tag) {
        if (tag == "C") {
          uint64_t k, h; int nt; size_t nl;
          if (!(f >> k >> nt >> h >> nl)) break;
          f.get();
          S.evals++;
          S.labels["total"]++;
          for (size_t q = 0; q < nl; q++) S.labels[getStr(f)]++;
          if (nt) { S.nontriv++; S.distinct.insert(h); }
        } else if (tag == "S") { f.get(); auto d = getStr(f); if (S.samples.size() < 4) S.samples.push_back(d); }
        else if (tag == "T") truncated = true;
        else if (tag == "M") { double m; if (!(f >> m)) break; S.maxCpu = std::max(S.maxCpu, m); }
        else if (tag == "F") {
          Cand c; size_t n; f >> c.k; f.get();
          c.key = getStr(f); c.msg = getStr(f);
          if (!(f >> n)) break;
          if (n > kMaxChoices) break;
          c.ch.resize(n);
          for (auto& v : c.ch) f >> v;
          std::string end;
          if (f >> end && end == "END") cands.push_back(c);
        }
      }
      munmap(ws[w].sh, sizeof(Shared));
      unlink(ws[w].file.c_str()); unlink((ws[w].file + ".err").c_str());
    }
    rmdir(dir.c_str());
    S.evals += deaths;
    // judge candidates: lowest case index per key
    std::sort(cands.begin(), cands.end(), [](const Cand& a, const Cand& b) { return a.key != b.key ? a.key < b.key : a.k < b.k; });
    int confirmed = 0;
    std::map<std::string, int> tried;
    for (auto& c : cands) {
      const std::string& key = c.key;
      bool isKnown = false;
      for (auto& kn : o.known) isKnown |= kn.first == t.name && kn.second == key;
      if (isKnown) { knownSeen[{t.name, key}] = c.msg; S.known++; continue; }
      if (confirmed >= 1 || ++tried[key] > 8) continue;
      // A failure counts only if it comes back in fresh processes: 3 of 3 for a deterministic case, else at
      // least 3 of 12 (real races, reads of indeterminate memory).
      auto reproduces = [&](const std::vector<uint64_t>& ch, std::string* d, std::pair<std::string, std::string>* out) {
        int hit = 0;
        for (int q = 0; q < 12 && hit < 3; q++) {
          // a slow machine must not look like an endless loop: confirm with three times the CPU time, once
          const bool hang = key == "hang";
          auto r = runForked(t, ch, o.thorough, hang ? 3 * t.cpuLimit : t.cpuLimit, d);
          if (hang) { *out = r; return r.first == "hang"; }
          if (!r.first.empty()) { hit++; *out = r; }
          else if (q >= 3 && hit == 0 && t.cpuLimit > 60) break;
        }
        return hit >= 3;
      };
      std::string desc; std::pair<std::string, std::string> r;
      if (!reproduces(c.ch, &desc, &r)) { flaky.push_back(cat(t.name, ":", key, " case ", c.k, " ", c.msg)); continue; }
      std::vector<uint64_t> best = key == "hang" ? c.ch : shrink(t, c.ch, r.first, o.thorough, o.thorough ? 60 : 20, &shrinkRuns);
      if (key != "hang" && !reproduces(best, &desc, &r)) { best = c.ch; if (!reproduces(best, &desc, &r)) { flaky.push_back(cat(t.name, ":", key, " case ", c.k, " ", c.msg)); continue; } }
      std::string path = cat(o.replayDir, "/", o.prop, o.variant.empty() ? "" : "-", o.variant, "-", t.name, "-s", o.seed, ".replay");
      std::string msg = (key == "crash") ? c.msg : r.second;
      writeReplay(path, o, t, best, r.first, msg, desc);
      viol.push_back({t.name, r.first, msg, desc, path, best.size()});
      confirmed++;
    }
    js << (firstTest ? "" : ",") << "{\"test\":\"" << t.name << "\",\"rule\":\"" << esc(t.rule) << "\",\"planned\":" << total
       << ",\"evaluations\":" << S.evals << ",\"nontrivial\":" << S.nontriv << ",\"distinct_nontrivial\":" << S.distinct.size()
       << ",\"known\":" << S.known << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"wall_s\":" << now() - tStart << ",\"slowest_case_cpu_s\":" << S.maxCpu << ",\"labels\":{";
    bool fl = true;
    for (auto& [l, n] : S.labels) if (l != "total") { js << (fl ? "" : ",") << "\"" << esc(l) << "\":" << n; fl = false; }
    js << "},\"samples\":[";
    fl = true;
    for (auto& d : S.samples) { js << (fl ? "" : ",") << "\"" << esc(d) << "\""; fl = false; }
    js << "]}";
    firstTest = false;
  }
  js << "],\"violations\":[";
  bool fv = true;
  for (auto& v : viol) {
    js << (fv ? "" : ",") << "{\"test\":\"" << v.test << "\",\"key\":\"" << esc(v.key) << "\",\"msg\":\"" << esc(v.msg)
       << "\",\"case\":\"" << esc(v.desc) << "\",\"file\":\"" << esc(v.file) << "\",\"choices\":" << v.len << "}";
    fv = false;
  }
  js << "],\"known\":[";
  fv = true;
  for (auto& [k, m] : knownSeen) {
    js << (fv ? "" : ",") << "{\"test\":\"" << k.first << "\",\"key\":\"" << esc(k.second) << "\",\"msg\":\"" << esc(m) << "\"}";
    fv = false;
  }
  js << "],\"flaky\":[";
  fv = true;
  for (auto& f : flaky) { js << (fv ? "" : ",") << "\"" << esc(f) << "\""; fv = false; }
  js << "],\"shrink_runs\":" << shrinkRuns << ",\"wall_s\":" << now() - t0 << "}\n";
  if (!o.out.empty()) { std::ofstream f(o.out); f << js.str(); }
  else printf("%s", js.str().c_str());
  return viol.empty() ? 0 : 1;
}

}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
