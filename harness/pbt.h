// Small property-based testing engine (header only).
//
// A case is a finite sequence of bounded integer draws ("choices").  Generators are ordinary functions
// of the choice source, so every generated value shrinks by shrinking the choice sequence (delete spans,
// zero blocks, minimise single values): the approach of Hypothesis.  Case i of a facet is a pure function
// of (VERIF_SEED, property id, facet name, i).
//
// Cases run in forked workers, case i in worker i mod NW.  A worker that dies (abort, assert, signal,
// sanitizer report, CPU budget exhausted) marks the case it was running as failed and a new worker carries
// on after it.  A failing case is shrunk with every candidate executed in a forked child, replayed 3 times,
// and written out as a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <algorithm>
#include <memory>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace pbt {

typedef uint64_t u64;

inline u64 splitmix(u64& s) {
  u64 z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline u64 fnv(const std::string& s, u64 h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

struct Fail { std::string msg; };
struct Discard { std::string why; };
// a failure that is exactly a recorded one: passes when its id is given by --known (known_findings.json), fails otherwise
struct Known { std::string id, msg; };
inline std::set<std::string>& knownIds() { static std::set<std::string> s; return s; }

// source of choices for one case
class Gen {
 public:
  explicit Gen(u64 seed) : state(seed), replaying(false) {}
  explicit Gen(const std::vector<u64>& seq) : state(0), replaying(true), given(seq) {}

  // uniform in [0, max]
  u64 draw(u64 max) {
    u64 v;
    if (replaying) {
      v = pos < given.size() ? given[pos] : 0;
      if (v > max) v = max;
    } else {
      u64 r = splitmix(state);
      v = (max == ~0ull) ? r : (u64)(((__uint128_t) r * (max + 1)) >> 64);
    }
    pos++;
    rec.push_back(v);
    if (shared && rec.size() <= sharedCap) { shared[rec.size()] = v; shared[0] = rec.size(); }
    return v;
  }
  // [lo, hi], shrinks towards lo
  long integer(long lo, long hi) { return hi <= lo ? lo : lo + (long) draw((u64)(hi - lo)); }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  bool boolean() { return draw(1) == 1; }
  // real on a fine grid of [lo, hi]; shrinks towards lo
  double real(double lo, double hi, u64 grid = 100000) { return lo + (hi - lo) * ((double) draw(grid) / (double) grid); }
  // signed real in [-m, m]; shrinks towards 0
  double sreal(double m, u64 grid = 20000) {
    u64 k = draw(2 * grid);
    double x = (double) ((k + 1) / 2) / (double) grid * m;
    return (k & 1) ? -x : x;
  }
  // log-uniform in [10^elo, 10^ehi]
  double logreal(double elo, double ehi) { return std::pow(10.0, real(elo, ehi, 4000)); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <class T> T oneOf(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  // index chosen with integer weights, shrinks to 0
  size_t weighted(std::initializer_list<unsigned> w) {
    u64 tot = 0; for (unsigned x : w) tot += x;
    u64 d = draw(tot - 1);
    size_t i = 0;
    for (unsigned x : w) { if (d < x) return i; d -= x; i++; }
    return w.size() - 1;
  }
  // permutation of 0..n-1, shrinks to identity
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = 0; i + 1 < n; i++) { int j = i + (int) draw(n - 1 - i); std::swap(p[i], p[j]); }
    return p;
  }
  // k distinct values of 0..n-1, in random order
  std::vector<int> sample(int n, int k) { std::vector<int> p = perm(n); p.resize(std::min(n, k)); return p; }

  // --- classification of the case
  void label(const std::string& l) { labels.insert(l); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  // description shown in samples / replay files
  std::ostringstream note;
  // what makes this case distinct (default: the choice sequence)
  void key(const std::string& s) { keyh = fnv(s, keyh ? keyh : 1469598103934665603ull); }

  std::vector<u64> rec;
  u64* shared = nullptr;      // when set, the draws are mirrored there (survives a crash of the process)
  size_t sharedCap = 0;
  std::set<std::string> labels;
  bool nontriv = false;
  u64 keyh = 0;
  u64 dist() const {
    u64 h = keyh ? keyh : 1469598103934665603ull;
    if (!keyh) for (u64 v : rec) { h ^= v + 0x9E37; h *= 1099511628211ull; }
    return h;
  }
 private:
  u64 state;
  bool replaying;
  std::vector<u64> given;
  size_t pos = 0;
};

struct Facet {
  std::string name;
  std::string rule;
  long quick, thorough;
  std::function<void(Gen&)> body;
};
inline std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
struct Reg { Reg(const char* n, const char* rule, long q, long t, std::function<void(Gen&)> b) { facets().push_back({n, rule, q, t, b}); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// FACET(name, "rule that makes a case non-trivial", cases quick, cases thorough) { body using Gen& g }
#define FACET(name, rule, q, t) \
  static void facet_##name(pbt::Gen& g); \
  static pbt::Reg reg_##name(#name, rule, q, t, facet_##name); \
  static void facet_##name(pbt::Gen& g)

inline void fail(const std::string& m) { throw Fail{m}; }
#define EXPECT(cond, what) do { if (!(cond)) { std::ostringstream _o; _o.precision(17); _o << what << "  [" #cond "]"; throw pbt::Fail{_o.str()}; } } while (0)
#define FAIL(what) do { std::ostringstream _o; _o.precision(17); _o << what; throw pbt::Fail{_o.str()}; } while (0)

// |a-b| <= tol * scale; NaN/inf never close
inline bool close(double a, double b, double tol, double scale) {
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= tol * std::max(scale, 1e-300);
}
#define EXPECT_CLOSE(a, b, tol, scale, what) do { double _a = (a), _b = (b); double _s = (scale); if (!pbt::close(_a, _b, (tol), _s)) { \
  std::ostringstream _o; _o.precision(17); _o << what << ": got " << _a << " expected " << _b << " (|diff|=" << std::fabs(_a - _b) << ", scale " << _s << ", tol " << (tol) << ")"; throw pbt::Fail{_o.str()}; } } while (0)

// Runs fn in a forked child with output silenced.  How it ended:
enum Ended { RETURNED, REJECTED /* abort() or exit(nonzero) */, CRASHED /* memory fault, sanitizer, hang */ };
struct ChildResult { Ended ended; int code; int sig; };
inline ChildResult inChild(const std::function<void()>& fn, int cpu_s = 20) {
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1); dup2(dn, 2);
    struct rlimit rl = {(rlim_t) cpu_s, (rlim_t) cpu_s + 1};
    setrlimit(RLIMIT_CPU, &rl);
    int rc = 0;
    try { fn(); } catch (...) { rc = 3; }
    _exit(rc);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  ChildResult r; r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 0; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
  if (r.sig == SIGABRT) r.ended = REJECTED;
  else if (r.sig) r.ended = CRASHED;
  else if (r.code == 77) r.ended = CRASHED;   // sanitizer exit code, see run.py
  else if (r.code) r.ended = REJECTED;
  else r.ended = RETURNED;
  return r;
}

// -------------------------------------------------------------------------------------------------
namespace detail {

inline std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

struct Outcome { int kind; /*0 ok 1 discard 2 fail*/ std::string msg; };

inline Outcome runBody(const Facet& f, Gen& g) {
  try { f.body(g); return {0, ""}; }
  catch (Fail& e) { return {2, e.msg}; }
  catch (Discard& e) { return {1, e.why}; }
  catch (Known& e) { if (knownIds().count(e.id)) { g.label("known finding " + e.id); return {0, ""}; } return {2, e.msg}; }
  catch (std::exception& e) { return {2, std::string("exception: ") + e.what()}; }
}

// executes one choice sequence (or, for history, several generated cases one after another) in a child
struct Iso { bool failed; std::string msg; std::vector<u64> rec; std::string note; std::string err; };
struct Crash { Gen* g; int fd; };
inline Crash& crashInfo() { static Crash c = {nullptr, -1}; return c; }
inline void onCrash(int sig) {   // best effort: keep the description of the case
  signal(sig, SIG_DFL);
  Crash& c = crashInfo();
  if (c.g) {
    std::string out = "3\n"; out += '\0'; out += c.g->note.str();
    if (out.size() > 60000) out.resize(60000);
    ssize_t w = write(c.fd, out.data(), out.size()); (void) w;
  }
  raise(sig);
}
inline Iso isolated(const Facet& f, const std::vector<u64>* seq, const std::vector<u64>& seeds, int cpu_s) {
  int fd[2], ef[2];
  if (pipe(fd) || pipe(ef)) { perror("pipe"); exit(2); }
  fcntl(ef[1], F_SETPIPE_SZ, 1 << 20);
  fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
  fflush(stdout); fflush(stderr);
  // the choices live in shared memory, so that they are known even when the case crashes
  const size_t cap = 1 << 18;
  u64* sh = (u64*) mmap(0, (cap + 2) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh[0] = 0;
  pid_t p = fork();
  if (p == 0) {
    ::close(fd[0]); ::close(ef[0]);
    fcntl(ef[1], F_SETFL, O_NONBLOCK);
    dup2(ef[1], 2);
    dup2(ef[1], 1);
    struct rlimit rl = {(rlim_t) cpu_s * (seq ? 1 : seeds.size()), (rlim_t) cpu_s * (seq ? 1 : seeds.size()) + 1};
    setrlimit(RLIMIT_CPU, &rl);
    mkdir("iso", 0755);
    if (chdir("iso")) _exit(2);
    crashInfo().fd = fd[1];
    for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) {
#if !defined(__SANITIZE_ADDRESS__)
      signal(sg, onCrash);
#else
      if (sg == SIGABRT) signal(sg, onCrash);
#endif
    }
    size_t n = seq ? 1 : seeds.size();
    for (size_t k = 0; k < n; k++) {
      Gen g = seq ? Gen(*seq) : Gen(seeds[k]);
      g.shared = sh; g.sharedCap = cap;
      sh[0] = 0;
      crashInfo().g = &g;
      Outcome o = runBody(f, g);
      crashInfo().g = nullptr;
      if (k + 1 < n && o.kind != 2) continue;
      std::string out = std::to_string(o.kind) + "\n" + o.msg + '\0' + g.note.str();
      if (out.size() > 60000) out.resize(60000);
      ssize_t w = write(fd[1], out.data(), out.size()); (void) w;
      break;
    }
    _exit(0);
  }
  ::close(fd[1]); ::close(ef[1]);
  auto slurp = [](int d) { std::string s; char b[4096]; ssize_t n; while ((n = read(d, b, sizeof b)) > 0) s.append(b, n); ::close(d); return s; };
  std::string out = slurp(fd[0]);
  std::string err = slurp(ef[0]);
  int st = 0; waitpid(p, &st, 0);
  Iso r; r.err = err; r.failed = false;
  r.rec.assign(sh + 1, sh + 1 + sh[0]);
  munmap(sh, (cap + 2) * 8);
  if (out.size() >= 2) {
    std::string rest = out.substr(2);
    size_t z = rest.find('\0');
    r.msg = rest.substr(0, z);
    if (z != std::string::npos) r.note = rest.substr(z + 1);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && out.size() >= 2) {
    r.failed = out[0] == '2';
  } else {
    r.failed = true;
    if (WIFSIGNALED(st)) r.msg = std::string("process died: ") + strsignal(WTERMSIG(st)) + (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? " (CPU budget of the case exhausted)" : "");
    else r.msg = "process exited with code " + std::to_string(WEXITSTATUS(st));
    for (const char* k : {"SUMMARY:", "runtime error:", "Assertion", "FATAL"}) {
      size_t q = err.find(k);
      if (q != std::string::npos) { r.msg += " / " + err.substr(q, err.find('\n', q) - q); break; }
    }
  }
  return r;
}

inline bool simpler(const std::vector<u64>& a, const std::vector<u64>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

// Shrinks; budget counts executions
inline std::vector<u64> shrink(const Facet& f, std::vector<u64> best, int budget, int cpu_s, Iso& last) {
  int runs = 0;
  std::set<u64> tried;
  time_t until = time(0) + 60;    // bounds the shrinking only; the verdict does not depend on it
  auto attempt = [&](const std::vector<u64>& c) {
    if (time(0) > until) runs = budget;
    if (runs >= budget) return false;
    u64 h = 1469598103934665603ull;
    for (u64 v : c) { h ^= v + 0x9E37; h *= 1099511628211ull; }
    if (!tried.insert(h).second) return false;
    runs++;
    Iso r = isolated(f, &c, {}, cpu_s);
    if (!r.failed) return false;
    std::vector<u64> n = r.rec.size() ? r.rec : c;
    if (!simpler(n, c)) n = c;
    if (!simpler(n, best)) return false;
    best = n; last = r;
    return true;
  };
  bool progress = true;
  while (progress && runs < budget) {
    progress = false;
    // truncate
    for (size_t keep = 0; keep < best.size(); keep = keep ? keep * 2 : 1) {
      std::vector<u64> c(best.begin(), best.begin() + std::min(keep, best.size()));
      if (attempt(c)) { progress = true; break; }
    }
    // delete spans
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && runs < budget;) {
        std::vector<u64> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) progress = true; else i += len;
      }
      if (len == 1) break;
    }
    // zero blocks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && runs < budget; i += len) {
        std::vector<u64> c(best);
        bool any = false;
        for (size_t k = i; k < i + len; k++) { any = any || c[k]; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
      if (len == 1) break;
    }
    // minimise values, also together with a shortening (counts)
    for (size_t i = 0; i < best.size() && runs < budget; i++) {
      u64 lo = 0;
      while (i < best.size() && lo < best[i] && runs < budget) {
        u64 mid = lo + (best[i] - lo) / 2;
        std::vector<u64> c(best); c[i] = mid;
        if (attempt(c)) progress = true;
        else lo = mid + 1;
      }
    }
  }
  return best;
}

}  // namespace detail

// ---- main: harness --tier quick|thorough --seed N --prop ID --out result.json --replays DIR [--replay FILE]
//      [--facet NAME] [--scale X]
int pbt_main(int argc, char** argv, const std::function<void()>& init);

}  // namespace pbt

#ifdef PBT_MAIN
int pbt::pbt_main(int argc, char** argv, const std::function<void()>& init) {
  using namespace detail;
  std::string tier = "quick", prop = "P00", out = "", replays = ".", replay = "", only = "", work = ".";
  u64 seed = 1; double scale = 1; int NW = 8; int cpu_s = 20; bool verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--replays") replays = nx();
    else if (a == "--replay") replay = nx(); else if (a == "--facet") only = nx(); else if (a == "--scale") scale = atof(nx().c_str());
    else if (a == "--work") work = nx(); else if (a == "--jobs") NW = atoi(nx().c_str()); else if (a == "--known") knownIds().insert(nx()); else if (a == "-v") verbose = true;
  }
  if (chdir(work.c_str())) { perror("chdir"); return 2; }
  init();

  if (replay.size()) {
    std::ifstream in(replay); std::string line, fname; std::vector<u64> seq, hist;
    while (std::getline(in, line)) {
      if (line.compare(0, 6, "facet ") == 0) fname = line.substr(6);
      if (line.compare(0, 8, "choices ") == 0) { std::istringstream s(line.substr(8)); u64 v; while (s >> v) seq.push_back(v); }
      if (line.compare(0, 8, "history ") == 0) { std::istringstream s(line.substr(8)); u64 v; while (s >> v) hist.push_back(v); }
      if (line.compare(0, 3, "---") == 0) break;
    }
    for (auto& f : facets()) if (f.name == fname) {
      Iso r = hist.size() ? isolated(f, nullptr, hist, cpu_s) : isolated(f, &seq, {}, cpu_s);
      std::cout << (r.failed ? "FAILED" : "passed") << " facet " << f.name << "\n" << r.msg << "\n" << r.note << "\n" << r.err << "\n";
      return r.failed ? 1 : 0;
    }
    std::cerr << "no such facet: " << fname << "\n";
    return 2;
  }

  struct Stat { long eval = 0, disc = 0, nt = 0; std::set<u64> distinct; std::map<std::string, long> labels; std::vector<std::string> samples; long fails = 0; };
  struct Found { std::string facet, msg, path; };
  std::vector<Found> found;
  std::map<std::string, Stat> stats;
  long* cur = (long*) mmap(0, sizeof(long) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct timeval t0; gettimeofday(&t0, 0);

  for (auto& f : facets()) {
    if (only.size() && f.name != only) continue;
    if (found.size() && tier == "quick") break;
    long n = tier == "thorough" ? f.thorough : f.quick;
    n = std::max(1L, (long) (n * scale));
    u64 base = fnv(prop + "/" + f.name) ^ (seed * 0x9E3779B97F4A7C15ull);
    auto caseSeed = [&](long i) { u64 s = base + (u64) i * 0xD1B54A32D192ED03ull; u64 t = s; splitmix(t); return splitmix(t); };
    Stat& st = stats[f.name];
    std::map<long, std::string> failing;   // index -> message
    int nw = (int) std::min<long>(NW, n);
    std::vector<long> next(nw); for (int w = 0; w < nw; w++) next[w] = w;
    std::vector<std::string> files(nw);
    std::vector<pid_t> pid(nw, 0);
    std::vector<int> crashes(nw, 0);
    auto start = [&](int w) {
      fflush(stdout); fflush(stderr);
      cur[w] = -1;
      pid[w] = fork();
      if (pid[w]) return;
      std::string wd = "w" + std::to_string(w);
      mkdir(wd.c_str(), 0755);
      int fd = open(files[w].c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
      if (chdir(wd.c_str())) _exit(2);
      int dn = open("/dev/null", O_WRONLY);
      if (!verbose) { dup2(dn, 1); dup2(dn, 2); }
      int nfail = 0;
      for (long i = next[w]; i < n; i += nw) {
        cur[w] = i;
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu_s;
        setitimer(ITIMER_PROF, &it, 0);   // SIGPROF kills a case that burns its CPU budget
        Gen g(caseSeed(i));
        Outcome o = runBody(f, g);
        std::ostringstream l;
        l << i << "\x1f" << o.kind << "\x1f" << (g.nontriv ? 1 : 0) << "\x1f" << g.dist() << "\x1f";
        bool first = true;
        for (auto& s : g.labels) { l << (first ? "" : ",") << s; first = false; }
        std::string nt; if (i < 40 || o.kind == 2) nt = g.note.str().substr(0, 1500);
        std::string m = o.kind == 2 ? o.msg.substr(0, 600) : "";
        auto one = [](std::string s) { for (auto& c : s) { if (c == '\n') c = ' '; if (c == '\x1f') c = ' '; } return s; };
        l << "\x1f" << one(m) << "\x1f" << one(nt) << "\n";
        std::string s = l.str();
        if (write(fd, s.data(), s.size()) < 0) _exit(2);
        if (o.kind == 2 && ++nfail >= 5) break;
      }
      cur[w] = -2;
      _exit(0);
    };
    for (int w = 0; w < nw; w++) { files[w] = "res_" + f.name + "_" + std::to_string(w); unlink(files[w].c_str()); start(w); }
    int live = nw;
    while (live) {
      int ws; pid_t p = waitpid(-1, &ws, 0);
      if (p < 0) break;
      for (int w = 0; w < nw; w++) if (pid[w] == p) {
        if (cur[w] == -2) { live--; break; }
        long i = cur[w];
        std::string why = WIFSIGNALED(ws) ? std::string("process died: ") + strsignal(WTERMSIG(ws)) : "process exited with code " + std::to_string(WEXITSTATUS(ws));
        if (i >= 0) { failing[i] = why; st.eval++; st.fails++; next[w] = i + nw; }
        if (i < 0 || ++crashes[w] >= 3 || next[w] >= n) { live--; break; }
        start(w);
        break;
      }
    }
    for (int w = 0; w < nw; w++) {
      std::ifstream in(files[w]); std::string line;
      while (std::getline(in, line)) {
        std::vector<std::string> c; size_t p = 0, q;
        while ((q = line.find('\x1f', p)) != std::string::npos) { c.push_back(line.substr(p, q - p)); p = q + 1; }
        c.push_back(line.substr(p));
        if (c.size() < 7) continue;
        st.eval++;
        if (c[1] == "1") st.disc++;
        if (c[1] == "2") { st.fails++; failing[atol(c[0].c_str())] = c[5]; }
        if (c[1] != "1" && c[2] == "1") { st.nt++; st.distinct.insert(strtoull(c[3].c_str(), 0, 10)); }
        std::istringstream ls(c[4]); std::string lab;
        while (std::getline(ls, lab, ',')) st.labels[lab]++;
        if (st.samples.size() < 4 && c[1] == "0" && c[2] == "1" && c[6].size()) st.samples.push_back(f.name + " case " + c[0] + ": " + c[6]);
      }
      unlink(files[w].c_str());
    }
    if (failing.size()) {
      // report the lowest failing case that reproduces when run on its own
      int looked = 0;
      for (auto& kv : failing) {
        if (++looked > 6) break;
        std::vector<u64> hist = {caseSeed(kv.first)};
        Iso r = isolated(f, nullptr, hist, cpu_s);
        if (!r.failed) {
          // it may depend on what ran before it in the same process: replay that history, then shorter ones
          std::vector<u64> all;
          for (long i = kv.first % nw; i <= kv.first; i += nw) all.push_back(caseSeed(i));
          r = isolated(f, nullptr, all, cpu_s);
          if (!r.failed) { std::cerr << "note: case " << kv.first << " of " << f.name << " did not fail again: " << kv.second << "\n"; continue; }
          hist = all;
          for (size_t len = 2; len < all.size(); len *= 2) {
            std::vector<u64> h(all.end() - len, all.end());
            if (isolated(f, nullptr, h, cpu_s).failed) { hist = h; break; }
          }
        }
        Iso last = r;
        bool single = hist.size() == 1;
        std::vector<u64> best = r.rec;
        if (single) {
          if (isolated(f, &best, {}, cpu_s).failed) best = shrink(f, best, tier == "thorough" ? 1500 : 400, cpu_s, last);
          else single = false;
        }
        int again = 0;
        for (int k = 0; k < 3; k++) { Iso q = single ? isolated(f, &best, {}, cpu_s) : isolated(f, nullptr, hist, cpu_s); if (q.failed) { again++; last = q; } }
        if (again < 3) { std::cerr << "note: case " << kv.first << " of " << f.name << " is not reproducible\n"; continue; }
        mkdir(replays.c_str(), 0755);
        std::string path = replays + "/" + prop + "_" + f.name + "_" + std::to_string(kv.first) + ".replay";
        std::ofstream o(path);
        o << "property " << prop << "\nfacet " << f.name << "\nseed " << seed << "\ncase " << kv.first << "\n" << (single ? "choices" : "history");
        for (u64 v : (single ? best : hist)) o << " " << v;
        o << "\nmessage " << last.msg << "\n--- case\n" << last.note << "\n--- output\n" << last.err.substr(0, 8000) << "\n";
        o.close();
        found.push_back({f.name, last.msg.empty() ? kv.second : last.msg, path});
        break;
      }
    }
  }
  struct timeval t1; gettimeofday(&t1, 0);
  std::ofstream o(out.size() ? out : "result.json");
  o << "{\n \"wall\": " << (t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) << ",\n \"facets\": [";
  bool ff = true;
  for (auto& f : facets()) {
    if (!stats.count(f.name)) continue;
    Stat& s = stats[f.name];
    o << (ff ? "\n" : ",\n") << "  {\"name\": \"" << f.name << "\", \"rule\": \"" << esc(f.rule) << "\", \"evaluations\": " << s.eval << ", \"discarded\": " << s.disc
      << ", \"nontrivial\": " << s.nt << ", \"distinct_nontrivial\": " << s.distinct.size() << ", \"failing\": " << s.fails << ", \"labels\": {";
    bool g1 = true; for (auto& l : s.labels) { o << (g1 ? "" : ", ") << "\"" << esc(l.first) << "\": " << l.second; g1 = false; }
    o << "}, \"samples\": ["; g1 = true;
    for (auto& l : s.samples) { o << (g1 ? "" : ", ") << "\"" << esc(l) << "\""; g1 = false; }
    o << "]}"; ff = false;
  }
  o << "\n ],\n \"found\": ["; ff = true;
  for (auto& v : found) { o << (ff ? "\n" : ",\n") << "  {\"facet\": \"" << v.facet << "\", \"message\": \"" << esc(v.msg.substr(0, 2000)) << "\", \"replay\": \"" << esc(v.path) << "\"}"; ff = false; }
  o << "\n ]\n}\n";
  return found.size() ? 1 : 0;
}
#endif
