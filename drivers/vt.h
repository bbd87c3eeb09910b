// Common support for the conformance drivers: deterministic randomness, exact
// conversion of walnut numbers to JSON, and a crash-safe event log.
//
// A driver executes real walnut code case by case.  Every call is logged as
// one event; a call that never returns (abort, signal, timeout) is logged as
// an event with op "CRASH", which no specification action accepts.
#ifndef VT_H
#define VT_H

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/multiprecision/cpp_int.hpp>

#include "walnut/big_int.h"

namespace vt {

using Z = boost::multiprecision::cpp_int;

struct Rng {
  uint64_t s;
  // The seed is scrambled: streams of nearby seeds must not be shifts of each other.
  explicit Rng(uint64_t seed = 1) : s(seed) { s = next() ^ (seed << 32); s = next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [lo, hi]
  int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
  bool chance(int num, int den) { return int(next() % den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <typename T> void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

// ---------------------------------------------------------------- numbers
inline Z ToZ(const walnut::BigInt& b) {
  Z r = 0;
  const size_t n = b.used_words();
  for (size_t i = n; i > 0; --i) {
    r <<= 64;
    r |= Z(uint64_t(b.word(i - 1).low_uint64()));
  }
  if (int64_t(b.word(n - 1).low_uint64()) < 0) r -= Z(1) << (64 * n);
  return r;
}

inline std::string ZJ(const Z& v) {
  Z a = v < 0 ? Z(-v) : v;
  if (a < (Z(1) << 30)) return v.str();
  std::string s = v < 0 ? "[-1" : "[1";
  while (a != 0) {
    s += ",";
    s += std::to_string(unsigned(a & 32767));
    a >>= 15;
  }
  return s + "]";
}
inline std::string ZJ(const walnut::BigInt& b) { return ZJ(ToZ(b)); }

// ------------------------------------------------------------------ JSON
inline std::string Q(const std::string& s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if ((unsigned char)c < 32) r += ' ';
    else r += c;
  }
  return r + "\"";
}

struct O {   // JSON object builder
  std::string s = "{";
  bool first = true;
  O& raw(const char* k, const std::string& v) {
    if (!first) s += ",";
    first = false;
    s += "\""; s += k; s += "\":"; s += v;
    return *this;
  }
  O& operator()(const char* k, const char* v) { return raw(k, Q(v)); }
  O& operator()(const char* k, const std::string& v) { return raw(k, Q(v)); }
  O& operator()(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  O& operator()(const char* k, int v) { return raw(k, std::to_string(v)); }
  O& operator()(const char* k, size_t v) { return raw(k, ZJ(Z(v))); }
  O& operator()(const char* k, const walnut::BigInt& v) { return raw(k, ZJ(v)); }
  O& operator()(const char* k, const Z& v) { return raw(k, ZJ(v)); }
  std::string str() const { return s + "}"; }
};

struct A {   // JSON array builder
  std::string s = "[";
  bool first = true;
  A& raw(const std::string& v) {
    if (!first) s += ",";
    first = false;
    s += v;
    return *this;
  }
  A& operator()(int v) { return raw(std::to_string(v)); }
  A& operator()(bool v) { return raw(v ? "true" : "false"); }
  A& operator()(const walnut::BigInt& v) { return raw(ZJ(v)); }
  A& operator()(const Z& v) { return raw(ZJ(v)); }
  std::string str() const { return s + "]"; }
};

template <typename C, typename F>
std::string Arr(const C& c, F f) {
  A a;
  for (const auto& x : c) a.raw(f(x));
  return a.str();
}
inline std::string IntArr(const std::vector<int>& v) {
  return Arr(v, [](int x) { return std::to_string(x); });
}

// ---------------------------------------------------------------- runner
struct Case {
  int id;
  int fd;
  Rng rng;
  std::string tier;
  Case(int id, int fd, uint64_t seed) : id(id), fd(fd), rng(seed * 1000003ull + uint64_t(id) + 17) { }
  void line(char kind, const std::string& j) {
    std::string s;
    s += kind; s += ' '; s += std::to_string(id); s += ' '; s += j; s += '\n';
    size_t off = 0;
    while (off < s.size()) {
      ssize_t w = write(fd, s.data() + off, s.size() - off);
      if (w <= 0) _exit(97);
      off += size_t(w);
    }
  }
  // A call is about to be made.  If it does not return, this is what is
  // attached to the CRASH event.
  void call(const std::string& j) { line('P', j); }
  // The call returned.
  void ev(const std::string& j) { line('E', j); }
  void ev(const O& o) { line('E', o.str()); }
  void call(const O& o) { line('P', o.str()); }
};

struct Opts {
  uint64_t seed = 1;
  int cases = 100, shard = 0, nshards = 1, only = -1, cpu = 20;
  std::string out, tier = "quick", scripts, mode;
};

using CaseFn = std::function<void(Case&, const Opts&)>;

inline int Main(int argc, char** argv, CaseFn fn) {
  Opts o;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") o.cases = atoi(v.c_str());
    else if (k == "--shard") o.shard = atoi(v.c_str());
    else if (k == "--nshards") o.nshards = atoi(v.c_str());
    else if (k == "--case") o.only = atoi(v.c_str());
    else if (k == "--out") o.out = v;
    else if (k == "--tier") o.tier = v;
    else if (k == "--scripts") o.scripts = v;
    else if (k == "--mode") o.mode = v;
    else if (k == "--cpu") o.cpu = atoi(v.c_str());
    else { fprintf(stderr, "bad option %s\n", k.c_str()); return 2; }
  }
  int fd = open(o.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (fd < 0) { perror("open"); return 2; }
  std::vector<int> ids;
  if (o.only >= 0) ids.push_back(o.only);
  else for (int i = o.shard; i < o.cases; i += o.nshards) ids.push_back(i);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  volatile int* cur = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int pos = 0, crashes = 0;
  while (pos < int(ids.size())) {
    fflush(nullptr);
    *cur = pos;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (pid == 0) {
      for (int p = pos; p < int(ids.size()); ++p) {
        *cur = p;
        struct itimerval tv = {{0, 0}, {o.cpu, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        alarm(unsigned(o.cpu) * 10);
        Case c(ids[p], fd, o.seed);
        c.tier = o.tier;
        c.line('C', "{}");
        fn(c, o);
        c.line('D', "{}");
      }
      fflush(nullptr);
      _exit(0);
    }
    int st = 0;
    if (waitpid(pid, &st, 0) < 0) { perror("waitpid"); return 2; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 2;
    int p = *cur;
    Case c(ids[p], fd, o.seed);
    std::string how = WIFSIGNALED(st)
        ? (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? "timeout"
           : "signal " + std::to_string(WTERMSIG(st)))
        : "exit " + std::to_string(WEXITSTATUS(st));
    c.line('X', O()("how", how).str());
    pos = p + 1;
    if (++crashes >= 20) break;   // enough evidence; the rest is not run
  }
  close(fd);
  return 0;
}

}  // namespace vt

#endif
