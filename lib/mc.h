// Shared explorer runtime of the /verif model-checking harnesses.
//
// A harness enumerates a finite space of *cases* (an operation sequence or an input tuple), executes every case on
// the real headers of /repo/src, and compares each observation with a reference model written here independently of
// the implementation.  Everything is deterministic: case number N of a tier is always the same execution, so a
// counterexample is replayed with `--only N`.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <sys/mman.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

typedef long double LD;

// ------------------------------------------------------------------ set of 64-bit hashes (visited states)
struct HashSet {
  std::vector<uint64_t> t;
  size_t n = 0;
  HashSet() : t(1 << 12, 0) {}
  bool insert(uint64_t h) {
    if (h == 0) h = 0x9e3779b97f4a7c15ull;
    if (2 * (n + 1) > t.size()) grow();
    size_t m = t.size() - 1, i = h & m;
    while (t[i]) {
      if (t[i] == h) return false;
      i = (i + 1) & m;
    }
    t[i] = h;
    ++n;
    return true;
  }
  void grow() {
    std::vector<uint64_t> o(t.size() * 2, 0);
    o.swap(t);
    n = 0;
    for (auto h : o)
      if (h) insert(h);
  }
};

struct Ctx {
  bool thorough = false;
  int64_t only = -1;          // replay exactly one case
  unsigned shard = 0, nshards = 1;
  int64_t ncase = 0;          // cases enumerated (all shards)
  int64_t executed = 0;       // cases executed by this process
  uint64_t transitions = 0;
  uint64_t checks = 0;        // comparisons made against the model
  HashSet states;
  std::map<std::string, uint64_t> outcomes;
  std::vector<std::string> samples;
  std::string stats;          // output file
  volatile int64_t *crumb = nullptr;
  std::string desc;           // of the case being replayed
  std::vector<std::string> ops;  // operations of the current case (histories)
};
inline Ctx &C() {
  static Ctx c;
  return c;
}
inline bool Thorough() { return C().thorough; }
template<class T> T Tier(T quick, T thorough) { return C().thorough ? thorough : quick; }

inline std::string str(const char *f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
template<class T>
std::string vstr(const std::vector<T> &v) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) {
    if (i >= 24) { o << ",...(" << v.size() << ")"; break; }
    o << (i ? "," : "") << v[i];
  }
  o << "]";
  return o.str();
}
template<class T>
std::string tstr(const T &v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}

// ------------------------------------------------------------------ hashing of states
struct Hash {
  uint64_t h = 1469598103934665603ull;
  void raw(const void *p, size_t n) {
    auto c = (const unsigned char *) p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    h ^= h >> 29;
  }
  void add(double d) { raw(&d, sizeof d); }
  void add(float d) { raw(&d, sizeof d); }
  void add(long double d) { double e = (double) d; raw(&e, sizeof e); }
  void add(const char *s) { raw(s, strlen(s)); }
  void add(const std::string &s) { raw(s.data(), s.size()); }
  void add(const std::complex<double> &z) { add(z.real()); add(z.imag()); }
  template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type add(T t) {
    long long v = (long long) t;
    raw(&v, sizeof v);
  }
  template<class T> void add(const std::vector<T> &v) {
    add((long long) v.size());
    for (const auto &e : v) add(e);
  }
  template<class T, size_t N> void add(const std::array<T, N> &v) {
    for (const auto &e : v) add(e);
  }
};
inline void hadd(Hash &) {}
template<class A, class... R> void hadd(Hash &h, const A &a, const R &... r) {
  h.add(a);
  hadd(h, r...);
}

// One application of an implementation operation: a transition; its arguments identify the state it is applied in.
template<class... A> void Visit(const A &... a) {
  Hash h;
  hadd(h, a...);
  C().states.insert(h.h);
  ++C().transitions;
}
inline void Outcome(const char *l) { ++C().outcomes[l]; }

// ------------------------------------------------------------------ cases
template<class F> bool Case(F desc) {
  Ctx &c = C();
  int64_t n = c.ncase++;
  if (c.only >= 0) {
    if (n != c.only) return false;
  } else if (c.nshards > 1 && (unsigned) (n % c.nshards) != c.shard) return false;
  if (c.crumb) *c.crumb = n;
  ++c.executed;
  c.ops.clear();
  if (c.only >= 0) {
    c.desc = desc();
    printf("CASE %lld: %s\n", (long long) n, c.desc.c_str());
    fflush(stdout);
  } else if (c.samples.size() < 8) {
    uint64_t e = (uint64_t) c.executed;
    // written-out samples: executions 1, 2, 5, 25, 125, ...
    bool w = e == 1 || e == 2;
    for (uint64_t p = 5; p <= e; p *= 5) w = w || p == e;
    if (w) c.samples.push_back(str("case %lld: ", (long long) n) + desc());
  }
  return true;
}
// cases whose enumeration is finished: jump over m cases that this shard need not look at one by one
inline void Op(const std::string &s) {
  if (C().only >= 0) { printf("  op %s\n", s.c_str()); fflush(stdout); }
}
inline bool Replaying() { return C().only >= 0; }

[[noreturn]] inline void Fail(const char *f, ...) {
  char b[4096];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  for (char *p = b; *p; ++p) if (*p == '\n') *p = ' ';
  fflush(stdout);
  printf("MCFAIL case=%lld %s\n", (long long) (C().crumb ? *C().crumb : C().ncase - 1), b);
  fflush(stdout);
  _exit(77);
}
#define MC_CHECK(cond, ...) do { ++mc::C().checks; if (!(cond)) mc::Fail(__VA_ARGS__); } while (0)

inline bool nearv(LD got, LD want, LD scale, LD rel) {
  if (std::isnan(got) || std::isnan(want)) return false;
  if (got == want) return true;
  if (std::isinf(got) || std::isinf(want)) return false;
  LD s = std::max(fabsl(want), fabsl(scale));
  return fabsl(got - want) <= rel * s + 1e-300L;
}
inline bool nearv(std::complex<double> got, std::complex<LD> want, LD scale, LD rel) {
  LD s = std::max((LD) std::abs(want), scale);
  return nearv((LD) got.real(), want.real(), s, rel) && nearv((LD) got.imag(), want.imag(), s, rel);
}
// |got-want| <= rel*max(|want|,scale)
inline void Near(LD got, LD want, LD scale, LD rel, const char *f, ...) {
  ++C().checks;
  if (nearv(got, want, scale, rel)) return;
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  Fail("%s: got %.17Lg, expected %.17Lg (tolerance %.3Lg)", b, got, want, rel * std::max(fabsl(want), fabsl(scale)));
}
inline void NearC(std::complex<double> got, std::complex<LD> want, LD scale, LD rel, const char *f, ...) {
  ++C().checks;
  if (nearv(got, want, scale, rel)) return;
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  Fail("%s: got (%.17g,%.17g), expected (%.17Lg,%.17Lg)", b, got.real(), got.imag(), want.real(), want.imag());
}
template<class A, class B> void Same(const A &got, const B &want, const char *f, ...) {
  ++C().checks;
  if (got == want) return;
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  Fail("%s: got %s, expected %s", b, tstr(got).c_str(), tstr(want).c_str());
}
template<class T> void SameV(const std::vector<T> &got, const std::vector<T> &want, const char *f, ...) {
  ++C().checks;
  if (got == want) return;
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  Fail("%s: got %s, expected %s", b, vstr(got).c_str(), vstr(want).c_str());
}

// ------------------------------------------------------------------ calls that may end the process
// MISUSE: stopped by the address sanitizer, by a check inside the standard library or Eigen, or by a memory fault -- the code
// under test did not refuse by itself, an unchecked build would have gone on
enum Ending { RETURNED, THREW, EXIT_ZERO, EXIT_NONZERO, SIGNALLED, MISUSE };
inline const char *endname(Ending e) {
  static const char *n[] = {"returned", "threw", "exit status 0", "exit status non-zero", "ended by a signal", "ended by a memory error or a failed check outside the library"};
  return n[e];
}
template<class F> Ending InChild(F f) {
  fflush(stdout);
  fflush(stderr);
  int log = memfd_create("stderr", 0);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(3); }
  if (p == 0) {
    int d = open("/dev/null", O_WRONLY);
    dup2(d, 1);
    dup2(log >= 0 ? log : d, 2);
    try { f(); } catch (...) { _exit(201); }
    _exit(200);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0) {}
  std::string err(8192, 0);
  if (log >= 0) { ssize_t k = pread(log, &err[0], err.size(), 0); err.resize(k > 0 ? k : 0); close(log); }
  if (err.find("AddressSanitizer") != std::string::npos || err.find("/usr/include/") != std::string::npos) return MISUSE;
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGBUS ? MISUSE : SIGNALLED;
  int r = WEXITSTATUS(st);
  return r == 200 ? RETURNED : r == 201 ? THREW : r == 0 ? EXIT_ZERO : EXIT_NONZERO;
}
// does f throw (any exception type)?
template<class F> bool Throws(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}

// ------------------------------------------------------------------ silence the library's console chatter
struct Quiet {
  std::streambuf *o, *e;
  std::ostringstream s;
  Quiet() : o(std::cout.rdbuf(s.rdbuf())), e(std::cerr.rdbuf(s.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// ------------------------------------------------------------------ odometer over a product of finite domains
// for (Odo o({3,4,2}); o; ++o) use o[0], o[1], o[2]
struct Odo {
  std::vector<int> n, v;
  bool ok = true;
  explicit Odo(std::vector<int> sizes) : n(std::move(sizes)), v(n.size(), 0) {
    for (int k : n) if (k <= 0) ok = false;
  }
  explicit operator bool() const { return ok; }
  int operator[](size_t i) const { return v[i]; }
  Odo &operator++() {
    for (size_t i = v.size(); i-- > 0;) {
      if (++v[i] < n[i]) return *this;
      v[i] = 0;
    }
    ok = false;
    return *this;
  }
};
inline std::vector<int> rep(int n, int k) { return std::vector<int>((size_t) k, n); }

// small exact deterministic "generic" values: distinct, non-symmetric, no accidental cancellation
// positions close to every node of an axis: offsets of eleven magnitudes, relative to the neighbouring gap and absolute,
// on both sides, kept inside the axis
inline std::vector<double> CloseTo(const std::vector<double> &g) {
  std::vector<double> q;
  for (size_t i = 0; i < g.size(); ++i) for (double e : {1e-14, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2}) for (int s = -1; s <= 1; s += 2) {
    size_t j = s < 0 ? i - 1 : i + 1;
    if (j >= g.size()) continue;
    double gap = std::fabs(g[j] - g[i]);
    q.push_back(g[i] + s * e * gap);
    if (e < gap) q.push_back(g[i] + s * e);
  }
  return q;
}
// axes on which shortcuts for uniform spacing go wrong: uniform, uniform with one node displaced by a relative amount
// (every interior position, five amounts), uniform but for the first or last gap, tiny, huge, far from the origin
inline std::vector<std::vector<double>> NearlyUniform(int n) {
  std::vector<std::vector<double>> r;
  auto uni = [&](double o, double h) { std::vector<double> g; for (int i = 0; i < n; ++i) g.push_back(o + h * i); return g; };
  for (double h : {1., 0.1, 1e-9, 1e7}) for (double o : {0., -2.5, 300.}) r.push_back(uni(o * h, h));
  for (int i = 1; i + 1 < n; ++i) for (double e : {1e-10, 1e-7, 1e-5, 1e-3, 0.1, -1e-8, -1e-4}) { auto g = uni(-1, 0.5); g[i] += 0.5 * e; r.push_back(g); }
  for (double e : {1e-9, 1e-6, 1e-3, 0.5, 3.}) { auto g = uni(0, 1); g.back() += e; r.push_back(g); g = uni(0, 1); g.front() -= e; r.push_back(g); }
  return r;
}
// strongly uneven axes: geometric, clustered, with one giant gap; very small and very large ones
inline std::vector<std::vector<double>> Uneven(int n, double tiny, double huge) {
  std::vector<std::vector<double>> r;
  auto of = [&](std::function<double(int)> f) { std::vector<double> g; for (int i = 0; i < n; ++i) g.push_back(f(i)); r.push_back(g); };
  of([&](int i) { return std::ldexp(1., i); });
  of([&](int i) { return -std::ldexp(1., n - 1 - i); });
  of([&](int i) { double t = 2. * i - (n - 1); return t * t * t * t * t + t; });
  { std::vector<double> g = {0.5}; for (int i = 1; i < n; ++i) g.push_back(g.back() + std::ldexp(1., -std::min({i, n - i, 20}))); r.push_back(g); }
  for (int at : {1, n / 2, n - 1}) if (at > 0) of([&](int i) { return i + (i >= at ? 1e6 : 0.); });
  of([&](int i) { return i * tiny; });
  of([&](int i) { return (i - 1) * huge; });
  return r;
}
inline double gen(int i) {
  uint64_t x = (uint64_t) (i + 1) * 0x9E3779B97F4A7C15ull;
  x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
  return (double) (int64_t) ((x >> 40) & 0xFFF) / 512.0 - 4.0;   // dyadic, in [-4,4)
}

// ------------------------------------------------------------------ main
std::string esc(const std::string &s);
inline std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c < 32 || c > 126) o += str("\\u%04x", c);
    else o += (char) c;
  }
  return o;
}

inline int Main(int argc, char **argv, void (*explore)()) {
  Ctx &c = C();
  std::string crumb;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--tier") c.thorough = next() == "thorough";
    else if (a == "--only") c.only = atoll(next().c_str());
    else if (a == "--shard") { std::string s = next(); sscanf(s.c_str(), "%u/%u", &c.shard, &c.nshards); }
    else if (a == "--stats") c.stats = next();
    else if (a == "--crumb") crumb = next();
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  if (!crumb.empty()) {
    int fd = open(crumb.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, 8) != 0) { perror("crumb"); return 3; }
    c.crumb = (volatile int64_t *) mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    *c.crumb = -1;
  }
  try {
    explore();
  } catch (const std::exception &e) {
    Fail("uncaught exception: %s", e.what());
  } catch (const char *e) {
    Fail("uncaught exception: %s", e);
  } catch (...) {
    Fail("uncaught exception");
  }
  if (!c.stats.empty()) {
    FILE *f = fopen(c.stats.c_str(), "w");
    if (!f) { perror("stats"); return 3; }
    fprintf(f, "{\"enumerated\":%lld,\"executed\":%lld,\"states\":%llu,\"transitions\":%llu,\"checks\":%llu,\"outcomes\":{",
            (long long) c.ncase, (long long) c.executed, (unsigned long long) c.states.n,
            (unsigned long long) c.transitions, (unsigned long long) c.checks);
    bool first = true;
    for (auto &o : c.outcomes) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", esc(o.first).c_str(), (unsigned long long) o.second);
      first = false;
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < c.samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(c.samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    FILE *g = fopen((c.stats + ".bin").c_str(), "wb");
    if (!g) { perror("stats"); return 3; }
    for (auto h : c.states.t) if (h) fwrite(&h, 8, 1, g);
    fclose(g);
  }
  printf("MCDONE executed=%lld states=%llu transitions=%llu\n", (long long) c.executed, (unsigned long long) c.states.n,
         (unsigned long long) c.transitions);
  return 0;
}

}  // namespace mc
#define MC_MAIN(f) int main(int argc, char **argv) { return mc::Main(argc, argv, f); }
#endif
