// C31 - evaluations do not interfere: threads, nesting, histories over several objects.
//@bounds quick: about 125 operations over all parts (small, medium and large sizes, dimensions 1 to 5, orders up to 60) of the library (evaluations of shared objects, operations on objects of the thread's own, free functions), each with 3 argument sets / objects; two threads: every unordered pair of operations, all schedules with at most 2 preemptions at the accesses to memory that one thread writes and another one touches (limit 1200 schedules for pairs on the same part, 250 for others; a pair that reaches its limit is counted in the outcomes); every operation within the callback of each of 16 operations with user functions (integrands, approximated functions), first and later calls; the same with the user function throwing at its first, second or fifth call, every other operation afterwards; histories a b a of every ordered pair; histories of three rounds of all operations in strided orders; the floating-point environment after every operation; six bulk operations (1000 to 3000 elements; threads: with themselves only)
//@bounds thorough: at most 40000 (other parts: 4000) schedules per pair, 3 preemptions, 3 threads for every pair of operations on the same part, all argument sets, all starts and strides of the long histories
//@model the same operation executed alone in a fresh process
//@assume threads do not modify an object while others use it; memory model: sequential consistency (weak-memory reorderings are not explored)
//@sched
//@parts ops.cpp 7
#include "mc.h"
#include "ops.h"
#include <cfenv>
#include <xmmintrin.h>
typedef std::vector<double> V;
std::vector<OpT> OPS;
// the arithmetic every later call depends on: rounding mode, flushing of small numbers, exception masks
static double fpstate() { return (double) (_mm_getcsr() & 0xFFC0u) + 65536. * fegetround(); }
static double fpnormal;
const std::function<void()> *userhook = nullptr;

struct Sc { int n; int op[4], w[4]; };
static void body(int t, void *c, Out &o) { Sc &s = *(Sc *) c; OPS[s.op[t]].f(s.w[t], o); }
static void bodyfp(int t, void *c, Out &o) { body(t, c, o); o.put(fpstate()); }
static void chain(int, void *c, Out &o) { Sc &s = *(Sc *) c; for (int i = 0; i < s.n; ++i) OPS[s.op[i]].f(s.w[i], o); }
static bool near(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  double m = 0; for (double x : b) if (std::isfinite(x)) m = std::max(m, std::fabs(x));
  for (size_t i = 0; i < a.size(); ++i) { if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue; if (!(std::fabs(a[i] - b[i]) <= 1e-12 * std::fabs(b[i]) + 1e-13 * m)) return false; }
  return true;
}
static std::string difference(const V &a, const V &b) {
  if (a.size() != b.size()) return mc::str("%zu values instead of %zu", a.size(), b.size());
  for (size_t i = 0; i < a.size(); ++i) if (!near({a[i]}, {b[i]})) return mc::str("value %zu is %.17g instead of %.17g", i, a[i], b[i]);
  return "";
}
struct Ref { bool have = false, ok = false; V v; };
static std::vector<std::array<Ref, 3>> REF;
static const Ref &alone(int i, int w) {
  Ref &r = REF[i][w];
  if (!r.have) { Sc s{1, {i}, {w}}; auto x = sched::Alone(1, bodyfp, &s); r.have = true; r.ok = x.ending == 0 && x.state[0] == 1; r.v = x.v[0]; if (r.ok) { double fp = r.v.back(); r.v.pop_back(); MC_CHECK(fp == fpnormal, "%s: %s [%d] changes the floating-point environment of later calls (%g instead of %g)", OPS[i].part.c_str(), OPS[i].name.c_str(), w, fp, fpnormal); } mc::Outcome(r.ok ? "operation alone" : "operation without an answer alone"); if (!r.ok && mc::Replaying()) printf("  alone: %s (%s) state %d %s\n", OPS[i].part.c_str(), OPS[i].name.c_str(), x.state[0], x.what.c_str()); }
  return r;
}
static std::string nm(int i, int w) { return mc::str("%s: %s [%d]", OPS[i].part.c_str(), OPS[i].name.c_str(), w); }
static uint64_t total = 0, points = 0;
static void threads(const Sc &s0, int bound, uint64_t cap) {
  if (!mc::Case([&] { std::string d = mc::str("%d threads", s0.n); for (int i = 0; i < s0.n; ++i) d += (i ? " || " : ": ") + nm(s0.op[i], s0.w[i]); return d; })) return;
  Sc s = s0;
  for (int i = 0; i < s.n; ++i) if (!alone(s.op[i], s.w[i]).ok) return;
  sched::Stats st;
  std::string bad, why;
  bool ok = sched::Explore(s.n, body, &s, bound, cap, [&](const sched::Result &r) {
    ++mc::C().checks;
    if (r.ending) { why = r.what; return false; }
    for (int i = 0; i < s.n; ++i) {
      const Ref &a = alone(s.op[i], s.w[i]);
      if (r.state[i] != 1) { why = mc::str("thread %d: an exception", i); return false; }
      if (!near(r.v[i], a.v)) { why = mc::str("thread %d (%s): ", i, nm(s.op[i], s.w[i]).c_str()) + difference(r.v[i], a.v) + " when run alone"; return false; }
    }
    return true;
  }, st, &bad);
  for (uint64_t k = 0; k < st.schedules; ++k) mc::Visit("schedule", s.n, s.op[0], s.op[1], s.w[0], s.w[1], (long long) k);
  mc::C().transitions += st.points;
  mc::C().outcomes["schedules executed"] += st.schedules; mc::C().outcomes["scheduling points"] += st.points; mc::C().outcomes["memory accesses observed"] += st.accesses; mc::C().outcomes["addresses in conflict"] += st.conflicts;
  mc::Outcome(st.conflicts == 0 ? "no shared memory written: one schedule class" : st.capped ? "schedule limit reached" : "all schedules within the preemption bound");
  if (mc::Replaying()) printf("  schedules %llu, points %llu, addresses in conflict %llu%s\n", (unsigned long long) st.schedules, (unsigned long long) st.points, (unsigned long long) st.conflicts, st.capped ? " (limit reached)" : "");
  if (!ok) mc::Fail("%s; %s", why.c_str(), bad.c_str());
}
static void history(int a, int wa, int b, int wb) {
  if (!mc::Case([&] { return "history: " + nm(a, wa) + "; " + nm(b, wb) + "; " + nm(a, wa); })) return;
  if (!alone(a, wa).ok || !alone(b, wb).ok) return;
  Sc s{3, {a, b, a}, {wa, wb, wa}};
  auto x = sched::Alone(1, chain, &s);
  V w = alone(a, wa).v; for (double v : alone(b, wb).v) w.push_back(v); for (double v : alone(a, wa).v) w.push_back(v);
  mc::Visit("history", a, wa, b, wb);
  MC_CHECK(x.ending == 0 && x.state[0] == 1, "no normal end: %s", x.what.c_str());
  MC_CHECK(near(x.v[0], w), "%s", difference(x.v[0], w).c_str());
  mc::Outcome("history of three operations");
}
// every operation of the library, several times, in one process
struct Mar { int n, start, stride, rounds; };
static void marathon_body(int, void *c, Out &o) {
  Mar &m = *(Mar *) c;
  static Out one;
  int k = 0;
  for (int r = 0; r < m.rounds; ++r) for (int i = 0; i < m.n; ++i, ++k) {
    int a = (m.start + i * m.stride) % m.n, w = (r + i / 2) % 3;
    if (!alone(a, w).ok) continue;
    one.n = 0;
    OPS[a].f(w, one);
    V g(one.v, one.v + std::min<unsigned>(one.n, sched::MAXOUT));
    if (!near(g, alone(a, w).v)) { o.put(k); o.put(a); o.put(w); return; }
  }
}
static void marathon(int start, int stride, int rounds) {
  int N = (int) OPS.size();
  if (!mc::Case([&] { return mc::str("history of %d operations: start %d, stride %d", rounds * N, start, stride); })) return;
  for (int i = 0; i < N; ++i) for (int w = 0; w < 3; ++w) alone(i, w);
  Mar m{N, start, stride, rounds};
  auto x = sched::Alone(1, marathon_body, &m);
  mc::Visit("marathon", start, stride, rounds);
  mc::C().transitions += rounds * N;
  MC_CHECK(x.ending == 0 && x.state[0] == 1, "no normal end: %s", x.what.c_str());
  MC_CHECK(x.v[0].empty(), "operation %d of the history, %s, gives another answer than alone", (int) x.v[0][0], nm((int) x.v[0][1], (int) x.v[0][2]).c_str());
  mc::Outcome("long history");
}
struct Nest { int outer, w, in, wi, at; };
static Out *side;
static void nested(int, void *c, Out &o) {
  Nest &n = *(Nest *) c;
  static Out in; in.n = 0;
  static int calls; calls = 0;
  std::function<void()> f = [&] { if (calls++ == n.at) { const std::function<void()> *k = userhook; userhook = nullptr; OPS[n.in].f(n.wi, in); userhook = k; } };
  userhook = &f;
  OPS[n.outer].f(n.w, o);
  userhook = nullptr;
  for (unsigned i = 0; i < in.n && i < sched::MAXOUT; ++i) o.put(in.v[i]);
}
static void nesting(int outer, int w, int in, int wi, int at) {
  if (!mc::Case([&] { return nm(outer, w) + mc::str(" whose user function runs, at call %d, ", at) + nm(in, wi); })) return;
  if (!alone(outer, w).ok || !alone(in, wi).ok) return;
  Nest n{outer, w, in, wi, at};
  auto x = sched::Alone(1, nested, &n);
  V e = alone(outer, w).v;
  mc::Visit("nesting", outer, w, in, wi, at);
  MC_CHECK(x.ending == 0 && x.state[0] == 1, "no normal end: %s", x.what.c_str());
  V got = x.v[0];
  V head(got.begin(), got.begin() + std::min(got.size(), e.size()));
  MC_CHECK(near(head, e), "outer operation: %s", difference(head, e).c_str());
  V tail(got.begin() + head.size(), got.end());
  if (tail.empty()) { mc::Outcome("user function called fewer times"); return; }
  MC_CHECK(near(tail, alone(in, wi).v), "inner operation: %s", difference(tail, alone(in, wi).v).c_str());
  mc::Outcome("nested use");
}
// the user function ends the outer operation with an exception; whatever runs afterwards in the same process answers as alone
static void abandoned(int, void *c, Out &o) {
  Nest &n = *(Nest *) c;
  static int calls; calls = 0;
  static Out dead; dead.n = 0;
  std::function<void()> f = [&] { if (calls++ == n.at) { userhook = nullptr; throw std::runtime_error("user function"); } };
  userhook = &f;
  bool threw = false;
  try { OPS[n.outer].f(n.w, dead); } catch (const std::runtime_error &) { threw = true; }
  userhook = nullptr;
  OPS[n.in].f(n.wi, o);
  o.put(threw);
}
static void abandon(int outer, int w, int in, int wi, int at) {
  if (!mc::Case([&] { return nm(outer, w) + mc::str(" whose user function throws at call %d; then ", at) + nm(in, wi); })) return;
  if (!alone(outer, w).ok || !alone(in, wi).ok) return;
  Nest n{outer, w, in, wi, at};
  auto x = sched::Alone(1, abandoned, &n);
  mc::Visit("abandon", outer, w, in, wi, at);
  MC_CHECK(x.ending == 0 && x.state[0] == 1, "no normal end: %s", x.what.c_str());
  V got = x.v[0]; bool threw = !got.empty() && got.back() != 0; if (!got.empty()) got.pop_back();
  MC_CHECK(near(got, alone(in, wi).v), "after an abandoned operation: %s", difference(got, alone(in, wi).v).c_str());
  mc::Outcome(threw ? "after an abandoned operation" : "user function called fewer times");
}
static void explore() {
  fpnormal = fpstate();
  allops();
  int N = (int) OPS.size();
  REF.resize(N);
  uint64_t big = mc::Tier<uint64_t>(1200, 40000), small = mc::Tier<uint64_t>(250, 4000);
  int pb = mc::Tier(2, 3);
  for (int i = 0; i < N; ++i) for (int j = i; j < N; ++j) {
    bool same = OPS[i].part == OPS[j].part;
    if (OPS[j].part == "bulk" || OPS[i].part == "bulk") { if (i == j) { threads(Sc{2, {i, j}, {0, 1}}, 1, small); threads(Sc{2, {i, j}, {0, 0}}, 1, small); } continue; }
    uint64_t cap = same ? big : small;
    threads(Sc{2, {i, j}, {0, 1}}, pb, cap);
    if (same || mc::Thorough()) { if (i != j) threads(Sc{2, {i, j}, {1, 0}}, pb, cap); threads(Sc{2, {i, j}, {0, 2}}, pb, cap); if (i == j) threads(Sc{2, {i, j}, {1, 2}}, pb, cap); if (i == j) threads(Sc{2, {i, j}, {0, 0}}, pb, cap); }
    if (same && mc::Thorough()) { threads(Sc{3, {i, j, i}, {0, 1, 2}}, 1, cap); threads(Sc{3, {i, j, j}, {0, 1, 0}}, 1, cap); }
  }
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { history(i, 0, j, 1); { history(i, 0, j, 2); history(i, 1, j, 0); history(i, 1, j, 2); } }
  for (int st = 0; st < N; st += mc::Tier(7, 1)) for (int d = 1; d < N; d += mc::Tier(3, 1)) if (std::__gcd(d, N) == 1) marathon(st, d, 3);
  std::vector<int> outer;
  for (int i = 0; i < N; ++i) { auto &o = OPS[i]; if (o.part == "triangle" || (o.part == "integrate1d" && (o.name == "function" || o.name == "points")) || (o.part.compare(0, 6, "series") == 0 && (o.name.compare(0, 7, "compute") == 0 || o.name == "high order"))) outer.push_back(i); }
  for (int i : outer) for (int j = 0; j < N; ++j) for (int at : {0, 1, 4}) { nesting(i, 0, j, 1, at); if (OPS[i].part == OPS[j].part) nesting(i, 0, j, 2, at); abandon(i, 0, j, 1, at); abandon(i, 1, j, 0, at); }
}
MC_MAIN(explore)
