// C04 - 1D lookup table state machine.
//@bounds quick: all operation sequences of length <=3 from the empty and from a populated state (length 4, first operation on table 0 and last one not a mere evaluation, three of the axes, from the populated state for one method pair) over two tables, alphabet of 32 operations: set abscissae (4 axes, two of them with equal size and ends), add series (3 names x 2 data sets, duplicates included), evaluate by name (scalar and vector, 3 names), evaluate all, move-assign, move-construct; three method pairs covering every method on either table; complete observation after every sequence; plus tables with up to 40 series and adversarial names (long common prefixes, letter case, blanks, embedded zero characters), series and tables that differ by 1e-13 to 1e-3 in one entry, real and complex ordinates; every list of points as words over 6 points up to length 4 and over 3 points up to length 7
//@bounds quick: tables of up to 66000 samples and of 300 series; two series with every sequence of 2 and 3 ordinates over {0,1,-2}; float, mixed and long double tables with every sequence of 2 to 4 ordinates
//@bounds thorough: sequences of length <=4 for those pairs and <=3 for all nine method pairs; tables with up to 200 series
//@model std::map from name to (abscissae, ordinates, method); evaluation by linear scan
//@assume series have as many values as abscissae when added (required by the library, asserted)
#include "mc.h"
#include "MathUtils/MathUtils.h"
#include <memory>
#include <map>
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> Z;
static const INTERP_METHOD METH[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
static const V XS[4] = {{0, 1, 3, 4}, {0.5, 2, 6, 6.5}, {0, 2.25, 3, 4}, {-1, 0.5, 6}};   // the third: same size and ends as the first
static const V YS[2] = {{1, -2, 5, 0.25}, {-7, 3, 0.5, 11}};
static const char *NAMES[3] = {"a", "b", "ab"};
static const double QX[4] = {0.75, 1, 2, 3.5};  // inside both axes

template<class Y> static Y interp(const V &x, const std::vector<Y> &y, int m, double q) {
  size_t n = x.size(), k = 0;
  if (m == 2) q = std::min(std::max(q, x[0]), x[n - 1]);
  while (k + 2 < n && q > x[k + 1]) ++k;
  double s = (q - x[k]) / (x[k + 1] - x[k]);
  return y[k] * (1 - s) + y[k + 1] * s;
}
struct Ser { V x, y; int m; };
struct Model {
  bool alive = true;
  int m = 0;
  int ax = -1;                     // current abscissae
  std::map<std::string, Ser> s;
};
typedef LookupTable1D<double, double> LUT;

static void observe(const LUT &t, const Model &M, const char *when) {
  mc::Same(t.GetNbSeries(), (unsigned long) M.s.size(), "%s: number of series", when);
  if (M.ax >= 0) {
    mc::SameV(t.GetX(), XS[M.ax], "%s: abscissae", when);
    mc::Same(t.GetNbSample(), (unsigned long) XS[M.ax].size(), "%s: number of samples", when);
  }
  int unk = 0;
  for (auto name : {"a", "b", "ab", "A"}) {
    auto it = M.s.find(name);
    if (it == M.s.end()) {   // exceptions are slow: one form per unknown name, rotating over the histories
      int form = (unk++ + (int) M.s.size() + M.ax) & 3;
      if (unk > 2) continue;
      if (form == 0) MC_CHECK(mc::Throws([&] { t.Eval(name, 1.); }), "%s: unknown series '%s' evaluated", when, name);
      else if (form == 1) MC_CHECK(mc::Throws([&] { t.Eval(name, V{1., 2.}); }), "%s: unknown series '%s' evaluated (vector)", when, name);
      else if (form == 2) MC_CHECK(mc::Throws([&] { t.GetXmin(name); }), "%s: lower bound of unknown series '%s'", when, name);
      else MC_CHECK(mc::Throws([&] { t.GetXmax(name); }), "%s: upper bound of unknown series '%s'", when, name);
      continue;
    }
    const Ser &s = it->second;
    mc::Same(t.GetXmin(name), s.x.front(), "%s: lower bound of '%s'", when, name);
    mc::Same(t.GetXmax(name), s.x.back(), "%s: upper bound of '%s'", when, name);
    V q = s.x;
    for (double x : QX) q.push_back(x);
    if (s.m) { q.push_back(s.x.front() - 1.25); q.push_back(s.x.back() + 3); }
    auto r = t.Eval(name, q);
    mc::Same(r.size(), q.size(), "%s: vector evaluation size", when);
    for (size_t i = 0; i < q.size(); ++i) {
      mc::Near(t.Eval(name, q[i]), interp(s.x, s.y, s.m, q[i]), 20, 1e-12L, "%s: series '%s' at %g", when, name, q[i]);
      mc::Near(r[i], interp(s.x, s.y, s.m, q[i]), 20, 1e-12L, "%s: series '%s' at %g (vector)", when, name, q[i]);
    }
  }
  if (M.s.size() > 1) for (double x : {1.0, 2.5}) for (auto &e : M.s)     // the same abscissa for one series after the other
    mc::Near(t.Eval(e.first, x), interp(e.second.x, e.second.y, e.second.m, x), 20, 1e-12L, "%s: series '%s' at %g, names in turn", when, e.first.c_str(), x);
  for (double x : {1.0, 2.5, 1.0}) {
    auto all = t.Eval<double, double>(x);
    mc::Same(all.size(), M.s.size(), "%s: evaluate-all size", when);
    for (auto &e : M.s) {
      MC_CHECK(all.count(e.first) == 1, "%s: evaluate-all misses '%s'", when, e.first.c_str());
      mc::Near(all.at(e.first), interp(e.second.x, e.second.y, e.second.m, x), 20, 1e-12L, "%s: evaluate-all '%s' at %g", when, e.first.c_str(), x);
    }
  }
  auto allv = t.Eval<V, V>(V{2.5, 1.0, 2.0});
  mc::Same(allv.size(), M.s.size(), "%s: evaluate-all (vector) size", when);
  for (auto &e : M.s) {
    MC_CHECK(allv.count(e.first) == 1 && allv.at(e.first).size() == 3, "%s: evaluate-all (vector) '%s'", when, e.first.c_str());
    double xs[3] = {2.5, 1.0, 2.0};
    for (int i = 0; i < 3; ++i) mc::Near(allv.at(e.first)[i], interp(e.second.x, e.second.y, e.second.m, xs[i]), 20, 1e-12L, "%s: evaluate-all (vector) '%s'", when, e.first.c_str());
  }
}
static uint64_t key(const Model &M) {
  mc::Hash h;
  h.add(M.alive); h.add(M.m); h.add(M.ax);
  for (auto &e : M.s) { h.add(e.first); h.add(e.second.x); h.add(e.second.y); h.add(e.second.m); }
  return h.h;
}
static const int NOP = 16;
static void run(int m0, int m1, int prefix, const std::vector<int> &ops) {
  mc::Quiet quiet;
  std::unique_ptr<LUT> t[2];
  Model M[2];
  t[0].reset(new LUT(METH[m0])); M[0].m = m0;
  t[1].reset(new LUT(METH[m1])); M[1].m = m1;
  auto apply = [&](int op) {
    int w = op / NOP, k = op % NOP;
    mc::Visit((long long) key(M[0]), (long long) key(M[1]), op);
    if (k < 4) {
      if (!M[w].alive) return;
      if (mc::Replaying()) mc::Op(mc::str("T%d.SetX(axis %d)", w, k));
      t[w]->SetX(XS[k]); M[w].ax = k;
    } else if (k < 10) {
      if (!M[w].alive || M[w].ax < 0) return;
      int nm = (k - 4) / 2, d = (k - 4) % 2;
      V src(YS[d].begin(), YS[d].begin() + XS[M[w].ax].size());
      bool r = t[w]->AddY(NAMES[nm], src);
      if (mc::Replaying()) mc::Op(mc::str("T%d.AddY(%s, data %d) -> %d", w, NAMES[nm], d, r));
      bool want = M[w].s.count(NAMES[nm]) == 0;
      if (want) M[w].s[NAMES[nm]] = Ser{XS[M[w].ax], src, M[w].m};
      mc::Same(r, want, "result of adding series '%s' to table %d", NAMES[nm], w);
      mc::Outcome(want ? "added" : "duplicate refused");
    } else if (k < 13) {
      if (!M[w].alive) return;
      const char *nm = NAMES[k - 10];
      if (mc::Replaying()) mc::Op(mc::str("T%d.Eval(%s)", w, nm));
      auto it = M[w].s.find(nm);
      if (it == M[w].s.end()) { MC_CHECK(mc::Throws([&] { t[w]->Eval(nm, 1.5); }), "unknown series '%s' evaluated", nm); mc::Outcome("unknown refused"); }
      else for (double x : QX) mc::Near(t[w]->Eval(nm, x), interp(it->second.x, it->second.y, it->second.m, x), 20, 1e-12L, "series '%s' at %g", nm, x);
    } else if (k == 13) {
      if (!M[w].alive) return;
      auto all = t[w]->Eval<double, double>(1.5);
      mc::Same(all.size(), M[w].s.size(), "evaluate-all size");
      for (auto &e : M[w].s) mc::Near(all.at(e.first), interp(e.second.x, e.second.y, e.second.m, 1.5), 20, 1e-12L, "evaluate-all");
    } else if (k == 14) {
      if (!M[w].alive || !t[1 - w]) return;
      if (mc::Replaying()) mc::Op(mc::str("T%d = move(T%d)", 1 - w, w));
      *t[1 - w] = std::move(*t[w]);
      M[1 - w] = M[w]; M[w] = Model(); M[w].alive = false;
      mc::Outcome("move-assigned");
    } else {
      if (!M[w].alive) return;
      if (mc::Replaying()) mc::Op(mc::str("T%d constructed from move(T%d)", 1 - w, w));
      t[1 - w].reset(new LUT(std::move(*t[w])));
      M[1 - w] = M[w]; M[w] = Model(); M[w].alive = false;
      mc::Outcome("move-constructed");
    }
  };
  if (prefix) for (int op : {0, 4, 7, NOP + 1, NOP + 6, 1, 8}) apply(op);
  for (int op : ops) apply(op);
  for (int w = 0; w < 2; ++w) if (M[w].alive) observe(*t[w], M[w], "after the history");
  // a series added afterwards still uses the right method and data
  for (int w = 0; w < 2; ++w) if (M[w].alive && M[w].ax >= 0 && M[w].s.size() < 3) for (auto n : NAMES) if (!M[w].s.count(n)) {
    V late = {4, -1, 2, 9};
    late.resize(XS[M[w].ax].size());
    MC_CHECK(t[w]->AddY(n, late), "late series refused");
    M[w].s[n] = Ser{XS[M[w].ax], late, M[w].m};
    late.assign(4, 0.);
    observe(*t[w], M[w], "after a late addition");
    break;
  }
}
template<class Y> static void many(int N, int m, std::vector<std::string> names) {
  mc::Quiet quiet;
  LookupTable1D<double, Y> t(METH[m]);
  V x;
  for (int i = 0; i < 5; ++i) x.push_back(i * i * 0.5 - 1);
  t.SetX(x);
  std::vector<std::vector<Y>> data;
  for (int s = 0; s < N; ++s) {
    std::vector<Y> y;
    for (int i = 0; i < 5; ++i) y.push_back(Y(mc::gen(s * 11 + i)) * (sizeof(Y) > 8 ? Y(std::sqrt(Y(-1.0)) + Y(0.25)) : Y(1)));
    data.push_back(y);
    MC_CHECK(t.AddY(names[s], y), "series %d '%s' refused", s, names[s].c_str());
    mc::Visit("many", N, m, s, (int) sizeof(Y));
    // adding must not disturb any earlier series; a duplicate must not either
    MC_CHECK(!t.AddY(names[s / 2], std::vector<Y>(5, Y(99))), "duplicate '%s' accepted", names[s / 2].c_str());
    mc::Same(t.GetNbSeries(), (unsigned long) (s + 1), "number of series");
    for (int k = 0; k <= s; k += (s - k > 8 ? 3 : 1)) for (double q : {-0.75, 0.25, 3.5, 6.875}) {
      Y w = interp(x, data[k], m, q);
      MC_CHECK(std::abs(t.Eval(names[k], q) - w) < 1e-11, "series '%s' (number %d of %d) at %g", names[k].c_str(), k, s + 1, q);
    }
  }
  auto all = t.template Eval<double, Y>(0.3);
  mc::Same(all.size(), (size_t) N, "evaluate-all size");
  for (int k = 0; k < N; ++k) MC_CHECK(std::abs(all.at(names[k]) - interp(x, data[k], m, 0.3)) < 1e-11, "evaluate-all '%s'", names[k].c_str());
}
// tables and series which differ from each other by little only, in one entry
static void alike(double e, int at, int m) {
  mc::Quiet quiet;
  V xa = {0, 1, 3, 4}, xb = xa, ya = {1, -2, 5, 0.25}, yb = ya;
  if (at < 4) xb[at] += e; else yb[at - 4] += e;
  LUT t(METH[m]), u(METH[m]);
  auto see = [&](LUT &l, const char *n, const V &x, const V &y, const char *when) {
    for (double q : {0.75, 1.0 + 2 * e, 2.5, 3.75, 0.75}) {
      mc::Visit("alike", e, at, m, n, when, q);
      double w = interp(x, y, m, q);
      mc::Near(l.Eval(n, q), w, 1, 1e-14L, "%s: series '%s' at %.17g", when, n, q);
      mc::Near(l.Eval(n, V{q, 2, q})[2], w, 1, 1e-14L, "%s: series '%s' at %.17g (vector)", when, n, q);
      mc::Near(l.Eval<double, double>(q).at(n), w, 1, 1e-14L, "%s: series '%s' at %.17g (all)", when, n, q);
    }
    mc::Same(l.GetXmin(n), x.front(), "%s: lower bound", when); mc::Same(l.GetXmax(n), x.back(), "%s: upper bound", when);
    MC_CHECK(l.Eval(n, V{}).empty(), "%s: evaluation of no abscissae", when);
  };
  t.SetX(xa); t.AddY("a", ya); see(t, "a", xa, ya, "first series");
  t.SetX(xb); mc::SameV(t.GetX(), xb, "abscissae"); t.AddY("b", yb); see(t, "b", xb, yb, "second series"); see(t, "a", xa, ya, "first series again");
  t.SetX(xa); t.AddY("c", yb); see(t, "c", xa, yb, "third series"); see(t, "b", xb, yb, "second series again");
  MC_CHECK(!t.AddY("a", yb), "duplicate accepted"); see(t, "a", xa, ya, "after a duplicate");
  u.SetX(xb); u.AddY("a", yb); see(u, "a", xb, yb, "other table"); see(t, "a", xa, ya, "first table");
  u = std::move(t); see(u, "a", xa, ya, "moved table"); see(u, "b", xb, yb, "moved table");
  mc::Outcome("nearly alike");
}
// series of every sequence of ordinates over {0,1,-2}, two in a table; names empty and not
static void words(const std::vector<int> &o, int n, int m) {
  mc::Quiet quiet;
  static const double val[3] = {0, 1, -2};
  V x, y[2];
  for (int i = 0; i < n; ++i) { x.push_back(i * (i + 1) * 0.5 - 0.5); y[0].push_back(val[o[i]]); y[1].push_back(val[o[n + i]]); }
  LUT t(METH[m]);
  t.SetX(x);
  const char *nm[2] = {"", "a"};
  for (int k = 0; k < 2; ++k) MC_CHECK(t.AddY(nm[k], y[k]), "series '%s' refused", nm[k]);
  mc::Same(t.GetNbSeries(), 2ul, "number of series");
  V q = x; for (int i = 0; i + 1 < n; ++i) q.push_back(x[i] + 0.25 * (x[i + 1] - x[i]));
  if (m) { q.push_back(x[0] - 2); q.push_back(x[n - 1] + 2); }
  mc::Visit("words", n, m, o);
  for (int r = 0; r < 2; ++r) for (int k = 0; k < 2; ++k) {
    auto v = t.Eval(nm[k], q);
    mc::Same(v.size(), q.size(), "vector evaluation size");
    for (size_t i = 0; i < q.size(); ++i) { double w = interp(x, y[k], m, q[i]); mc::Near(t.Eval(nm[k], q[i]), w, 4, 1e-13L, "series '%s' at %g", nm[k], q[i]); mc::Near(v[i], w, 4, 1e-13L, "series '%s' at %g (vector)", nm[k], q[i]); }
    MC_CHECK(!t.AddY(nm[k], y[1 - k]), "duplicate '%s' accepted", nm[k]);
  }
  for (double p : q) { auto a = t.Eval<double, double>(p); mc::Same(a.size(), (size_t) 2, "evaluate-all size"); for (int k = 0; k < 2; ++k) { MC_CHECK(a.count(nm[k]) == 1, "evaluate-all misses '%s'", nm[k]); mc::Near(a.at(nm[k]), interp(x, y[k], m, p), 4, 1e-13L, "evaluate-all '%s' at %g", nm[k], p); } }
  mc::Outcome("words of ordinates");
}
// many samples: queried on a stride and around the wrap-around indices of narrow counters
static void large(int n, int m) {
  mc::Quiet quiet;
  V x, y[2];
  for (int i = 0; i < n; ++i) { x.push_back(i ? x.back() + 0.125 + 0.25 * ((i * 7) % 5) : -20.); y[0].push_back(mc::gen(i % 4001) + 1e-3 * i); y[1].push_back(mc::gen((i + 77) % 4001)); }
  LUT t(METH[m]);
  t.SetX(x);
  for (int k = 0; k < 2; ++k) MC_CHECK(t.AddY(NAMES[k], y[k]), "series refused");
  mc::SameV(t.GetX(), x, "abscissae"); mc::Same(t.GetNbSample(), (unsigned long) n, "number of samples");
  LUT u(std::move(t));
  for (int k = 0; k < 2; ++k) {
    V q, w;
    for (int i = 0; i + 1 < n; ++i) {
      bool b = i < 2 || i + 3 > n || i % 499 == 0;
      for (int c : {127, 255, 256, 4095, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1;
      if (b) for (double f : {0., 0.375, 1.}) { q.push_back(f == 1 ? x[i + 1] : x[i] + f * (x[i + 1] - x[i])); w.push_back(interp(V{x[i], x[i + 1]}, V{y[k][i], y[k][i + 1]}, m, q.back())); }
    }
    auto r = u.Eval(NAMES[k], q);
    auto a = u.Eval<V, V>(q);
    mc::Same(r.size(), q.size(), "vector evaluation size");
    for (size_t i = 0; i < q.size(); ++i) {
      mc::Visit("large", n, m, k, q[i]);
      mc::Near(u.Eval(NAMES[k], q[i]), w[i], 1e6, 1e-13L, "series '%s' of %d samples at %g", NAMES[k], n, q[i]);
      mc::Near(r[i], w[i], 1e6, 1e-13L, "series '%s' of %d samples at %g (vector)", NAMES[k], n, q[i]);
      mc::Near(a.at(NAMES[k])[i], w[i], 1e6, 1e-13L, "series '%s' of %d samples at %g (all)", NAMES[k], n, q[i]);
    }
    mc::Same(u.GetXmin(NAMES[k]), x.front(), "lower bound"); mc::Same(u.GetXmax(NAMES[k]), x.back(), "upper bound");
  }
  mc::Outcome("many samples");
}
// other scalar types: every method, two axes in turn, three series, moves
template<class X, class Y> static void types(int m, int n, const std::vector<int> &o, const char *what) {
  if (!mc::Case([&] { return mc::str("types %s method %d ", what, m) + mc::vstr(o); })) return;
  mc::Quiet quiet;
  static const double val[3] = {0.5, 3, -2};
  std::vector<X> xa, xb; std::vector<Y> ya, yb;
  for (int i = 0; i < n; ++i) { xa.push_back(X(i * (i + 1) * 0.5 - 0.5)); xb.push_back(X(i * 0.75 - 1)); ya.push_back(Y(val[o[i]])); yb.push_back(Y(val[o[n - 1 - i]] * 2 + i)); }
  LookupTable1D<X, Y> t(METH[m]);
  auto see = [&](const LookupTable1D<X, Y> &l, const char *nm, const std::vector<X> &x, const std::vector<Y> &y) {
    std::vector<X> q = x; for (int i = 0; i + 1 < n; ++i) q.push_back(X(0.75) * x[i] + X(0.25) * x[i + 1]);
    if (m) { q.push_back(x[0] - 1); q.push_back(x[n - 1] + 2); }
    auto r = l.Eval(nm, q); mc::Same(r.size(), q.size(), "vector evaluation size");
    for (size_t i = 0; i < q.size(); ++i) {
      mc::Visit("types", what, m, nm, o, (double) q[i]);
      V xd(x.begin(), x.end()), yd(y.begin(), y.end());
      double w = interp(xd, yd, m, (double) q[i]);
      mc::Near(l.Eval(nm, q[i]), w, 20, 1e-6L, "%s series '%s' at %g", what, nm, (double) q[i]);
      mc::Near(r[i], w, 20, 1e-6L, "%s series '%s' at %g (vector)", what, nm, (double) q[i]);
    }
    mc::Same((double) l.GetXmin(nm), (double) x.front(), "lower bound"); mc::Same((double) l.GetXmax(nm), (double) x.back(), "upper bound");
  };
  t.SetX(xa); MC_CHECK(t.AddY("a", ya), "series refused"); see(t, "a", xa, ya);
  MC_CHECK(!t.AddY("a", yb), "duplicate accepted");
  t.SetX(xb); MC_CHECK(t.AddY("b", yb), "series refused"); MC_CHECK(t.GetX() == xb, "abscissae"); see(t, "a", xa, ya); see(t, "b", xb, yb);
  MC_CHECK(mc::Throws([&] { t.Eval("c", X(0)); }), "unknown series evaluated");
  LookupTable1D<X, Y> u(std::move(t)); see(u, "a", xa, ya); see(u, "b", xb, yb);
  LookupTable1D<X, Y> v(METH[(m + 1) % 3]); v = std::move(u); see(v, "b", xb, yb);
  MC_CHECK(v.AddY("c", ya), "series refused"); see(v, "c", xb, ya); mc::Same(v.GetNbSeries(), 3ul, "number of series");
  auto all = v.template Eval<X, Y>(X(-0.375)); mc::Same(all.size(), (size_t) 3, "evaluate-all size");
  mc::Near(all.at("b"), v.Eval("b", X(-0.375)), 20, 1e-6L, "evaluate-all");
  mc::Outcome("other scalar types");
}
// a history containing an operation that is not enabled equals a shorter one: skipped
static bool enabled(int prefix, const std::vector<int> &ops) {
  bool alive[2] = {true, true}, ax[2] = {prefix == 1, prefix == 1};
  for (int op : ops) {
    int w = op / NOP, k = op % NOP;
    if (!alive[w]) return false;
    if (k < 4) ax[w] = true;
    else if (k < 10) { if (!ax[w]) return false; }
    else if (k >= 14) { alive[1 - w] = true; ax[1 - w] = ax[w]; alive[w] = false; }
  }
  return true;
}
static void explore() {
  for (int m = 0; m < 3; ++m) for (int n = 2; n <= mc::Tier(4, 6); ++n) for (mc::Odo o(mc::rep(3, n)); o; ++o) {
    types<float, float>(m, n, o.v, "float"); types<double, float>(m, n, o.v, "double to float"); types<float, double>(m, n, o.v, "float to double"); types<long double, long double>(m, n, o.v, "long double");
  }
  for (int m0 = 0; m0 < 3; ++m0) for (int m1 = 0; m1 < 3; ++m1) for (int prefix = 0; prefix < 2; ++prefix) {
    if (!mc::Thorough() && m1 != (m0 + 1) % 3) continue;
    int depth = mc::Tier(prefix && m0 == 1 ? 4 : 3, m1 == (m0 + 1) % 3 ? 4 : 3);
    for (int n = 0; n <= depth; ++n)
      for (mc::Odo o(mc::rep(2 * NOP, n)); o; ++o) {
        if (n == 4 && !mc::Thorough() && (o[0] >= NOP || (o[3] % NOP >= 10 && o[3] % NOP < 14) || o[0] % NOP == 3 || o[1] % NOP == 3 || o[2] % NOP == 3 || o[3] % NOP == 3)) continue;
        if (!enabled(prefix, o.v)) continue;
        if (!mc::Case([&] { return mc::str("methods=%d,%d prefix=%d ops=", m0, m1, prefix) + mc::vstr(o.v); })) continue;
        run(m0, m1, prefix, o.v);
      }
  }
  for (int n = 2; n <= mc::Tier(3, 4); ++n) for (int m = 0; m < 3; ++m) for (mc::Odo o(mc::rep(3, 2 * n)); o; ++o) {
    if (!mc::Case([&] { return mc::str("words of ordinates n=%d method %d: ", n, m) + mc::vstr(o.v); })) continue;
    words(o.v, n, m);
  }
  // every list of abscissae: all words over 6 up to length 4, over 3 up to length 7
  for (int m = 0; m < 3; ++m) {
    const V X = {0, 1, 3, 4.5, 8}, Y[2] = {{1.5, -2, 4, 0.25, 7}, {3, 9, -1, 2, 2.5}}, P = {0.25, 3.5, 0.75, 0, 8, 3};
    LookupTable1D<double, double> t(METH[m]); t.SetX(X); t.AddY("a", Y[0]); t.AddY("b", Y[1]);
    for (int pass = 0; pass < 2; ++pass) for (int n = 1; n <= (pass ? mc::Tier(7, 9) : mc::Tier(4, 5)); ++n) for (mc::Odo o(mc::rep(pass ? 3 : 6, n)); o; ++o) {
      if (!mc::Case([&] { return mc::str("list of abscissae, method %d, pass %d: ", m, pass) + mc::vstr(o.v); })) continue;
      V q; for (int i = 0; i < n; ++i) q.push_back(P[o[i]]);
      mc::Visit("list", m, pass, o.v);
      for (int k = 0; k < 2; ++k) {
        auto r = t.Eval(k ? "b" : "a", q);
        mc::Same(r.size(), q.size(), "list size");
        for (int i = 0; i < n; ++i) { int s = 0; while (s < 3 && q[i] > X[s + 1]) ++s; double u = (q[i] - X[s]) / (X[s + 1] - X[s]); mc::Near(r[i], (mc::LD) (Y[k][s] * (1 - u) + Y[k][s + 1] * u), 100, 1e-13L, "series %d, entry %d", k, i); }
      }
      mc::Outcome("list of abscissae");
    }
  }
  for (int n : {17, 300, 4097, 33000, 66000}) for (int m = 0; m < 3; ++m) {
    if (!mc::Case([&] { return mc::str("%d samples, method %d", n, m); })) continue;
    large(n, m);
  }
  for (int m = 0; m < 3; m += 2) {
    if (!mc::Case([&] { return mc::str("300 series, method %d", m); })) continue;
    std::vector<std::string> names; for (int i = 0; i < 300; ++i) names.push_back(mc::str("%d", i * i));
    many<double>(300, m, names);
  }
  for (double e : {1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3}) for (int at = 0; at < 8; ++at) for (int m = 0; m < 3; ++m) {
    if (!mc::Case([&] { return mc::str("nearly alike tables and series: %g at entry %d, method %d", e, at, m); })) continue;
    alike(e, at, m);
  }
  for (int m = 0; m < 3; ++m) for (int N = 1; N <= mc::Tier(40, 200); N = N < 20 ? N + 1 : N + 10) for (int style = 0; style < 6; ++style) {
    if (style >= 3 && N > 20) continue;
    if (!mc::Case([&] { return mc::str("many series N=%d method=%d name style %d", N, m, style); })) continue;
    std::vector<std::string> names;
    for (int i = 0; i < N; ++i) names.push_back(style == 3 ? std::string(70, 'p') + (char) ('a' + i) : style == 4 ? std::string(1 + i / 2, i % 2 ? 'K' : 'k') : style == 5 ? std::string("n\0", 2) + mc::str("%d", i) : style == 0 ? mc::str("s%d", i) : style == 1 ? std::string(i, 'x') : (i % 2 ? mc::str(" n%d", i / 2) : mc::str("n%d ", i / 2)));
    many<double>(N, m, names);
    many<Z>(N, m, names);
    mc::Outcome("many series");
  }
}
MC_MAIN(explore)
