// C05 - 2D lookup table state machine.
//@bounds quick: all operation sequences of length <=3 from the empty and 4 (first operation on table 0, last one not a mere evaluation) from a populated state over two tables, alphabet of 33 operations: set x/y axis (3 each, two of them with equal size and ends), set method (supported / unsupported), add series (2 names; 2 well-sized data sets, 1 too small), evaluate by name, exchange of the two tables; complete observation after every sequence; plus tables with up to 30 series, adversarial names (long common prefixes, letter case, blanks, embedded zero characters), surfaces and axes that differ by 1e-13 to 1e-3 in one entry; float and long double tables with every word of values 2x2, 3x2 and 2x3; every list of points as words over 6 points up to length 4 and over 3 points up to length 7
//@bounds quick: two surfaces with every word of values over {0,1,-2} on 2x2, 3x2 and 2x3
//@bounds quick: tables of 300x300, 260x5, 33000x3, 66000x2 nodes and their transposes
//@bounds thorough: sequences of length <=4; up to 120 series
//@model std::map from name to (axes, data); bilinear evaluation by linear scan; a failed addition changes nothing
//@assume axes set before adding; data with at least (number of x) x (number of y) values is accepted, less is refused with an exception
#include "mc.h"
#include "MathUtils/MathUtils.h"
#include <map>
using namespace mathutils;
typedef std::vector<double> V;
typedef LookupTable2d<double> LUT;
static const V XS[3] = {{0, 1, 4}, {-1, 2, 3, 5}, {0, 3, 4}}, YS[3] = {{0, 2}, {-0.5, 1, 2.5}, {-0.5, 1.75, 2.5}};   // the third ones: same size and ends as another
static const char *NAMES[2] = {"p", "q"};
struct Ser { V x, y, d; };
struct Model { bool alive = true; int ix = -1, iy = -1; bool ok = true; std::map<std::string, Ser> s; };
static double val2(const Ser &t, double x, double y) {
  size_t i = 0, j = 0, ny = t.y.size();
  while (i + 2 < t.x.size() && x > t.x[i + 1]) ++i;
  while (j + 2 < ny && y > t.y[j + 1]) ++j;
  double u = (x - t.x[i]) / (t.x[i + 1] - t.x[i]), v = (y - t.y[j]) / (t.y[j + 1] - t.y[j]);
  return (1 - u) * ((1 - v) * t.d[i * ny + j] + v * t.d[i * ny + j + 1]) + u * ((1 - v) * t.d[(i + 1) * ny + j] + v * t.d[(i + 1) * ny + j + 1]);
}
static V data(size_t n, int which) { V d; for (size_t i = 0; i < n; ++i) d.push_back(mc::gen((int) i + 100 * which)); return d; }
static void observe(const LUT &t, const Model &M, const char *when) {
  mc::Same(t.GetNbSeries(), (unsigned long) M.s.size(), "%s: number of series", when);
  if (M.ix >= 0) mc::SameV(t.GetX(), XS[M.ix], "%s: x axis", when);
  if (M.iy >= 0) mc::SameV(t.GetY(), YS[M.iy], "%s: y axis", when);
  if (M.ix >= 0 && M.iy >= 0) mc::Same(t.GetNbSample(), (unsigned long) (XS[M.ix].size() * YS[M.iy].size()), "%s: number of samples", when);
  int unk = 0;
  for (auto name : {"p", "q", "", "pq"}) {
    auto it = M.s.find(name);
    mc::Same(t.HasSerie(name), it != M.s.end(), "%s: presence of '%s'", when, name);
    if (it == M.s.end()) {   // exceptions are slow: one form per unknown name, rotating over the histories
      int form = (unk++ + (int) M.s.size() + M.ix) % 3;
      if (unk > 1) continue;
      if (form == 0) MC_CHECK(mc::Throws([&] { t.Eval(name, 1., 1.); }), "%s: unknown series '%s' evaluated", when, name);
      else if (form == 1) MC_CHECK(mc::Throws([&] { t.Eval(name, std::vector<V>{{1., 1.}}); }), "%s: unknown series '%s' evaluated (list)", when, name);
      else MC_CHECK(mc::Throws([&] { t.Eval(name, V{1., 1.}); }), "%s: unknown series '%s' evaluated (vector)", when, name);
      continue;
    }
    const Ser &s = it->second;
    std::vector<V> pts;
    for (double x : s.x) for (double y : s.y) pts.push_back({x, y});
    for (size_t i = 1; i < s.x.size(); ++i) for (size_t j = 1; j < s.y.size(); ++j) pts.push_back({0.25 * s.x[i] + 0.75 * s.x[i - 1], 0.5 * (s.y[j] + s.y[j - 1])});
    auto r = t.Eval(name, pts);
    mc::Same(r.size(), pts.size(), "%s: list evaluation size", when);
    for (size_t i = 0; i < pts.size(); ++i) {
      double w = val2(s, pts[i][0], pts[i][1]);
      mc::Near(t.Eval(name, pts[i][0], pts[i][1]), w, 20, 1e-12L, "%s: series '%s' at (%g,%g)", when, name, pts[i][0], pts[i][1]);
      mc::Near(t.Eval(name, pts[i]), w, 20, 1e-12L, "%s: series '%s' at (%g,%g) given as a vector", when, name, pts[i][0], pts[i][1]);
      mc::Near(r[i], w, 20, 1e-12L, "%s: series '%s' at (%g,%g) in a list", when, name, pts[i][0], pts[i][1]);
    }
  }
}
static uint64_t key(const Model &M) {
  mc::Hash h;
  h.add(M.alive); h.add(M.ix); h.add(M.iy); h.add(M.ok);
  for (auto &e : M.s) { h.add(e.first); h.add(e.second.x); h.add(e.second.y); h.add(e.second.d); }
  return h.h;
}
static const int NOP = 17;
static void run(int prefix, const std::vector<int> &ops) {
  mc::Quiet quiet;
  std::unique_ptr<LUT> t[2] = {std::unique_ptr<LUT>(new LUT), std::unique_ptr<LUT>(new LUT)};
  Model M[2];
  auto apply = [&](int op) {
    int w = op / NOP, k = op % NOP;
    Model &m = M[w];
    mc::Visit((long long) key(M[0]), (long long) key(M[1]), op);
    if (!m.alive) return;
    if (k < 3) { if (mc::Replaying()) mc::Op(mc::str("T%d.SetX(%d)", w, k)); t[w]->SetX(XS[k]); m.ix = k; }
    else if (k < 6) { if (mc::Replaying()) mc::Op(mc::str("T%d.SetY(%d)", w, k - 3)); t[w]->SetY(YS[k - 3]); m.iy = k - 3; }
    else if (k < 8) { if (mc::Replaying()) mc::Op(mc::str("T%d.SetInterpolationMethod(%s)", w, k == 6 ? "LINEAR" : "BSPLINE")); t[w]->SetInterpolationMethod(k == 6 ? LINEAR : BSPLINE); m.ok = k == 6; }
    else if (k < 14) {
      if (m.ix < 0 || m.iy < 0) return;
      int nm = (k - 8) / 3, d = (k - 8) % 3;
      size_t need = XS[m.ix].size() * YS[m.iy].size();
      V src = d < 2 ? data(need, d) : data(need - 1, 2);
      bool dup = m.s.count(NAMES[nm]), bad = !dup && (d == 2 || !m.ok);
      bool threw = false, r = false;
      try { r = t[w]->AddData(NAMES[nm], src); } catch (...) { threw = true; }
      if (mc::Replaying()) mc::Op(mc::str("T%d.AddData(%s, data %d)%s -> %d%s", w, NAMES[nm], d, d == 2 ? " (too small)" : "", r, threw ? " threw" : ""));
      if (bad) { MC_CHECK(threw, "table %d: inadmissible addition of '%s' did not throw", w, NAMES[nm]); mc::Outcome("failed addition"); }
      else {
        MC_CHECK(!threw, "table %d: adding '%s' threw", w, NAMES[nm]);
        mc::Same(r, !dup, "result of adding '%s' to table %d", NAMES[nm], w);
        mc::Outcome(dup ? "duplicate refused" : "added");
        if (!dup) m.s[NAMES[nm]] = Ser{XS[m.ix], YS[m.iy], src};
      }
    } else if (k < 16) {
      const char *nm = NAMES[k - 14];
      if (mc::Replaying()) mc::Op(mc::str("T%d.Eval(%s,1.5,1.25)", w, nm));
      auto it = m.s.find(nm);
      if (it == m.s.end()) { MC_CHECK(mc::Throws([&] { t[w]->Eval(nm, 1.5, 1.25); }), "unknown series '%s' evaluated", nm); mc::Outcome("unknown refused"); }
      else mc::Near(t[w]->Eval(nm, 1.5, 1.25), val2(it->second, 1.5, 1.25), 20, 1e-12L, "series '%s'", nm);
    } else {
      // take the value elsewhere: swap the two tables (the class has no usable copy)
      if (mc::Replaying()) mc::Op("swap(T0, T1)");
      t[0].swap(t[1]);
      std::swap(M[0], M[1]);
    }
  };
  if (prefix) for (int op : {0, 3, 8, NOP + 1, NOP + 4, NOP + 9, 1, 12}) apply(op);
  for (int op : ops) apply(op);
  for (int w = 0; w < 2; ++w) if (M[w].alive) observe(*t[w], M[w], "after the history");
  for (int w = 0; w < 2; ++w) if (M[w].ok && M[w].ix >= 0 && M[w].iy >= 0) for (auto n : {"p", "q", "pq"}) if (!M[w].s.count(n)) {
    V late = data(XS[M[w].ix].size() * YS[M[w].iy].size(), 7);
    MC_CHECK(t[w]->AddData(n, late), "late series refused");
    M[w].s[n] = Ser{XS[M[w].ix], YS[M[w].iy], late};
    observe(*t[w], M[w], "after a late addition");
    break;
  }
}
// surfaces and axes which differ from each other by little only, in one entry
static void alike(double e, int at) {
  mc::Quiet quiet;
  Ser A{{0, 1, 4}, {-0.5, 1}, {1, -2, 5, 0.25, 3, -1}}, B = A;
  if (at < 3) B.x[at] += e; else if (at < 5) B.y[at - 3] += e; else B.d[at - 5] += e;
  LUT t, u;
  auto see = [&](const LUT &l, const char *n, const Ser &s, const char *when) {
    std::vector<V> pts = {{0.75, 0.25}, {1 + 2 * e, 0.5}, {3.5, 0.75}, {0.75, 0.25}};
    auto r = l.Eval(n, pts);
    mc::Same(r.size(), pts.size(), "%s: list size", when);
    for (size_t i = 0; i < pts.size(); ++i) {
      mc::Visit("alike", e, at, n, when, pts[i]);
      double w = val2(s, pts[i][0], pts[i][1]);
      mc::Near(l.Eval(n, pts[i][0], pts[i][1]), w, 1, 1e-14L, "%s: series '%s' at point %zu", when, n, i);
      mc::Near(l.Eval(n, pts[i]), w, 1, 1e-14L, "%s: series '%s' at point %zu (vector)", when, n, i);
      mc::Near(r[i], w, 1, 1e-14L, "%s: series '%s' at point %zu (list)", when, n, i);
    }
    MC_CHECK(l.Eval(n, std::vector<V>{}).empty(), "%s: empty list", when);
  };
  auto set = [](LUT &l, const Ser &s) { l.SetX(s.x); l.SetY(s.y); mc::SameV(l.GetX(), s.x, "x axis"); mc::SameV(l.GetY(), s.y, "y axis"); };
  set(t, A); t.AddData("a", A.d); see(t, "a", A, "first series");
  set(t, B); t.AddData("b", B.d); see(t, "b", B, "second series"); see(t, "a", A, "first series again");
  set(t, A); t.AddData("c", B.d); Ser Cc{A.x, A.y, B.d}; see(t, "c", Cc, "third series"); see(t, "b", B, "second series again");
  MC_CHECK(!t.AddData("a", B.d), "duplicate accepted"); see(t, "a", A, "after a duplicate");
  set(u, B); u.AddData("a", B.d); see(u, "a", B, "other table"); see(t, "a", A, "first table");
  mc::Outcome("nearly alike");
}
// surfaces of every word of values over {0,1,-2}, two in a table; names empty and not
static void words(const std::vector<int> &o, int nx, int ny) {
  mc::Quiet quiet;
  static const double val[3] = {0, 1, -2};
  Ser S[2];
  int n = nx * ny;
  for (int k = 0; k < 2; ++k) { for (int i = 0; i < nx; ++i) S[k].x.push_back(i * 1.5 - 0.5); for (int i = 0; i < ny; ++i) S[k].y.push_back(i * (i + 1) * 0.5 + 2); for (int i = 0; i < n; ++i) S[k].d.push_back(val[k ? (o[n - 1 - i] + (n == 4 ? o[4] : 0)) % 3 : o[i]]); }
  LUT t;
  t.SetX(S[0].x); t.SetY(S[0].y);
  const char *nm[2] = {"", "a"};
  mc::Visit("words", nx, ny, o);
  for (int k = 0; k < 2; ++k) { MC_CHECK(!t.HasSerie(nm[k]), "series '%s' present before its addition", nm[k]); MC_CHECK(t.AddData(nm[k], S[k].d), "series '%s' refused", nm[k]); }
  mc::Same(t.GetNbSeries(), 2ul, "number of series");
  for (int k = 0; k < 2; ++k) {
    MC_CHECK(t.HasSerie(nm[k]), "series '%s' missing", nm[k]);
    MC_CHECK(!t.AddData(nm[k], S[1 - k].d), "duplicate '%s' accepted", nm[k]);
    for (double fx : {0., 0.25, 1.}) for (double fy : {0., 0.75, 1.}) for (int i = 0; i + 1 < nx; ++i) for (int j = 0; j + 1 < ny; ++j) {
      double x = S[k].x[i] + fx * 1.5, y = S[k].y[j] + fy * (S[k].y[j + 1] - S[k].y[j]);
      mc::Near(t.Eval(nm[k], x, y), val2(S[k], x, y), 4, 1e-13L, "series '%s' at %g,%g", nm[k], x, y);
      mc::Near(t.Eval(nm[k], std::vector<V>{{x, y}})[0], val2(S[k], x, y), 4, 1e-13L, "series '%s' at %g,%g (list)", nm[k], x, y);
    }
  }
  mc::Outcome("words of values");
}
// large surfaces, queried on a stride and around the wrap-around indices of narrow counters
static void large(int nx, int ny) {
  mc::Quiet quiet;
  Ser A, B;
  for (int i = 0; i < nx; ++i) A.x.push_back(i ? A.x.back() + 0.25 + 0.5 * ((i * 5) % 3) : -3.);
  for (int i = 0; i < ny; ++i) A.y.push_back(i ? A.y.back() + 0.125 + 0.25 * ((i * 7) % 4) : 10.);
  B = A;
  for (long i = 0; i < (long) nx * ny; ++i) { A.d.push_back(mc::gen((int) (i % 4001)) + 1e-3 * i); B.d.push_back(mc::gen((int) ((i + 91) % 4001))); }
  LUT t;
  t.SetX(A.x); t.SetY(A.y);
  MC_CHECK(t.AddData("a", A.d) && t.AddData("b", B.d), "series refused");
  MC_CHECK(mc::Throws([&] { t.AddData("c", V(A.d.begin(), A.d.end() - 1)); }), "too small data accepted");
  auto pick = [](int n) { std::vector<int> k; for (int i = 0; i + 1 < n; ++i) { bool b = i < 2 || i + 3 > n || i % std::max(1, n / 25) == 0; for (int c : {127, 255, 256, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1; if (b) k.push_back(i); } return k; };
  std::vector<V> pts; V wa, wb;
  for (int i : pick(nx)) for (int j : pick(ny)) for (int f = 0; f < 2; ++f) {
    double x = f ? A.x[i + 1] : 0.375 * A.x[i] + 0.625 * A.x[i + 1], y = f ? A.y[j] : 0.75 * A.y[j] + 0.25 * A.y[j + 1];
    for (auto *s : {&A, &B}) { Ser c{{s->x[i], s->x[i + 1]}, {s->y[j], s->y[j + 1]}, {}}; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) c.d.push_back(s->d[(size_t) (i + a) * ny + j + b]); (s == &A ? wa : wb).push_back(val2(c, x, y)); }
    pts.push_back({x, y});
  }
  auto ra = t.Eval("a", pts), rb = t.Eval("b", pts);
  mc::Same(ra.size(), pts.size(), "list size");
  for (size_t i = 0; i < pts.size(); ++i) {
    mc::Visit("large", nx, ny, pts[i]);
    mc::Near(t.Eval("a", pts[i][0], pts[i][1]), wa[i], 1e6, 1e-13L, "series 'a' of a large table at %g,%g", pts[i][0], pts[i][1]);
    mc::Near(t.Eval("b", pts[i]), wb[i], 1e6, 1e-13L, "series 'b' of a large table at %g,%g", pts[i][0], pts[i][1]);
    mc::Near(ra[i], wa[i], 1e6, 1e-13L, "list values of 'a' in a large table at %g,%g", pts[i][0], pts[i][1]);
    mc::Near(rb[i], wb[i], 1e6, 1e-13L, "list values of 'b' in a large table at %g,%g", pts[i][0], pts[i][1]);
  }
  mc::Outcome("large table");
}
// other scalar types
template<class R> static void types(const std::vector<int> &o, int nx, int ny, const char *what) {
  if (!mc::Case([&] { return mc::str("types %s %dx%d ", what, nx, ny) + mc::vstr(o); })) return;
  mc::Quiet quiet;
  static const double val[3] = {0.5, 3, -2};
  Ser A, B;
  for (int i = 0; i < nx; ++i) { A.x.push_back(i * 1.5 - 0.5); B.x.push_back(i * (i + 1) * 0.25 - 1); }
  for (int i = 0; i < ny; ++i) { A.y.push_back(i * (i + 1) * 0.5 + 2); B.y.push_back(i * 0.75); }
  for (int i = 0; i < nx * ny; ++i) { A.d.push_back(val[o[i]]); B.d.push_back(val[o[nx * ny - 1 - i]] + i); }
  typedef std::vector<R> W; auto cv = [](const V &v) { return W(v.begin(), v.end()); };
  LookupTable2d<R> t;
  auto see = [&](const char *nm, const Ser &s) {
    std::vector<W> pts; V w;
    for (int i = 0; i + 1 < nx; ++i) for (int j = 0; j + 1 < ny; ++j) for (double fx : {0., 0.25, 1.}) for (double fy : {0., 0.75, 1.}) {
      double x = fx == 1 ? s.x[i + 1] : s.x[i] + fx * (s.x[i + 1] - s.x[i]), y = fy == 1 ? s.y[j + 1] : s.y[j] + fy * (s.y[j + 1] - s.y[j]);
      mc::Visit("types", what, nm, nx, ny, o, x, y);
      pts.push_back(W{(R) x, (R) y}); w.push_back(val2(s, x, y));
      mc::Near(t.Eval(nm, (R) x, (R) y), w.back(), 20, 1e-6L, "%s series '%s' at %g,%g", what, nm, x, y);
      mc::Near(t.Eval(nm, pts.back()), w.back(), 20, 1e-6L, "%s series '%s' at %g,%g (vector)", what, nm, x, y);
    }
    auto r = t.Eval(nm, pts); mc::Same(r.size(), pts.size(), "list size");
    for (size_t i = 0; i < w.size(); ++i) mc::Near(r[i], w[i], 20, 1e-6L, "%s series '%s', list entry %zu", what, nm, i);
  };
  t.SetX(cv(A.x)); t.SetY(cv(A.y)); mc::Same(t.GetNbSample(), (unsigned long) (nx * ny), "number of samples");
  MC_CHECK(t.AddData("a", cv(A.d)) && !t.AddData("a", cv(B.d)), "additions"); see("a", A);
  MC_CHECK(mc::Throws([&] { t.AddData("c", W(nx * ny - 1, R(1))); }) && !t.HasSerie("c"), "too small data accepted");
  t.SetX(cv(B.x)); t.SetY(cv(B.y)); MC_CHECK(t.GetX() == cv(B.x) && t.GetY() == cv(B.y), "axes");
  MC_CHECK(t.AddData("b", cv(B.d)), "addition"); see("a", A); see("b", B);
  MC_CHECK(mc::Throws([&] { t.Eval("c", R(0), R(0)); }), "unknown series evaluated"); mc::Same(t.GetNbSeries(), 2ul, "number of series");
  mc::Outcome("other scalar types");
}
// a history containing an operation that is not enabled equals a shorter one: skipped
static bool enabled(int prefix, const std::vector<int> &ops) {
  bool x[2] = {prefix == 1, prefix == 1}, y[2] = {prefix == 1, prefix == 1};
  for (int op : ops) {
    int w = op / NOP, k = op % NOP;
    if (k < 3) x[w] = true;
    else if (k < 6) y[w] = true;
    else if (k >= 8 && k < 14) { if (!x[w] || !y[w]) return false; }
    else if (k == 16) { if (w) return false; std::swap(x[0], x[1]); std::swap(y[0], y[1]); }
  }
  return true;
}
static void explore() {
  for (int sh = 0; sh < 3; ++sh) { int nx = sh == 1 ? 3 : 2, ny = sh == 2 ? 3 : 2; for (mc::Odo o(mc::rep(3, nx * ny)); o; ++o) { types<float>(o.v, nx, ny, "float"); types<long double>(o.v, nx, ny, "long double"); } }
  for (int prefix = 0; prefix < 2; ++prefix)
    for (int n = 0; n <= mc::Tier(prefix ? 4 : 3, 4); ++n)
      for (mc::Odo o(mc::rep(2 * NOP, n)); o; ++o) {
        if (n == 4 && !mc::Thorough() && (o[0] >= NOP || o[3] % NOP == 14 || o[3] % NOP == 15)) continue;
        if (!enabled(prefix, o.v)) continue;
        if (!mc::Case([&] { return mc::str("prefix=%d ops=", prefix) + mc::vstr(o.v); })) continue;
        run(prefix, o.v);
      }
  for (int sh = 0; sh < 3; ++sh) { int nx = sh == 1 ? 3 : 2, ny = sh == 2 ? 3 : 2; for (mc::Odo o(mc::rep(3, nx * ny + (sh == 0))); o; ++o) {
    if (!mc::Case([&] { return mc::str("words of values %dx%d: ", nx, ny) + mc::vstr(o.v); })) continue;
    words(o.v, nx, ny);
  } }
  for (auto sh : std::vector<std::pair<int, int>>{{300, 300}, {260, 5}, {5, 260}, {33000, 3}, {3, 33000}, {66000, 2}, {2, 66000}}) {
    if (!mc::Case([&] { return mc::str("large table %d x %d", sh.first, sh.second); })) continue;
    large(sh.first, sh.second);
  }
  for (double e : {1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3}) for (int at = 0; at < 11; ++at) {
    if (!mc::Case([&] { return mc::str("nearly alike surfaces: %g at entry %d", e, at); })) continue;
    alike(e, at);
  }
  for (int style = 0; style < 4; ++style) for (int N : {2, 5, 16}) {
    if (!mc::Case([&] { return mc::str("names style %d, %d series", style, N); })) continue;
    mc::Quiet quiet;
    LUT t;
    V x = {0, 0.5, 2}, y = {-1, 1};
    t.SetX(x); t.SetY(y);
    auto nm = [&](int i) { return style == 0 ? std::string(70, 'p') + (char) ('a' + i) : style == 1 ? std::string(1 + i / 2, i % 2 ? 'K' : 'k') : style == 2 ? std::string("n\0", 2) + mc::str("%d", i) : i % 2 ? mc::str(" n%d", i / 2) : mc::str("n%d ", i / 2); };
    for (int i = 0; i < N; ++i) { mc::Visit("names", style, N, i); MC_CHECK(!t.HasSerie(nm(i)), "series %d present before its addition", i); MC_CHECK(t.AddData(nm(i), data(6, i)), "series %d refused", i); }
    for (int r = 0; r < 2; ++r) for (int i = 0; i < N; ++i) mc::Near(t.Eval(nm(i), 0.25, 0.5), val2(Ser{x, y, data(6, i)}, 0.25, 0.5), 20, 1e-12L, "series %d", i);
    mc::Outcome("names");
  }
  // every list of points: all words over 6 points up to length 4, over 3 points up to length 7
  {
    mc::Quiet quiet;
    LUT t; V x = {0, 0.5, 2}, y = {-1, 1, 1.5, 4}; t.SetX(x); t.SetY(y);
    Ser s[2] = {{x, y, data(12, 0)}, {x, y, data(12, 1)}};
    t.AddData("a", s[0].d); t.AddData("b", s[1].d);
    const std::vector<V> P = {{0.25, 0.5}, {0.25, 0.75}, {1.75, 0.5}, {0, -1}, {2, 4}, {0.5, 1.5}};
    for (int pass = 0; pass < 2; ++pass) for (int n = 1; n <= (pass ? mc::Tier(7, 9) : mc::Tier(4, 5)); ++n) for (mc::Odo o(mc::rep(pass ? 3 : 6, n)); o; ++o) {
      if (!mc::Case([&] { return mc::str("list of points, pass %d: ", pass) + mc::vstr(o.v); })) continue;
      std::vector<V> q; for (int i = 0; i < n; ++i) q.push_back(P[o[i]]);
      mc::Visit("points", pass, o.v);
      for (int k = 0; k < 2; ++k) {
        auto r = t.Eval(k ? "b" : "a", q);
        mc::Same(r.size(), q.size(), "size of the list of values");
        for (int i = 0; i < n; ++i) mc::Near(r[i], val2(s[k], q[i][0], q[i][1]), 20, 1e-12L, "series %d, entry %d", k, i);
      }
      mc::Outcome("list of points");
    }
  }
  for (int N = 1; N <= mc::Tier(30, 120); ++N) for (int failing = 0; failing < 3; ++failing) {
    if (!mc::Case([&] { return mc::str("many series N=%d failing additions style %d", N, failing); })) continue;
    mc::Quiet quiet;
    LUT t;
    V x = {0, 0.5, 2}, y = {-1, 1, 1.5, 4};
    t.SetX(x); t.SetY(y);
    std::vector<Ser> S;
    for (int s = 0; s < N; ++s) {
      mc::Visit("many", N, failing, s);
      if (failing == 1 && s % 3 == 1) MC_CHECK(mc::Throws([&] { t.AddData(mc::str("bad%d", s), V(11, 1.)); }), "too small data accepted");
      if (failing == 2 && s % 2) { t.SetInterpolationMethod(LINEAR_SATURATE); MC_CHECK(mc::Throws([&] { t.AddData(mc::str("s%d", s), V(12, 1.)); }), "unsupported method accepted"); t.SetInterpolationMethod(LINEAR); }
      Ser e{x, y, data(12, s)};
      S.push_back(e);
      MC_CHECK(t.AddData(mc::str("s%d", s), e.d), "series %d refused", s);
      MC_CHECK(!t.AddData(mc::str("s%d", s / 2), V(12, 5.)), "duplicate accepted");
      mc::Same(t.GetNbSeries(), (unsigned long) (s + 1), "number of series");
      for (int k = 0; k <= s; ++k) mc::Near(t.Eval(mc::str("s%d", k), 0.25 + 0.1 * (k % 5), 1.25), val2(S[k], 0.25 + 0.1 * (k % 5), 1.25), 20, 1e-12L, "series %d of %d", k, s + 1);
    }
    mc::Outcome("many series");
  }
}
MC_MAIN(explore)
