// C03 - histories of interpolators.
//@bounds quick: all operation sequences of length <=5 over two 1D interpolators (3 methods) and two 2D interpolators, alphabet: initialise with one of 5 tables (2..5 nodes / 3 grid shapes; some share their ordinates, some their abscissae, some their size and ends), evaluate at 4 positions, copy one onto the other; full observation of both at the end of every sequence; re-initialisations, copies and neighbours with tables that differ by 1e-13 to 1e-3 in one entry; the same vectors handed over again after any entry was changed, exchanged, appended or removed in place; moves, swaps and growing vectors of interpolators
//@bounds thorough: sequences of length <=6 (1D and 2D), same alphabet
//@model each interpolator = the table it was last initialised with (or that of its source at copy time); answers recomputed from the table by linear scan
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;
struct T1 { V x, y; };
static std::vector<T1> T = {{{0, 1, 3}, {1, -2, 5}}, {{0.5, 1.5, 2, 2.5, 6}, {7, 3, 0, -4, 2}}, {{-1, 4}, {10, -10}}, {{0, 1, 3}, {-3, 8, 0.5}},
                             {{0, 2, 3}, {1, -2, 5}}};   // same size, ends and ordinates as the first, other abscissae
static double val1(const T1 &t, int m, double x) {
  size_t n = t.x.size(), k = 0;
  if (m == 2) x = std::min(std::max(x, t.x[0]), t.x[n - 1]);
  while (k + 2 < n && x > t.x[k + 1]) ++k;
  double s = (x - t.x[k]) / (t.x[k + 1] - t.x[k]);
  return t.y[k] * (1 - s) + t.y[k + 1] * s;
}
static const double Q[4] = {0.75, 1, 2.25, 2.5};   // inside every table
template<class I> void run1(int m, const std::vector<int> &ops) {
  I a[2];
  int cur[2] = {-1, -1};
  auto ev = [&](int w, double x, const char *what) {
    double g = a[w].Eval(x);
    mc::Near(g, val1(T[cur[w]], m, x), 20, 1e-12L, "%s: interpolator %d at x=%g after init with table %d", what, w, x, cur[w]);
  };
  for (int op : ops) {
    mc::Visit(m, cur[0], cur[1], op);
    if (op < 10) { int w = op / 5, t = op % 5; if (mc::Replaying()) mc::Op(mc::str("I%d.Initialize(table %d)", w, t));
      a[w].Initialize(std::make_shared<const V>(T[t].x), std::make_shared<const V>(T[t].y)); cur[w] = t; }
    else if (op < 18) { int w = (op - 10) / 4; if (cur[w] < 0) continue; if (mc::Replaying()) mc::Op(mc::str("I%d.Eval(%g)", w, Q[(op - 10) % 4])); ev(w, Q[(op - 10) % 4], "evaluation"); }
    else { int w = op - 18; if (mc::Replaying()) mc::Op(mc::str("I%d = I%d", w, 1 - w)); a[w] = a[1 - w]; cur[w] = cur[1 - w]; }
  }
  for (int rep = 0; rep < 2; ++rep) for (int w = 0; w < 2; ++w) if (cur[w] >= 0) {
    auto &t = T[cur[w]];
    mc::Same(a[w].GetXmin(), t.x.front(), "lower bound of interpolator %d", w);
    mc::Same(a[w].GetXmax(), t.x.back(), "upper bound of interpolator %d", w);
    for (size_t i = 0; i < t.x.size(); ++i) { ev(w, t.x[i], "final observation"); if (i) ev(w, 0.5 * (t.x[i] + t.x[i - 1]), "final observation"); }
    if (m) { ev(w, t.x.front() - 1.5, "final observation"); ev(w, t.x.back() + 2.25, "final observation"); }
    I c(a[w]);   // copy construction
    mc::Near(c.Eval(1.25), val1(t, m, 1.25), 20, 1e-12L, "copy-constructed interpolator");
    // a copy outlives its source, and a source its copies
    std::unique_ptr<I> h(new I(a[w])); I d(*h), e; e = *h; h->Initialize(std::make_shared<const V>(T[2].x), std::make_shared<const V>(T[2].y)); h.reset();
    for (double x : {1.25, 2.5}) { mc::Near(d.Eval(x), val1(t, m, x), 20, 1e-12L, "copy of a destroyed interpolator"); mc::Near(e.Eval(x), val1(t, m, x), 20, 1e-12L, "assigned from a destroyed interpolator"); }
  }
}
struct T2 { V x, y, d; };
static std::vector<T2> G;
static double val2(const T2 &t, double x, double y) {
  size_t i = 0, j = 0, ny = t.y.size();
  while (i + 2 < t.x.size() && x > t.x[i + 1]) ++i;
  while (j + 2 < ny && y > t.y[j + 1]) ++j;
  double u = (x - t.x[i]) / (t.x[i + 1] - t.x[i]), v = (y - t.y[j]) / (t.y[j + 1] - t.y[j]);
  return (1 - u) * ((1 - v) * t.d[i * ny + j] + v * t.d[i * ny + j + 1]) + u * ((1 - v) * t.d[(i + 1) * ny + j] + v * t.d[(i + 1) * ny + j + 1]);
}
static const double Q2[4][2] = {{0.75, 0.75}, {1, 2.25}, {2.25, 1}, {2.5, 1.75}};
static void run2(const std::vector<int> &ops) {
  Interp2dLinear<double> a[2];
  int cur[2] = {-1, -1};
  auto ev = [&](int w, double x, double y, const char *what) {
    mc::Near(a[w].Eval(x, y), val2(G[cur[w]], x, y), 40, 1e-12L, "%s: 2D interpolator %d at (%g,%g) after init with grid %d", what, w, x, y, cur[w]);
  };
  for (int op : ops) {
    mc::Visit("2d", cur[0], cur[1], op);
    if (op < 10) { int w = op / 5, t = op % 5; if (mc::Replaying()) mc::Op(mc::str("J%d.Initialize(grid %d)", w, t));
      a[w].Initialize(std::make_shared<const V>(G[t].x), std::make_shared<const V>(G[t].y), std::make_shared<const V>(G[t].d)); cur[w] = t; }
    else if (op < 18) { int w = (op - 10) / 4; if (cur[w] < 0) continue; auto q = Q2[(op - 10) % 4]; if (mc::Replaying()) mc::Op(mc::str("J%d.Eval(%g,%g)", w, q[0], q[1])); ev(w, q[0], q[1], "evaluation"); }
    else { int w = op - 18; if (mc::Replaying()) mc::Op(mc::str("J%d = J%d", w, 1 - w)); a[w] = a[1 - w]; cur[w] = cur[1 - w]; }
  }
  for (int rep = 0; rep < 2; ++rep) for (int w = 0; w < 2; ++w) if (cur[w] >= 0) {
    auto &t = G[cur[w]];
    mc::Same(a[w].GetXmin(), t.x.front(), "x lower bound"); mc::Same(a[w].GetXmax(), t.x.back(), "x upper bound");
    mc::Same(a[w].GetYmin(), t.y.front(), "y lower bound"); mc::Same(a[w].GetYmax(), t.y.back(), "y upper bound");
    for (double x : t.x) for (double y : t.y) ev(w, x, y, "final observation");
    for (size_t i = 1; i < t.x.size(); ++i) for (size_t j = 1; j < t.y.size(); ++j) ev(w, 0.5 * (t.x[i] + t.x[i - 1]), 0.25 * t.y[j] + 0.75 * t.y[j - 1], "final observation");
    Interp2dLinear<double> c(a[w]);
    mc::Near(c.Eval(1.25, 1.5), val2(t, 1.25, 1.5), 40, 1e-12L, "copy-constructed 2D interpolator");
    std::unique_ptr<Interp2dLinear<double>> h(new Interp2dLinear<double>(a[w])); Interp2dLinear<double> d(*h), e; e = *h; h->Initialize(std::make_shared<const V>(G[1].x), std::make_shared<const V>(G[1].y), std::make_shared<const V>(G[1].d)); h.reset();
    mc::Near(d.Eval(1.25, 1.5), val2(t, 1.25, 1.5), 40, 1e-12L, "copy of a destroyed 2D interpolator"); mc::Near(e.Eval(2.25, 1), val2(t, 2.25, 1), 40, 1e-12L, "assigned from a destroyed 2D interpolator");
  }
}
// tables which differ from each other by little only, in one entry: initialise, evaluate, re-initialise, copy
template<class I> static void alike1(int m, double e, int at) {
  T1 A{{0, 1, 3, 4}, {1, -2, 5, 0.25}}, B = A;
  if (at < 4) B.x[at] += e; else B.y[at - 4] += e;
  auto init = [](I &i, const T1 &t) { i.Initialize(std::make_shared<const V>(t.x), std::make_shared<const V>(t.y)); };
  auto see = [&](I &i, const T1 &t, const char *when) {
    for (double q : {0.75, 1.0 + 2 * e, 2.5, 3.75, 0.75}) {
      mc::Visit("alike", m, e, at, when, q);
      mc::Near(i.Eval(q), val1(t, m, q), 1, 1e-14L, "%s: at %.17g", when, q);
      auto v = i.Eval(V{q, 2, q});
      mc::Near(v.at(2), val1(t, m, q), 1, 1e-14L, "%s: at %.17g (vector)", when, q);
      mc::Near(v.at(1), val1(t, m, 2), 1, 1e-14L, "%s: at 2 (vector)", when);
    }
    mc::Same(i.GetXmin(), t.x.front(), "%s: lower bound", when); mc::Same(i.GetXmax(), t.x.back(), "%s: upper bound", when);
  };
  I a, b;
  init(a, A); see(a, A, "first table");
  init(b, B); see(b, B, "other interpolator"); see(a, A, "first one again");
  init(a, B); see(a, B, "initialised again with a table nearly alike");
  init(b, A); b = a; see(b, B, "assigned over a table nearly alike");
  init(a, A); see(a, A, "first table again"); see(b, B, "copy");
}
static void alike2(double e, int at) {
  T2 A{{0, 1, 4}, {-0.5, 1}, {1, -2, 5, 0.25, 3, -1}}, B = A;
  if (at < 3) B.x[at] += e; else if (at < 5) B.y[at - 3] += e; else B.d[at - 5] += e;
  typedef Interp2dLinear<double> I;
  auto init = [](I &i, const T2 &t) { i.Initialize(std::make_shared<const V>(t.x), std::make_shared<const V>(t.y), std::make_shared<const V>(t.d)); };
  auto see = [&](I &i, const T2 &t, const char *when) {
    std::vector<V> pts = {{0.75, 0.25}, {1 + 2 * e, 0.5}, {3.5, 0.75}, {0.75, 0.25}};
    auto r = i.Eval(pts);
    for (size_t k = 0; k < pts.size(); ++k) {
      mc::Visit("alike2", e, at, when, k);
      double w = val2(t, pts[k][0], pts[k][1]);
      mc::Near(i.Eval(pts[k][0], pts[k][1]), w, 1, 1e-14L, "%s: point %zu", when, k);
      mc::Near(r.at(k), w, 1, 1e-14L, "%s: point %zu (list)", when, k);
    }
  };
  I a, b;
  init(a, A); see(a, A, "first grid");
  init(b, B); see(b, B, "other interpolator"); see(a, A, "first one again");
  init(a, B); see(a, B, "initialised again with a grid nearly alike");
  init(b, A); b = a; see(b, B, "assigned over a grid nearly alike");
  init(a, A); see(a, A, "first grid again"); see(b, B, "copy");
}
// the same vectors, changed in place or resized, handed over again; and interpolators that are moved
template<class I> static void inplace1(int m, int at, int change) {
  auto x = std::make_shared<V>(V{0, 1, 3, 4}), y = std::make_shared<V>(V{1, -2, 5, 0.25});
  T1 t{*x, *y};
  I a, b;
  auto see = [&](I &i, const char *when) {
    for (double q : {0.75, 1.25, 2.5, 2.75, 0.75}) { mc::Visit("in place", m, at, change, when, q); mc::Near(i.Eval(q), val1(t, m, q), 10, 1e-13L, "%s: at %g", when, q); mc::Near(i.Eval(V{q, 2})[0], val1(t, m, q), 10, 1e-13L, "%s: at %g (vector)", when, q); }
    mc::Same(i.GetXmin(), t.x.front(), "%s: lower bound", when); mc::Same(i.GetXmax(), t.x.back(), "%s: upper bound", when);
  };
  a.Initialize(x, y); b.Initialize(x, y); see(a, "first content"); see(b, "first content, second interpolator");
  if (change == 0) { if (at < 4) (*x)[at] += 0.125; else (*y)[at - 4] += 2.5; }
  if (change == 1) { if (at < 4) { x->push_back(6 + at); y->push_back(-4); } else { x->pop_back(); y->pop_back(); } }
  if (change == 2) { std::swap((*y)[at % 4], (*y)[(at + 1) % 4]); }
  if (change == 3) { x = std::make_shared<V>(*x); if (at % 2) (*x)[1] = 1.5; (*y)[2] = -1; }
  if (change == 4) { y = std::make_shared<V>(*y); if (at % 2) (*y)[1] = 1.5; (*x)[2] = 2.625; }
  t = {*x, *y};
  a.Initialize(x, y); see(a, "same vectors with another content");
  b.Initialize(x, y); see(b, "same vectors with another content, second interpolator");
  std::vector<I> v;                      // growing: interpolators are moved or copied by the container
  for (int k = 0; k < 5; ++k) { v.push_back(a); I w(std::move(v.back())); v.back() = std::move(w); }
  for (auto &i : v) see(i, "interpolator in a grown vector");
  std::unique_ptr<I> s(new I(a)); I c(std::move(*s)); s->Initialize(std::make_shared<const V>(V{-9, 9}), std::make_shared<const V>(V{77, 78})); see(c, "moved from an interpolator in use again"); s.reset(); see(c, "moved from a destroyed interpolator");
  std::swap(a, c); see(a, "swapped"); see(c, "swapped");
}
static void inplace2(int at, int change) {
  auto x = std::make_shared<V>(V{0, 1, 4}), y = std::make_shared<V>(V{-0.5, 1}), d = std::make_shared<V>(V{1, -2, 5, 0.25, 3, -1});
  T2 t{*x, *y, *d};
  typedef Interp2dLinear<double> I;
  I a, b;
  auto see = [&](I &i, const char *when) {
    for (double q : {0.75, 1.25, 3.5, 0.75}) for (double r : {-0.25, 0.75}) { mc::Visit("in place 2", at, change, when, q, r); mc::Near(i.Eval(q, r), val2(t, q, r), 10, 1e-13L, "%s: at (%g,%g)", when, q, r); }
    mc::Same(i.GetXmax(), t.x.back(), "%s: x upper bound", when); mc::Same(i.GetYmax(), t.y.back(), "%s: y upper bound", when); mc::Same(i.GetXmin(), t.x.front(), "%s: x lower bound", when); mc::Same(i.GetYmin(), t.y.front(), "%s: y lower bound", when);
  };
  a.Initialize(x, y, d); b.Initialize(x, y, d); see(a, "first content"); see(b, "first content, second interpolator");
  if (change == 0) { if (at < 3) (*x)[at] += 0.125; else if (at < 5) (*y)[at - 3] += 0.125; else (*d)[at - 5] += 2.5; }
  if (change == 1) { if (at % 2) { x->push_back(6 + at); d->push_back(7); d->push_back(-4); } else { y->push_back(2.5); for (int i = 3; i > 0; --i) d->insert(d->begin() + 2 * i, at); } }
  if (change == 2) std::swap((*d)[at % 6], (*d)[(at + 1) % 6]);
  if (change == 3) { if (at % 2) x = std::make_shared<V>(*x); else y = std::make_shared<V>(*y); (*d)[at % 6] -= 3; (*x)[1] = 1.125; }
  t = {*x, *y, *d};
  a.Initialize(x, y, d); see(a, "same vectors with another content");
  b.Initialize(x, y, d); see(b, "same vectors with another content, second interpolator");
  std::vector<I> v;
  for (int k = 0; k < 5; ++k) { v.push_back(a); I w(std::move(v.back())); v.back() = std::move(w); }
  for (auto &i : v) see(i, "interpolator in a grown vector");
  std::unique_ptr<I> s(new I(a)); I c(std::move(*s)); s.reset(); see(c, "moved from a destroyed interpolator");
  std::swap(a, c); see(a, "swapped"); see(c, "swapped");
}
static void explore() {
  for (int change = 0; change < 5; ++change) for (int at = 0; at < 11; ++at) {
    if (!mc::Case([&] { return mc::str("vectors changed in place: change %d at %d", change, at); })) continue;
    if (at < 8) { inplace1<Interp1dLinear<double, double>>(0, at, change); inplace1<Interp1dLinearExtrapolate<double, double>>(1, at, change); inplace1<Interp1dLinearSaturate<double, double>>(2, at, change); }
    if (change < 4) inplace2(at, change);
    mc::Outcome("changed in place");
  }
  for (double e : {1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3}) for (int at = 0; at < 11; ++at) {
    if (!mc::Case([&] { return mc::str("nearly alike tables: %g at entry %d", e, at); })) continue;
    if (at < 8) { alike1<Interp1dLinear<double, double>>(0, e, at); alike1<Interp1dLinearExtrapolate<double, double>>(1, e, at); alike1<Interp1dLinearSaturate<double, double>>(2, e, at); }
    alike2(e, at);
    mc::Outcome("nearly alike");
  }
  V x3 = {0, 1, 3}, x3b = {0, 2, 3}, x2 = {-1, 4}, x5 = {0.5, 1.5, 2, 2.5, 6}, x4 = {-2, 1, 2, 8};
  auto mk = [](V x, V y, int s) { T2 t{x, y, {}}; for (size_t i = 0; i < x.size() * y.size(); ++i) t.d.push_back(mc::gen(s + (int) i)); return t; };
  G = {mk(x3, x2, 1), mk(x2, x5, 50), mk(x5, x4, 100), mk(x3, x2, 200), mk(x3b, x2, 1)};
  int depth = mc::Tier(5, 6);
  for (int kind = 0; kind < 4; ++kind)
    for (int n = 1; n <= depth; ++n)
      for (mc::Odo o(mc::rep(20, n)); o; ++o) {
        // canonical: the first operation must initialise interpolator 0 or 1 (anything else before is not enabled)
        if (o[0] >= 10) continue;
        if (!mc::Case([&] { return mc::str("kind=%d ops=", kind) + mc::vstr(o.v); })) continue;
        if (kind == 0) run1<Interp1dLinear<double, double>>(0, o.v);
        else if (kind == 1) run1<Interp1dLinearExtrapolate<double, double>>(1, o.v);
        else if (kind == 2) run1<Interp1dLinearSaturate<double, double>>(2, o.v);
        else run2(o.v);
        mc::Outcome(kind == 3 ? "2D history" : "1D history");
      }
}
MC_MAIN(explore)
