// C01 - 1D linear interpolation inside the tabulated range.
//@bounds quick: all tables with 2..5 nodes whose gaps are drawn from {2^-10,0.5,1,7} at 6 origins (up to +-1e6) and ordinates from 4 patterns + all 3-valued ordinate words for n<=4; table sizes 2..40 and {63,64,65,100,127,128,129,255,256,257,1000}; uniform, nearly uniform (one node displaced by 1e-10..0.1 gaps), tiny and huge abscissae and ordinates for 6 sizes; queries: every node, its two floating-point neighbours, offsets of 11 magnitudes around every node, and fractions {1/8,1/2,7/8} of every segment, in every ordered pair of queries for small tables; 3 methods x {real,complex}; single precision tables of 2..12 nodes; geometric, clustered, one-gap, tiny (1e-301) and huge (1e299) tables of 5 sizes up to 45; ordinates equal to within 1e-3..1e-11 of their magnitude, all words of length 2..4; tables of 300, 4097, 33000, 66000 and 131080 nodes, queried around the indices 127, 255, 4095, 32767, 65535 and on a stride of 997; every list of points as words over 6 points up to length 4 and over 3 points up to length 7
//@bounds thorough: as quick with 2..7 nodes, 9 origins, all 3-valued ordinate words for n<=6, every table size 2..300 and {511,512,513,1000,4096}
//@model piecewise-linear interpolant evaluated in long double from the tabulated pairs of the bracketing segment
//@assume abscissae strictly increasing (the library requires sorted tables)
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::complex<double> Z;
typedef std::complex<LD> ZL;

static LD up(double v) { return v; }
static ZL up(Z v) { return ZL(v.real(), v.imag()); }
static LD mag(double v) { return fabsl(v); }
static LD mag(Z v) { return std::abs(v); }
static void cmp(double got, LD want, LD scale, const char *w, double x) { mc::Near(got, want, scale, 1e-13L, "%s at x=%.17g", w, x); }
static void cmp(Z got, ZL want, LD scale, const char *w, double x) { mc::NearC(got, want, scale, 1e-13L, "%s at x=%.17g", w, x); }

// independent model: linear scan for the bracketing segment
template<class Y> auto model(const std::vector<double> &X, const std::vector<Y> &V, double x, LD &scale) -> decltype(up(Y())) {
  size_t k = 0;
  while (k + 2 < X.size() && x > X[k + 1]) ++k;
  LD dx = (LD) X[k + 1] - X[k], t = ((LD) x - X[k]) / dx;
  scale = (mag(V[k]) + mag(V[k + 1])) * (1 + (fabsl(X[k]) + fabsl(X[k + 1])) / dx);
  return up(V[k]) * (1 - t) + up(V[k + 1]) * t;
}

static const INTERP_METHOD METH[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};

template<class Y> void table(const std::vector<double> &X, const std::vector<Y> &V, int im, bool pairs) {
  std::vector<double> q;
  double lo = X.front(), hi = X.back();
  auto add = [&](double x) { if (x >= lo && x <= hi) q.push_back(x); };
  for (size_t i = 0; i < X.size(); ++i) {
    add(X[i]);
    add(std::nextafter(X[i], -1e300));
    add(std::nextafter(X[i], 1e300));
    if (i + 1 < X.size()) for (double f : {0.125, 0.5, 0.875}) add(X[i] + f * (X[i + 1] - X[i]));
  }
  std::unique_ptr<Interp1d<double, Y>> p(Interp1d<double, Y>::MakeInterp1d(METH[im]));
  p->Initialize(std::make_shared<const std::vector<double>>(X), std::make_shared<const std::vector<Y>>(V));
  mc::Same(p->GetXmin(), lo, "lower bound");
  mc::Same(p->GetXmax(), hi, "upper bound");
  std::vector<decltype(up(Y()))> want(q.size());
  std::vector<LD> sc(q.size());
  for (size_t i = 0; i < q.size(); ++i) want[i] = model(X, V, q[i], sc[i]);
  auto ev = [&](size_t i, const char *w) {
    mc::Visit(im, (int) sizeof(Y), X, V, q[i]);
    cmp(p->Eval(q[i]), want[i], sc[i], w, q[i]);
  };
  for (size_t i = 0; i < q.size(); ++i) ev(i, "ascending evaluation");
  for (size_t i = q.size(); i-- > 0;) ev(i, "descending evaluation");
  if (pairs) for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q.size(); ++j) {
    ev(i, "evaluation (pair, first)");
    ev(j, "evaluation (pair, second)");
  }
  else for (size_t i = 0; i < q.size(); ++i) { ev((i * 7919) % q.size(), "scattered evaluation"); ev(q.size() - 1 - (i * 31) % q.size(), "scattered evaluation"); }
  if (X.size() <= 12) {                                    // close to the nodes
    std::vector<double> n = mc::CloseTo(X), in;
    if (lo <= 0 && hi >= 0) n.push_back(-0.0);
    for (double x : n) if (x >= lo && x <= hi) in.push_back(x);
    auto r = p->Eval(in);
    for (size_t i = 0; i < in.size(); ++i) { LD s; auto w = model(X, V, in[i], s); mc::Visit(im, (int) sizeof(Y), X, V, in[i]); cmp(p->Eval(in[i]), w, s, "evaluation close to a node", in[i]); cmp(r[i], w, s, "vector evaluation close to a node", in[i]); }
  }
  // the vector forms are the map of the scalar form
  for (int k = 0; k < 2; ++k) {
    auto r = k ? (*p)(q) : p->Eval(q);
    mc::Same(r.size(), q.size(), "vector evaluation size");
    std::vector<double> sh; for (size_t i = 0; i < q.size(); ++i) sh.push_back(q[(i * 7919 + 3) % q.size()]);   // scattered, with repetitions
    auto rs = k ? (*p)(sh) : p->Eval(sh);
    for (size_t i = 0; i < q.size(); ++i) cmp(rs[i], want[(i * 7919 + 3) % q.size()], sc[(i * 7919 + 3) % q.size()], "vector evaluation (scattered)", sh[i]);
    for (size_t i = 0; i < q.size(); ++i) cmp(r[i], want[i], sc[i], "vector evaluation", q[i]);
    std::vector<double> rq(q.rbegin(), q.rend());
    r = k ? (*p)(rq) : p->Eval(rq);
    for (size_t i = 0; i < q.size(); ++i) cmp(r[i], want[q.size() - 1 - i], sc[q.size() - 1 - i], "vector evaluation (reversed)", rq[i]);
  }
  for (size_t i = 0; i < q.size(); ++i) cmp((*p)(q[i]), want[i], sc[i], "call operator", q[i]);
  mc::Same(p->Eval(std::vector<double>()).size(), (size_t) 0, "empty vector evaluation");
  mc::Outcome(im == 0 ? "LINEAR" : im == 1 ? "LINEAR_EXTRAPOLATE" : "LINEAR_SATURATE");
}
static void both(const std::vector<double> &X, const std::vector<double> &V, bool pairs) {
  for (int im = 0; im < 3; ++im) for (int cplx = 0; cplx < 2; ++cplx) {
    if (!mc::Case([&] { return mc::str("method=%d %s X=", im, cplx ? "complex" : "real") + mc::vstr(X) + " Y=" + mc::vstr(V); })) continue;
    if (!cplx) table<double>(X, V, im, pairs);
    else {
      std::vector<Z> W;
      for (size_t i = 0; i < V.size(); ++i) W.push_back(Z(V[i], 0.5 * V[V.size() - 1 - i] + (i % 3) - 1.));
      table<Z>(X, W, im, pairs);
    }
  }
}
// large tables: queries around the indices where a narrow counter would wrap, and on a stride
template<class Y> static void large(int n, int k, int im) {
  if (!mc::Case([&] { return mc::str("large table n=%d kind=%d method=%d %s", n, k, im, sizeof(Y) > 8 ? "complex" : "real"); })) return;
  std::vector<double> X; std::vector<Y> V;
  for (int i = 0; i < n; ++i) {
    X.push_back(k == 0 ? i * 0.25 - 3 : i ? X.back() + 0.125 + 0.25 * ((i * 7) % 5) : -20.);
    V.push_back(Y(mc::gen(i % 4001) + 1e-3 * i));
  }
  std::unique_ptr<Interp1d<double, Y>> p(Interp1d<double, Y>::MakeInterp1d(METH[im]));
  p->Initialize(std::make_shared<const std::vector<double>>(X), std::make_shared<const std::vector<Y>>(V));
  std::vector<double> q; std::vector<int> seg;
  for (int i = 0; i + 1 < n; ++i) {
    bool near = i < 2 || i + 3 > n || i % 997 == 0;
    for (int b : {127, 255, 256, 4095, 32767, 32768, 65535, 65536}) near = near || std::abs(i - b) <= 2;
    if (near) for (double f : {0., 0.375, 1.}) { q.push_back(f == 1 ? X[i + 1] : X[i] + f * (X[i + 1] - X[i])); seg.push_back(i); }
  }
  auto r = p->Eval(q);
  mc::Same(r.size(), q.size(), "vector evaluation size");
  for (int pass = 0; pass < 2; ++pass) for (size_t j = 0; j < q.size(); ++j) {
    size_t i = pass ? (j * 7919) % q.size() : j, a = seg[i];
    LD dx = (LD) X[a + 1] - X[a], t = ((LD) q[i] - X[a]) / dx, sc = (mag(V[a]) + mag(V[a + 1])) * (1 + (fabsl(X[a]) + fabsl(X[a + 1])) / dx);
    auto w = up(V[a]) * (1 - t) + up(V[a + 1]) * t;
    mc::Visit("large", n, k, im, (int) sizeof(Y), q[i], pass);
    cmp(p->Eval(q[i]), w, sc, "evaluation in a large table", q[i]);
    if (!pass) cmp(r[i], w, sc, "vector evaluation in a large table", q[i]);
  }
  mc::Outcome("large table");
}
// single precision
template<class Y> static void floats(int n, int k, int im) {
  if (!mc::Case([&] { return mc::str("single precision n=%d kind=%d method=%d %s", n, k, im, sizeof(Y) > 4 ? "complex" : "real"); })) return;
  std::vector<float> X; std::vector<Y> V;
  for (int i = 0; i < n; ++i) { X.push_back(k == 0 ? i * 0.25f - 3 : i ? X.back() + (k == 1 ? 0.5f + (i * 7) % 5 : i % 2 ? 0.0625f : 4.f) : -2.f); V.push_back(Y((float) mc::gen(i + 3 * n))); if (sizeof(Y) > 4) V.back() *= Y(std::sqrt(Y(-1.f)) + Y(0.25f)); }
  std::unique_ptr<Interp1d<float, Y>> p(Interp1d<float, Y>::MakeInterp1d(METH[im]));
  p->Initialize(std::make_shared<const std::vector<float>>(X), std::make_shared<const std::vector<Y>>(V));
  mc::Same(p->GetXmin(), X.front(), "lower bound"); mc::Same(p->GetXmax(), X.back(), "upper bound");
  std::vector<float> q; std::vector<std::complex<LD>> w; std::vector<LD> sc;
  for (int i = 0; i + 1 < n; ++i) for (float f : {0.f, 0.25f, 0.75f, 1.f}) {
    float x = f == 1 ? X[i + 1] : X[i] + f * (X[i + 1] - X[i]);
    LD dx = (LD) X[i + 1] - X[i], t = ((LD) x - X[i]) / dx;
    ZL a(std::real(V[i]), std::imag(V[i])), b(std::real(V[i + 1]), std::imag(V[i + 1]));
    q.push_back(x); w.push_back(a * (1 - t) + b * t); sc.push_back((std::abs(a) + std::abs(b)) * (1 + (fabsl(X[i]) + fabsl(X[i + 1])) / dx));
  }
  auto r = p->Eval(q);
  mc::Same(r.size(), q.size(), "vector evaluation size");
  for (size_t i = 0; i < q.size(); ++i) {
    mc::Visit("float", n, k, im, (int) sizeof(Y), q[i]);
    Y v = p->Eval(q[i]);
    mc::NearC(Z(std::real(v), std::imag(v)), w[i], sc[i], 1e-5L, "single precision evaluation at %.9g", q[i]);
    mc::NearC(Z(std::real(r[i]), std::imag(r[i])), w[i], sc[i], 1e-5L, "single precision vector evaluation at %.9g", q[i]);
  }
  mc::Outcome("single precision");
}
static void explore() {
  for (int n = 2; n <= 12; ++n) for (int k = 0; k < 3; ++k) for (int im = 0; im < 3; ++im) { floats<float>(n, k, im); floats<std::complex<float>>(n, k, im); }
  for (int n : {300, 4097, 33000, 66000, 131080}) for (int k = 0; k < 2; ++k) for (int im = 0; im < 3; ++im) { large<double>(n, k, im); if (n < 70000) large<Z>(n, k, im); }

  std::vector<double> gaps = {1. / 1024, 0.5, 1, 7}, org = {0, -3, 2.5, -1000, 1e6, -1e6};
  if (mc::Thorough()) org = {0, -3, 2.5, -1000, 1e6, -1e6, 0.1, -0.7, 12345.678};
  int nmax = mc::Tier(5, 7);
  for (int n = 2; n <= nmax; ++n)
    for (mc::Odo o(mc::rep(4, n - 1)); o; ++o)
      for (double x0 : org) {
        std::vector<double> X = {x0};
        for (int i = 0; i + 1 < n; ++i) X.push_back(X.back() + gaps[o[i]]);
        for (int pat = 0; pat < 4; ++pat) {
          if (n >= 6 && (pat + o[0]) % 2) continue;
          std::vector<double> V;
          for (int i = 0; i < n; ++i)
            V.push_back(pat == 0 ? mc::gen(i + 3 * n) : pat == 1 ? (i % 2 ? 1e8 : -3e-5) : pat == 2 ? -2.75 : 5. - i * i);
          both(X, V, n <= 3);
        }
      }
  for (int n : {2, 3, 4, 5, 7, 11}) for (auto &X : mc::NearlyUniform(n)) for (double ys : {1., 1e-12, 1e12}) {
    if (ys != 1 && n > 4) continue;
    std::vector<double> V; for (int i = 0; i < n; ++i) V.push_back(ys * mc::gen(i + 7 * n));
    both(X, V, false);
  }
  for (int n : {2, 3, 12, 24, 45}) for (auto &X : mc::Uneven(n, 1e-301, 1e299)) { std::vector<double> V; for (int i = 0; i < n; ++i) V.push_back(mc::gen(i + 5 * n)); both(X, V, false); }
  // ordinates which are nearly equal
  for (int n : {2, 3, 4}) for (double base : {1., -1000., 3e-6, 2e9}) for (double e : {1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11}) for (mc::Odo o(mc::rep(2, n)); o; ++o) {
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(i == 0 ? 0.25 : X.back() + 1 + 0.75 * (i % 3)); V.push_back(base * (1 + (o[i] ? e : 0) + 0.25 * e * i)); }
    both(X, V, false);
  }
  // every list of abscissae: all words over 6 up to length 4, over 3 up to length 7
  for (int m = 0; m < 3; ++m) {
    const std::vector<double> X = {0, 1, 3, 4.5, 8}, V = {1.5, -2, 4, 0.25, 7}, P = {0.25, 3.5, 0.75, 0, 8, 3};
    std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(METH[m])); p->Initialize(std::make_shared<const std::vector<double>>(X), std::make_shared<const std::vector<double>>(V));
    for (int pass = 0; pass < 2; ++pass) for (int n = 1; n <= (pass ? mc::Tier(7, 9) : mc::Tier(4, 5)); ++n) for (mc::Odo o(mc::rep(pass ? 3 : 6, n)); o; ++o) {
      if (!mc::Case([&] { return mc::str("list of abscissae, method %d, pass %d: ", m, pass) + mc::vstr(o.v); })) continue;
      std::vector<double> q; for (int i = 0; i < n; ++i) q.push_back(P[o[i]]);
      mc::Visit("list", m, pass, o.v);
      auto r = p->Eval(q), r2 = (*p)(q);
      mc::Same(r.size(), q.size(), "list size"); mc::Same(r2.size(), q.size(), "list size");
      for (int i = 0; i < n; ++i) { LD sc, w = model(X, V, q[i], sc); cmp(r[i], w, sc, "list", q[i]); cmp(r2[i], w, sc, "list, call operator", q[i]); }
      mc::Outcome("list of abscissae");
    }
  }
  // all 3-valued words of ordinates
  int wmax = mc::Tier(4, 6);
  for (int n = 2; n <= wmax; ++n)
    for (mc::Odo o(mc::rep(3, n)); o; ++o) {
      std::vector<double> X, V;
      double al[3] = {0, -1.5, 4};
      for (int i = 0; i < n; ++i) { X.push_back(i == 0 ? -1.25 : X.back() + 1 + 0.75 * (i % 3)); V.push_back(al[o[i]]); }
      both(X, V, true);
    }
  // table sizes
  std::vector<int> sz;
  for (int n = 2; n <= mc::Tier(40, 300); ++n) sz.push_back(n);
  for (int n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096}) if (n > sz.back() && (mc::Thorough() || n <= 257 || n == 1000)) sz.push_back(n);
  for (int n : sz) for (int k = 0; k < 3; ++k) {
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) {
      X.push_back(k == 0 ? i * 0.25 - 3 : k == 1 ? (i ? X.back() + 0.125 + 0.25 * ((i * 7) % 5) : -20.) : (i ? X.back() + (i % 2 ? 1e-3 : 2.) : 100.));
      V.push_back(k == 2 ? sin(0.3 * i) : mc::gen(i));
    }
    both(X, V, n <= 6);
  }
}
MC_MAIN(explore)
