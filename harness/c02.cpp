// C02 - 1D interpolation outside the table.
//@bounds quick: tables with 2..5 nodes (gaps from {2^-10,0.5,1,7}, 4 origins) x 3 ordinate patterns x {real,complex} x methods; uniform, nearly uniform, tiny and huge tables for 4 sizes; every sequence of ordinates from {0,1,-2} on a uniform and an uneven table of 2..5 nodes; single precision tables; strongly uneven, tiny and huge tables; nearly equal ordinates (1e-3..1e-10); tables of 257, 4097, 33000 and 66000 nodes; every query vector of up to 4 positions (inside, at and near both ends) on 3 tables; queries at 12 distances (next float .. 1e12; for the plain and saturating ones also 1e300 and infinity) on both sides plus the two ends; scalar, vector and call-operator forms (mixed in/out vectors); every process-ending call observed in a forked child for n<=3
//@bounds thorough: as quick with 2..6 nodes, sizes up to 300, 16 distances, every process-ending call observed for n<=4
//@model first/last segment line, first/last ordinate, or 'no value returned', from the tabulated pairs in long double
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::complex<double> Z;
typedef std::complex<LD> ZL;
static LD up(double v) { return v; }
static ZL up(Z v) { return ZL(v.real(), v.imag()); }
static LD mag(double v) { return fabsl(v); }
static LD mag(Z v) { return std::abs(v); }
static void cmp(double got, LD want, LD sc, const char *w, double x) { mc::Near(got, want, sc, 1e-13L, "%s at x=%.17g", w, x); }
static void cmp(Z got, ZL want, LD sc, const char *w, double x) { mc::NearC(got, want, sc, 1e-13L, "%s at x=%.17g", w, x); }

template<class Y> void table(const std::vector<double> &X, const std::vector<Y> &V, int im, bool forkall) {
  size_t n = X.size();
  INTERP_METHOD M[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
  std::unique_ptr<Interp1d<double, Y>> p(Interp1d<double, Y>::MakeInterp1d(M[im]));
  p->Initialize(std::make_shared<const std::vector<double>>(X), std::make_shared<const std::vector<Y>>(V));
  double lo = X[0], hi = X[n - 1];
  std::vector<double> q = {std::nextafter(lo, -1e300), std::nextafter(hi, 1e300)};
  std::vector<double> dist = {1e-6, 1e-3, 0.3, 1, 2.5, 17, 1e3, 1e6, 1e9, 1e12};
  if (mc::Thorough()) for (double d : {1e-9, 0.01, 7.25, 123.}) dist.push_back(d);
  for (double d : dist) { if (lo - d < lo) q.push_back(lo - d); if (hi + d > hi) q.push_back(hi + d); }
  if (im != 1) { q.push_back(-1e300); q.push_back(1e300); q.push_back(-INFINITY); q.push_back(INFINITY); }
  q.push_back(lo);
  q.push_back(hi);
  std::vector<decltype(up(Y()))> want(q.size());
  std::vector<LD> sc(q.size());
  for (size_t i = 0; i < q.size(); ++i) {
    double x = q[i];
    bool below = x < lo, above = x > hi;
    size_t k = (below || x == lo) ? 0 : n - 2;
    LD dx = (LD) X[k + 1] - X[k], t = std::isfinite(x) ? ((LD) x - X[k]) / dx : 0;
    if (im == 2 && below) t = 0;
    if (im == 2 && above) t = 1;
    want[i] = up(V[k]) * (1 - t) + up(V[k + 1]) * t;
    sc[i] = (mag(V[k]) + mag(V[k + 1])) * (1 + (fabsl(X[k]) + fabsl(X[k + 1]) + (im == 2 ? 0 : fabsl(x))) / dx);
  }
  if (im) {                                                // all positions in one vector, ascending, descending and mixed
    std::vector<size_t> id; for (size_t i = 0; i < q.size(); ++i) id.push_back(i);
    for (int ord = 0; ord < 3; ++ord) {
      if (ord == 0) std::sort(id.begin(), id.end(), [&](size_t a, size_t b) { return q[a] < q[b]; }); else if (ord == 1) std::reverse(id.begin(), id.end()); else std::sort(id.begin(), id.end());
      std::vector<double> v; for (size_t i : id) v.push_back(q[i]);
      auto r = p->Eval(v), r2 = (*p)(v);
      mc::Same(r.size(), v.size(), "vector evaluation size"); mc::Same(r2.size(), v.size(), "vector evaluation size");
      for (size_t i = 0; i < v.size(); ++i) { cmp(r[i], want[id[i]], sc[id[i]], "evaluation of a whole vector", v[i]); cmp(r2[i], want[id[i]], sc[id[i]], "call with a whole vector", v[i]); }
    }
  }
  for (size_t i = 0; i < q.size(); ++i) {
    double x = q[i];
    bool out = x < lo || x > hi;
    mc::Visit(im, (int) sizeof(Y), X, V, x);
    if (im == 0 && out) {
      if (!forkall && i >= 4) continue;
      for (int form = 0; form < (i < 6 ? 4 : 1); ++form) {
        double mid = 0.5 * lo + 0.5 * hi;
        mc::Ending e = mc::InChild([&] {
          if (form == 0) p->Eval(x);
          if (form == 1) p->Eval(std::vector<double>{lo, mid, x, hi});
          if (form == 2) (*p)(x);
          if (form == 3) (*p)(std::vector<double>{x});
        });
        MC_CHECK(e == mc::EXIT_NONZERO || e == mc::SIGNALLED || e == mc::THREW, "plain linear interpolator, form %d, x=%.17g outside [%.17g,%.17g]: call %s", form, x, lo, hi, mc::endname(e));
        mc::Outcome("refused outside");
      }
      continue;
    }
    cmp(p->Eval(x), want[i], sc[i], out ? "evaluation outside the range" : "evaluation at the end of the range", x);
    cmp((*p)(x), want[i], sc[i], "call operator", x);
    auto r = p->Eval(std::vector<double>{lo, x, hi, x});
    auto r2 = (*p)(std::vector<double>{x, lo});
    mc::Same(r.size(), (size_t) 4, "vector evaluation size");
    mc::Same(r2.size(), (size_t) 2, "vector evaluation size");
    cmp(r[1], want[i], sc[i], "vector evaluation", x);
    cmp(r[3], want[i], sc[i], "vector evaluation", x);
    cmp(r[0], want[q.size() - 2], sc[q.size() - 2], "vector evaluation (lower end)", lo);
    cmp(r[2], want[q.size() - 1], sc[q.size() - 1], "vector evaluation (upper end)", hi);
    cmp(r2[0], want[i], sc[i], "vector call operator", x);
    mc::Outcome(!out ? "at end" : im == 1 ? "extrapolated" : "saturated");
  }
}
static void both(const std::vector<double> &X, const std::vector<double> &V, bool forkall) {
  for (int im = 0; im < 3; ++im) for (int c = 0; c < 2; ++c) {
    if (!mc::Case([&] { return mc::str("method=%d %s X=", im, c ? "complex" : "real") + mc::vstr(X) + " Y=" + mc::vstr(V); })) continue;
    if (!c) table<double>(X, V, im, forkall);
    else {
      std::vector<Z> W;
      for (size_t i = 0; i < V.size(); ++i) W.push_back(Z(V[i], 0.5 * V[V.size() - 1 - i] + (i % 3) - 1.));
      table<Z>(X, W, im, forkall);
    }
  }
}
static void explore() {
  double gaps[4] = {1. / 1024, 0.5, 1, 7};
  for (int n = 2; n <= mc::Tier(5, 6); ++n)
    for (mc::Odo o(mc::rep(4, n - 1)); o; ++o)
      for (double x0 : {0., -3., 2.5, 1000.}) {
        std::vector<double> X = {x0};
        for (int i = 0; i + 1 < n; ++i) X.push_back(X.back() + gaps[o[i]]);
        for (int pat = 0; pat < 3; ++pat) {
          if (n >= 4 && pat != (o[0] + o[1]) % 3) continue;
          std::vector<double> V;
          for (int i = 0; i < n; ++i) V.push_back(pat == 0 ? mc::gen(i + 5 * n) : pat == 1 ? (i % 2 ? 1e5 : -3e-5) : 5. - i * i);
          both(X, V, n <= mc::Tier(2, 4) && x0 >= 0);
        }
      }
  for (int n : {2, 3, 4, 6}) for (auto &X : mc::NearlyUniform(n)) { std::vector<double> V; for (int i = 0; i < n; ++i) V.push_back(mc::gen(i + 7 * n)); both(X, V, false); }
  for (int n = 6; n <= mc::Tier(64, 300); n = n < 24 ? n + 1 : n + 13) {
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(i * 0.25 - 3 + 0.01 * (i % 2)); V.push_back(mc::gen(i)); }
    both(X, V, false);
  }
  for (int n = 2; n <= mc::Tier(5, 6); ++n) for (mc::Odo o(mc::rep(3, n)); o; ++o) for (int u = 0; u < 2; ++u) {      // flat segments, zeros, repeated ordinates
    const double val[3] = {0, 1, -2};
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(u ? i * (i + 1) * 0.5 - 1.25 : i); V.push_back(val[o[i]]); }
    both(X, V, false);
  }
  for (int n : {2, 3, 12, 40}) for (auto &X : mc::Uneven(n, 1e-30, 1e30)) { std::vector<double> V; for (int i = 0; i < n; ++i) V.push_back(mc::gen(i + 5 * n)); both(X, V, false); }
  for (int n : {2, 3, 4}) for (double base : {1., -1000., 3e-6}) for (double e : {1e-3, 1e-5, 1e-7, 1e-9, 1e-10}) for (mc::Odo o(mc::rep(2, n)); o; ++o) {      // nearly equal ordinates
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(i == 0 ? 0.25 : X.back() + 1 + 0.75 * (i % 3)); V.push_back(base * (1 + (o[i] ? e : 0) + 0.25 * e * i)); }
    both(X, V, false);
  }
  for (int n : {257, 4097, 33000, 66000}) {
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(i * 0.25 - 3 + 0.01 * (i % 2)); V.push_back(mc::gen(i % 4001)); }
    both(X, V, false);
  }
  for (int n = 2; n <= 6; ++n) for (int k = 0; k < 2; ++k) for (int im = 1; im < 3; ++im) {
    if (!mc::Case([&] { return mc::str("single precision n=%d kind=%d method=%d", n, k, im); })) continue;
    std::vector<float> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(k ? i * (i + 1) * 0.5f - 2 : i * 0.25f); V.push_back((float) mc::gen(i + n)); }
    std::unique_ptr<Interp1d<float, float>> p(Interp1d<float, float>::MakeInterp1d(im == 1 ? LINEAR_EXTRAPOLATE : LINEAR_SATURATE));
    p->Initialize(std::make_shared<const std::vector<float>>(X), std::make_shared<const std::vector<float>>(V));
    for (float d : {0.f, 1e-3f, 0.5f, 4.f, 300.f, 1e5f}) for (int hi = 0; hi < 2; ++hi) {
      float x = hi ? X[n - 1] + d : X[0] - d;
      int s = hi ? n - 2 : 0;
      LD dx = (LD) X[s + 1] - X[s], t = im == 2 ? (hi ? 1 : 0) : ((LD) x - X[s]) / dx, w = V[s] * (1 - t) + V[s + 1] * t;
      mc::Visit("float", n, k, im, x);
      mc::Near(p->Eval(x), w, (fabsl(V[s]) + fabsl(V[s + 1])) * (1 + (fabsl(X[s]) + fabsl(X[s + 1]) + fabsl(x)) / dx), 1e-5L, "single precision evaluation at %.9g", x);
      mc::Near((*p)(std::vector<float>{x})[0], w, (fabsl(V[s]) + fabsl(V[s + 1])) * (1 + (fabsl(X[s]) + fabsl(X[s + 1]) + fabsl(x)) / dx), 1e-5L, "single precision vector evaluation at %.9g", x);
    }
  }
  // every query vector up to length 4 over positions inside, at and near both ends
  for (int im = 0; im < 3; ++im) for (int n = 2; n <= 4; ++n) {
    if (!mc::Case([&] { return mc::str("query vectors method=%d n=%d", im, n); })) continue;
    std::vector<double> X, V;
    for (int i = 0; i < n; ++i) { X.push_back(i * (i + 1) * 0.5 - 1.25); V.push_back(mc::gen(3 * i + n)); }
    double lo = X[0], hi = X[n - 1];
    INTERP_METHOD M[3] = {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE};
    std::unique_ptr<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(M[im]));
    p->Initialize(std::make_shared<const std::vector<double>>(X), std::make_shared<const std::vector<double>>(V));
    std::vector<double> pos = {lo, hi, 0.375 * lo + 0.625 * hi, 0.75 * lo + 0.25 * hi, lo - 2e-4, hi + 3e-4, lo - 2, hi + 5};
    if (im == 0) pos = {lo, hi, 0.375 * lo + 0.625 * hi, lo - 2e-4, hi + 3e-4};
    auto ref = [&](double x) { int s = 0; while (s < n - 2 && x > X[s + 1]) ++s; LD t = ((LD) x - X[s]) / ((LD) X[s + 1] - X[s]); if (im == 2) t = std::min<LD>(1, std::max<LD>(0, t)); return V[s] * (1 - t) + V[s + 1] * t; };
    for (int len = 1; len <= (im ? 4 : mc::Tier(2, 4)); ++len) for (mc::Odo o(mc::rep((int) pos.size(), len)); o; ++o) {
      std::vector<double> q; bool out = false;
      for (int i = 0; i < len; ++i) { q.push_back(pos[o[i]]); out = out || q.back() < lo || q.back() > hi; }
      mc::Visit("qv", im, n, q);
      if (im == 0 && out) {
        mc::Ending e = mc::InChild([&] { p->Eval(q); });
        MC_CHECK(e == mc::EXIT_NONZERO || e == mc::SIGNALLED || e == mc::THREW, "plain linear interpolator, vector %s: call %s", mc::vstr(q).c_str(), mc::endname(e));
        mc::Outcome("refused outside");
        continue;
      }
      auto r = p->Eval(q), r2 = (*p)(q);
      mc::Same(r.size(), q.size(), "vector evaluation size"); mc::Same(r2.size(), q.size(), "vector evaluation size");
      for (int i = 0; i < len; ++i) { mc::Near(r[i], ref(q[i]), 100, 1e-13L, "element %d of vector %s", i, mc::vstr(q).c_str()); mc::Near(r2[i], ref(q[i]), 100, 1e-13L, "call, element %d of vector %s", i, mc::vstr(q).c_str()); }
      mc::Outcome("vector");
    }
  }
  // unsupported methods: no interpolator comes back
  for (int m : {(int) BSPLINE, 4, 17, -1}) for (int c = 0; c < 2; ++c) {
    if (!mc::Case([&] { return mc::str("factory method=%d complex=%d", m, c); })) continue;
    mc::Visit("factory", m, c);
    mc::Ending e = mc::InChild([&] {
      if (c) { auto p = Interp1d<double, Z>::MakeInterp1d((INTERP_METHOD) m); if (!p) _exit(9); }
      else { auto p = Interp1d<double, double>::MakeInterp1d((INTERP_METHOD) m); if (!p) _exit(9); }
    });
    MC_CHECK(e != mc::RETURNED && e != mc::EXIT_ZERO && e != mc::MISUSE, "factory accepted method %d (%s)", m, mc::endname(e));
    mc::Outcome("factory refused");
  }
}
MC_MAIN(explore)
