// C19 - 1D integration.
//@bounds quick: all histories of length <= 6 over {SetXmin x2, SetXmax x2, SetMethod(trapezoidal / Newton-Cotes), Get} on a function integrator and a data integrator, all histories of length <= 5 over two integrators with copies; all sample words over 5 values for 2..6 points with 6 ranges; every number of points up to 140 and 15 sizes around powers of two up to 4097; all gap words over 3 gaps for non-uniform abscissae (2..6 points); double, float, complex data; all histories of <= 2 bound changes by nine relative amounts from nothing to -100% on four intervals, reads in between; nearly uniform abscissae of 2..20 points; Integrate1d on float and long double
//@bounds thorough: histories up to 8 / 6, words up to 8 points, up to 65537 points
//@model composite trapezoidal sum in long double over the settings in force
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;
static double f0(double x) { return 3 * x - 2; }
static double f1(double x) { return x * x * x - 4 * x + 1; }
static double f2(double x) { return std::sin(3 * x) + 2; }
static double f3(double) { return 5; }
typedef double (*F)(double);
static F FS[4] = {f0, f1, f2, f3};
struct R { LD v, s; };
static R trap(const V &y, LD dx) { LD s = 0, a = 0; for (size_t i = 0; i + 1 < y.size(); ++i) { s += ((LD) y[i] + y[i + 1]) / 2 * dx; a += (fabsl(y[i]) + fabsl(y[i + 1])) / 2 * fabsl(dx); } return {s, a}; }
static R trap(F f, double a, double b, unsigned n) { V y; LD dx = ((LD) b - a) / (n - 1); for (unsigned i = 0; i < n; ++i) y.push_back(f((double) (a + i * dx))); R r = trap(y, dx); r.s += fabsl(dx) * n * 30 + fabsl((LD) b - a) * 30; return r; }
static void one(F f, int fi, double a, double b, unsigned n) {
  if (!mc::Case([&] { return mc::str("function %d over [%g,%g], %u points", fi, a, b, n); })) return;
  mc::Visit("f", fi, a, b, n);
  Integrate1d<double> I(f, a, b, n);
  mc::Same(I.GetXmin(), a, "lower bound"); mc::Same(I.GetXmax(), b, "upper bound");
  R r = trap(f, a, b, n);
  mc::Near(I.Get(), r.v, r.s, 1e-12L, "trapezoidal integral"); mc::Near(I.Get(), r.v, r.s, 1e-12L, "second read");
  if (fi == 0) mc::Near(I.Get(), ((LD) b - a) * (1.5L * ((LD) a + b) - 2), r.s, 1e-12L, "integral of a straight line");
  mc::Outcome("function integral");
}
static void data(const V &y, double a, double b) {
  if (!mc::Case([&] { return mc::str("data over [%g,%g] ", a, b) + mc::vstr(y); })) return;
  mc::Visit("d", y, a, b);
  V y0 = y;
  Integrate1d<double> I(y0, a, b, (unsigned) y.size());
  for (double &v : y0) v = 1e9;      // the caller's vector is not referred to any more
  R r = trap(y, ((LD) b - a) / (y.size() - 1));
  mc::Near(I.Get(), r.v, r.s, 1e-13L * y.size(), "trapezoidal integral of the data"); mc::Near(I.Get(), r.v, r.s, 1e-13L * y.size(), "second read");
  mc::Outcome("data integral");
}
static void uniform(const V &y, double dx) {
  if (!mc::Case([&] { return mc::str("Trapz step %g ", dx) + mc::vstr(y); })) return;
  mc::Visit("u", y, dx);
  R r = trap(y, dx), r1 = trap(y, 1);
  LD e = 1e-14L * y.size();
  mc::Near(Trapz(y, dx), r.v, r.s, e, "Trapz with step");
  mc::Near(Trapz(y), r1.v, r1.s, e, "Trapz with the default step");
  V x; for (size_t i = 0; i < y.size(); ++i) x.push_back(i * dx);
  mc::Near(Trapz(x, y), r.v, r.s, e, "Trapz on uniform abscissae");
  std::vector<float> yf(y.begin(), y.end());
  mc::Near(Trapz(yf, (float) dx), r.v, r.s, 1e-6L * y.size(), "Trapz, float");
  std::vector<std::complex<double>> yc; for (size_t i = 0; i < y.size(); ++i) yc.push_back({y[i], y[y.size() - 1 - i]});
  R ri = trap(V(y.rbegin(), y.rend()), dx);
  mc::NearC(Trapz(yc, std::complex<double>(dx)), std::complex<LD>(r.v, ri.v), r.s, e, "Trapz, complex");
  mc::Outcome("uniform samples");
}
static void nonuniform(const V &x, const V &y) {
  if (!mc::Case([&] { return "Trapz x=" + mc::vstr(x) + " y=" + mc::vstr(y); })) return;
  mc::Visit("n", x, y);
  auto ref = [&](size_t a, size_t b) { R r{0, 0}; for (size_t i = a; i < b; ++i) { LD h = (LD) x[i + 1] - x[i]; r.v += h * ((LD) y[i] + y[i + 1]) / 2; r.s += fabsl(h) * (fabsl(y[i]) + fabsl(y[i + 1])) / 2; } return r; };
  size_t n = x.size(); const LD TOLN = 2e-16L * (n + 8); R r = ref(0, n - 1);
  const V xc = x, yc = y;
  mc::Near(Trapz(xc, yc), r.v, r.s, TOLN, "Trapz on abscissae");
  for (size_t c = 1; c + 1 < n; c += n > 150 ? n / 7 : 1) {   // additive
    V xl(x.begin(), x.begin() + c + 1), yl(y.begin(), y.begin() + c + 1), xr(x.begin() + c, x.end()), yr(y.begin() + c, y.end());
    mc::Near((LD) Trapz(xl, yl) + Trapz(xr, yr), r.v, r.s, TOLN, "additivity at sample %zu", c);
  }
  V line; for (double v : x) line.push_back(3 * v - 2);
  LD a = x[0], b = x[n - 1], sc = 0; for (size_t i = 0; i + 1 < n; ++i) sc += fabsl((LD) x[i + 1] - x[i]) * (fabsl(line[i]) + fabsl(line[i + 1]) + 4);
  mc::Near(Trapz(x, line), 1.5L * (b * b - a * a) - 2 * (b - a), sc, TOLN, "exact for a straight line");
  mc::Outcome("non-uniform samples");
}
// histories: model = current settings
struct Set { F f; V y; double a, b; unsigned n; int m; };
static void readcheck(Integrate1d<double> &I, const Set &s, const char *w) {
  mc::Same(I.GetXmin(), s.a, "%s: lower bound", w); mc::Same(I.GetXmax(), s.b, "%s: upper bound", w);
  mc::Same((int) I.GetIntegrationMethod(), s.m ? (int) NEWTON_COTES : (int) TRAPEZOIDAL, "%s: method", w);
  if (s.m) {
    MC_CHECK(mc::Throws([&] { I.Get(); }), "%s: an unimplemented method gave a result", w);
    mc::Outcome("refused method");
  } else {
    R r = s.f ? trap(s.f, s.a, s.b, s.n) : trap(s.y, ((LD) s.b - s.a) / (s.n - 1));
    mc::Near(I.Get(), r.v, r.s, 1e-12L, "%s: integral for [%g,%g]", w, s.a, s.b);
    mc::Outcome("read");
  }
}
static void history(const mc::Odo &o, int len, bool fn) {
  // a refused read costs an exception; histories with more than 2 of them are left out
  Set s{fn ? f1 : nullptr, {1, 4, -2, 8, 0.5}, 0, 2, fn ? 7u : 5u, 0};
  { int m = 0, ex = 0; for (int i = 0; i < len; ++i) { if (o[i] == 4) m = 0; if (o[i] == 5) m = 1; if (o[i] == 6 && m) ++ex; } if (ex > 2) return; }
  if (!mc::Case([&] { std::string t = fn ? "function:" : "data:"; static const char *N[] = {" SetXmin(-1)", " SetXmin(1.5)", " SetXmax(3)", " SetXmax(0)", " SetMethod(TRAPEZOIDAL)", " SetMethod(NEWTON_COTES)", " Get"}; for (int i = 0; i < len; ++i) t += N[o[i]]; return t; })) return;
  std::unique_ptr<Integrate1d<double>> I(fn ? new Integrate1d<double>(s.f, s.a, s.b, s.n) : new Integrate1d<double>(s.y, s.a, s.b, s.n));
  for (int i = 0; i < len; ++i) {
    mc::Visit("h", fn, s.a, s.b, s.m, o[i], i ? o[i - 1] : -1);
    switch (o[i]) {
      case 0: case 1: s.a = o[i] ? 1.5 : -1; I->SetXmin(s.a); break;
      case 2: case 3: s.b = o[i] == 2 ? 3 : 0; I->SetXmax(s.b); break;
      case 4: s.m = 0; I->SetIntegrationMethod(TRAPEZOIDAL); break;
      case 5: s.m = 1; I->SetIntegrationMethod(NEWTON_COTES); break;
      case 6: readcheck(*I, s, "read"); break;
    }
  }
  if (!s.m) readcheck(*I, s, "final read");
}
static void pairs(const mc::Odo &o, int len) {
  if (!mc::Case([&] { std::string t = "pair:"; for (int i = 0; i < len; ++i) t += mc::str(" %d", o[i]); return t; })) return;
  Set s[2] = {{f1, {}, 0, 2, 7, 0}, {nullptr, {1, 4, -2, 8, 0.5}, -1, 1, 5, 0}};
  Integrate1d<double> I[2] = {Integrate1d<double>(f1, 0, 2, 7), Integrate1d<double>(s[1].y, -1, 1, 5)};
  for (int i = 0; i < len; ++i) {
    int k = o[i] & 1;
    mc::Visit("p", s[0].a, s[0].b, s[1].a, s[1].b, s[0].n, s[1].n, o[i]);
    switch (o[i] / 2) {
      case 0: readcheck(I[k], s[k], "pair read"); break;
      case 1: I[k].SetXmax(s[k].b = s[k].b + 1); break;
      case 2: I[k] = I[1 - k]; s[k] = s[1 - k]; break;
      case 3: { Integrate1d<double> c(I[k]); c.SetXmin(-7); Set t = s[k]; t.a = -7; readcheck(c, t, "copy"); } break;
    }
  }
  for (int k = 0; k < 2; ++k) readcheck(I[k], s[k], "pair final read");
}
// bounds moved by very little, to the same value, to zero, to minus zero, between reads: every read follows the bounds in force
static void nudge(const mc::Odo &o, int len, bool fn) {
  static const double D[9] = {0, 1e-15, 1e-13, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2, -1};
  static const double B[4][2] = {{0, 2}, {1e-6, 3e-6}, {-3e5, 1e5}, {1, 1 + 1e-7}};
  if (!mc::Case([&] { std::string t = fn ? "nudged function:" : "nudged data:"; for (int i = 0; i <= len; ++i) t += mc::str(" %d", o[i]); return t; })) return;
  Set s{fn ? f1 : nullptr, {1, 4, -2, 8, 0.5}, B[o[0]][0], B[o[0]][1], fn ? 7u : 5u, 0};
  std::unique_ptr<Integrate1d<double>> I(fn ? new Integrate1d<double>(s.f, s.a, s.b, s.n) : new Integrate1d<double>(s.y, s.a, s.b, s.n));
  double w = s.b - s.a;
  auto exact = [&] {
    LD dx = ((LD) s.b - s.a) / (s.n - 1);
    V y = s.y; if (s.f) { y.clear(); for (unsigned i = 0; i < s.n; ++i) y.push_back(s.f((double) (s.a + i * dx))); }
    R r = trap(y, dx);
    LD m = std::max(fabsl(s.a), fabsl(s.b)), slope = s.f ? 3 * m * m + 4 : 0;
    mc::Near(I->Get(), r.v, r.s + fabsl(dx) * s.n * slope * m + m * 10, 2e-15L, "integral for [%.17g,%.17g]", s.a, s.b);
  };
  exact();
  for (int i = 1; i <= len; ++i) {
    mc::Visit("nudge", fn, s.a, s.b, o[i]);
    double d = D[o[i] / 2] * w;
    if (o[i] & 1) I->SetXmin(s.a = s.a + d); else I->SetXmax(s.b = s.b + d);
    exact();
  }
  mc::Outcome("nudged bounds");
}
static float g1(float x) { return x * x - 3 * x + 1; }
static LD g2(LD x) { return x * x - 3 * x + 1; }
template<class T> static void typed(const char *tn, T (*f)(T), double a, double b, unsigned n, LD tol) {
  if (!mc::Case([&] { return mc::str("Integrate1d<%s> over [%g,%g], %u points", tn, a, b, n); })) return;
  mc::Visit("typed", tn, a, b, n);
  Integrate1d<T> I(f, (T) a, (T) b, n); LD s = 0, sc = 0, dx = ((LD) b - a) / (n - 1);
  for (unsigned i = 0; i < n; ++i) { LD v = g2(a + i * dx) * dx * (i == 0 || i + 1 == n ? 0.5L : 1); s += v; sc += fabsl(v) + fabsl(dx) * 10; }
  mc::Near(I.Get(), s, sc, tol * n, "integral");
  I.SetXmax((T) (b + 1)); I.Get(); I.SetXmax((T) b); mc::Near(I.Get(), s, sc, tol * n, "integral after the bound went away and back");
  mc::Outcome("other scalar types");
}
static void explore() {
  for (int len = 1; len <= mc::Tier(2, 3); ++len) { std::vector<int> z = {4}; for (int i = 0; i < len; ++i) z.push_back(18); for (mc::Odo o(z); o; ++o) for (int fn = 0; fn < 2; ++fn) nudge(o, len, fn); }
  for (unsigned n : {2u, 3u, 5u, 16u, 50u, 101u}) for (double b : {1., 2.5, -1., 40.}) { typed<float>("float", g1, 0, b, n, 2e-7L); typed<LD>("long double", g2, 0, b, n, 2e-18L); }
  for (int n = 2; n <= 20; ++n) for (auto &x : mc::NearlyUniform(n)) for (int k = 0; k < 2; ++k) { V y; for (int i = 0; i < n; ++i) y.push_back(mc::gen(i + 9 * k) * (k ? 1e3 : 1)); nonuniform(x, y); }
  for (int len = 1; len <= mc::Tier(6, 8); ++len) for (mc::Odo o(mc::rep(7, len)); o; ++o) { history(o, len, true); if (len < mc::Tier(6, 8)) history(o, len, false); }
  for (int len = 1; len <= mc::Tier(5, 6); ++len) for (mc::Odo o(mc::rep(8, len)); o; ++o) pairs(o, len);
  double rg[6][2] = {{0, 1}, {-2, 3}, {5, 5.25}, {1, -1}, {-1000, 1000}, {2, 2}};
  for (int fi = 0; fi < 4; ++fi) for (auto &r : rg) for (unsigned n : {2u, 3u, 4u, 5u, 8u, 16u, 33u, 101u, 400u, mc::Tier(257u, 20000u)}) one(FS[fi], fi, r[0], r[1], n);
  double al[5] = {0, 1, -2.5, 7, -1e3};
  for (int n = 2; n <= mc::Tier(6, 8); ++n) for (mc::Odo o(mc::rep(n <= 6 ? 5 : 3, n)); o; ++o) {
    V y; for (int i = 0; i < n; ++i) y.push_back(al[o[i]]);
    data(y, rg[o[0]][0], rg[o[0]][1]); uniform(y, o[1] == 0 ? 0.5 : o[1] == 1 ? 0.01 : o[1] == 2 ? 3 : 1);
  }
  std::vector<int> Z; for (int n = 7; n <= 140; ++n) Z.push_back(n);
  for (int n : {255, 256, 257, 400, 401, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4097}) Z.push_back(n);
  if (mc::Thorough()) for (int n : {10000, 20000, 65536, 65537}) Z.push_back(n);
  for (int fi = 0; fi < 4; ++fi) for (int n : Z) one(FS[fi], fi, rg[n % 6][0], rg[n % 6][1], (unsigned) n);
  for (int n : Z) for (int k = 0; k < 6; ++k) { V y, x = {-3}; for (int i = 0; i < n; ++i) { y.push_back(mc::gen(i + k * 11)); if (i) x.push_back(x.back() + 0.125 * (1 + (i * (k + 1)) % 5)); } data(y, rg[k][0], rg[k][1]); uniform(y, 0.25 * (k + 1)); nonuniform(x, y); }
  double gp[3] = {0.015625, 1, 6};
  for (int n = 2; n <= mc::Tier(6, 8); ++n) for (mc::Odo o(mc::rep(3, n - 1)); o; ++o) for (int k = 0; k < 5; ++k) {
    V x = {k % 2 ? -3.5 : 100.}, y; for (int i = 0; i + 1 < n; ++i) x.push_back(x.back() + gp[o[i]]);
    for (int i = 0; i < n; ++i) y.push_back(k < 3 ? mc::gen(i + 9 * k) : i == (o[0] + k) % n);
    nonuniform(x, y);
    if (k == 0) nonuniform(V(x.rbegin(), x.rend()), y);
  }
}
MC_MAIN(explore)
