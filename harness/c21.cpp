// C21 - Horner evaluation.
//@bounds quick: all coefficient words over 7 values up to length 5 (and 3 values up to length 9) at 34 real and 39 complex arguments (also within 1e-14 of the axes and of +-1); generic lists of every length 1..330 and six up to 1025; one coefficient of every position from 1e-300 to 1e20 among ordinary ones, lengths 2..12; single-coefficient lists x^k for every k < 60; every history of up to 3 changes in place (three coefficients, the argument) of lists of 2 to 300 coefficients, evaluated after each
//@bounds thorough: words over 9 values up to length 6, lengths up to 1200
//@model sum of coefficient times power in long double, scale = sum of absolute terms
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;
typedef std::complex<LD> CL;
typedef std::complex<double> CD;
static void poly(const V &c, const V &xs, const std::vector<CD> &zs) {
  if (!mc::Case([&] { return "coefficients " + mc::vstr(c); })) return;
  V k = c; const V cc = c;
  size_t n = c.size();
  LD e = 4e-16L * (2 * n + 2);
  for (double x : xs) {
    mc::Visit(c, x);
    LD s = 0, a = 0, d = 0, b = 0, p = 1, q = 0;   // p = x^i, q = x^(i-1)
    for (size_t i = 0; i < n; ++i) { s += c[i] * p; a += fabsl(c[i] * p); d += i * c[i] * q; b += fabsl(i * c[i] * q); q = p; p *= x; }
    if (!(a < 1e300L && b < 1e300L)) continue;
    mc::Near(Horner<double>(cc, x), s, a, e, "Horner at %g", x);
    mc::Near(Horner_derivative<double>(k, x), d, b, e, "Horner_derivative at %g", x);
    if (n <= 6 && a < 1e30L && b < 1e30L) { mc::Near(Horner<float>(cc, (float) x), [&] { LD r = 0, p = 1; for (double v : c) { r += v * p; p *= (float) x; } return r; }(), a + 1e-25L, 1e-6L * (n + 1), "Horner float at %g", x); }
    mc::Near(Horner<double>(k, x), s, a, e, "Horner after the derivative at %g", x);
  }
  for (CD z : zs) {
    mc::Visit(c, z);
    CL s = 0, d = 0, p = 1, q = 0, zz(z.real(), z.imag()); LD a = 0, b = 0;
    for (size_t i = 0; i < n; ++i) { s += (LD) c[i] * p; a += std::abs((LD) c[i] * p); d += (LD) i * (LD) c[i] * q; b += std::abs((LD) i * (LD) c[i] * q); q = p; p *= zz; }
    if (!(a < 1e300L && b < 1e300L)) continue;
    mc::NearC(Horner<CD>(cc, z), s, a, 4 * e, "complex Horner at (%g,%g)", z.real(), z.imag());
    mc::NearC(Horner_derivative<CD>(k, z), d, b, 4 * e, "complex Horner_derivative at (%g,%g)", z.real(), z.imag());
  }
  mc::SameV(k, c, "coefficients after evaluation");
  mc::Outcome("polynomial");
}
// one coefficient list used through a history of changes in place: every word of changes, an evaluation after each
static void history(int n, const std::vector<int> &o) {
  if (!mc::Case([&] { return mc::str("%d coefficients, changed in place: ", n) + mc::vstr(o); })) return;
  V c; for (int i = 0; i < n; ++i) c.push_back(mc::gen(i + n));
  double x = 0.75; CD z(0.5, -0.625);
  auto look = [&](size_t step) {
    LD s = 0, a = 0, d = 0, b = 0, p = 1, q = 0; CL zs = 0, zd = 0, zp = 1, zq = 0, zz(z.real(), z.imag()); LD za = 0, zb = 0;
    for (int i = 0; i < n; ++i) { s += c[i] * p; a += fabsl(c[i] * p); d += i * c[i] * q; b += fabsl(i * c[i] * q); q = p; p *= x; zs += (LD) c[i] * zp; za += std::abs((LD) c[i] * zp); zd += (LD) i * (LD) c[i] * zq; zb += std::abs((LD) i * (LD) c[i] * zq); zq = zp; zp *= zz; }
    LD e = 4e-16L * (2 * n + 2);
    mc::Visit("history", n, step, c);
    mc::Near(Horner<double>(c, x), s, a, e, "Horner after %zu changes", step); mc::Near(Horner_derivative<double>(c, x), d, b, e, "Horner_derivative after %zu changes", step);
    mc::NearC(Horner<CD>(c, z), zs, za, 4 * e, "complex Horner after %zu changes", step); mc::NearC(Horner_derivative<CD>(c, z), zd, zb, 4 * e, "complex Horner_derivative after %zu changes", step);
  };
  look(0);
  for (size_t k = 0; k < o.size(); ++k) {
    if (o[k] == 0) c[0] += 1.5; else if (o[k] == 1) c[n / 2] -= 2.25; else if (o[k] == 2) c[n - 1] = -c[n - 1]; else if (o[k] == 3) x = -x; else z = std::conj(z);
    look(k + 1);
  }
  mc::Outcome("changes in place");
}
static void explore() {
  for (int n : {2, 3, 8, 16, 17, 33, 65, 129, 300}) for (int l = 1; l <= mc::Tier(3, 5); ++l) for (mc::Odo o(mc::rep(5, l)); o; ++o) history(n, o.v);
  V xs = {0, 1, -1, 0.5, -0.5, 2, -2, 1e-3, -1e-3, 10, -10, 1e3, -1e3, 3.25, -7.125, 0.999, 1.001, 1e-8, 1e6, -1e6, 1e-300, 0.1, -0.0, 1 - 1e-9, 1 + 1e-9, -1 + 1e-7, -1 - 1e-12, 1e-5, 1e-12, 1e-16, 0.9, -0.9, 100, 1e12};
  std::vector<CD> zs;
  for (double x : {1., -2., 0.3}) { zs.push_back(CD(x, 0)); zs.push_back(CD(0, x)); zs.push_back(CD(x, 1e-9)); zs.push_back(CD(x, -1e-14)); zs.push_back(CD(1e-10, x)); }
  for (double r : {1e-3, 0.5, 1., 4.}) for (int k = 0; k < 6; ++k) zs.push_back(std::polar(r, k * 1.0471975511965976 + 0.1 * (r > 1)));
  V al = {0, 1, -1, 2.5, -3, 1e4, 1e-4, -7, 0.1};
  int na = mc::Tier(7, 9);
  for (int n = 1; n <= mc::Tier(5, 6); ++n) for (mc::Odo o(mc::rep(na, n)); o; ++o) { V c; for (int i = 0; i < n; ++i) c.push_back(al[o[i]]); poly(c, n <= 4 ? xs : V(xs.begin(), xs.begin() + 8), n <= 3 ? zs : std::vector<CD>(zs.begin() + 19, zs.begin() + 24)); }
  for (int n = 6; n <= 9; ++n) for (mc::Odo o(mc::rep(3, n)); o; ++o) { V c; for (int i = 0; i < n; ++i) c.push_back(al[o[i]]); poly(c, {0.5, -2, 1.001}, {CD(0.5, -1)}); }
  for (int n = 1; n <= mc::Tier(330, 1200); ++n) { V c; for (int i = 0; i < n; ++i) c.push_back(mc::gen(i + n)); poly(c, xs, zs); }
  for (int n : {500, 512, 513, 1000, 1024, 1025}) { V c; for (int i = 0; i < n; ++i) c.push_back(mc::gen(i + n)); poly(c, xs, zs); }
  for (int n = 2; n <= 12; ++n) for (int i = 0; i < n; ++i) for (double t : {1e-9, 1e-12, 1e-15, 1e-17, 1e-30, 1e-300, 1e9, 1e20}) { V c; for (int j = 0; j < n; ++j) c.push_back(j == i ? t : mc::gen(j + 3 * n)); poly(c, xs, {CD(0.5, -1)}); V d(n, 0.); d[i] = t; poly(d, xs, {CD(0.5, -1)}); V e(n, t); e[i] = -t; poly(e, xs, {CD(0.5, -1)}); }
  for (int k = 0; k < 60; ++k) { V c((size_t) k + 1, 0); c[k] = 3; poly(c, xs, zs); c.resize(k + 5, 0); poly(c, xs, zs); }
}
MC_MAIN(explore)
