// C27 - special functions.
//@bounds quick: Bessel functions J, Y, I, K, Hankel and their derivatives for orders 0..25 and 8 fractional orders at 430 arguments in (0,450]; orders -1..-8 and 6 negative fractional ones at 14 arguments; all functions at pairs of arguments 1e-12..1e-3 apart around 18 arguments (J and I also at 0 and negative arguments); Legendre, Chebyshev (plain, shifted, by recurrence) and derivatives for orders 0..40 at 141 arguments; factorials 0..170; gamma at 280 arguments; Struve and exponential-integral functions at 4500 arguments each plus every representable neighbour (4 on each side) of every switching point (1, 3, 4, 6, 12, 24); every function evaluated twice and in two orders
//@bounds thorough: orders up to 60, about 7 times as many arguments
//@model libstdc++'s long-double Bessel functions (an implementation independent of Boost), own long-double series, continued fractions, recurrences and quadratures for the rest
//@assume accuracy expected of the rational approximations: 1.7e-8 and 1.2e-8 (Struve, order zero, below and above 3), 4e-9 and 3.3e-8 (order one), relative 1e-13, 3e-14, 6e-15 (exponential integrals below 1, below 6, above)
#include "mc.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using mc::LD;
static LD PI() { return acosl(-1.L); }
static LD refExpEi(LD x);
static LD refEi(LD x) {                                    // x > 0
  LD s = 0.577215664901532860606512090082402431L + logl(x), t = 1;
  for (int k = 1; k < 4000; ++k) { t *= x / k; s += t / k; if (t / k < 1e-22L * fabsl(s) && k > x) break; }
  return s;
}
static LD refExpEi(LD x) {                                 // exp(-x) Ei(x)
  if (x < 100) return expl(-x) * refEi(x);
  LD s = 0, t = 1 / x; for (int k = 1; k < 60 && t > 1e-25L * s; ++k) { s += t; t *= k / x; } return s;
}
static LD refE1(LD x) {                                    // x > 0
  if (x < 2) { LD s = -0.577215664901532860606512090082402431L - logl(x), t = 1; for (int k = 1; k < 200; ++k) { t *= -x / k; s -= t / k; } return s; }
  LD f = 0; for (int k = 600; k >= 1; --k) f = k / (1 + k / (x + f));   // 1/(x+1/(1+1/(x+2/(1+2/(x+...
  return expl(-x) / (x + f);
}
static LD struveK(int n, LD x) {                           // H_n - Y_n, by Simpson's rule on t = sinh s
  LD S = asinhl(60 / x), r = 0; int N = 4000;
  for (int i = 0; i <= N; ++i) { LD s = S * i / N, c = coshl(s); LD f = expl(-x * sinhl(s)) * (n ? c * c : 1); r += f * (i == 0 || i == N ? 1 : i % 2 ? 4 : 2); }
  r *= S / N / 3;
  return 2 / PI() * r * (n ? x : 1);
}
static LD refH(int n, LD x) {
  if (x < 8) { LD t = n ? 2 * x * x / (3 * PI()) : 2 * x / PI(), s = t; for (int k = 1; k < 80; ++k) { t *= -x * x / ((2 * k + 1) * (LD) (2 * k + 1 + 2 * n)); s += t; } return s; }
  return std::cyl_neumannl(n, x) + struveK(n, x);
}
template<class T> void bessel(T n, double x, LD v) {
  if (!mc::Case([&] { return mc::str("Bessel functions of order %g at %.17g", (double) n, x); })) return;
  mc::Visit("bessel", (double) n, x);
  LD j = std::cyl_bessel_jl(v, x), j1 = std::cyl_bessel_jl(v + 1, x), y = std::cyl_neumannl(v, x), y1 = std::cyl_neumannl(v + 1, x);
  LD i = std::cyl_bessel_il(v, x), i1 = std::cyl_bessel_il(v + 1, x), k = std::cyl_bessel_kl(v, x), k1 = std::cyl_bessel_kl(v + 1, x);
  LD q = v / x, e = 1e-12L, osc = x > v ? sqrtl(2 / (PI() * x)) : 0;   // oscillating range: absolute accuracy
  double J = Cyl_Bessel_first_kind<T, double, double>(n, x);
  mc::Near(J, j, osc, e, "J");
  mc::Near(Cyl_Bessel_first_kind_derivative<T, double, double>(n, x), q * j - j1, std::max(osc, fabsl(j) + fabsl(q * j)), e, "J'");
  mc::Near(Cyl_modified_Bessel_first_kind<T, double, double>(n, x), i, 0, e, "I");
  mc::Near(Cyl_modified_Bessel_first_kind_derivative<T, double, double>(n, x), q * i + i1, 0, e, "I'");
  if (k < 1e250L) {
    mc::Near(Cyl_modified_Bessel_second_kind<T, double, double>(n, x), k, 0, e, "K");
    mc::Near(Cyl_modified_Bessel_second_kind_derivative<T, double, double>(n, x), q * k - k1, 0, e, "K'");
  }
  if (fabsl(y) < 1e250L) {
    LD sy = std::max(osc, 0.L);
    mc::Near(Cyl_Bessel_second_kind<T, double, double>(n, x), y, sy, e, "Y");
    LD yp = q * y - y1, sp = std::max(osc, fabsl(q * y));
    mc::Near(Cyl_Bessel_second_kind_derivative<T, double, double>(n, x), yp, sp, e, "Y'");
    auto h = Cyl_Hankel_first_kind<T, double>(n, x), hp = Cyl_Hankel_first_kind_derivative<T, double>(n, x);
    mc::Near(h.real(), j, osc, e, "Re H1"); mc::Near(h.imag(), y, sy, e, "Im H1");
    // the recurrence used for the derivative cancels: accuracy relative to its terms
    mc::Near(hp.real(), q * j - j1, std::max(osc, fabsl(q * j)) + fabsl(j), 4 * e, "Re H1'"); mc::Near(hp.imag(), yp, sp, 4 * e, "Im H1'");
  }
  mc::Same(Cyl_Bessel_first_kind<T, double, double>(n, x), J, "J evaluated again");
  mc::Outcome("Bessel");
}
static void besselSpecial(int n, double x) {               // zero and negative arguments
  if (!mc::Case([&] { return mc::str("first-kind Bessel functions of order %d at %.17g", n, x); })) return;
  mc::Visit("bessel0", n, x);
  LD a = fabsl(x), s = (x < 0 && n % 2) ? -1 : 1, sd = (x < 0 && n % 2 == 0) ? -1 : 1, e = 1e-12L;
  LD j, jp, i, ip;
  if (x == 0) { j = i = n == 0; jp = ip = n == 1 ? 0.5L : 0; }
  else { j = s * std::cyl_bessel_jl(n, a); jp = sd * (n / a * std::cyl_bessel_jl(n, a) - std::cyl_bessel_jl(n + 1, a)); i = s * std::cyl_bessel_il(n, a); ip = sd * (n / a * std::cyl_bessel_il(n, a) + std::cyl_bessel_il(n + 1, a)); }
  LD osc = a > n ? sqrtl(2 / (PI() * a)) : 0;
  mc::Near(Cyl_Bessel_first_kind<int, double, double>(n, x), j, osc, e, "J");
  mc::Near(Cyl_Bessel_first_kind_derivative<int, double, double>(n, x), jp, std::max(osc, (a ? fabsl(n / a * j) : 0) + fabsl(j)), e, "J'");
  mc::Near(Cyl_modified_Bessel_first_kind<int, double, double>(n, x), i, 0, e, "I");
  mc::Near(Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x), ip, 0, e, "I'");
  mc::Outcome("Bessel at zero or negative");
}
// negative orders
static void besselNeg(double v, double x, bool integer) {   // order -v, v > 0
  if (!mc::Case([&] { return mc::str("Bessel functions of order %g at %.17g", -v, x); })) return;
  mc::Visit("besselneg", v, x);
  auto J = [&](LD w) { if (w >= 0) return std::cyl_bessel_jl(w, x); LD u = -w; if (u == floorl(u)) return (fmodl(u, 2) ? -1.L : 1.L) * std::cyl_bessel_jl(u, x); return cosl(u * PI()) * std::cyl_bessel_jl(u, x) - sinl(u * PI()) * std::cyl_neumannl(u, x); };
  auto Y = [&](LD w) { if (w >= 0) return std::cyl_neumannl(w, x); LD u = -w; if (u == floorl(u)) return (fmodl(u, 2) ? -1.L : 1.L) * std::cyl_neumannl(u, x); return sinl(u * PI()) * std::cyl_bessel_jl(u, x) + cosl(u * PI()) * std::cyl_neumannl(u, x); };
  auto I = [&](LD w) { if (w >= 0) return std::cyl_bessel_il(w, x); LD u = -w; if (u == floorl(u)) return std::cyl_bessel_il(u, x); return std::cyl_bessel_il(u, x) + 2 / PI() * sinl(u * PI()) * std::cyl_bessel_kl(u, x); };
  auto K = [&](LD w) { return std::cyl_bessel_kl(fabsl(w), x); };
  LD n = -v, e = 1e-11L, osc = sqrtl(2 / (PI() * x));
  LD sj = std::max(osc, fabsl(J(n - 1)) + fabsl(J(n + 1))), sy = std::max(osc, fabsl(Y(n - 1)) + fabsl(Y(n + 1)));
  if (!(sj < 1e200L && sy < 1e200L)) return;
  auto go = [&](auto o) {
    typedef decltype(o) T;
    mc::Near(Cyl_Bessel_first_kind<T, double, double>(o, x), J(n), std::max(osc, fabsl(Y(n))), e, "J"); mc::Near(Cyl_Bessel_first_kind_derivative<T, double, double>(o, x), (J(n - 1) - J(n + 1)) / 2, sj, e, "J'");
    mc::Near(Cyl_Bessel_second_kind<T, double, double>(o, x), Y(n), std::max(osc, fabsl(J(n))), e, "Y"); mc::Near(Cyl_Bessel_second_kind_derivative<T, double, double>(o, x), (Y(n - 1) - Y(n + 1)) / 2, sy, e, "Y'");
    mc::Near(Cyl_modified_Bessel_first_kind<T, double, double>(o, x), I(n), I(v), e, "I"); mc::Near(Cyl_modified_Bessel_first_kind_derivative<T, double, double>(o, x), (I(n - 1) + I(n + 1)) / 2, fabsl(I(n - 1)) + fabsl(I(n + 1)), e, "I'");
    mc::Near(Cyl_modified_Bessel_second_kind<T, double, double>(o, x), K(n), 0, e, "K"); mc::Near(Cyl_modified_Bessel_second_kind_derivative<T, double, double>(o, x), -(K(n - 1) + K(n + 1)) / 2, K(n - 1) + K(n + 1), e, "K'");
    auto h = Cyl_Hankel_first_kind<T, double>(o, x), hp = Cyl_Hankel_first_kind_derivative<T, double>(o, x);
    mc::Near(h.real(), J(n), std::max(osc, fabsl(Y(n))), e, "Re H1"); mc::Near(h.imag(), Y(n), std::max(osc, fabsl(J(n))), e, "Im H1"); mc::Near(hp.real(), (J(n - 1) - J(n + 1)) / 2, sj + sy, e, "Re H1'"); mc::Near(hp.imag(), (Y(n - 1) - Y(n + 1)) / 2, sj + sy, e, "Im H1'");
  };
  if (integer) go((int) -v); go(-v);
  mc::Outcome("Bessel of negative order");
}
// accuracy of the tabulated approximations (a more accurate evaluation is always accepted)
static LD accH(int n, double x) { return n == 0 ? (x <= 3.0001 ? 1.7e-8L : 1.2e-8L) : x <= 2.9999 ? 4e-9L : 3.3e-8L; }
static LD accEi(double x) { return x < 1 ? 1e-13L : x < 6 ? 3e-14L : 6e-15L; }
// nearly equal arguments and orders one after the other: every call answers for its own argument
static void nearby(double x0) {
  if (!mc::Case([&] { return mc::str("all functions at arguments close to %.17g", x0); })) return;
  for (double d : {1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3}) for (double x : {x0, x0 * (1 + d), x0, x0 * (1 - d), x0 + d}) {
    mc::Visit("nearby", x0, d, x);
    LD e = 1e-12L, se = fabsl(x - 0.3725L) < 0.3L ? 0.3L : 0;
    mc::Near(Struve_zero_order<double>(x), refH(0, x), 1, accH(0, x), "Struve_zero_order at %.17g", x); mc::Near(Struve_first_order<double>(x), refH(1, x), 1, accH(1, x), "Struve_first_order at %.17g", x); mc::Near(Struve_zero_order_derivative<double>(x), 2 / PI() - refH(1, x), 1, accH(1, x), "Struve_zero_order_derivative at %.17g", x);
    mc::Near(Ei<double>(x), refEi(x), se, accEi(x), "Ei at %.17g", x); mc::Near(Ei_approximation<double>(x), refEi(x), se, accEi(x), "Ei_approximation at %.17g", x); mc::Near(expEi<double>(x), refExpEi(x), se, accEi(x), "expEi at %.17g", x);
    mc::Near(E1<double>(x), refE1(x), 0, accEi(x), "E1 at %.17g", x); mc::Near(E1_approximation<double>(x), refE1(x), 0, accEi(x), "E1_approximation at %.17g", x);
    mc::Near(Gamma<double>(x), tgammal(x), 0, 2e-13L, "Gamma at %.17g", x);
    for (int n : {0, 1, 2, 5}) {
      LD j = std::cyl_bessel_jl(n, x), j1 = std::cyl_bessel_jl(n + 1, x), y = std::cyl_neumannl(n, x), y1 = std::cyl_neumannl(n + 1, x), i = std::cyl_bessel_il(n, x), i1 = std::cyl_bessel_il(n + 1, x), k = std::cyl_bessel_kl(n, x), k1 = std::cyl_bessel_kl(n + 1, x), q = n / (LD) x, osc = sqrtl(2 / (PI() * x));
      mc::Near(Cyl_Bessel_first_kind<int, double, double>(n, x), j, osc, e, "J%d at %.17g", n, x); mc::Near(Cyl_Bessel_second_kind<int, double, double>(n, x), y, osc, e, "Y%d at %.17g", n, x); mc::Near(Cyl_modified_Bessel_first_kind<int, double, double>(n, x), i, 0, e, "I%d at %.17g", n, x); mc::Near(Cyl_modified_Bessel_second_kind<int, double, double>(n, x), k, 0, e, "K%d at %.17g", n, x);
      mc::Near(Cyl_Bessel_first_kind_derivative<int, double, double>(n, x), q * j - j1, std::max(osc, fabsl(j) + fabsl(q * j)), e, "J%d' at %.17g", n, x); mc::Near(Cyl_Bessel_second_kind_derivative<int, double, double>(n, x), q * y - y1, std::max(osc, fabsl(q * y)), e, "Y%d' at %.17g", n, x); mc::Near(Cyl_modified_Bessel_first_kind_derivative<int, double, double>(n, x), q * i + i1, 0, e, "I%d' at %.17g", n, x); mc::Near(Cyl_modified_Bessel_second_kind_derivative<int, double, double>(n, x), q * k - k1, 0, e, "K%d' at %.17g", n, x);
      auto h = Cyl_Hankel_first_kind<int, double>(n, x); mc::Near(h.real(), j, osc, e, "Re H%d at %.17g", n, x); mc::Near(h.imag(), y, osc, e, "Im H%d at %.17g", n, x);
    }
  }
  mc::Outcome("nearly equal arguments");
}
static void poly(int N, double x) {
  if (!mc::Case([&] { return mc::str("orthogonal polynomials at %.17g", x); })) return;
  std::vector<LD> T(N + 2), D(N + 2, 0), U(N + 2), P(N + 2), Q(N + 2, 0);
  T[0] = 1; T[1] = x; U[0] = 1; U[1] = 2 * (LD) x; P[0] = 1; P[1] = x; Q[1] = 1;
  for (int n = 1; n <= N; ++n) { T[n + 1] = 2 * (LD) x * T[n] - T[n - 1]; U[n + 1] = 2 * (LD) x * U[n] - U[n - 1]; P[n + 1] = ((2 * n + 1) * (LD) x * P[n] - n * P[n - 1]) / (n + 1); Q[n + 1] = Q[n - 1] + (2 * n + 1) * P[n]; }
  for (int n = 0; n <= N; ++n) {
    mc::Visit("poly", n, x);
    LD m = std::max(1.L, fabsl(T[n])), e = 1e-13L * (n * n + 4), dd = n ? n * U[n - 1] : 0;
    mc::Near(Chebyshev_polynomial<int, double>(n, x), T[n], m, e, "Chebyshev_polynomial %d", n);
    mc::Near(Chebyshev_polynomial_derivative<int, double>(n, x), dd, std::max((LD) (n * n + 1), fabsl(dd)), e, "Chebyshev_polynomial_derivative %d", n);
    double s = (x + 1) / 2;                                 // 2s-1 = x up to rounding
    mc::Near(Chebyshev_polynomial_shifted<int, double>(n, s), T[n], std::max(m, fabsl(dd)), e * (1 + fabs(x)), "Chebyshev_polynomial_shifted %d at %.17g", n, s);
    if (n) mc::Near(Chebyshev_polynomial_next<double>(x, (double) T[n], (double) T[n - 1]), T[n + 1], std::max(1.L, fabsl(2 * x * T[n])), 1e-14L, "Chebyshev_polynomial_next %d", n + 1);
    if (fabs(x) <= 1) {
      mc::Near(Legendre_polynomial<int, double>(n, x), P[n], 1, e, "Legendre_polynomial %d", n);
      mc::Near(Legendre_polynomial_derivative<int, double>(n, x), Q[n], n * (n + 1) / 2.L + 1, e, "Legendre_polynomial_derivative %d", n);
    }
  }
  mc::Outcome("orthogonal polynomials");
}
static void struve(double x) {
  if (!mc::Case([&] { return mc::str("Struve functions at %.17g", x); })) return;
  mc::Visit("struve", x);
  LD h0 = refH(0, x), h1 = refH(1, x);
  double a = Struve_zero_order<double>(x), b = Struve_first_order<double>(x), c = Struve_zero_order_derivative<double>(x);
  mc::Near(a, h0, 1, accH(0, x), "Struve_zero_order"); mc::Near(b, h1, 1, accH(1, x), "Struve_first_order");
  mc::Near(c, 2 / PI() - h1, 1, accH(1, x), "Struve_zero_order_derivative");
  if (x < 0.5) { mc::Near(a, h0, 0, 1.6e-7L, "Struve_zero_order, relative"); mc::Near(b, h1, 0, 5e-8L, "Struve_first_order, relative"); }
  mc::Same(Struve_zero_order<double>(x), a, "Struve_zero_order again"); mc::Same(Struve_first_order<double>(x), b, "Struve_first_order again");
  mc::Outcome("Struve");
}
static void expints(double x) {
  if (!mc::Case([&] { return mc::str("exponential integrals at %.17g", x); })) return;
  mc::Visit("expint", x);
  LD ei = refEi(x), e1 = refE1(x), tol = accEi(x);
  LD se = fabsl(x - 0.3725L) < 0.3L ? 0.3L : 0;              // near the zero of Ei: absolute accuracy
  double a = Ei_approximation<double>(x), b = E1_approximation<double>(x);
  if (x < 690) { mc::Near(Ei<double>(x), ei, se, tol, "Ei"); mc::Near(a, ei, se, tol, "Ei_approximation"); }
  mc::Near(expEi<double>(x), refExpEi(x), se, tol, "expEi");
  if (x < 690) { mc::Near(E1<double>(x), e1, 0, tol, "E1"); mc::Near(b, e1, 0, tol, "E1_approximation"); }
  if (x < 690) { mc::Near(Ei<double>(-x), -e1, 0, tol, "Ei of a negative argument"); if (x < 300) mc::Near(expEi<double>(-x), -expl((LD) x) * e1, 0, tol, "expEi of a negative argument"); }
  mc::Same(Ei_approximation<double>(x), a, "Ei_approximation again"); mc::Same(E1_approximation<double>(x), b, "E1_approximation again");
  mc::Outcome("exponential integral");
}
template<class F> void refused(const char *w, double x, F f) {
  if (!mc::Case([&] { return mc::str("%s(%g)", w, x); })) return;
  mc::Visit("refused", w, x);
  mc::Ending e = mc::InChild(f);
  MC_CHECK(e != mc::RETURNED && e != mc::MISUSE, "%s(%g) %s", w, x, mc::endname(e));
  mc::Outcome("refused");
}
static void explore() {
  int dens = mc::Tier(3, 20);
  std::vector<double> X;
  for (int i = 0; i < 60 * dens; ++i) X.push_back(1e-3 * pow(1e5, i / (60. * dens)));
  for (int i = 1; i <= 80 * dens; ++i) X.push_back(1.5 * i / dens);
  for (double x : {1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 130., 150., 200., 300., 450.}) X.push_back(x);
  for (double x : {0.01, 0.3, 0.99, 1., 2.5, 3., 5.9, 6., 7.7, 12., 13.3, 24., 40., 80.}) { for (int n = 1; n <= 8; ++n) besselNeg(n, x, true); for (double v : {0.5, 0.25, 1.5, 2.75, 1 / 3., 4.1}) besselNeg(v, x, false); }
  for (double x : {0.011, 0.2, 0.3725074107813666, 0.7, 1., 1.7, 2.9, 3., 3.5, 4., 5., 6., 8.2, 12., 17., 24., 30., 55.}) nearby(x);
  for (double x : X) { for (int n = 0; n <= mc::Tier(25, 60); ++n) bessel<int>(n, x, n); for (double v : {0.5, 1.5, 2.5, 0.25, 1.0 / 3, 3.75, 10.1, 0.0}) bessel<double>(v, x, v); bessel<double>(3.0, x, 3); }
  for (int n = 0; n <= mc::Tier(25, 60); ++n) for (double x : {0., -0.5, -1., -2.4, -7.7, -30.}) besselSpecial(n, x);
  for (int i = 0; i <= 40 * dens; ++i) poly(mc::Tier(40, 60), -1 + 2. * i / (40 * dens));
  for (double x : {1.0000001, -1.0000001, 1.5, -1.5, 2., -3., 0.999999999, -0.999999999, 1e-9, -1e-9, 0.1, 0.7071067811865476, 5., -5., 1.01, -1.01, 0.3, 0.0625, -0.875, 1e-300}) poly(20, x);
  for (int n = 0; n <= 170; ++n) { if (!mc::Case([&] { return mc::str("factorial of %d", n); })) continue; mc::Visit("factorial", n); LD f = 1; for (int i = 2; i <= n; ++i) f *= i; mc::Near(Factorial<int, double>(n), f, 0, 1e-15L * 4, "Factorial"); if (n) mc::Near(Gamma<double>(n), f / n, 0, 1e-13L, "Gamma"); mc::Outcome("factorial"); }
  for (int i = -40; i <= 80 * dens; ++i) { double x = i * 0.25 + 0.1; if (!mc::Case([&] { return mc::str("gamma of %g", x); })) continue; mc::Visit("gamma", x); mc::Near(Gamma<double>(x), tgammal(x), 0, 1e-13L, "Gamma"); mc::Outcome("gamma"); }
  for (double x : {1e-300, 1e-20, 1e-10, 1e-6, 1e-3, 0.5, 0.999999, 1., 1.0000001, 1.4616321449683622, 1.5, 2., 2.0000001, 3.9999999, 5., 20.5, 33.3, 100.1, 150.7, 170.2, -0.5, -1.5, -1e-6, -0.999, -1.001, -3.999, -10.5, -50.25}) { if (!mc::Case([&] { return mc::str("gamma of %g", x); })) continue; mc::Visit("gamma", x); mc::Near(Gamma<double>(x), tgammal(x), 0, 5e-13L, "Gamma"); mc::Outcome("gamma"); }
  auto around = [](double c, std::vector<double> &v) { double a = c, b = c; v.push_back(c); for (int i = 0; i < 4; ++i) { a = nextafter(a, -1e9); b = nextafter(b, 1e9); v.push_back(a); v.push_back(b); } for (double d : {1e-12, 1e-9, 1e-6, 1e-3}) { v.push_back(c - d); v.push_back(c + d); } };
  std::vector<double> S = {0, 1e-300, 1e-12, 1e-6};
  around(3, S);
  for (int i = 1; i <= 1000 * dens; ++i) S.push_back(i * 0.0151 / dens);
  for (int i = 1; i <= 500 * dens; ++i) S.push_back(15 + i * 0.37 / dens);
  for (double x : {1e-9, 1e-4, 1e-3, 250., 400., 700., 900.}) S.push_back(x);
  for (double x : S) struve(x);
  std::vector<double> Q = {2e-8, 1e-7, 1e-6, 0.3725074107813666, 0.3725074107, 700, 750, 5000};
  for (double c : {1., 4., 6., 12., 24.}) around(c, Q);
  for (int i = 1; i <= 1000 * dens; ++i) Q.push_back(i * 0.0301 / dens);
  for (int i = 1; i <= 300 * dens; ++i) Q.push_back(30 + i * 0.37 / dens);
  for (int i = 1; i <= 200 * dens; ++i) Q.push_back(1e-7 * pow(1e7, i / (200. * dens)));
  for (double x : Q) expints(x);
  for (double x : {0., -1e-9, -1., -7., -30.}) {
    refused("Ei_approximation", x, [&] { (void) Ei_approximation<double>(x); }); refused("E1_approximation", x, [&] { (void) E1_approximation<double>(x); });
    if (x < 0) { refused("Struve_zero_order", x, [&] { (void) Struve_zero_order<double>(x); }); refused("Struve_first_order", x, [&] { (void) Struve_first_order<double>(x); }); refused("Struve_zero_order_derivative", x, [&] { (void) Struve_zero_order_derivative<double>(x); }); }
  }
}
MC_MAIN(explore)
