// C26 - signal shapes, element-wise vector operations, complex-vector helpers, naive convolution.
//@bounds quick: all words of length 1..4 over 11 abscissae around every break point (and their representable neighbours) for steps, doors, Dirac, ramps, sinc with 7 break points and 5 heights, double and float; all operand pairs of words up to length 3 over 9 values for the element-wise operations, also int and complex entries up to length 70, and all words up to length 2 over 11 infinities, undefined, signed-zero, largest and smallest values; lengths up to 40 and 21 lengths around powers of two up to 65537; all complex words up to length 2 over 81 values; every push history (front or back) of length 0..7 through circular buffers of capacity 2..5 with 3 kernels, and 15 histories each for eight capacities up to 257
//@bounds thorough: abscissa words up to length 5, operand words up to length 4, histories up to length 11 and capacities up to 8
//@model the definitions, in long double; a plain list for the circular buffer
//@assume ramps lie within the abscissae; Dirac abscissae are evenly spaced with at least two entries; a convolution history holds exactly as many samples as the kernel when taken in reverse
#include <boost/circular_buffer.hpp>
#include "mc.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using mc::LD;
template<class R> using V = std::vector<R>;
template<class R> LD eps() { return 4 * (LD) std::numeric_limits<R>::epsilon(); }

template<class R> void shapes(const V<R> &x, const char *ty) {
  if (!mc::Case([&] { return mc::str("%s shapes at ", ty) + mc::vstr(x); })) return;
  const V<R> c = x;
  mc::Visit("sinc", ty, x);
  auto s = Sinc<R>(c);
  mc::Same(s.size(), x.size(), "Sinc size");
  for (size_t i = 0; i < x.size(); ++i) mc::Near(s[i], x[i] == 0 ? 1 : sinl(x[i]) / (LD) x[i], 1e-300L, eps<R>(), "Sinc(%.17g)", (double) x[i]);
  for (R b : {(R) 0, (R) 1, (R) -1, (R) 0.1, (R) 1e6, (R) -2.5, (R) 0.5}) {
    mc::Visit("step", ty, x, b);
    auto h = Heaviside<R>(c, b);
    mc::Same(h.size(), x.size(), "Heaviside size");
    for (size_t i = 0; i < x.size(); ++i) mc::Same((double) h[i], x[i] < b ? 0. : x[i] > b ? 1. : 0.5, "Heaviside(%.17g; %.17g)", (double) x[i], (double) b);
    for (R e : {(R) 0, (R) 1, (R) 0.1, (R) 2, (R) 1e6}) if (e >= b) for (R hh : {(R) 1, (R) -2, (R) 0.125}) {
      mc::Visit("door", ty, x, b, e, hh);
      auto d = hh == 1 ? Door<R>(c, b, e) : Door<R>(c, b, e, hh);
      mc::Same(d.size(), x.size(), "Door size");
      for (size_t i = 0; i < x.size(); ++i) { double w = b == e ? 0 : x[i] < b || x[i] > e ? 0 : x[i] == b || x[i] == e ? 0.5 : 1; mc::Same((double) d[i], w * hh, "Door(%.17g; %.17g,%.17g) height %g", (double) x[i], (double) b, (double) e, (double) hh); }
    }
  }
  mc::SameV(c, x, "abscissae");
  mc::Outcome("shapes");
}
template<class R> void ramps(const V<R> &x, const char *ty) {          // x increasing
  if (!mc::Case([&] { return mc::str("%s ramps and Diracs on ", ty) + mc::vstr(x); })) return;
  size_t n = x.size();
  V<R> br;
  for (size_t i = 0; i < n; ++i) { br.push_back(x[i]); if (i + 1 < n) { br.push_back((x[i] + x[i + 1]) / 2); br.push_back(std::nextafter(x[i], x[n - 1])); } }
  for (R a : br) for (R b : br) if (a <= b) for (int k = 0; k < 5; ++k) {
    R yl = (R) (k == 0 ? 0 : k == 1 ? 1 : k == 2 ? -3 : k == 3 ? 2 : 1e3), yr = (R) (k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 5.5 : k == 3 ? 2 : -1e-3);
    mc::Visit("ramp", ty, x, a, b, k);
    auto r = Ramp<R>(x, a, b, yl, yr);
    mc::Same(r.size(), n, "Ramp size");
    for (size_t i = 0; i < n; ++i) {
      if (x[i] <= a) mc::Same(r[i], yl, "Ramp left of %.17g at %.17g", (double) a, (double) x[i]);
      else if (x[i] > b) mc::Same(r[i], yr, "Ramp right of %.17g at %.17g", (double) b, (double) x[i]);
      else { LD sl = ((LD) yr - yl) / ((LD) b - a); mc::Near(r[i], yl + sl * ((LD) x[i] - a), fabsl(yl) + fabsl(yr) + fabsl(sl) * (fabsl(x[i]) + fabsl(a)), eps<R>(), "Ramp %.17g..%.17g at %.17g", (double) a, (double) b, (double) x[i]); }
    }
  }
  // exact ties: on dyadic abscissae an impulse half-way between two samples belongs to neither
  { R d0 = x[1] - x[0]; int ex; if (std::frexp((double) d0, &ex) == 0.5 && std::fabs(x[0]) < 1e5 && x[0] == std::floor(x[0] * 1024) / 1024) for (size_t i = 0; i + 1 < n; ++i) { R p = x[i] + d0 / 2; if (p - x[i] != d0 / 2 || x[i + 1] - p != d0 / 2) continue; auto d = Dirac<R>(x, p, (R) 2); for (size_t j = 0; j < n; ++j) mc::Same(d[j], (R) 0, "Dirac half-way between samples, sample %zu", j); } }
  // Dirac: the samples strictly closer than half a step
  R dx = x[1] - x[0];
  for (size_t i = 0; i < n; ++i) for (double t : {0., 0.25, 0.499, 0.501, 0.75, -0.25, -0.499, -0.501, 0.49999, -0.49999, 0.50001, -0.50001, 0.4999, -0.4999, 0.5001, -0.5001}) for (R h : {(R) 1, (R) -4, (R) 0.5}) {
    R p = (R) (x[i] + t * dx);
    mc::Visit("dirac", ty, x, p, h);
    auto d = h == 1 ? Dirac<R>(x, p) : Dirac<R>(x, p, h);
    mc::Same(d.size(), n, "Dirac size");
    for (size_t j = 0; j < n; ++j) { LD q = fabsl((LD) x[j] - p), w = 0.5L * dx; if (fabsl(q - w) < 1e-5L * w + 8 * std::numeric_limits<R>::epsilon() * (fabsl(x[j]) + fabsl(p))) continue; mc::Same(d[j], q < w ? h : (R) 0, "Dirac at %.17g, sample %.17g", (double) p, (double) x[j]); }
  }
  mc::Outcome("ramps and Diracs");
}
template<class R> void ew(const V<R> &a, const V<R> &b, const char *ty) {
  if (!mc::Case([&] { return mc::str("%s element-wise ", ty) + mc::vstr(a) + mc::vstr(b); })) return;
  mc::Visit("ew", ty, a, b);
  const V<R> c = a, d = b;
  size_t n = a.size();
  auto add = Add<R>(c, d), sub = Minus<R>(c, d), mul = Mult<R>(c, d), div = Divide<R>(c, d);
  for (auto *p : {&add, &sub, &mul, &div}) mc::Same(p->size(), n, "size of an element-wise result");
  LD sum = 0, sa = 0;
  for (size_t i = 0; i < n; ++i) {
    LD u = a[i], v = b[i]; sum += u; sa += fabsl(u);
    mc::Near(add[i], u + v, 0, eps<R>(), "Add[%zu]", i); mc::Near(sub[i], u - v, 0, eps<R>(), "Minus[%zu]", i); mc::Near(mul[i], u * v, 0, eps<R>(), "Mult[%zu]", i);
    if (b[i] != 0) mc::Near(div[i], u / v, 0, eps<R>(), "Divide[%zu]", i);
    else if (a[i] != 0) MC_CHECK(std::isinf(div[i]) && (std::signbit(div[i]) == (std::signbit(a[i]) != std::signbit(b[i]))), "Divide by zero [%zu]", i);
    else MC_CHECK(std::isnan(div[i]), "Divide zero by zero [%zu]", i);
  }
  mc::Near(Sum<R>(c), sum, sa, eps<R>() * (n + 1), "Sum");
  mc::SameV(c, a, "first operand"); mc::SameV(d, b, "second operand");
  if (n) for (R k : {b[0], (R) 0, (R) -2.5}) {
    auto as = AddScalar<R>(c, k); V<R> sc = a; Scale<R>(sc, k);
    mc::Same(as.size(), n, "AddScalar size"); mc::Same(sc.size(), n, "Scale size");
    for (size_t i = 0; i < n; ++i) { mc::Near(as[i], (LD) a[i] + k, 0, eps<R>(), "AddScalar[%zu]", i); mc::Near(sc[i], (LD) a[i] * k, 0, eps<R>(), "Scale[%zu]", i); }
  }
  for (R p : {(R) 0, (R) 1, (R) 2, (R) 3, (R) -1, (R) 0.5, (R) -1.5}) {
    V<R> w = a;
    Pow<R>(w, p);
    mc::Same(w.size(), n, "Pow size");
    for (size_t i = 0; i < n; ++i) {
      LD q = powl(a[i], p);
      if (std::isnan(q) || std::isinf(q) || fabsl(q) > std::numeric_limits<R>::max()) MC_CHECK(std::isnan(q) ? std::isnan(w[i]) : std::isinf(w[i]) && std::signbit(w[i]) == std::signbit(q), "Pow[%zu] %g^%g is %g", i, (double) a[i], (double) p, (double) w[i]);
      else mc::Near(w[i], q, 0, 4 * eps<R>(), "Pow[%zu] %g^%g", i, (double) a[i], (double) p);
    }
  }
  mc::SameV(c, a, "operand of AddScalar");
  mc::Outcome("element-wise");
}
template<class T> void ewT(const V<T> &a, const V<T> &b, const char *ty) {     // integers and complex numbers: exact on these small values
  if (!mc::Case([&] { return mc::str("%s element-wise, %zu entries", ty, a.size()); })) return;
  const V<T> c = a, d = b; size_t n = a.size();
  auto add = Add<T>(c, d), sub = Minus<T>(c, d), mul = Mult<T>(c, d); V<T> sc = a; Scale<T>(sc, (T) 3); auto as = AddScalar<T>(c, (T) 5);
  for (auto *p : {&add, &sub, &mul, &sc, &as}) mc::Same(p->size(), n, "size of an element-wise result");
  T s = 0;
  for (size_t i = 0; i < n; ++i) { mc::Visit("ewT", ty, n, i); s += a[i]; MC_CHECK(add[i] == a[i] + b[i], "Add[%zu]", i); MC_CHECK(sub[i] == a[i] - b[i], "Minus[%zu]", i); MC_CHECK(mul[i] == a[i] * b[i], "Mult[%zu]", i); MC_CHECK(sc[i] == a[i] * (T) 3, "Scale[%zu]", i); MC_CHECK(as[i] == a[i] + (T) 5, "AddScalar[%zu]", i); }
  MC_CHECK(Sum<T>(c) == s, "Sum"); MC_CHECK(c == a && d == b, "operands");
  auto self = Add<T>(c, c), zero = Minus<T>(c, c); for (size_t i = 0; i < n; ++i) { MC_CHECK(self[i] == a[i] + a[i], "Add of a vector to itself [%zu]", i); MC_CHECK(zero[i] == T(0), "Minus of a vector from itself [%zu]", i); }
  mc::Outcome("element-wise, other types");
}
// infinities, undefined numbers, the ends of the range: the results are those of the arithmetic operations
template<class R> void extreme(const char *ty) {
  const R inf = std::numeric_limits<R>::infinity(), mx = std::numeric_limits<R>::max(), mn = std::numeric_limits<R>::denorm_min(), nan = std::numeric_limits<R>::quiet_NaN();
  V<R> E = {0, (R) -0., 1, -2, inf, -inf, nan, mx, -mx, mn, std::numeric_limits<R>::min()};
  auto same = [](R a, R b) { return std::isnan(a) ? std::isnan(b) : a == b; };
  for (int n = 1; n <= 2; ++n) for (mc::Odo o(mc::rep((int) E.size(), 2 * n)); o; ++o) {
    if (!mc::Case([&] { return mc::str("%s element-wise on extreme values ", ty) + mc::vstr(o.v); })) continue;
    V<R> a, b; for (int i = 0; i < n; ++i) { a.push_back(E[o[i]]); b.push_back(E[o[n + i]]); }
    mc::Visit("extreme", ty, o.v);
    auto add = Add<R>(a, b), sub = Minus<R>(a, b), mul = Mult<R>(a, b), div = Divide<R>(a, b), as = AddScalar<R>(a, b[0]);
    V<R> sc = a, pw = a; Scale<R>(sc, b[0]); Pow<R>(pw, b[0]);
    R sum = 0; for (R x : a) sum += x;
    MC_CHECK(same(Sum<R>(a), sum), "Sum of extreme values");
    for (int i = 0; i < n; ++i) {
      volatile R x = a[i], y = b[i], z = b[0];
      MC_CHECK(same(add[i], x + y), "Add of %g and %g", (double) x, (double) y); MC_CHECK(same(sub[i], x - y), "Minus of %g and %g", (double) x, (double) y);
      MC_CHECK(same(mul[i], x * y), "Mult of %g and %g", (double) x, (double) y); MC_CHECK(same(div[i], x / y), "Divide of %g and %g", (double) x, (double) y);
      MC_CHECK(same(as[i], x + z), "AddScalar of %g and %g", (double) x, (double) z); MC_CHECK(same(sc[i], x * z), "Scale of %g and %g", (double) x, (double) z);
      R q = std::pow((R) x, (R) z); MC_CHECK(same(pw[i], q) || std::fabs(pw[i] - q) <= 4 * eps<R>() * std::fabs(q), "Pow of %g and %g", (double) x, (double) z);
    }
    mc::Outcome("extreme values");
  }
}
static void negate(const V<double> &a) { V<double> n = a; Negate<double>(n); mc::Same(n.size(), a.size(), "Negate size"); for (size_t i = 0; i < a.size(); ++i) mc::Same(n[i], -a[i], "Negate[%zu]", i); }
template<class R> void cplx(const V<std::complex<R>> &z, const char *ty) {
  if (!mc::Case([&] { return mc::str("%s complex ", ty) + mc::vstr(z); })) return;
  const auto c = z;
  auto re = Real<R>(c), im = Imag<R>(c), am = Amplitude<R>(c), ph = Phase<R>(c), pr = Phase<R>(c, RAD), pd = Phase<R>(c, DEG);
  for (auto *p : {&re, &im, &am, &ph, &pr, &pd}) mc::Same(p->size(), z.size(), "size of a complex helper");
  LD k = 180 / acosl(-1.L);
  for (size_t i = 0; i < z.size(); ++i) {
    LD x = z[i].real(), y = z[i].imag(), a = atan2l(y, x);
    mc::Visit("complex", ty, (double) x, (double) y);
    mc::Same(re[i], z[i].real(), "Real[%zu]", i); mc::Same(im[i], z[i].imag(), "Imag[%zu]", i);
    mc::Near(am[i], hypotl(x, y), 0, eps<R>(), "Amplitude[%zu]", i);
    mc::Near(ph[i], a, 0, eps<R>(), "Phase[%zu]", i); mc::Near(pr[i], a, 0, eps<R>(), "Phase RAD[%zu]", i); mc::Near(pd[i], a * k, 0, 2 * eps<R>(), "Phase DEG[%zu]", i);
  }
  MC_CHECK(c == z, "complex operand modified");
  mc::Outcome("complex");
}
static void conv(int cap, const std::vector<int> &dirs, int kern, int extra) {
  // kernel length N = cap - extra; history through a circular buffer of capacity cap
  int N = cap - extra;
  if (N < 2) return;
  if (!mc::Case([&] { std::string s; for (int d : dirs) s += d ? 'F' : 'B'; return mc::str("convolution, capacity %d, kernel %d of %d, pushes ", cap, kern, N) + s; })) return;
  boost::circular_buffer<double> buf((size_t) cap);
  std::vector<double> model, k;
  for (int i = 0; i < N; ++i) k.push_back(kern == 0 ? 1 : kern == 1 ? mc::gen(i + 40) : (i == N - 1 ? 2 : 0));
  int v = 0;
  auto step = [&](int d) {
    double x = mc::gen(v++ + 500);
    if (d) { buf.push_front(x); model.insert(model.begin(), x); if ((int) model.size() > cap) model.pop_back(); }
    else { buf.push_back(x); model.push_back(x); if ((int) model.size() > cap) model.erase(model.begin()); }
  };
  for (int i = 0; i < cap; ++i) step(0);
  for (size_t t = 0; t <= dirs.size(); ++t) {
    mc::Visit("conv", cap, N, kern, model);
    for (double dt : {1., 0.1, 1e-3}) {
      auto trap = [&](bool rev, LD &a) { LD s = 0; a = 0; std::vector<LD> f; for (int i = 0; i < N; ++i) f.push_back((LD) k[i] * model[rev ? i : N - 1 - i]); for (int i = 0; i + 1 < N; ++i) { s += (f[i] + f[i + 1]) / 2 * dt; a += (fabsl(f[i]) + fabsl(f[i + 1])) / 2 * dt; } return s; };
      LD a, s = trap(true, a);
      mc::Near(NaiveConvolution<double>(k, buf, dt), s, a, 2.5e-16L * (N + 8), "convolution, default");
      mc::Near(NaiveConvolution<double>(k, buf, dt, true), s, a, 2.5e-16L * (N + 8), "convolution, reverse=true");
      if (extra == 0) { s = trap(false, a); mc::Near(NaiveConvolution<double>(k, buf, dt, false), s, a, 2.5e-16L * (N + 8), "convolution, reverse=false"); }
    }
    for (int i = 0; i < cap; ++i) mc::Same(buf[i], model[i], "history entry %d", i);
    if (t < dirs.size()) step(dirs[t]);
  }
  mc::Outcome("convolution");
}
static void explore() {
  extreme<double>("double"); extreme<float>("float");
  double nx = std::nextafter(1., 2), pv = std::nextafter(1., 0);
  V<double> X = {0, 1, -1, 0.5, nx, pv, 0.1, 2, -2.5, 1e6, 3.141592653589793};
  V<float> XF = {0, 1, -1, 0.5f, std::nextafter(1.f, 2.f), std::nextafter(1.f, 0.f), 0.1f, 2, -2.5f, 1e6f, 3.14159274f};
  for (int n = 1; n <= mc::Tier(4, 5); ++n) for (mc::Odo o(mc::rep(11, n)); o; ++o) {
    V<double> a; V<float> b; for (int i = 0; i < n; ++i) { a.push_back(X[o[i]]); b.push_back(XF[o[i]]); }
    shapes<double>(a, "double"); if (n <= 3) shapes<float>(b, "float");
  }
  for (double t : {1e-8, -1e-8, 1e-300, -0.0, 1e-160, 5e-324, 100., -100., 1e-4, -1e-4, 6.283185307179586, std::nextafter(0.1, 0), std::nextafter(0.1, 1), std::nextafter(-1., 0), std::nextafter(-1., -2), 1e5, -1e5, 1e-2, -1e-2, 1e-3, 1e-5, -1e-6, 3e-7, 2e-8, 1e-10, -1e-12, 1e-15, 0.05, -0.2, 12.566370614359172, -3.141592653589793, 3.1415926, 3.14159266, 31.41592653589793, 0.4999999, 0.5000001, 0.9999999, 1.0000001, -0.9999999, 0.099999999, 0.100000001, 999999.9999, 1000000.0001}) shapes<double>({t}, "double");
  for (int n : {0, 1, 2, 5, 11}) { if (!mc::Case([&] { return mc::str("Sinc range %d", n); })) continue; if (n > 1) { auto s = Sinc<double>(-2., 3., (unsigned) n); mc::SameV(s, Sinc<double>(linspace<double>(-2., 3., (unsigned) n)), "Sinc over a range"); } else MC_CHECK(Sinc<double>(V<double>((size_t) n, 0.)).size() == (size_t) n, "size"); }
  for (int n = 2; n <= 9; ++n) for (double x0 : {0., -1., 10., -0.35, 1e4}) for (double dx : {1., 0.1, 0.25, 7., 1e-3}) { V<double> x; V<float> f; for (int i = 0; i < n; ++i) { x.push_back(x0 + i * dx); f.push_back((float) (x0 + i * dx)); } ramps<double>(x, "double"); if (x0 < 100 && dx > 0.01) ramps<float>(f, "float"); }
  V<double> A = {0, 1, -1, 2.5, -7, 1e10, 1e-10, 0.1, -0.3};
  for (int n = 1; n <= mc::Tier(3, 4); ++n) for (mc::Odo o(mc::rep(9, 2 * n)); o; ++o) {
    if (n == 4 && (o[0] + o[4]) % 3) continue;
    V<double> a, b; V<float> fa, fb; for (int i = 0; i < n; ++i) { a.push_back(A[o[i]]); b.push_back(A[o[n + i]]); fa.push_back((float) A[o[i]]); fb.push_back((float) A[o[n + i]]); }
    ew<double>(a, b, "double"); if (n < 3) ew<float>(fa, fb, "float");
  }
  for (int n = 0; n <= mc::Tier(40, 200); ++n) { V<double> a, b; for (int i = 0; i < n; ++i) { a.push_back(fabs(mc::gen(i)) + 0.01); b.push_back(mc::gen(i + 300) + 0.001); } ew<double>(a, b, "double"); if (mc::Case([&] { return mc::str("negate %d", n); })) negate(b); }
  for (int n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4099, 65535, 65536, 65537}) for (int k = 0; k < 2; ++k) {
    V<double> a, b; V<float> fa, fb; V<std::complex<double>> z; for (int i = 0; i < n; ++i) { a.push_back(fabs(mc::gen(i + k)) + 0.01); b.push_back(mc::gen(i + 300 * k) + 0.001); fa.push_back((float) a[i]); fb.push_back((float) b[i]); z.push_back({mc::gen(i + k), mc::gen(i + 64)}); }
    auto big = [&](const char *w) { return mc::Case([&] { return mc::str("%s of %d generic entries, set %d", w, n, k); }); };
    ew<double>(a, b, "double"); ew<float>(fa, fb, "float"); if (big("negate")) negate(b); cplx<double>(z, "double");
    if (n <= 4099) { V<double> s; for (int i = 0; i < n; ++i) s.push_back(mc::gen(i + k)); shapes<double>(s, "double"); }
    if (big("Dirac and ramp")) { V<double> x; for (int i = 0; i < n; ++i) x.push_back(-3 + 0.5 * i); for (int at : {0, 1, n / 2, n - 2, n - 1}) { auto d = Dirac<double>(x, x[at] + 0.125, 3.); auto r = Ramp<double>(x, x[at / 2], x[at], 1., 2.); mc::Same(d.size(), (size_t) n, "Dirac size"); for (int i = 0; i < n; ++i) { mc::Same(d[i], i == at ? 3. : 0., "Dirac entry %d of %d", i, n); if (i <= at / 2) mc::Same(r[i], 1., "Ramp entry %d of %d", i, n); else if (i > at) mc::Same(r[i], 2., "Ramp entry %d of %d", i, n); else mc::Near(r[i], 1 + (LD) (i - at / 2) / (at - at / 2), 1 + x[at], 1e-13L, "Ramp entry %d of %d", i, n); } } }
  }
  for (mc::Odo o(mc::rep(9, 3)); o; ++o) if (mc::Case([&] { return std::string("negate word"); })) negate({A[o[0]], A[o[1]], A[o[2]]});
  for (int n = 0; n <= 70; ++n) for (int k = 0; k < 3; ++k) { V<int> ia, ib; V<std::complex<double>> za, zb; for (int i = 0; i < n; ++i) { ia.push_back((int) (mc::gen(i + k) * 100)); ib.push_back((int) (mc::gen(i + 7 * k + 64) * 50) * 2 + 1); za.push_back({std::floor(mc::gen(i + k) * 8), std::floor(mc::gen(i + k + 3) * 8)}); zb.push_back({std::floor(mc::gen(i + k + 9) * 8), std::floor(mc::gen(i + k + 31) * 8)}); } ewT<int>(ia, ib, "int"); ewT<std::complex<double>>(za, zb, "complex"); }
  V<double> Z = {0, 1, -1, 1e-100, -1e100, 0.5, -0.0, 3, -7.25};
  for (int n = 0; n <= 2; ++n) for (mc::Odo o(mc::rep(9, 2 * n)); o; ++o) { V<std::complex<double>> z; V<std::complex<float>> f; for (int i = 0; i < n; ++i) { z.push_back({Z[o[2 * i]], Z[o[2 * i + 1]]}); auto cl = [](double d) { return (float) (fabs(d) > 1e10 ? d / 1e90 : fabs(d) < 1e-10 ? d * 1e90 : d); }; f.push_back({cl(Z[o[2 * i]]), cl(Z[o[2 * i + 1]])}); } cplx<double>(z, "double"); cplx<float>(f, "float"); if (n == 0) break; }
  for (int n = 3; n < 40; n += 4) { V<std::complex<double>> z; for (int i = 0; i < n; ++i) z.push_back({mc::gen(i), mc::gen(i + 64)}); cplx<double>(z, "double"); }
  for (int cap = 2; cap <= mc::Tier(5, 8); ++cap) for (int d = 0; d <= mc::Tier(7, 11); ++d) for (int w = 0; w < (1 << d); ++w) { if (d && d < mc::Tier(7, 11)) continue; std::vector<int> dirs; for (int i = 0; i < d; ++i) dirs.push_back(w >> i & 1); for (int k = 0; k < 3; ++k) for (int e = 0; e <= 2; ++e) conv(cap, dirs, k, e); }
  for (int cap : {6, 8, 16, 17, 33, 64, 100, 257}) for (int d : {0, 1, cap / 2, cap, cap + 3}) for (int w = 0; w < 3; ++w) { std::vector<int> dirs; for (int i = 0; i < d; ++i) dirs.push_back(w == 2 ? i % 3 == 0 : w); for (int k = 0; k < 3; ++k) for (int e = 0; e <= 2; ++e) conv(cap, dirs, k, e); }
}
MC_MAIN(explore)
