// C28 - interpolating splines.
//@bounds quick: degrees 1..5 x 6 spacings x every node count 2..14 (and 20, 30) x (every unit data vector, 5 generic data sets (1e-14 to 1e20), every monomial up to the degree), both constructors; 7 origins/scales; 30 nearly uniform axes for 3, 4, 6 and 7 nodes; clustered axes (two nodes 1e-3 to 1e-11 apart at every position, geometric, one giant gap, tiny, huge) of 3..10 nodes; 50..129 nodes for degrees 1..3; evaluation at every node, 5 points per segment, forwards, backwards and interleaved with another spline, copies and two nearly alike splines (same ordinates; shifted abscissae, or other interior ones); all data words over 3 values up to 5 points
//@bounds thorough: node counts up to 24 (and 40, 60), data words up to 7 points
//@model the data themselves at the nodes, the generating polynomial in between, the broken line for degree 1, linearity in the data
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;
template<int D> struct Ref {
  V x; std::vector<Spline<double, 1, D>> unit;         // cardinal splines of these nodes
};
template<int D> Spline<double, 1, D> mk(const V &x, const V &y, bool eig) {
  if (eig) { Eigen::VectorXd a(x.size()), b(x.size()); for (size_t i = 0; i < x.size(); ++i) { a(i) = x[i]; b(i) = y[i]; } return Spline<double, 1, D>(a, b); }
  V a = x, b = y; Spline<double, 1, D> s(a, b); mc::SameV(a, x, "abscissae after construction"); mc::SameV(b, y, "ordinates after construction"); return s;
}
static V queries(const V &x) {
  V q;
  for (size_t i = 0; i + 1 < x.size(); ++i) { q.push_back(x[i]); for (double t : {1e-6, 0.2, 0.5, 0.77, 1 - 1e-6}) { double v = x[i] + t * (x[i + 1] - x[i]); if (v > x[i] && v < x[i + 1]) q.push_back(v); } }
  q.push_back(x.back());
  return q;
}
template<int D> void one(const V &x, const V &y, const std::function<LD(LD)> *poly, const std::string &what, LD tol) {
  if (!mc::Case([&] { return mc::str("degree %d spline of %s at ", D, what.c_str()) + mc::vstr(x); })) return;
  LD m = 0; for (double v : y) m = std::max(m, fabsl(v));
  auto s = mk<D>(x, y, false), e = mk<D>(x, y, true);
  V yo; for (size_t i = 0; i < y.size(); ++i) yo.push_back(mc::gen((int) i + 900));
  auto other = mk<D>(x, yo, false);
  // same ordinates and same end abscissae, other interior abscissae; and same abscissae shifted
  V xs = x, xo = x; for (double &v : xs) v += 0.5 * (x.back() - x[0]); for (size_t i = 1; i + 1 < x.size(); ++i) xo[i] += 0.25 * (x[i + 1] - x[i]);
  auto shifted = mk<D>(xs, y, false), inner = mk<D>(xo, y, true);
  for (size_t i = 0; i < x.size(); ++i) { mc::Near(shifted(xs[i]), y[i], m, 2 * tol, "node %zu of the shifted spline", i); mc::Near(inner(xo[i]), y[i], m, 4 * tol, "node %zu of the spline with other interior abscissae", i); }
  auto copy = s;
  for (size_t i = 0; i < x.size(); ++i) {
    mc::Visit(D, x, what, i);
    mc::Near(s(x[i]), y[i], m, tol, "node %zu", i); mc::Near(e(x[i]), y[i], m, tol, "node %zu (Eigen constructor)", i); mc::Near(other(x[i]), yo[i], 4, tol, "node %zu of the other spline", i); }
  V q = queries(x), r;
  for (double v : q) r.push_back(s(v));
  LD scale = m; for (double v : r) scale = std::max(scale, fabsl(v));
  for (size_t i = 0; i < q.size(); ++i) {
    mc::Visit(D, x, what, q[i]);
    MC_CHECK(std::isfinite(r[i]), "value at %.17g is not finite", q[i]);
    mc::Near(e(q[i]), r[i], scale, tol, "the two constructors at %.17g", q[i]);
    if (poly) mc::Near(r[i], (*poly)(q[i]), scale, tol, "polynomial at %.17g", q[i]);
    if (D == 1) { size_t k = 0; while (k + 2 < x.size() && q[i] >= x[k + 1]) ++k; LD t = ((LD) q[i] - x[k]) / ((LD) x[k + 1] - x[k]); mc::Near(r[i], y[k] + t * ((LD) y[k + 1] - y[k]), m, tol, "broken line at %.17g", q[i]); }
  }
  for (size_t i = q.size(); i-- > 0;) { mc::Same(s(q[i]), r[i], "value at %.17g on the way back", q[i]); (void) other(q[(i * 7) % q.size()]); mc::Same(copy(q[i]), r[i], "copy at %.17g", q[i]); }
  copy = other;
  for (size_t i = 0; i < q.size(); ++i) { double c = copy(q[i]); mc::Same(c, other(q[i]), "assigned spline at %.17g", q[i]); mc::Same(s(q[i]), r[i], "source of an overwritten copy at %.17g", q[i]); }
  // one spline object over several ranges: only it is evaluated before and after each assignment
  V xw = x, xn = x; for (double &v : xw) v = x[0] + 1.25 * (v - x[0]); for (double &v : xn) v = x.back() + 0.5 * (v - x.back());
  auto wide = mk<D>(xw, y, false), narrow = mk<D>(xn, y, true);
  for (int k = 0; k < 4; ++k) {
    (void) copy(k % 2 ? xw[1] : x[1]);
    if (k == 2) copy = s; else copy = k % 2 ? narrow : wide;
    const V &ax = k == 2 ? x : k % 2 ? xn : xw;
    for (size_t i = 0; i < x.size(); ++i) { size_t j = k < 2 ? i : x.size() - 1 - i; mc::Near(copy(ax[j]), y[j], m, 4 * tol, "node %zu after assignment %d", j, k); }
  }
  mc::Outcome(poly ? "polynomial data" : "free data");
}
// linearity in the data: the spline of a combination is the combination of the splines
template<int D> void linear(const V &x, LD tol) {
  if (!mc::Case([&] { return mc::str("linearity of degree %d splines at ", D) + mc::vstr(x); })) return;
  V a, b, c; for (size_t i = 0; i < x.size(); ++i) { a.push_back(mc::gen((int) i)); b.push_back(mc::gen((int) i + 77)); c.push_back(2 * a[i] - 0.5 * b[i]); }
  auto A = mk<D>(x, a, false), B = mk<D>(x, b, true), Cc = mk<D>(x, c, false);
  for (double v : queries(x)) { mc::Visit("lin", D, x, v); mc::Near(Cc(v), 2 * (LD) A(v) - 0.5L * B(v), 40 + fabsl(A(v)) + fabsl(B(v)), tol, "combination at %.17g", v); }
  mc::Outcome("linearity");
}
template<int D> void degree() {
  std::vector<int> N; for (int n = 2; n <= mc::Tier(14, 24); ++n) N.push_back(n);
  if (mc::Thorough()) { N.push_back(40); N.push_back(60); } else { N.push_back(20); N.push_back(30); }
  for (int n : N) for (int sp = 0; sp < 6; ++sp) for (int sc = 0; sc < (sp < 2 ? 7 : 2); ++sc) {
    V x; double c = 0;
    for (int i = 0; i < n; ++i) {
      x.push_back(c);
      c += sp == 0 ? 1 : sp == 1 ? (i % 2 ? 1.5 : 0.5) : sp == 2 ? 1 + 0.25 * i : sp == 3 ? 2.0 / (1 + i) : sp == 4 ? (i == n / 2 ? 3 : 1) : 0.75 + 0.25 * fabs(mc::gen(i));
    }
    double mul[] = {1, 1, 0.01, 1e3, 1e-6, 1e6, 1}, off[] = {0, -2.5, 10, -1e4, 0, 0, 1000};
    for (double &v : x) v = v * mul[sc] + off[sc];
    double ratio = (fabs(x[0]) + fabs(x.back())) / (x.back() - x[0]) + 1;
    LD tol = 1e-11L * ratio * (sp == 3 ? 10 : 1) * (n > 20 ? 10 : 1);
    if (sc == 0 || n <= 6) for (int i = 0; i < n; ++i) { V y((size_t) n, 0); y[i] = 1; one<D>(x, y, nullptr, mc::str("unit data %d", i), tol); }
    for (int g = 0; g < 5; ++g) { V y; for (int i = 0; i < n; ++i) y.push_back(mc::gen(i * 5 + g * 211) * (g == 2 ? 1e5 : g == 3 ? 1e-14 : g == 4 ? 1e20 : 1)); one<D>(x, y, nullptr, mc::str("generic data %d", g), tol); }
    LD mid = ((LD) x[0] + x.back()) / 2, w = ((LD) x.back() - x[0]) / 2;
    for (int p = 0; p <= std::min(D, n - 1); ++p) {
      std::function<LD(LD)> f = [=](LD v) { LD t = (v - mid) / w + 0.3L, r = 1; for (int i = 0; i < p; ++i) r *= t; return 1 + r; };
      V y; for (double v : x) y.push_back((double) f(v));
      one<D>(x, y, &f, mc::str("polynomial of degree %d", p), tol);
    }
    linear<D>(x, tol);
  }
  for (int n : {3, 4, 6, 7}) for (auto &x : mc::NearlyUniform(n)) {
    double ratio = (fabs(x[0]) + fabs(x.back())) / (x.back() - x[0]) + 1;
    LD tol = 4e-13L * ratio; int k = 0;
    for (int g = 0; g < 2; ++g) { V y; for (int i = 0; i < n; ++i) y.push_back(mc::gen(i * 5 + g * 211 + k)); one<D>(x, y, nullptr, mc::str("generic data %d (nearly uniform)", g), tol); }
    LD mid = ((LD) x[0] + x.back()) / 2, w = ((LD) x.back() - x[0]) / 2; int p = std::min(D, n - 1);
    std::function<LD(LD)> f = [=](LD v) { LD t = (v - mid) / w + 0.3L, r = 1; for (int i = 0; i < p; ++i) r *= t; return 1 + r; };
    V y; for (double v : x) y.push_back((double) f(v));
    one<D>(x, y, &f, mc::str("polynomial of degree %d (nearly uniform)", p), tol);
  }
  // clustered and strongly uneven abscissae: nodes (and, for degree 1, the whole broken line)
  auto clustered = [&](const V &x, int k) {
    int n = (int) x.size();
    if (!mc::Case([&] { return mc::str("degree %d spline at uneven abscissae ", D) + mc::vstr(x); })) return;
    double ratio = (fabs(x[0]) + fabs(x.back())) / (x.back() - x[0]) + 1;
    double gap = x.back() - x[0]; for (int i = 1; i < n; ++i) gap = std::min(gap, x[i] - x[i - 1]);
    V y, z; for (int i = 0; i < n; ++i) { y.push_back(mc::gen(i * 5 + k)); z.push_back(1 + 0.5 * ((x[i] - x[0]) / (x.back() - x[0]))); }
    auto s = mk<D>(x, y, k % 2), c = mk<D>(x, z, k % 2 == 0);
    LD m = 8;          // size of the spline between the nodes, which governs the rounding at them
    for (double v : queries(x)) { double r = s(v); MC_CHECK(std::isfinite(r), "value at %.17g is not finite", v); m = std::max(m, fabsl(r)); }
    LD amp = D == 1 ? 1 : m / 8;
    if (amp > 1e6L) { mc::Outcome("oscillation too large to judge"); return; }
    for (int i = 0; i < n; ++i) { mc::Visit("uneven", D, x, k, i); mc::Near(s(x[i]), y[i], m, D == 1 ? 1e-12L * ratio + 1e-14L * (x.back() - x[0]) / gap : 1e-9L * ratio, "node %d", i); mc::Near(c(x[i]), z[i], 2, 1e-9L * ratio * amp, "node %d of linear data", i); }
    mc::Outcome("uneven abscissae");
  };
  for (int n : {3, 4, 5, 7, 10}) { int k = 0;
    for (auto &x : mc::Uneven(n, 1e-30, 1e30)) clustered(x, ++k);
    for (double e : {1e-3, 1e-5, 1e-7, 1e-9, 1e-10, 1e-11}) for (int at = 1; at < n; ++at) { V x; for (int i = 0; i < n; ++i) x.push_back(i * 0.75 ); x[at] = x[at - 1] + e; for (int i = at + 1; i < n; ++i) x[i] = x[at] + 0.75 * (i - at); clustered(x, ++k); }
    for (double e : {1e-4, 1e-8}) { V x; for (int i = 0; i < n; ++i) x.push_back(i * e); x.back() = 1e4; clustered(x, ++k); for (double &v : x) v = -v; std::reverse(x.begin(), x.end()); clustered(x, ++k); }
  }
  if (D <= 3) for (int n : {50, 64, 65, 100, 129}) for (int sp = 0; sp < 2; ++sp) { V x, y; for (int i = 0; i < n; ++i) { x.push_back(sp ? i + 0.25 * (i % 3) : 0.5 * i); y.push_back(mc::gen(i * 5 + sp)); } one<D>(x, y, nullptr, "generic data, many points", 1e-10L); }
  for (int n = 2; n <= mc::Tier(5, 7); ++n) for (mc::Odo o(mc::rep(3, n)); o; ++o) { V x, y; for (int i = 0; i < n; ++i) { x.push_back(i * 0.5 + (i > 1 ? 0.25 : 0)); y.push_back(o[i] - 1.0); } one<D>(x, y, nullptr, "word " + mc::vstr(y), 1e-11L); }
}
static void explore() { degree<1>(); degree<2>(); degree<3>(); degree<4>(); degree<5>(); }
MC_MAIN(explore)
