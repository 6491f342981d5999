// C23 - power series against the Chebyshev series they come from, and all their evaluation variants.
//@bounds quick: conversion of every basis polynomial and of generic/non-polynomial functions for 1D orders 0..18 on 14 domains, 2D orders 0..5 x 0..5 (and uneven ones up to 18) on 7 domains of the 3 kinds, 3D orders 0..2 per axis and uneven ones up to 8 on 6 domains of the 3 kinds; every evaluation variant at every point of a grid (ends, interior, far along open axes), interleaved and repeated; orders above 18 in each axis refused; conversions read through every history of length 4 over two nearly alike series of one user function (as in C22)
//@bounds quick: copies, assignments and moves of every power series against another one; functions scaled from 1e-25 to 1e12; power series given their coefficients directly (5 kinds of sparsity and magnitude x 3 scales; orders up to 40 in 1D, 25 in 2D, 22 in 3D)
//@bounds thorough: 2D up to 8x8, 3D up to 3 per axis and uneven ones up to 10, pair histories of length 6
//@model long-double tensor power sums with coefficients converted by the three-term recurrence; variants compared with the same sums at the unit coordinates (1 for infinity)
#include "cheb.h"
using namespace ch;
typedef MatrixMN<double> M;
static bool eq(const std::vector<M> &a, const std::vector<M> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].rows() != b[i].rows() || a[i].cols() != b[i].cols()) return false; for (int r = 0; r < a[i].rows(); ++r) for (int c = 0; c < a[i].cols(); ++c) if (!(a[i](r, c) == b[i](r, c))) return false; } return true; }
struct Chk {
  const Ten &b; const std::vector<Ax> &a; LD tol;
  void operator()(double got, int d, LD u, LD v, LD w, LD coef, const char *what, double x, double y, double z) const {
    LD ab, s = Sum(b, true, d, u, v, w, &ab);
    LD tot = b.sum() * (d < 0 ? 1 : 1 + b.n[d]);     // the unit coordinate itself carries rounding errors
    mc::Near(got, coef * s, fabsl(coef) * std::max(ab, tot), tol, "%s at (%.17g,%.17g,%.17g)", what, x, y, z);
  }
};
template<class P> void check1(P &p, const Ten &b, const std::vector<Ax> &a, LD tol, const std::vector<double> &X) {
  Chk k{b, a, tol};
  for (int rep = 0; rep < 2; ++rep) for (double x : X) {
    LD u = a[0].u(x), c = a[0].du(x);
    mc::Visit(1, a[0].lo, b.n[0], x);
    k(p.Evaluate(x), -1, u, 0, 0, 1, "Evaluate", x, 0, 0);
    k(p.Evaluate_derivative_x(x), 0, u, 0, 0, c, "Evaluate_derivative_x", x, 0, 0);
    k(p.Evaluate_unit((double) u), -1, u, 0, 0, 1, "Evaluate_unit", x, 0, 0);
    k(p.Evaluate_derivative_x_unit(x, (double) u), 0, u, 0, 0, c, "Evaluate_derivative_x_unit", x, 0, 0);
  }
}
template<class P> void check2(P &p, const Ten &b, const std::vector<Ax> &a, LD tol, const std::vector<double> &X, const std::vector<double> &Y) {
  Chk k{b, a, tol};
  for (double x : X) for (double y : Y) {
    LD u = a[0].u(x), v = a[1].u(y), c = a[0].du(x), d = a[1].du(y);
    mc::Visit(2, a[0].lo, b.n[0], b.n[1], x, y);
    k(p.Evaluate(x, y), -1, u, v, 0, 1, "Evaluate", x, y, 0);
    k(p.Evaluate_derivative_x(x, y), 0, u, v, 0, c, "Evaluate_derivative_x", x, y, 0);
    k(p.Evaluate_derivative_y(x, y), 1, u, v, 0, d, "Evaluate_derivative_y", x, y, 0);
    k(p.Evaluate_unit((double) u, (double) v), -1, u, v, 0, 1, "Evaluate_unit", x, y, 0);
    k(p.Evaluate_derivative_x_unit(x, (double) u, (double) v), 0, u, v, 0, c, "Evaluate_derivative_x_unit", x, y, 0);
    k(p.Evaluate_derivative_y_unit(y, (double) u, (double) v), 1, u, v, 0, d, "Evaluate_derivative_y_unit", x, y, 0);
    k(p.Evaluate(x, y), -1, u, v, 0, 1, "Evaluate again", x, y, 0);
  }
}
template<class P> void check3(P &p, const Ten &b, const std::vector<M> &bm, const std::vector<Ax> &a, LD tol, const std::vector<double> &X, const std::vector<double> &Y, const std::vector<double> &Z, const char *type) {
  Chk k{b, a, tol};
  mc::Same(p.xmin(), a[0].lo, "xmin"); mc::Same(p.ymin(), a[1].lo, "ymin"); mc::Same(p.zmin(), a[2].lo, "zmin"); mc::Same(p.xmax(), a[0].hi, "xmax");
  mc::Same(p.order_x(), b.n[0], "order_x"); mc::Same(p.order_y(), b.n[1], "order_y"); mc::Same(p.order_z(), b.n[2], "order_z");
  mc::Same(p.type(), std::string(type), "type");
  MC_CHECK(eq(p.bijk(), bm), "bijk() before evaluation");
  M cinf = p.Compute_cij_zinf();
  for (double z : Z) {
    LD w = a[2].u(z), e = a[2].du(z);
    M cz = p.Compute_cij(z);
    for (double x : X) for (double y : Y) {
      LD u = a[0].u(x), v = a[1].u(y), c = a[0].du(x), d = a[1].du(y);
      mc::Visit(3, a[0].lo, b.n[0], b.n[1], b.n[2], x, y, z);
      double f = 1, fx = 2, fy = 3;
      k(p.Evaluate(x, y, z), -1, u, v, w, 1, "Evaluate", x, y, z);
      k(p.Evaluate_derivative_x(x, y, z), 0, u, v, w, c, "Evaluate_derivative_x", x, y, z);
      k(p.Evaluate_derivative_y(x, y, z), 1, u, v, w, d, "Evaluate_derivative_y", x, y, z);
      k(p.Evaluate_derivative_z(x, y, z), 2, u, v, w, e, "Evaluate_derivative_z", x, y, z);
      p.Evaluate_f_dfdx_dfdy(x, y, z, f, fx, fy);
      k(f, -1, u, v, w, 1, "Evaluate_f_dfdx_dfdy f", x, y, z); k(fx, 0, u, v, w, c, "Evaluate_f_dfdx_dfdy dfdx", x, y, z); k(fy, 1, u, v, w, d, "Evaluate_f_dfdx_dfdy dfdy", x, y, z);
      k(p.Evaluate_z_predefined(x, y, cz), -1, u, v, w, 1, "Evaluate_z_predefined", x, y, z);
      k(p.Evaluate_derivative_x_z_predefined(x, y, cz), 0, u, v, w, c, "Evaluate_derivative_x_z_predefined", x, y, z);
      k(p.Evaluate_derivative_y_z_predefined(x, y, cz), 1, u, v, w, d, "Evaluate_derivative_y_z_predefined", x, y, z);
      f = 7; fx = 8; fy = 9;
      p.Evaluate_f_dfdx_dfdy_z_predefined(x, y, cz, f, fx, fy);
      k(f, -1, u, v, w, 1, "Evaluate_f_dfdx_dfdy_z_predefined f", x, y, z); k(fx, 0, u, v, w, c, "Evaluate_f_dfdx_dfdy_z_predefined dfdx", x, y, z); k(fy, 1, u, v, w, d, "Evaluate_f_dfdx_dfdy_z_predefined dfdy", x, y, z);
      if (z != Z[0]) continue;
      k(p.Evaluate_zinf(x, y), -1, u, v, 1, 1, "Evaluate_zinf", x, y, INFINITY);
      k(p.Evaluate_derivative_x_zinf(x, y), 0, u, v, 1, c, "Evaluate_derivative_x_zinf", x, y, INFINITY);
      k(p.Evaluate_derivative_y_zinf(x, y), 1, u, v, 1, d, "Evaluate_derivative_y_zinf", x, y, INFINITY);
      k(p.Evaluate_z_predefined(x, y, cinf), -1, u, v, 1, 1, "Evaluate_z_predefined(inf)", x, y, INFINITY);
      k(p.Evaluate_derivative_x_z_predefined(x, y, cinf), 0, u, v, 1, c, "Evaluate_derivative_x_z_predefined(inf)", x, y, INFINITY);
      k(p.Evaluate_derivative_y_z_predefined(x, y, cinf), 1, u, v, 1, d, "Evaluate_derivative_y_z_predefined(inf)", x, y, INFINITY);
      p.Evaluate_f_dfdx_dfdy_z_predefined(x, y, cinf, f, fx, fy);
      k(f, -1, u, v, 1, 1, "Evaluate_f_dfdx_dfdy_z_predefined(inf) f", x, y, INFINITY); k(fx, 0, u, v, 1, c, "Evaluate_f_dfdx_dfdy_z_predefined(inf) dfdx", x, y, INFINITY); k(fy, 1, u, v, 1, d, "Evaluate_f_dfdx_dfdy_z_predefined(inf) dfdy", x, y, INFINITY);
    }
  }
  MC_CHECK(eq(p.bijk(), bm), "bijk() after evaluation");
}
// a series and another one (twice the coefficients): copies and assignments carry everything, evaluation in turn does not mix them
template<class P, class E> void copies(P p, P q, E ev) {
  const double a = ev(p), b = ev(q); mc::Same(ev(p), a, "evaluated between the other"); mc::Same(ev(q), b, "evaluated between the other");
  P c(p), d(q); mc::Same(ev(c), a, "copy"); mc::Same(ev(d), b, "copy of the other");
  c = q; mc::Same(ev(c), b, "assigned"); mc::Same(ev(p), a, "original after its copy changed"); d = c; c = p; mc::Same(ev(c), a, "assigned back"); mc::Same(ev(d), b, "assigned twice");
  P e(std::move(c)); mc::Same(ev(e), a, "moved"); p = std::move(d); mc::Same(ev(p), b, "move-assigned");
  mc::Outcome("copied and assigned");
}
static void run(int dim, const std::vector<Ax> &a, int ox, int oy, int oz, const UF &f, const std::string &fn, LD unit = 1) {
  if (!mc::Case([&] { return name(a, ox, oy, oz) + " of " + fn; })) return;
  int o[3] = {ox, oy, oz};
  Ten ref = ToPower(Transform(f, ox, oy, oz));
  LD cond = 1, n2 = 1; for (int i = 0; i < dim; ++i) { cond = std::max(cond, a[i].cond()); n2 += o[i]; }
  LD tol = 1e-14L * n2 * cond;
  Series s = Make(dim, a, f, ox, oy, oz);
  s.compute();
  Ten b = s.convert();
  for (int i = 0; i < 3; ++i) mc::Same(b.n[i], o[i], "order %d of the converted coefficients", i);
  // amplification of coefficient errors by the conversion: at most the product of the largest conversion factors
  LD amp = 1; for (int i = 0; i < dim; ++i) { LD m = 1; Ten e(o[i], 0, 0); e.at(o[i], 0, 0) = 1; for (LD v : ToPower(e).c) m = std::max(m, fabsl(v)); amp *= m; }
  for (size_t i = 0; i < b.c.size(); ++i) mc::Near(b.c[i], ref.c[i], ref.sum() + amp * unit, tol * n2, "converted coefficient %zu", i);
  Ten again = s.convert();
  for (size_t i = 0; i < b.c.size(); ++i) mc::Same(again.c[i], b.c[i], "coefficient %zu converted again", i);
  std::vector<double> P[3] = {{0}, {0}, {0}};
  for (int i = 0; i < dim; ++i) P[i] = Pts(a[i], o[i], dim == 1 ? std::vector<LD>{-1, 1, 0, -0.75L, 0.3L, 0.95L, 1e-6L, -1e-10L, 1 - 1e-9L, -1 + 1e-6L} : dim == 2 ? std::vector<LD>{-1, 1, 0.3L, -0.6L, 1e-9L, 1 - 1e-6L} : std::vector<LD>{-1, 1, 0.4L}, dim == 1);
  if (dim == 1) {
    VectorN<double> bv(ox + 1); for (int i = 0; i <= ox; ++i) bv(i) = (double) b.at(i, 0, 0);
    if (a[0].open) { PowerSeries1dOpened<double> p(bv, a[0].lo); check1(p, b, a, tol, P[0]); for (double x : P[0]) copies(p, PowerSeries1dOpened<double>(2. * bv, a[0].lo * 1.5), [&](auto &s) { return s.Evaluate(x) + 3 * s.Evaluate_derivative_x(x); }); }
    else { PowerSeries1dClosed<double> p(bv, a[0].lo, a[0].hi); check1(p, b, a, tol, P[0]); for (double x : P[0]) copies(p, PowerSeries1dClosed<double>(2. * bv, a[0].lo, a[0].hi + 1), [&](auto &s) { return s.Evaluate(x) + 3 * s.Evaluate_derivative_x(x); }); }
  } else if (dim == 2) {
    M bm = M::Zero(ox + 1, oy + 1); for (int i = 0; i <= ox; ++i) for (int j = 0; j <= oy; ++j) bm(i, j) = (double) b.at(i, j, 0);
    if (a[0].open) { PowerSeries2dOpened<double> p(bm, a[0].lo, a[1].lo); check2(p, b, a, tol, P[0], P[1]); copies(p, PowerSeries2dOpened<double>(2. * bm, a[0].lo, a[1].lo * 2), [&](auto &s) { return s.Evaluate(P[0][2], P[1][0]) + 3 * s.Evaluate_derivative_x(P[0][2], P[1][0]) + 5 * s.Evaluate_derivative_y(P[0][2], P[1][0]); }); }
    else if (a[1].open) { PowerSeries2dMixed<double> p(bm, a[0].lo, a[0].hi, a[1].lo); check2(p, b, a, tol, P[0], P[1]); copies(p, PowerSeries2dMixed<double>(2. * bm, a[0].lo, a[0].hi + 1, a[1].lo), [&](auto &s) { return s.Evaluate(P[0][2], P[1][0]) + 3 * s.Evaluate_derivative_x(P[0][2], P[1][0]) + 5 * s.Evaluate_derivative_y(P[0][2], P[1][0]); }); }
    else { PowerSeries2dClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi); check2(p, b, a, tol, P[0], P[1]); copies(p, PowerSeries2dClosed<double>(2. * bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi + 1), [&](auto &s) { return s.Evaluate(P[0][2], P[1][0]) + 3 * s.Evaluate_derivative_x(P[0][2], P[1][0]) + 5 * s.Evaluate_derivative_y(P[0][2], P[1][0]); }); }
  } else {
    std::vector<M> bm; for (int k = 0; k <= oz; ++k) { M m = M::Zero(ox + 1, oy + 1); for (int i = 0; i <= ox; ++i) for (int j = 0; j <= oy; ++j) m(i, j) = (double) b.at(i, j, k); bm.push_back(m); }
    std::vector<M> bm2; for (auto &m : bm) bm2.push_back(2. * m);
    if (a[1].open) { PowerSeries3dYZOpenedXClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[2].lo); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dYZOpenedXClosed"); copies(p, PowerSeries3dYZOpenedXClosed<double>(bm2, a[0].lo, a[0].hi + 1, a[1].lo, a[2].lo), [&](auto &s) { double x = P[0][2], y = P[1][0], z = P[2][2], f, g, h; s.Evaluate_f_dfdx_dfdy(x, y, z, f, g, h); return s.Evaluate(x, y, z) + 3 * s.Evaluate_derivative_z(x, y, z) + 5 * f + 7 * g + 11 * h + 13 * s.Evaluate_zinf(x, y) + 17 * s.Evaluate_z_predefined(x, y, s.Compute_cij(z)) + s.xmin() + 2 * s.xmax() + 3 * s.ymin() + 5 * s.zmin(); }); }
    else if (a[2].open) { PowerSeries3dZOpenedXYClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo); mc::Same(p.ymax(), a[1].hi, "ymax"); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dZOpenedXYClosed"); copies(p, PowerSeries3dZOpenedXYClosed<double>(bm2, a[0].lo, a[0].hi + 1, a[1].lo, a[1].hi, a[2].lo), [&](auto &s) { double x = P[0][2], y = P[1][0], z = P[2][2], f, g, h; s.Evaluate_f_dfdx_dfdy(x, y, z, f, g, h); return s.Evaluate(x, y, z) + 3 * s.Evaluate_derivative_z(x, y, z) + 5 * f + 7 * g + 11 * h + 13 * s.Evaluate_zinf(x, y) + 17 * s.Evaluate_z_predefined(x, y, s.Compute_cij(z)) + s.xmin() + 2 * s.xmax() + 3 * s.ymin() + 5 * s.zmin(); }); }
    else { PowerSeries3dClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo, a[2].hi); mc::Same(p.ymax(), a[1].hi, "ymax"); mc::Same(p.zmax(), a[2].hi, "zmax"); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dClosed"); copies(p, PowerSeries3dClosed<double>(bm2, a[0].lo, a[0].hi + 1, a[1].lo, a[1].hi, a[2].lo, a[2].hi), [&](auto &s) { double x = P[0][2], y = P[1][0], z = P[2][2], f, g, h; s.Evaluate_f_dfdx_dfdy(x, y, z, f, g, h); return s.Evaluate(x, y, z) + 3 * s.Evaluate_derivative_z(x, y, z) + 5 * f + 7 * g + 11 * h + 13 * s.Evaluate_zinf(x, y) + 17 * s.Evaluate_z_predefined(x, y, s.Compute_cij(z)) + s.xmin() + 2 * s.xmax() + 3 * s.ymin() + 5 * s.zmin(); }); }
  }
  // and the Chebyshev series it comes from
  Chk k{b, a, tol * n2};
  for (double x : P[0]) for (double y : P[1]) for (double z : P[2]) {
    LD u = a[0].u(x), v = dim > 1 ? a[1].u(y) : 0, w = dim > 2 ? a[2].u(z) : 0;
    mc::Visit(dim, fn, a[0].lo, ox, oy, oz, x, y, z);
    k(s.val(x, y, z), -1, u, v, w, 1, "Chebyshev series", x, y, z);
    for (int d = 0; d < dim; ++d) k(s.der[d](x, y, z), d, u, v, w, d == 0 ? a[0].du(x) : d == 1 ? a[1].du(y) : a[2].du(z), "Chebyshev series derivative", x, y, z);
  }
  mc::Outcome(dim == 1 ? "1d" : dim == 2 ? "2d" : "3d");
}
// power series given their coefficients directly, sparse or dense, of any order and magnitude
static void direct(int dim, const std::vector<Ax> &a, int ox, int oy, int oz, int kind, double unit) {
  if (!mc::Case([&] { return name(a, ox, oy, oz) + mc::str(" from coefficients of kind %d times %g", kind, unit); })) return;
  Ten b(ox, oy, oz); int t = 0;
  for (LD &c : b.c) { double g = mc::gen(t + 5 * ox + kind); c = (LD) (unit * (kind == 0 ? g : kind == 1 ? (t % 3 == 1 ? g : 0) : kind == 2 ? (t + 1 == (int) b.c.size() ? 3 : 0) : kind == 3 ? (t == 0 ? 1 : 1e-9 * g) : g * std::pow(10., t % 7 - 5))); ++t; }
  int o[3] = {ox, oy, oz}; LD cond = 1, n2 = 1; std::vector<double> P[3] = {{0}, {0}, {0}};
  for (int i = 0; i < dim; ++i) { cond = std::max(cond, a[i].cond()); n2 += o[i]; P[i] = Pts(a[i], 0, dim == 1 ? std::vector<LD>{-1, 1, 0, -0.75L, 0.3L, 0.95L, 1e-6L, 1 - 1e-9L} : std::vector<LD>{-1, 1, 0.4L, 0}, false); }
  LD tol = 1e-15L * n2 * cond;
  if (dim == 1) {
    VectorN<double> bv(ox + 1); for (int i = 0; i <= ox; ++i) bv(i) = (double) b.at(i, 0, 0);
    if (a[0].open) { PowerSeries1dOpened<double> p(bv, a[0].lo); check1(p, b, a, tol, P[0]); } else { PowerSeries1dClosed<double> p(bv, a[0].lo, a[0].hi); check1(p, b, a, tol, P[0]); }
  } else if (dim == 2) {
    M bm = M::Zero(ox + 1, oy + 1); for (int i = 0; i <= ox; ++i) for (int j = 0; j <= oy; ++j) bm(i, j) = (double) b.at(i, j, 0);
    if (a[0].open) { PowerSeries2dOpened<double> p(bm, a[0].lo, a[1].lo); check2(p, b, a, tol, P[0], P[1]); } else if (a[1].open) { PowerSeries2dMixed<double> p(bm, a[0].lo, a[0].hi, a[1].lo); check2(p, b, a, tol, P[0], P[1]); } else { PowerSeries2dClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi); check2(p, b, a, tol, P[0], P[1]); }
  } else {
    std::vector<M> bm; for (int k = 0; k <= oz; ++k) { M m = M::Zero(ox + 1, oy + 1); for (int i = 0; i <= ox; ++i) for (int j = 0; j <= oy; ++j) m(i, j) = (double) b.at(i, j, k); bm.push_back(m); }
    if (a[1].open) { PowerSeries3dYZOpenedXClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[2].lo); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dYZOpenedXClosed"); }
    else if (a[2].open) { PowerSeries3dZOpenedXYClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dZOpenedXYClosed"); }
    else { PowerSeries3dClosed<double> p(bm, a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo, a[2].hi); check3(p, b, bm, a, tol, P[0], P[1], P[2], "PowerSeries3dClosed"); }
  }
  mc::Outcome("given coefficients");
}
static UF generic(int l, int m, int n) { return [=](LD u, LD v, LD w) { LD s = 0; for (int i = 0; i <= l; ++i) for (int j = 0; j <= m; ++j) for (int k = 0; k <= n; ++k) s += mc::gen(i * 31 + j * 7 + k) * Tn(i, u) * Tn(j, v) * Tn(k, w); return s; }; }
static void refused(int dim, int ox, int oy, int oz) {
  if (!mc::Case([&] { return mc::str("%dd conversion at orders %d %d %d", dim, ox, oy, oz); })) return;
  mc::Visit("refused", dim, ox, oy, oz);
  auto d = Domains(dim, false)[0];
  Series s = Make(dim, d, [](LD u, LD, LD) { return u; }, ox, oy, oz);
  bool over = ox > 18 || oy > 18 || oz > 18;
  mc::Ending e = mc::InChild([&] { s.convert(); });
  MC_CHECK((e == mc::RETURNED) == !over && e != mc::MISUSE, "conversion at orders %d %d %d: %s", ox, oy, oz, mc::endname(e));
  mc::Outcome(over ? "refused" : "accepted");
}
static void readpair(Series &s, const std::vector<Ax> &a, const std::array<int, 3> &o, const Ten &cheb) {
  int dim = (int) a.size();
  Ten ref = ToPower(cheb), b = s.convert();
  LD cond = 1, n2 = 1; for (int i = 0; i < dim; ++i) { cond = std::max(cond, a[i].cond()); n2 += o[i]; }
  for (int i = 0; i < 3; ++i) mc::Same(b.n[i], o[i], "order %d of the converted coefficients", i);
  for (size_t i = 0; i < b.c.size(); ++i) mc::Near(b.c[i], ref.c[i], ref.sum() + 64, 1e-14L * n2 * n2 * cond, "converted coefficient %zu", i);
}
static void explore() {
  PairHistories(mc::Tier(4, 6), readpair);
  UF ex = [](LD u, LD v, LD w) { return expl(u - 0.5L * v + 0.25L * w) + u * v * v * w; };
  for (auto &a : Domains(1, true)) for (int n = 0; n <= 18; ++n) {
    for (int m = 0; m <= n; ++m) run(1, a, n, 0, 0, [m](LD u, LD, LD) { return Tn(m, u); }, mc::str("T%d", m));
    run(1, a, n, 0, 0, ex, "exp");
    run(1, a, n, 0, 0, generic(n, 0, 0), "generic");
    for (LD c : {1e-10L, 1e-25L, 1e12L}) run(1, a, n, 0, 0, [c](LD u, LD, LD) { return c * expl(u); }, mc::str("%Lg exp", c), c);
  }
  int N = mc::Tier(5, 8);
  for (auto &a : Domains(2, true)) for (int m = 0; m <= N; ++m) for (int n = 0; n <= N; ++n) {
    for (int i = 0; i <= m; ++i) for (int j = 0; j <= n; ++j) if (m < 4 || n < 4 || i == m || j == n) run(2, a, m, n, 0, [=](LD u, LD v, LD) { return Tn(i, u) * Tn(j, v); }, mc::str("T%d T%d", i, j));
    run(2, a, m, n, 0, ex, "exp");
    run(2, a, m, n, 0, generic(m, n, 0), "generic");
    for (LD c : {1e-10L, 1e-25L, 1e12L}) run(2, a, m, n, 0, [c](LD u, LD v, LD) { return c * expl(u - 0.5L * v); }, mc::str("%Lg exp", c), c);
  }
  for (auto &a : Domains(2, true)) for (auto o : std::vector<std::array<int, 2>>{{18, 1}, {1, 18}, {12, 7}, {7, 12}, {0, 18}, {18, 0}, {10, 10}}) run(2, a, o[0], o[1], 0, generic(o[0], o[1], 0), "generic");
  N = mc::Tier(2, 3);
  for (auto &a : Domains(3, true)) for (mc::Odo o(mc::rep(N + 1, 3)); o; ++o) {
    int l = o[0], m = o[1], n = o[2];
    for (int i = 0; i <= l; ++i) for (int j = 0; j <= m; ++j) for (int k = 0; k <= n; ++k) run(3, a, l, m, n, [=](LD u, LD v, LD w) { return Tn(i, u) * Tn(j, v) * Tn(k, w); }, mc::str("T%d T%d T%d", i, j, k));
    run(3, a, l, m, n, ex, "exp");
    run(3, a, l, m, n, generic(l, m, n), "generic");
    for (LD c : {1e-10L, 1e-25L, 1e12L}) run(3, a, l, m, n, [c](LD u, LD v, LD w) { return c * expl(u - 0.5L * v + 0.25L * w); }, mc::str("%Lg exp", c), c);
  }
  std::vector<std::array<int, 3>> big3 = {{4, 1, 3}, {1, 4, 2}, {2, 3, 4}, {5, 0, 1}, {0, 5, 0}, {0, 1, 5}, {8, 1, 1}, {1, 8, 0}, {1, 1, 8}, {3, 4, 5}};
  for (auto v : std::vector<std::array<int, 3>>{{10, 1, 2}, {2, 10, 1}, {1, 2, 10}, {6, 6, 6}, {18, 0, 1}, {0, 18, 0}, {1, 0, 18}}) big3.push_back(v);
  for (auto &a : Domains(3, true)) for (auto o : big3) run(3, a, o[0], o[1], o[2], generic(o[0], o[1], o[2]), "generic");
  for (int kind = 0; kind < 5; ++kind) for (double c : {1., 1e-14, 1e20}) {
    for (auto &a : Domains(1, true)) for (int n = 0; n <= 40; ++n) direct(1, a, n, 0, 0, kind, c);
    for (auto &a : Domains(2, true)) for (auto o : std::vector<std::array<int, 2>>{{0, 0}, {0, 3}, {3, 0}, {1, 1}, {2, 5}, {5, 2}, {4, 4}, {24, 3}, {2, 25}}) direct(2, a, o[0], o[1], 0, kind, c);
    for (auto &a : Domains(3, true)) for (auto o : std::vector<std::array<int, 3>>{{0, 0, 0}, {1, 0, 2}, {0, 2, 0}, {2, 1, 1}, {3, 2, 4}, {20, 1, 1}, {1, 21, 2}, {1, 2, 22}}) direct(3, a, o[0], o[1], o[2], kind, c);
  }
  for (int n = 16; n <= 22; ++n) { refused(1, n, 0, 0); refused(2, n, 1, 0); refused(2, 1, n, 0); refused(3, n, 0, 1); refused(3, 0, n, 0); refused(3, 1, 0, n); }
}
MC_MAIN(explore)
