// C20 - triangle quadrature.
//@bounds quick: all 8 orders x every monomial x^i y^j z^k of total degree <= order x 87 triangles (planar, nearly planar, spatial, needle-shaped, legs from 1e-12 to 1e10, centred on or far from the origin (legs down to 1e-11 of the distance)) x all 6 vertex orderings; integrands scaled from 1e-30 to 1e60; scalar (float, double), complex, 3-vector, n-vector (real, complex), 3x3- and m x n-matrix integrands; integrators interleaved and reused; every ordered pair of 27 nearly alike triangles and 3 integrands through two integrators, for each order; orders -3..20 without a rule
//@bounds thorough: 400 triangles and additionally products of two random linear forms powers
//@model exact barycentric integrals 2A a!b!c!/(a+b+c+2)! in long double
//@assume tabulated rules carry 14 digits: tolerance 1e-12 relative to the area times the maximum of the monomial
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef Vector3d<double> P;
struct T3 { P v[3]; };
static LD area(const T3 &t) {
  LD a[3], b[3]; for (int i = 0; i < 3; ++i) { a[i] = (LD) t.v[1][i] - t.v[0][i]; b[i] = (LD) t.v[2][i] - t.v[0][i]; }
  LD x = a[1] * b[2] - a[2] * b[1], y = a[2] * b[0] - a[0] * b[2], z = a[0] * b[1] - a[1] * b[0];
  return sqrtl(x * x + y * y + z * z) / 2;
}
static LD fact(int n) { LD r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
// coefficients on l1^a l2^b l3^c, a+b+c = degree
typedef std::map<std::array<int, 3>, LD> Poly;
static LD exact(const T3 &t, int i, int j, int k, LD &scale) {
  Poly p; p[{0, 0, 0}] = 1;
  LD mx[3] = {0, 0, 0};
  for (int d = 0; d < 3; ++d) for (int m = 0; m < 3; ++m) mx[d] = std::max(mx[d], fabsl(t.v[m][d]));
  int e[3] = {i, j, k};
  scale = area(t);
  for (int d = 0; d < 3; ++d) for (int r = 0; r < e[d]; ++r) {
    scale *= mx[d];
    Poly q;
    for (auto &c : p) for (int m = 0; m < 3; ++m) { auto key = c.first; ++key[m]; q[key] += c.second * t.v[m][d]; }
    p = q;
  }
  LD s = 0; for (auto &c : p) s += c.second * fact(c.first[0]) * fact(c.first[1]) * fact(c.first[2]) / fact(c.first[0] + c.first[1] + c.first[2] + 2);
  return 2 * area(t) * s;
}
static double mono(const P &x, int i, int j, int k) { double r = 1; while (i--) r *= x[0]; while (j--) r *= x[1]; while (k--) r *= x[2]; return r; }
struct FD : Integrand<double> { int i = 0, j = 0, k = 0; double c = 1; double Evaluate(const P &x) const override { return c * mono(x, i, j, k); } };
struct FC : Integrand<std::complex<double>> { int i = 0, j = 0, k = 0; std::complex<double> Evaluate(const P &x) const override { return {mono(x, i, j, k), 2 * mono(x, j, i, k)}; } };
struct FV : Integrand<P> { int i = 0, j = 0, k = 0; P Evaluate(const P &x) const override { return P(mono(x, i, j, k), -mono(x, j, k, i), 3 * mono(x, k, i, j)); } };
struct FN : Integrand<VectorN<double>> { int i = 0, j = 0, k = 0; VectorN<double> Evaluate(const P &x) const override { VectorN<double> v(2); v.at(0) = mono(x, i, j, k); v.at(1) = 4 * mono(x, k, j, i); return v; } };
struct FM : Integrand<Matrix33<double>> { int i = 0, j = 0, k = 0; Matrix33<double> Evaluate(const P &x) const override { Matrix33<double> m; for (int a = 0; a < 9; ++a) m(a / 3, a % 3) = (a + 1) * mono(x, i, j, k); return m; } };
struct FF : Integrand<float> { int i = 0, j = 0, k = 0; float Evaluate(const P &x) const override { return (float) mono(x, i, j, k); } };
struct FZ : Integrand<VectorN<std::complex<double>>> { int i = 0, j = 0, k = 0; VectorN<std::complex<double>> Evaluate(const P &x) const override { VectorN<std::complex<double>> v(3); v.at(0) = {mono(x, i, j, k), -mono(x, k, j, i)}; v.at(1) = 0; v.at(2) = 2.; return v; } };
struct FMN : Integrand<MatrixMN<double>> { int i = 0, j = 0, k = 0; MatrixMN<double> Evaluate(const P &x) const override { MatrixMN<double> m(2, 3); for (int a = 0; a < 6; ++a) m(a / 3, a % 3) = (a - 2) * mono(x, i, j, k); return m; } };
static const LD E = 1e-12L;
static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
static void run(const T3 &t, int order, int nt) {
  if (!mc::Case([&] { return mc::str("order %d triangle %d (%g,%g,%g) (%g,%g,%g) (%g,%g,%g)", order, nt, t.v[0][0], t.v[0][1], t.v[0][2], t.v[1][0], t.v[1][1], t.v[1][2], t.v[2][0], t.v[2][1], t.v[2][2]); })) return;
  FD f; FC fc; FV fv; FN fn; FM fm;
  Integration2dTriangle<double> I(&f, order), other(&f, order % 8 + 1);
  Integration2dTriangle<std::complex<double>> Ic(&fc, order);
  Integration2dTriangle<P> Iv(&fv, order);
  Integration2dTriangle<VectorN<double>> In(&fn, order);
  Integration2dTriangle<Matrix33<double>> Im(&fm, order);
  T3 unit{{P(0, 0, 0), P(1, 0, 0), P(0, 1, 0)}};
  for (int i = 0; i <= order; ++i) for (int j = 0; i + j <= order; ++j) for (int k = 0; i + j + k <= order; ++k) {
    f.i = fc.i = fv.i = fn.i = fm.i = i; f.j = fc.j = fv.j = fn.j = fm.j = j; f.k = fc.k = fv.k = fn.k = fm.k = k;
    LD sc, s2, s3, w = exact(t, i, j, k, sc);
    for (auto &p : PERM) {
      mc::Visit(order, nt, i, j, k, p[0], p[1]);
      f.c = 1;
      mc::Near(I.Compute(t.v[p[0]], t.v[p[1]], t.v[p[2]]), w, sc, E, "x^%d y^%d z^%d, vertex order %d%d%d", i, j, k, p[0], p[1], p[2]);
      (void) other.Compute(unit.v[0], unit.v[1], unit.v[2]);
    }
    f.c = -7.5;
    mc::Near(I.Compute(t.v[0], t.v[1], t.v[2]), -7.5L * w, 7.5L * sc, E, "scaled integrand");
    for (double c : {1e-14, 1e-30, 1e60}) { f.c = c; mc::Near(I.Compute(t.v[0], t.v[1], t.v[2]), c * w, c * sc, E, "integrand times %g", c); }
    f.c = 1;
    LD wu = exact(unit, i, j, k, s2);
    mc::Near(I.Compute(unit.v[0], unit.v[1], unit.v[2]), wu, std::max(s2, 1e-3L), E, "reused on the unit triangle");
    mc::Near(I.Compute(t.v[0], t.v[1], t.v[2]), w, sc, E, "reused again");
    if (i + j + k == order || i + j + k <= 1) {
      std::complex<double> c = Ic.Compute(t.v[0], t.v[1], t.v[2]); LD wc = exact(t, j, i, k, s2);
      mc::Near(c.real(), w, sc, E, "complex integrand, real part"); mc::Near(c.imag(), 2 * wc, 2 * s2, E, "complex integrand, imaginary part");
      P v = Iv.Compute(t.v[0], t.v[1], t.v[2]); LD wv = exact(t, j, k, i, s2), ww = exact(t, k, i, j, s3);
      mc::Near(v[0], w, sc, E, "vector integrand"); mc::Near(v[1], -wv, s2, E, "vector integrand"); mc::Near(v[2], 3 * ww, 3 * s3, E, "vector integrand");
      VectorN<double> n = In.Compute(t.v[0], t.v[1], t.v[2]); LD wn = exact(t, k, j, i, s2);
      mc::Same((int) n.size(), 2, "n-vector integral size"); mc::Near(n.at(0), w, sc, E, "n-vector integrand"); mc::Near(n.at(1), 4 * wn, 4 * s2, E, "n-vector integrand");
      Matrix33<double> m = Im.Compute(t.v[0], t.v[1], t.v[2]);
      for (int a = 0; a < 9; ++a) mc::Near(m(a / 3, a % 3), (a + 1) * w, (a + 1) * sc, E, "matrix integrand");
      FF ff; ff.i = i; ff.j = j; ff.k = k; if (sc < 1e30L && (sc > 1e-30L || sc == 0)) mc::Near(Integration2dTriangle<float>(&ff, order).Compute(t.v[0], t.v[1], t.v[2]), w, sc, 2e-6L, "float integrand");
      FZ fz; fz.i = i; fz.j = j; fz.k = k; VectorN<std::complex<double>> z = Integration2dTriangle<VectorN<std::complex<double>>>(&fz, order).Compute(t.v[0], t.v[1], t.v[2]);
      mc::Same((int) z.size(), 3, "complex n-vector integral size"); mc::Near(z.at(0).real(), w, sc, E, "complex n-vector"); mc::Near(z.at(0).imag(), -wn, s2, E, "complex n-vector"); mc::Near(z.at(2).real(), 2 * area(t), 0, E, "complex n-vector"); mc::Near(std::abs(z.at(1)), 0, 0, E, "complex n-vector");
      FMN fmn; fmn.i = i; fmn.j = j; fmn.k = k; MatrixMN<double> mn = Integration2dTriangle<MatrixMN<double>>(&fmn, order).Compute(t.v[0], t.v[1], t.v[2]);
      mc::Same((int) mn.rows(), 2, "m x n integral rows"); mc::Same((int) mn.cols(), 3, "m x n integral columns"); for (int a = 0; a < 6; ++a) mc::Near(mn(a / 3, a % 3), (a - 2) * w, 3 * sc, E, "m x n integrand");
    }
  }
  // two integrators of different orders on one integrand do not disturb each other
  f.i = 1; f.j = 0; f.k = 0; LD sc, w = exact(t, 1, 0, 0, sc);
  mc::Near(other.Compute(t.v[0], t.v[1], t.v[2]), w, sc, E, "another order"); mc::Near(I.Compute(t.v[0], t.v[1], t.v[2]), w, sc, E, "this order afterwards");
  mc::Outcome("triangle");
}
// one integrator driven through nearly alike triangles: every ordered pair among the base and its variations (one coordinate
// changed, translated, one vertex moved along an edge, mirrored, rescaled), with the integrand possibly changed in between
static void alike(int order) {
  std::vector<T3> v;
  T3 b{{P(0, 0, 0), P(2, 0, 0), P(0.5, 1, 0.25)}};
  v.push_back(b);
  for (int i = 0; i < 3; ++i) for (int c = 0; c < 3; ++c) { T3 t = b; t.v[i][c] += 0.75; v.push_back(t); }
  for (int c = 0; c < 3; ++c) { T3 t = b, m = b; for (auto &p : t.v) p[c] += 1; for (auto &p : m.v) p[c] = -p[c]; v.push_back(t); v.push_back(m); }
  { T3 t = b; for (auto &p : t.v) for (int c = 0; c < 3; ++c) p[c] *= 2; v.push_back(t); t = b; for (double e : {1e-4, 1e-6, 1e-8, 1e-10}) { t = b; t.v[0][0] += e; v.push_back(t); t = b; t.v[2][1] += e; v.push_back(t); } t = b; std::swap(t.v[0], t.v[1]); v.push_back(t); t = b; t.v[2] = b.v[0]; t.v[0] = b.v[1]; t.v[1] = b.v[2]; v.push_back(t); }
  const int e[3][3] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
  for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) for (int g = 0; g < 3; ++g) for (int h = 0; h < 3; ++h) {
    if (!mc::Case([&] { return mc::str("order %d, variations %zu and %zu of a triangle, integrands %d and %d", order, i, j, g, h); })) continue;
    mc::Visit("alike", order, i, j, g, h);
    FD f; Integration2dTriangle<double> I(&f, order), J(&f, order);
    auto ck = [&](Integration2dTriangle<double> &Q, size_t t, int q, const char *w) { f.i = e[q][0]; f.j = e[q][1]; f.k = e[q][2]; LD sc, x = exact(v[t], f.i, f.j, f.k, sc); mc::Near(Q.Compute(v[t].v[0], v[t].v[1], v[t].v[2]), x, sc, E, "%s: variation %zu, integrand %d", w, t, q); };
    ck(I, i, g, "first"); ck(I, j, h, "second"); ck(J, i, h, "another integrator"); ck(I, i, g, "first again"); ck(J, j, g, "another integrator"); ck(I, j, g, "second, other integrand");
    mc::Outcome("nearly alike triangles");
  }
}
static void explore() {
  for (int o = 1; o <= 8; ++o) alike(o);
  std::vector<T3> ts;
  ts.push_back({{P(0, 0, 0), P(1, 0, 0), P(0, 1, 0)}});
  ts.push_back({{P(0, 0, 0), P(0, 0, 1), P(0, 1, 0)}});
  ts.push_back({{P(1, 2, 3), P(4, -1, 2), P(-2, 0, 5)}});
  ts.push_back({{P(-1, -1, 0), P(1, -1, 0), P(0, 0.001, 0)}});
  ts.push_back({{P(1e-5, 0, 0), P(0, 1e-5, 0), P(0, 0, 1e-5)}});
  ts.push_back({{P(1e4, 0, 0), P(0, 2e4, 0), P(0, 0, -1e4)}});
  ts.push_back({{P(100, 100, 100), P(101, 100, 100), P(100, 101, 100)}});
  ts.push_back({{P(-3, -4, 0), P(-3, 5, 0), P(2, 1, 0)}});
  ts.push_back({{P(0, 0, 2), P(5, 0, 2), P(5, 7, 2)}});
  ts.push_back({{P(2, 2, 2), P(2, 2, 2), P(2, 2, 2)}});   // empty area
  ts.push_back({{P(0, 0, 0), P(1, 1, 1), P(2, 2, 2)}});   // empty area
  for (double h : {1e-3, 1e-6, 1e-8, 1e-12, 1e7, 1e10}) { ts.push_back({{P(h, 2 * h, 3 * h), P(4 * h, -h, 2 * h), P(-2 * h, 0, 5 * h)}}); ts.push_back({{P(0, 0, 0), P(h, 0, 0), P(0, h, 0)}}); }
  for (int a = 0; a < 3; ++a) for (double h : {0., 1e-9, 1e-3, 2.}) { T3 t{{P(-1, -1, h), P(3, -1, h), P(-2, 2, h)}}; if (h == 1e-9) t.v[1][2] = 0; if (a) for (auto &p : t.v) { P q = p; for (int c = 0; c < 3; ++c) p[(c + a) % 3] = q[c]; } ts.push_back(t); }   // in and nearly in each coordinate plane
  ts.push_back({{P(-1, -1, -1), P(1, 0, -1), P(0, 1, 2)}});   // centred on the origin
  ts.push_back({{P(1, 1, 0), P(-1, 1, 0), P(1, -1, 0)}});   // an edge through the origin
  for (double h : {1e-2, 1e-4, 1e-6}) { ts.push_back({{P(0, 0, 0), P(1, 0, 0), P(0.25, h, 0)}}); ts.push_back({{P(0, 0, 0), P(1, 0, 0), P(2, 0, h)}}); }   // needles
  for (double o : {1024., 1048576., 67108864.}) for (double h : {0.125, 0.0009765625}) { ts.push_back({{P(o, 0, 0), P(o + h, 0, 0), P(o, h, 0)}}); ts.push_back({{P(o, -o, o), P(o + h, -o, o), P(o, h - o, o + 2 * h)}}); }   // small and far away
  for (int k = 0; (int) ts.size() < mc::Tier(87, 400); ++k) { T3 t; for (int v = 0; v < 3; ++v) for (int c = 0; c < 3; ++c) t.v[v][c] = mc::gen(k * 9 + v * 3 + c) * (k % 3 == 0 ? 1 : k % 3 == 1 ? 0.01 : 30); if (k % 4 == 0) for (auto &p : t.v) p[2] = 0; ts.push_back(t); }
  for (int o = 1; o <= 8; ++o) for (size_t i = 0; i < ts.size(); ++i) run(ts[i], o, (int) i);
  for (int o = -3; o <= 20; ++o) {
    if (o >= 1 && o <= 8) continue;
    if (!mc::Case([&] { return mc::str("order %d without a rule", o); })) continue;
    mc::Visit("order", o);
    FD f;
    mc::Ending e = mc::InChild([&] { Integration2dTriangle<double> I(&f, o); volatile double r = I.Compute(P(0, 0, 0), P(1, 0, 0), P(0, 1, 0)); (void) r; });
    MC_CHECK(e != mc::RETURNED && e != mc::MISUSE, "order %d: %s", o, mc::endname(e));
    mc::Outcome("order refused");
  }
}
MC_MAIN(explore)
