// C16 - matrix decompositions.
//@bounds quick: dynamic: all 2x2 (5 values) and 3x3 (3 values) matrices, all 3x2 and 2x3 matrices over 3 values, tall and wide shapes up to 9x6, square families 4..7; 3x3 class: all 3^9 words; 6x6 class: permutations, generic, all ranks, structured; scales 1e-6..1e6; seven structures of size 2..6 with any one entry displaced by 1e-12 to 1e-2; sizes up to 65; complex matrices up to 6x6; single precision: all 2x2 and 3x3 words, families up to 7x7, 3x3 and 6x6 classes, symmetric words; definite and barely indefinite or asymmetric matrices in rotated frames at three scales; outputs with every prior shape among {empty, smaller, larger}; Cholesky on all symmetric 5-valued words up to 3x3 and families up to 7x7; rank-one updates for 4 vectors and sigma in {1, -0.25, 2.5, 1e-3}
//@bounds thorough: 3x3 words over 4 values, ten times larger families, shapes up to 30x20
//@model products, triangularity and orthonormality in long double; definiteness by Jacobi eigenvalues; singular values by Jacobi on A'A
//@opt -O1
#include "mats.h"
using namespace mathutils;
using namespace la;
static LD E = 1e-12L;      // relative tolerance; larger while single precision is explored
static void upper(const Mat &r, LD tol, const char *w) { for (int i = 0; i < r.m; ++i) for (int j = 0; j < r.n && j < i; ++j) MC_CHECK(fabsl(r(i, j)) <= tol, "%s: entry (%d,%d) = %Lg below the diagonal", w, i, j, r(i, j)); }
static void ortho(const Mat &q, const char *w) { same(mul(tr(q), q), eye(q.n), E, "%s: orthonormal columns", w); }
template<class S> static void dirty(MatrixMN<S> &m, int k) { if (k == 1) m = MatrixMN<S>(1, 1), m.setConstant(7); if (k == 2) m = MatrixMN<S>(9, 8), m.setConstant(-3); }
template<class M> static void dirty(M &m, int k) { m.setConstant(k == 0 ? 0 : k == 1 ? 5 : -1e3); }
template<class M> static void qr(const Mat &x, int k) {
  const M a = to<M>(x); M Q, R; dirty(Q, k); dirty(R, (k + 1) % 3);
  mc::Visit("qr", x.m, x.n, x.a, k);
  a.GetQRDecomposition(Q, R);
  Mat q = from(Q), r = from(R);
  MC_CHECK(q.m == x.m && q.n == x.n && r.m == x.n && r.n == x.n, "thin QR factors are %dx%d and %dx%d", q.m, q.n, r.m, r.n);
  ortho(q, "thin Q"); upper(r, 0, "thin R"); same(mul(q, r), x, E * (fro(x) + 1e-290L), "thin QR product");
  same(from(a), x, 0, "matrix after QR");
}
template<class MN> static void fullqr(const Mat &x, int k) {
  const MN a = to<MN>(x); MN Q, R; dirty(Q, k); dirty(R, (k + 1) % 3);
  mc::Visit("fqr", x.m, x.n, x.a, k);
  a.GetFullQRDecomposition(Q, R);
  Mat q = from(Q), r = from(R);
  MC_CHECK(q.m == x.m && q.n == x.m && r.n == x.n && (r.m == x.n || r.m == x.m), "full QR factors are %dx%d and %dx%d", q.m, q.n, r.m, r.n);
  ortho(q, "full Q"); ortho(tr(q), "full Q'"); upper(r, 0, "full R");
  Mat rr(x.m, x.n); for (int i = 0; i < r.m; ++i) for (int j = 0; j < r.n; ++j) rr(i, j) = r(i, j);
  same(mul(q, rr), x, E * fro(x), "full QR product");
  same(from(a), x, 0, "matrix after full QR");
}
template<class M> static void lu(const Mat &x, int k) {
  const M a = to<M>(x); M P, L, U; dirty(P, k); dirty(L, (k + 1) % 3); dirty(U, (k + 2) % 3);
  mc::Visit("lu", x.m, x.n, x.a, k);
  a.GetLUDecomposition(P, L, U);
  Mat p = from(P), l = from(L), u = from(U);
  int n = x.n;
  MC_CHECK(p.m == n && p.n == n && l.m == n && l.n == n && u.m == n && u.n == n, "LU factor shapes");
  for (int i = 0; i < n; ++i) { LD rs = 0, cs = 0; for (int j = 0; j < n; ++j) { MC_CHECK(p(i, j) == 0 || p(i, j) == 1, "P(%d,%d)=%Lg", i, j, p(i, j)); rs += p(i, j); cs += p(j, i); } MC_CHECK(rs == 1 && cs == 1, "P is not a permutation"); }
  upper(u, 0, "U");
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) MC_CHECK(l(i, j) == (i == j), "L(%d,%d)=%Lg", i, j, l(i, j));
  // a singular matrix may leave non-finite multipliers in Eigen's partial pivoting; the product is judged when L is finite
  bool fin = true; for (LD v : l.a) fin = fin && std::isfinite(v);
  if (fin) same(mul(l, u), mul(p, x), E * fro(x), "LU = PA");
  else MC_CHECK(rankint(x) < n, "non-finite L for an invertible matrix");
  same(from(a), x, 0, "matrix after LU");
}
template<class M> struct SV { typedef Eigen::Matrix<double, Eigen::Dynamic, 1> T; };
template<> struct SV<MN> { typedef MN T; };
template<> struct SV<M3> { typedef Eigen::Matrix<double, 3, 1> T; };
template<> struct SV<M6> { typedef Eigen::Matrix<double, 6, 1> T; };
template<> struct SV<MNf> { typedef MNf T; };
template<> struct SV<M3f> { typedef Eigen::Matrix<float, 3, 1> T; };
template<> struct SV<M6f> { typedef Eigen::Matrix<float, 6, 1> T; };
template<class M> static void svd(const Mat &x, int k) {
  const M a = to<M>(x); M U, V; typename SV<M>::T S; dirty(U, k); dirty(V, (k + 1) % 3); if (k) dirty(S, (k + 2) % 3);
  mc::Visit("svd", x.m, x.n, x.a, k);
  a.GetSVDDecomposition(U, S, V);
  Mat u = from(U), s = from(S), v = from(V);
  int r = std::min(x.m, x.n);
  MC_CHECK(u.m == x.m && u.n == r && v.m == x.n && v.n == r && s.m == r && s.n == 1, "SVD factors are %dx%d, %dx%d, %dx%d", u.m, u.n, s.m, s.n, v.m, v.n);
  ortho(u, "U"); ortho(v, "V");
  for (int i = 0; i < r; ++i) { MC_CHECK(s(i, 0) >= 0, "singular value %d = %Lg", i, s(i, 0)); if (i) MC_CHECK(s(i, 0) <= s(i - 1, 0), "singular values not decreasing at %d", i); }
  Mat us = u; for (int i = 0; i < u.m; ++i) for (int j = 0; j < r; ++j) us(i, j) *= s(j, 0);
  same(mul(us, tr(v)), x, E * (fro(x) + 1e-290L), "U S V'");
  std::vector<LD> ref = singular(x);
  for (int i = 0; i < r; ++i) mc::Near(s(i, 0), ref[i], fro(x), std::max(1e-8L, E), "singular value %d", i);
  same(from(a), x, 0, "matrix after SVD");
}
template<class M> static void chol(const Mat &x, int k) {
  const M a = to<M>(x); M L; dirty(L, k);
  mc::Visit("chol", x.m, x.n, x.a, k);
  LD f = fro(x), as = 0;
  if (x.m == x.n) for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) as = std::max(as, fabsl(x(i, j) - x(j, i)));
  LD lim = std::max(1e-9L, 10 * E);
  bool refuse = x.m != x.n || as > lim * f;
  if (!refuse && as > 0 && E > 1e-9L) { mc::Outcome("Cholesky: nearly symmetric, not judged"); return; }
  LD mn = 0;
  if (!refuse) { mn = symeig(x)[0]; if (mn < -lim * f) refuse = true; else if (!(mn > lim * f)) { mc::Outcome("Cholesky: semi-definite, not judged"); return; } }
  Mat before = from(L);
  if (refuse) {
    MC_CHECK(mc::Throws([&] { a.GetCholeskyDecomposition(L); }), "Cholesky accepted a matrix that is %s", x.m != x.n ? "not square" : as > 0 ? "not symmetric" : "indefinite");
    same(from(a), x, 0, "matrix after refused Cholesky");
    mc::Outcome("Cholesky refused");
    return;
  }
  a.GetCholeskyDecomposition(L);
  Mat l = from(L);
  MC_CHECK(l.m == x.m && l.n == x.n, "Cholesky factor shape");
  for (int i = 0; i < l.m; ++i) { MC_CHECK(l(i, i) > 0, "L(%d,%d)=%Lg", i, i, l(i, i)); for (int j = i + 1; j < l.n; ++j) MC_CHECK(l(i, j) == 0, "L(%d,%d)=%Lg above the diagonal", i, j, l(i, j)); }
  same(mul(l, tr(l)), x, E * f, "L L'");
  same(from(a), x, 0, "matrix after Cholesky");
  mc::Outcome("Cholesky accepted");
}
static void update(const Mat &x) {
  if (symeig(x)[0] < 0.5L) return;
  int n = x.n;
  for (int kv = 0; kv < 4; ++kv) for (double sg : {1.0, -0.25, 2.5, 1e-3}) {
    Mat v(n, 1), y = x;
    for (int i = 0; i < n; ++i) v(i, 0) = kv == 0 ? (i == 0) : kv == 1 ? (i == n - 1) * 0.5 : kv == 2 ? mc::gen(i + n) : 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) y(i, j) += sg * v(i, 0) * v(j, 0);
    if (symeig(y)[0] < 1e-3L * fro(y)) continue;
    mc::Visit("upd", x.a, kv, sg);
    MN a = to<MN>(x), w = to<MN>(v), L, L2; dirty(L, kv % 3);
    a.GetCholeskyUpdate(L, w, sg);
    Mat l = from(L); MC_CHECK(l.m == n && l.n == n, "update factor shape");
    for (int i = 0; i < n; ++i) { MC_CHECK(l(i, i) > 0, "updated L(%d,%d)=%Lg", i, i, l(i, i)); for (int j = i + 1; j < n; ++j) MC_CHECK(l(i, j) == 0, "updated L above the diagonal"); }
    LD tol = 1e-9L * (fro(x) + fro(y));
    same(mul(l, tr(l)), y, tol, "updated factor, sigma %g", sg);
    same(from(a), x, 0, "matrix after the update"); same(from(w), v, 0, "vector after the update");
    MN b = a; b.InPlaceCholeskyUpdate(w, sg);
    same(from(b), l, tol, "in-place update, sigma %g", sg);
    same(from(w), v, 0, "vector after the in-place update");
    mc::Outcome("Cholesky update");
  }
}
static void bigupdate(const Mat &x) { if (mc::Case([&] { return "rank-one updates " + show(x); })) update(x); }
// complex entries: the starred factors are conjugate transposes
static void complexes() {
  typedef std::complex<double> Z;
  typedef MatrixMN<Z> MZ;
  auto near = [](const MZ &a, const MZ &b, double tol, const char *what) {
    MC_CHECK(a.rows() == b.rows() && a.cols() == b.cols(), "%s: shape", what);
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) mc::Near(std::abs(a(i, j) - b(i, j)), 0, 1, tol, "complex %s (%d,%d)", what, i, j);
  };
  for (int m = 1; m <= 6; ++m) for (int n = 1; n <= m; ++n) for (int k = 0; k < mc::Tier(12, 60); ++k) {
    if (!mc::Case([&] { return mc::str("complex %dx%d number %d", m, n, k); })) continue;
    mc::Visit("complex", m, n, k);
    MZ a(m, n); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) a(i, j) = Z(mc::gen(k * 97 + i * 7 + j), mc::gen(k * 97 + i * 7 + j + 3000));
    const MZ A = a; double f = a.norm();
    MZ Q, R; a.GetQRDecomposition(Q, R);
    auto I = [](int r) { MZ e(r, r); e.setZero(); for (int i = 0; i < r; ++i) e(i, i) = 1; return e; };
    auto H = [](const MZ &x) { MZ t(x.cols(), x.rows()); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < x.cols(); ++j) t(j, i) = std::conj(x(i, j)); return t; };
    auto P = [](const MZ &x, const MZ &y) { MZ r(x.rows(), y.cols()); for (int i = 0; i < x.rows(); ++i) for (int j = 0; j < y.cols(); ++j) { Z s = 0; for (int l = 0; l < x.cols(); ++l) s += x(i, l) * y(l, j); r(i, j) = s; } return r; };
    near(P(Q, R), A, 1e-12 * f, "QR product"); near(P(H(Q), Q), I(n), 1e-12, "Q orthonormal");
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) MC_CHECK(R(i, j) == Z(0), "complex R below the diagonal");
    a.GetFullQRDecomposition(Q, R); near(P(H(Q), Q), I(m), 1e-12, "full Q orthonormal");
    if (m == n) {
      MZ p, l, u; a.GetLUDecomposition(p, l, u); near(P(l, u), P(p, A), 1e-12 * f * f, "LU = PA");
      MZ g = P(H(A), A); for (int i = 0; i < n; ++i) { g(i, i) = g(i, i).real() + 1; for (int j = 0; j < i; ++j) g(j, i) = std::conj(g(i, j)); }
      MZ L; const MZ G = g; g.GetCholeskyDecomposition(L); near(P(L, H(L)), G, 1e-12 * g.norm(), "L L*"); near(g, G, 0, "matrix after Cholesky");
      for (int i = 0; i < n; ++i) { MC_CHECK(L(i, i).real() > 0 && std::fabs(L(i, i).imag()) < 1e-14 * f, "complex L diagonal"); for (int j = i + 1; j < n; ++j) MC_CHECK(L(i, j) == Z(0), "complex L above the diagonal"); }
      if (n > 1) {
        MZ b = G; b(0, 1) = std::conj(b(0, 1)) + Z(0, 1e-3 * f); MC_CHECK(mc::Throws([&] { b.GetCholeskyDecomposition(L); }), "Cholesky accepted a complex matrix that is not self-adjoint");
        b = G; b(1, 0) = b(0, 1) = Z(1, 2); MC_CHECK(mc::Throws([&] { b.GetCholeskyDecomposition(L); }), "Cholesky accepted a complex matrix that equals its plain transpose only");
      }
      { MZ b = G; b(n - 1, n - 1) = Z(-1, 0); MC_CHECK(mc::Throws([&] { b.GetCholeskyDecomposition(L); }), "Cholesky accepted an indefinite complex matrix"); }
    }
    near(a, A, 0, "matrix after the decompositions");
    mc::Outcome("complex");
  }
}
template<class S> static void full(const Mat &x, int k, MatrixMN<S>) { fullqr<MatrixMN<S>>(x, k); }
template<class M> static void full(const Mat &, int, M) {}
template<class M> static void sq(const char *cls, const Mat &x, int k) {
  if (!mc::Case([&] { return mc::str("%s outputs %d ", cls, k) + show(x); })) return;
  qr<M>(x, k); lu<M>(x, k); svd<M>(x, k);
  full(x, k, M());
  mc::Outcome("square");
}
template<class M> static void sy(const char *cls, const Mat &x, int k) {
  if (!mc::Case([&] { return mc::str("%s Cholesky ", cls) + show(x); })) return;
  chol<M>(x, k);
  // broken symmetry: every off-diagonal entry in turn, both triangles
  if (x.n <= 6 && x.n > 1 && symeig(x)[0] > 0.5L) {
    for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) if (i != j) { Mat y = x; y(i, j) = (double) (y(i, j) + 1e-3L * fro(x)); if (x.n < 4 || (i + j) % 3 == 0) chol<M>(y, k); }
    if (std::is_same<M, MN>::value && x.n <= 6) update(x);
  }
}
// single precision: the same judgements, with the tolerance of that precision
static void singleprec() {
  int c = 0;
  E = 2e-5L;
  for (int n = 1; n <= 7; ++n) squares(n, [&](const Mat &y) {
    Mat x = f32(y); ++c;
    sq<MNf>("float dynamic", x, c % 3); if (n == 3) sq<M3f>("float 3x3", x, c % 3); if (n == 6) sq<M6f>("float 6x6", x, c % 3);
  });
  for (int n = 1; n <= 6; ++n) symmetrics(n, [&](const Mat &y) {
    Mat x = f32(y); ++c;
    auto go = [&](auto tag, const char *cls) { typedef decltype(tag) M; if (mc::Case([&] { return mc::str("float %s Cholesky ", cls) + show(x); })) chol<M>(x, c % 3); };
    go(MNf(), "dynamic"); if (n == 3) go(M3f(), "3x3"); if (n == 6) go(M6f(), "6x6");
  });
  for (int m = 1; m <= mc::Tier(7, 16); ++m) for (int n = 1; n <= m; ++n) for (int k = 0; k < 6; ++k) {
    Mat x = f32(generic(m, n, k));
    if (!mc::Case([&] { return mc::str("float dynamic outputs %d ", k % 3) + show(x); })) continue;
    qr<MNf>(x, k % 3); fullqr<MNf>(x, k % 3); svd<MNf>(x, k % 3);
    if (m > n) { svd<MNf>(tr(x), k % 3); chol<MNf>(x, 1); }
    mc::Outcome("float tall");
  }
  E = 1e-12L;
}
static void rect(const Mat &x, int k) {
  if (!mc::Case([&] { return mc::str("dynamic outputs %d ", k) + show(x); })) return;
  svd<MN>(x, k);
  if (x.m >= x.n) { qr<MN>(x, k); fullqr<MN>(x, k); }
  if (x.m != x.n && k == 0) chol<MN>(x, 1);
  mc::Outcome(x.m >= x.n ? "tall" : "wide");
}
static void explore() {
  int c = 0;
  for (int n = 1; n <= 3; ++n) squares(n, [&](const Mat &x) { ++c; sq<MN>("dynamic", x, c % 3); if (n == 3) sq<M3>("3x3", x, c % 3); });
  for (int n = 4; n <= 7; ++n) squares(n, [&](const Mat &x) { ++c; if (n == 6) sq<M6>("6x6", x, c % 3); sq<MN>("dynamic", x, c % 3); });
  for (int n : {2, 3, 4, 6}) nearly(n, [&](const Mat &x) { ++c; if (n == 3) sq<M3>("3x3 near", x, c % 3); if (n == 6) sq<M6>("6x6 near", x, c % 3); if (n != 6 || c % 3 == 0) sq<MN>("dynamic near", x, c % 3); });
  for (int n : {8, 9, 12, 16, 17, 20, 33, 49, 65}) for (int k = 0; k < (n > 40 ? 1 : 3); ++k) {
    Mat g = generic(n, n, k); sq<MN>("large", g, k); sq<MN>("large", ofrank(n, n, n - 1 - k, k), k); rect(generic(n + 1 + k, n - k, k), k); rect(generic(n - k, n + 3, k), k);
    Mat y = generic(n, n, k + 40); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) y(i, j) = y(j, i);
    sy<MN>("large", y, k); for (int i = 0; i < n; ++i) y(i, i) = 6 * n + i; sy<MN>("large", y, k); bigupdate(y);
  }
  // definite and barely indefinite matrices in rotated frames, at several scales; symmetry broken by little
  for (int n : {2, 3, 4, 6}) for (double l : {1., 1e-3, 1e-6, -1e-7, -1e-5, -1e-2, -1.}) for (int at = 0; at < n; ++at) for (double s : {1., 1e-9, 1e7}) for (double as : {0., 1e-8, 1e-5}) {
    Mat d(n, n); for (int i = 0; i < n; ++i) d(i, i) = i == at ? l : 0.5 + i;
    for (int p = 0; p + 1 < n; ++p) { Mat g = eye(n); LD cc = cosl(0.3L + p), t = sinl(0.3L + p); g(p, p) = g(p + 1, p + 1) = cc; g(p, p + 1) = -t; g(p + 1, p) = t; d = mul(g, mul(d, tr(g))); }
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) d(i, j) = d(j, i) = (double) (s * d(i, j));
    d(at, (at + 1) % n) = (double) (d(at, (at + 1) % n) + as * fro(d)); ++c;
    auto go = [&](auto tag, const char *cls) { typedef decltype(tag) M; if (mc::Case([&] { return mc::str("%s Cholesky at its limits ", cls) + show(d); })) chol<M>(d, c % 3); };
    go(MN(), "dynamic"); if (n == 3) go(M3(), "3x3"); if (n == 6) go(M6(), "6x6");
  }
  complexes();
  singleprec();
  std::vector<double> al = {0, 1, -2};
  for (mc::Odo o(mc::rep(3, 6)); o; ++o) { rect(word(3, 2, o, al), ++c % 3); rect(word(2, 3, o, al), c % 3); }
  for (int m = 1; m <= mc::Tier(9, 30); m += (m < 9 ? 1 : 7)) for (int n = 1; n <= mc::Tier(6, 20); n += (n < 6 ? 1 : 5)) for (int k = 0; k < 6; ++k) {
    Mat g = generic(m, n, k); rect(g, k % 3);
    for (double s : {1e-6, 1e6}) { Mat x = scaled(g, s); for (LD &v : x.a) v = (double) v; rect(x, k % 3); }
    for (int r = 0; r < std::min({m, n, 5}); ++r) rect(ofrank(m, n, r, k), k % 3);
  }
  for (int n = 1; n <= 7; ++n) symmetrics(n, [&](const Mat &x) { ++c; sy<MN>("dynamic", x, c % 3); if (n == 3) sy<M3>("3x3", x, c % 3); if (n == 6) sy<M6>("6x6", x, c % 3); });
}
MC_MAIN(explore)
