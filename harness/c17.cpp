// C17 - inverses and linear solvers.
//@bounds quick: dynamic and 3x3: all invertible 2x2 (5 values) and 3x3 (3 values) matrices, square families 4..7 (dynamic) and 6x6 class, each also rescaled by one of 5 factors 1e-7..1e9, right-hand sides of 1..3 columns; seven structures (identity, permutation, diagonal, triangular, symmetric, rotation) of size 2..6 with any one entry displaced by 1e-12 to 1e-2; sizes up to 65; matrices with one row or column (every position) graded by 1e-2 to 1e-12, or one by that and another by its inverse (24 per size 2..6), for the LU and QR solvers; pseudo-inverse and least squares on all those (singular ones included), all 3x2/2x3 words over 3 values and shapes up to 8x6 of every rank; single precision: the words, families and shapes with condition number below 30; pseudo-inverse tolerance on both sides for 4 tolerances; constrained least squares for all n in 2..5, p in 1..n-1, m in n+1..n+3 with 8 data sets each and all 0/1 constraint rows for n<=3, and with constraints, single constraints, matrix and right-hand sides rescaled by 7 factors 1e-9..1e9
//@bounds thorough: 3x3 words over 4 values, ten times larger families, shapes up to 20x15, constrained n up to 8
//@model residual equations, normal equations, Moore-Penrose conditions and KKT conditions in long double
//@assume matrices of condition number above 1e5 are judged by solver residual only, and up to 3e8
#include "mats.h"
using namespace mathutils;
using namespace la;
static LD PF = 1;      // factor on the tolerances while single precision is explored
template<class M, int N> static Mat fixedsolve(const M &a, const Mat &b, int w) {
  typedef typename M::Scalar S;
  if (b.n == 1) { Eigen::Matrix<S, N, 1> r; for (int i = 0; i < N; ++i) r(i) = (S) b(i, 0); const auto r0 = r; Eigen::Matrix<S, N, 1> x = w == 0 ? a.LUSolver(r) : w == 1 ? a.QRSolver(r) : a.LeastSquareSolver(r); MC_CHECK(r == r0, "right-hand side modified"); return from(x); }
  if (b.n == N) { M r = to<M>(b); M x = w == 0 ? a.LUSolver(r) : w == 1 ? a.QRSolver(r) : a.LeastSquareSolver(r); return from(x); }
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> X;
  X r(N, b.n); for (int i = 0; i < N; ++i) for (int j = 0; j < b.n; ++j) r(i, j) = (S) b(i, j);
  X x = w == 0 ? a.LUSolver(r) : w == 1 ? a.QRSolver(r) : a.LeastSquareSolver(r);
  return from(x);
}
template<class S> static Mat solve(const MatrixMN<S> &a, const Mat &b, int w) { typedef MatrixMN<S> MN; MN r = to<MN>(b); const MN r0 = r; MN x = w == 0 ? a.LUSolver(r) : w == 1 ? a.QRSolver(r) : a.LeastSquareSolver(r); same(from(r), from(r0), 0, "right-hand side"); return from(x); }
static Mat solve(const M3 &a, const Mat &b, int w) { return fixedsolve<M3, 3>(a, b, w); }
static Mat solve(const M6 &a, const Mat &b, int w) { return fixedsolve<M6, 6>(a, b, w); }
static Mat solve(const M3f &a, const Mat &b, int w) { return fixedsolve<M3f, 3>(a, b, w); }
static Mat solve(const M6f &a, const Mat &b, int w) { return fixedsolve<M6f, 6>(a, b, w); }
static const char *WN[3] = {"LUSolver", "QRSolver", "LeastSquareSolver"};
static Mat sub(Mat a, const Mat &b) { for (size_t i = 0; i < a.a.size(); ++i) a.a[i] -= b.a[i]; return a; }
template<class M> static void regular(const Mat &x, LD cond, int seed) {
  const M a = to<M>(x); int n = x.n;
  LD tol = 1e-13L * cond * 10 * PF;
  M i1 = a.GetInverse(); same(mul(from(i1), x), eye(n), tol, "inverse times matrix"); same(mul(x, from(i1)), eye(n), tol, "matrix times inverse");
  M b = a; b.Inverse(); same(mul(from(b), x), eye(n), tol, "in-place inverse times matrix");
  b.Inverse(); same(from(b), x, tol * cond * (fro(x)), "inverse of the inverse");
  same(from(a), x, 0, "matrix after inversion");
  for (int c : {1, 2, n}) {
    Mat r = generic(n, c, seed + c);
    if (seed % 3 == 0) { r = Mat(n, c); r(seed % n, 0) = 1; }
    if (PF > 1) r = f32(r);
    for (int w = 0; w < 3; ++w) {
      mc::Visit("solve", w, x.a, r.a);
      Mat s = solve(a, r, w);
      MC_CHECK(s.m == n && s.n == c, "%s: %dx%d solution", WN[w], s.m, s.n);
      same(mul(x, s), r, tol * (fro(r) + fro(x) * fro(s)), "%s residual", WN[w]);
    }
  }
  same(from(a), x, 0, "matrix after solving");
  mc::Outcome("regular");
}
template<class M> static void general(const Mat &x, int seed, double nullsv) {   // nullsv: singular values below are exactly zero
  const M a = to<M>(x);
  std::vector<LD> sv = singular(x);
  LD s0 = sv.empty() ? 0 : sv[0], sr = s0;
  for (LD v : sv) if (v > nullsv) sr = v;
  if (s0 > 0 && s0 / sr > (PF > 1 ? 30.L : 1e5L)) return;
  if (PF > 1 && (!(s0 > 0) || sr < 0.1L)) return;
  if (s0 > 0 && sr < 1e-4L) return;   // default tolerance 1e-6 of the pseudo-inverse
  LD cond = s0 > 0 ? s0 / sr : 1;
  mc::Visit("pinv", x.m, x.n, x.a);
  for (int v = 0; v < 3; ++v) {
    M P = PF > 1 && nullsv > 0 ? a.GetPseudoInverse(1e-2f) : v == 0 ? a.GetPseudoInverse() : v == 1 ? M(Pinv(a)) : a.GetPseudoInverse(1e-5);
    Mat p = from(P);
    MC_CHECK(p.m == x.n && p.n == x.m, "pseudo-inverse is %dx%d", p.m, p.n);
    LD tol = 1e-12L * cond * cond * PF;
    Mat ap = mul(x, p), pa = mul(p, x);
    same(mul(ap, x), x, tol * (fro(x) + 1e-300L), "A X A = A"); same(mul(pa, p), p, tol * (fro(p) + 1e-300L), "X A X = X");
    same(ap, tr(ap), tol, "A X symmetric"); same(pa, tr(pa), tol, "X A symmetric");
      }
  same(from(a), x, 0, "matrix after pseudo-inversion");
  for (int c : {1, 3}) {
    Mat b = generic(x.m, c, seed + 31 * c);
    if (PF > 1) b = f32(b);
    mc::Visit("ls", x.m, x.n, x.a, b.a);
    Mat s = solve(a, b, 2);
    MC_CHECK(s.m == x.n && s.n == c, "least-squares solution is %dx%d", s.m, s.n);
    Mat r = sub(mul(x, s), b);
    LD tol = PF * 1e-12L * cond * cond * (fro(x) * fro(s) + fro(b)) * (s0 + 1e-300L);
    same(mul(tr(x), r), Mat(x.n, c), tol, "normal equations of the least-squares solution");
    // minimal norm: orthogonal to the kernel, i.e. X A s = s with the pseudo-inverse verified above
    Mat p = from(PF > 1 ? a.GetPseudoInverse(1e-2f) : a.GetPseudoInverse());
    same(mul(mul(p, x), s), s, PF * 1e-11L * cond * cond * (fro(s) + 1e-300L), "least-squares solution has minimal norm");
  }
  same(from(a), x, 0, "matrix after least squares");
  mc::Outcome("general");
}
// regular but badly scaled: the solvers are backward stable whatever the conditioning; the inverse's forward error is not judged
template<class M> static void scaledsolve(const char *cls, const Mat &x, int seed) {
  if (!mc::Case([&] { return std::string(cls) + " graded " + show(x); })) return;
  const M a = to<M>(x); int n = x.n;
  for (int c : {1, n}) for (int w = 0; w < 2; ++w) {
    Mat r = generic(n, c, seed + c);
    mc::Visit("graded", w, x.a, r.a);
    Mat s = solve(a, r, w);
    MC_CHECK(s.m == n && s.n == c, "%s: %dx%d solution", WN[w], s.m, s.n);
    same(mul(x, s), r, 1e-11L * (fro(r) + fro(x) * fro(s)), "%s residual on a graded matrix", WN[w]);
  }
  mc::Outcome("graded");
}
template<class M> static void sq(const char *cls, const Mat &x, int seed) {
  if (!mc::Case([&] { return std::string(cls) + " " + show(x); })) return;
  std::vector<LD> sv = singular(x);
  LD cond = sv.back() > 0 ? sv[0] / sv.back() : 1e30L;
  if (cond < 1e5L) {
    regular<M>(x, cond, seed);
    LD f[] = {1e-7L, 1e-3L, 1e4L, 1e9L, 1e-4L};      // inverses and solutions are homogeneous in the scale
    Mat y = scaled(x, f[seed % 5]); for (LD &v : y.a) v = (double) v;
    mc::Outcome("rescaled"); regular<M>(y, cond, seed);
  }
  general<M>(x, seed, 1e-7 * (double) sv[0]);
}
static void rect(const Mat &x, int seed) {
  if (!mc::Case([&] { return "dynamic " + show(x); })) return;
  general<MN>(x, seed, 1e-7 * (double) singular(x)[0]);
}
// tolerance of the pseudo-inverse: diagonal (rotated by a permutation) with one singular value around the tolerance
template<class M> static void tolerance(int n) {
  for (double tol : {1e-6, 1e-3, 0.5, 2.0}) for (double f : {0.01, 0.8, 1.25, 100.0}) for (int at = 0; at < n; ++at) for (int sh = 0; sh < n; ++sh) {
    if (!mc::Case([&] { return mc::str("pseudo-inverse tolerance %g, singular value %g at %d shift %d, %dx%d", tol, tol * f, at, sh, n, n); })) continue;
    mc::Visit("tol", n, tol, f, at, sh);
    Mat x(n, n); for (int i = 0; i < n; ++i) x(i, (i + sh) % n) = i == at ? (double) (tol * f) : 8 + i;
    const M a = to<M>(x);
    Mat w(n, n); for (int i = 0; i < n; ++i) w((i + sh) % n, i) = i == at ? (f > 1 ? 1 / x(i, (i + sh) % n) : 0) : 1 / x(i, (i + sh) % n);
    same(from(a.GetPseudoInverse(tol)), w, 1e-9L / tol, "pseudo-inverse with tolerance %g", tol);
    same(from(Pinv(a, tol)), w, 1e-9L / tol, "Pinv with tolerance %g", tol);
    if (tol == 1e-6) { same(from(a.GetPseudoInverse()), w, 1e-9L / tol, "pseudo-inverse with the default tolerance"); same(from(Pinv(a)), w, 1e-9L / tol, "Pinv with the default tolerance"); }
    mc::Outcome("pseudo-inverse tolerance");
  }
}
static LD conditioning(const Mat &x) { std::vector<LD> sv = singular(x); return sv.back() > 0 ? sv[0] / sv.back() : 1e30L; }
// single precision: well conditioned matrices, and singular ones with a clear gap
static void singleprec() {
  int c = 0; PF = 1e7L;
  auto one = [&](auto tag, const char *cls, const Mat &x) {
    typedef decltype(tag) M;
    if (!mc::Case([&] { return std::string("float ") + cls + " " + show(x); })) return;
    if (x.m == x.n) { LD k = conditioning(x); if (k < 30) { regular<M>(x, k, c); mc::Outcome("float regular"); } }
    general<M>(x, c, 1e-5 * (double) singular(x)[0]);
  };
  for (int n = 1; n <= 7; ++n) squares(n, [&](const Mat &y) { Mat x = f32(y); ++c; one(MNf(), "dynamic", x); if (n == 3) one(M3f(), "3x3", x); if (n == 6) one(M6f(), "6x6", x); });
  for (int m = 1; m <= 8; ++m) for (int n = 1; n <= 6; ++n) for (int k = 0; k < 6; ++k) { ++c; one(MNf(), "dynamic", f32(generic(m, n, k))); for (int r = 1; r < std::min({m, n, 5}); ++r) one(MNf(), "dynamic", ofrank(m, n, r, k)); }
  // constrained least squares
  for (int n = 2; n <= 5; ++n) for (int p = 1; p < n; ++p) for (int m = n + 1; m <= n + 3; ++m) for (int k = 0; k < 8; ++k) {
    Mat A = f32(generic(m, n, k)), b = f32(generic(m, 1, k + 50)), C = k % 2 ? f32(generic(p, n, k + 90)) : intgeneric(p, n, k + 90), d = f32(k % 3 ? generic(p, 1, k + 200) : Mat(p, 1));
    if (conditioning(A) > 30 || conditioning(C) > 30) continue;
    if (!mc::Case([&] { return "float A=" + show(A) + " b=" + show(b) + " C=" + show(C) + " d=" + show(d); })) continue;
    mc::Visit("conf", A.a, b.a, C.a, d.a);
    Mat x = from(to<MNf>(A).LeastSquareSolverConstraint(to<MNf>(b), to<MNf>(C), to<MNf>(d)));
    MC_CHECK(x.m == n && x.n == 1, "constrained solution is %dx%d", x.m, x.n);
    LD cond = conditioning(A) * conditioning(C);
    same(mul(C, x), d, 1e-5L * cond * (fro(C) * fro(x) + fro(d)), "float constraint");
    bool ok; Mat g = mul(tr(A), sub(mul(A, x), b)), ci = inv(mul(C, tr(C)), ok);
    if (ok) same(sub(g, mul(tr(C), mul(ci, mul(C, g)))), Mat(n, 1), 1e-5L * cond * cond * (fro(A) * (fro(A) * fro(x) + fro(b))), "optimality of the float constrained solution");
    mc::Outcome("float constrained");
  }
  PF = 1;
}
static void constrained(const Mat &A, const Mat &b, const Mat &C, const Mat &d) {
  std::vector<LD> sc = singular(C), sa = singular(A);
  if (!(sc[0] > 0) || sc.back() < 1e-3L * std::min((LD) 1, sc[0]) || sa.back() < 1e-3L * std::min((LD) 1, sa[0])) return;
  if (!mc::Case([&] { return "A=" + show(A) + " b=" + show(b) + " C=" + show(C) + " d=" + show(d); })) return;
  mc::Visit("con", A.a, b.a, C.a, d.a);
  const MN a = to<MN>(A), bb = to<MN>(b), c = to<MN>(C), dd = to<MN>(d);
  Mat x = from(a.LeastSquareSolverConstraint(bb, c, dd));
  int n = A.n, p = C.m;
  MC_CHECK(x.m == n && x.n == 1, "constrained solution is %dx%d", x.m, x.n);
  LD cond = (sa[0] / sa.back()) * (sc[0] / sc.back()), k = cond * cond;
  same(mul(C, x), d, 1e-12L * cond * (fro(C) * fro(x) + fro(d)), "constraint");
  // optimality: A'(Ax-b) lies in the range of C'; project on ker C with I - C'(CC')^-1 C
  Mat g = mul(tr(A), sub(mul(A, x), b)); bool ok;
  Mat N = C;                       // same kernel, rows of unit length
  for (int i = 0; i < p; ++i) { LD l = 0; for (int j = 0; j < n; ++j) l += C(i, j) * C(i, j); for (int j = 0; j < n; ++j) N(i, j) /= sqrtl(l); }
  Mat ci = inv(mul(N, tr(N)), ok);
  if (ok) { Mat pr = sub(g, mul(tr(N), mul(ci, mul(N, g)))); same(pr, Mat(n, 1), 1e-12L * k * (fro(A) * (fro(A) * fro(x) + fro(b))), "optimality of the constrained solution"); }
  same(from(a), A, 0, "A after solving"); same(from(bb), b, 0, "b after solving"); same(from(c), C, 0, "C after solving"); same(from(dd), d, 0, "d after solving");
  mc::Outcome("constrained");
}
static void explore() {
  int c = 0;
  for (int n = 1; n <= 3; ++n) squares(n, [&](const Mat &x) { ++c; sq<MN>("dynamic", x, c); if (n == 3) sq<M3>("3x3", x, c); });
  for (int n = 4; n <= 7; ++n) squares(n, [&](const Mat &x) { ++c; if (n == 6) sq<M6>("6x6", x, c); sq<MN>("dynamic", x, c); });
  for (int n = 2; n <= 6; ++n) for (int k = 0; k < mc::Tier(24, 200); ++k) for (int sh = 0; sh < n; ++sh) for (double g : {1e-2, 1e-4, 1e-7, 1e-10, 1e-12}) for (int rc = 0; rc < 2; ++rc) {
    if (k % 3 == 2 && g < 1e-5) continue;
    Mat x = k % 3 == 0 ? intgeneric(n, n, k + 77) : k % 3 == 1 ? generic(n, n, k) : generic(n, n, k + 300);
    std::vector<LD> sv = singular(x);
    if (!(sv.back() > 0) || sv[0] / sv.back() > 1e4L) continue;      // regular before the grading
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { LD &v = x(i, j); if ((rc ? j : i) == sh) v *= g; if (k % 3 == 2 && (rc ? j : i) == (sh + 1) % n) v *= 1 / g; v = (double) v; }
    if (n == 3) scaledsolve<M3>("3x3", x, k); if (n == 6) scaledsolve<M6>("6x6", x, k); scaledsolve<MN>("dynamic", x, k);
  }
  for (int n : {2, 3, 4, 6}) nearly(n, [&](const Mat &x) { ++c; if (n == 3) sq<M3>("3x3 near", x, c); if (n == 6) sq<M6>("6x6 near", x, c); if (n != 6 || c % 3 == 0) sq<MN>("dynamic near", x, c); });
  for (int n : {8, 9, 12, 16, 17, 20, 33, 49, 65}) for (int k = 0; k < (n > 40 ? 1 : 3); ++k) {
    Mat g = generic(n, n, k), y = generic(n, n, k + 40);
    for (int i = 0; i < n; ++i) { g(i, i) += 3 * n; for (int j = 0; j < i; ++j) y(i, j) = y(j, i); y(i, i) = (i % 2 ? -4 : 5) * n + i; }
    sq<MN>("large", g, k); sq<MN>("large", y, k + 1); if (n <= 20) { rect(ofrank(n, n, n - 1 - k, k), k); rect(generic(n + 5 + k, n - k, k), k); rect(generic(n - k, n + 5, k), k); }
  }
  std::vector<double> al = {0, 1, -2};
  for (mc::Odo o(mc::rep(3, 6)); o; ++o) { rect(word(3, 2, o, al), ++c); rect(word(2, 3, o, al), c); }
  for (int m = 1; m <= mc::Tier(8, 20); m += (m < 8 ? 1 : 4)) for (int n = 1; n <= mc::Tier(6, 15); n += (n < 6 ? 1 : 3)) for (int k = 0; k < 6; ++k) {
    Mat g = generic(m, n, k); rect(g, k);
    for (double s : {1e-2, 1e5}) { Mat x = scaled(g, s); for (LD &v : x.a) v = (double) v; rect(x, k); }
    for (int r = 0; r < std::min({m, n, 5}); ++r) rect(ofrank(m, n, r, k), k);
  }
  singleprec();
  tolerance<MN>(2); tolerance<MN>(4); tolerance<M3>(3); tolerance<M6>(6);
  for (int n = 2; n <= mc::Tier(5, 8); ++n) for (int p = 1; p < n; ++p) for (int m = n + 1; m <= n + 3; ++m) for (int k = 0; k < mc::Tier(8, 40); ++k)
    constrained(generic(m, n, k), generic(m, 1, k + 50), k % 2 ? generic(p, n, k + 90) : intgeneric(p, n, k + 90), k % 3 ? generic(p, 1, k + 200) : Mat(p, 1));
  // scales: of the constraints, of single constraints, of the matrix, of the right-hand sides
  for (int n = 2; n <= mc::Tier(4, 6); ++n) for (int p = 1; p < n; ++p) for (int k = 0; k < mc::Tier(4, 12); ++k) for (double f : {1e-9, 1e-6, 1e-4, 1e-2, 1e3, 1e6, 1e9}) for (int how = 0; how < 6; ++how) {
    int m = n + 1 + k % 3;
    Mat A = generic(m, n, k), b = generic(m, 1, k + 50), C = k % 2 ? generic(p, n, k + 90) : intgeneric(p, n, k + 90), d = generic(p, 1, k + 200);
    auto sc = [&](Mat &x) { for (LD &v : x.a) v = (double) (v * f); };
    if (how == 0 || how == 2) sc(C);
    if (how == 0 || how == 3) sc(d);
    if (how == 1 || how == 4) sc(A);
    if (how == 1) sc(b);
    if (how == 4) sc(C);
    if (how == 5) { if (p < 2 || f < 1e-3 || f > 1e5) continue; for (int j = 0; j < n; ++j) C(k % p, j) = (double) (C(k % p, j) * f); d(k % p, 0) = (double) (d(k % p, 0) * f); }
    constrained(A, b, C, d);
  }
  for (int n = 2; n <= 3; ++n) for (int p = 1; p < n; ++p) for (mc::Odo o(mc::rep(2, p * n)); o; ++o) for (int k = 0; k < 3; ++k)
    constrained(generic(n + 2, n, k + 7), generic(n + 2, 1, k + 3), word(p, n, o, {0, 1}), generic(p, 1, k));
}
MC_MAIN(explore)
