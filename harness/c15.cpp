// C15 - matrix predicates and accessors.
//@bounds quick: dynamic: all 2x2 (5 values), 3x3 (3 values), all shapes 1..7 x 1..7 with generic contents, symmetric 1..4; 3x3 class: all 3^9 words and all symmetric 5-valued words; 6x6 class: 720 signed permutations, generic, ranked and structured families; sizes up to 65; single precision: the same words and families up to 6x6; smallest eigenvalues next to the tolerance in rotated frames; every single-entry perturbation above and below the tolerance of each predicate
//@bounds thorough: 3x3 words over 4 values, larger families, shapes up to 12 x 12
//@model direct definitions; semi-definiteness by exact eigenvalues (Jacobi, long double) of symmetric matrices
//@assume only cases clearly on one side of the tolerance are judged
#include "mats.h"
using namespace mathutils;
using namespace la;
template<class M> struct Eps { static const bool has = false; static bool id(const M &m, double) { return m.IsIdentity(); } };
template<> struct Eps<MN> { static const bool has = true; static bool id(const MN &m, double e) { return m.IsIdentity(e); } };
template<> struct Eps<MNf> { static const bool has = true; static bool id(const MNf &m, double e) { return m.IsIdentity((float) e); } };
static LD rnd = 0;      // > 0 while single precision is explored: deviations below are not judged, tolerances are widened to it
template<class M> static void accessors(const Mat &x) {
  M m = to<M>(x); const M k = m;
  mc::Same(k.GetNbRows(), (unsigned) x.m, "rows"); mc::Same(k.GetNbCols(), (unsigned) x.n, "columns");
  for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) mc::Same((LD) k.at(i, j), x(i, j), "at(%d,%d)", i, j);
  for (int i = 0; i < x.m; ++i) { auto r = k.GetRow(i); Mat w(1, x.n); for (int j = 0; j < x.n; ++j) w(0, j) = x(i, j); same(from(r), w, 0, "row %d", i); }
  for (int j = 0; j < x.n; ++j) { auto c = k.GetColumn(j); Mat w(x.m, 1); for (int i = 0; i < x.m; ++i) w(i, 0) = x(i, j); same(from(c), w, 0, "column %d", j); }
  { int n = std::min(x.m, x.n); Mat w(n, 1); for (int i = 0; i < n; ++i) w(i, 0) = x(i, i); same(from(k.GetDiag()), w, 0, "diagonal"); }
  for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) { M u = k; u.at(i, j) = 77; Mat w = x; w(i, j) = 77; same(from(u), w, 0, "after writing (%d,%d)", i, j); }
  M t = k; t.Transpose(); same(from(t), tr(x), 0, "Transpose in place");
  M t2 = mathutils::Transpose(k); same(from(t2), tr(x), 0, "Transpose by copy");
  t.Transpose(); same(from(t), x, 0, "Transpose twice");
  M u = k; u.SetNull(); same(from(u), Mat(x.m, x.n), 0, "SetNull");
  u = k; u.SetIdentity(); Mat id(x.m, x.n); for (int i = 0; i < std::min(x.m, x.n); ++i) id(i, i) = 1; same(from(u), id, 0, "SetIdentity");
  mc::Same(k.IsSquare(), x.m == x.n, "IsSquare");
  if (x.m == x.n) {
    Mat up(x.m, x.n), lo(x.m, x.n);
    for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) { up(i, j) = x(std::min(i, j), std::max(i, j)); lo(i, j) = x(std::max(i, j), std::min(i, j)); }
    same(from(MakeSymmetricFromUpper(k)), up, 0, "MakeSymmetricFromUpper"); same(from(MakeSymmetricFromLower(k)), lo, 0, "MakeSymmetricFromLower");
  } else {
    MC_CHECK(!k.IsSymmetric(), "a %dx%d matrix is reported symmetric", x.m, x.n);
    MC_CHECK(!k.IsOrthogonal(), "a %dx%d matrix is reported orthogonal", x.m, x.n);
    MC_CHECK(!k.IsPositiveSemiDefinite(), "a %dx%d matrix is reported positive semi-definite", x.m, x.n);
  }
  // equality
  MC_CHECK(k.IsEqual(m), "a matrix differs from its copy");
  LD f = fro(x);
  if (f > 0) for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) {
    if (rnd > 0) {
      for (double e : {1e-1, 1e-3}) {
        M v = k; v.at(i, j) += (float) (0.8L * e * f); MC_CHECK(k.IsEqual(v, e) && v.IsEqual(k, e), "float entry (%d,%d) differs by 0.8 times the tolerance %g, reported different", i, j, e);
        v = k; v.at(i, j) += (float) (1.25L * e * f); MC_CHECK(!k.IsEqual(v, e) && !v.IsEqual(k, e), "float entry (%d,%d) differs by 1.25 times the tolerance %g, reported equal", i, j, e);
      }
      continue;
    }
    M v = k; v.at(i, j) += (double) (1e-4L * f);
    MC_CHECK(!k.IsEqual(v) && !v.IsEqual(k), "entry (%d,%d) differs by 1e-4, reported equal", i, j);
    MC_CHECK(k.IsEqual(v, 1e-3), "entry (%d,%d) differs by 1e-4, reported different at tolerance 1e-3", i, j);
    MC_CHECK(!k.IsEqual(v, 1e-5), "entry (%d,%d) differs by 1e-4, reported equal at tolerance 1e-5", i, j);
    if (x.m * x.n <= 36) for (double e : {1e-2, 1e-6, 1e-9}) {
      v = k; v.at(i, j) += (double) (0.8L * e * f); MC_CHECK(k.IsEqual(v, e) && v.IsEqual(k, e), "entry (%d,%d) differs by 0.8 times the tolerance %g, reported different", i, j, e);
      v = k; v.at(i, j) += (double) (1.25L * e * f); MC_CHECK(!k.IsEqual(v, e) && !v.IsEqual(k, e), "entry (%d,%d) differs by 1.25 times the tolerance %g, reported equal", i, j, e);
    }
    v = k; v.at(i, j) += (double) (1e-10L * f); MC_CHECK(!k.IsEqual(v), "default tolerance accepts 1e-10 at (%d,%d)", i, j);
    v = k; v.at(i, j) += (double) (1e-14L * f); MC_CHECK(k.IsEqual(v), "default tolerance refuses 1e-14 at (%d,%d)", i, j);
  }
  same(from(k), x, 0, "matrix after queries");
}
template<class M> static void predicates(const Mat &x, bool perturb) {
  const M k = to<M>(x);
  LD f = fro(x);
  int n = x.n;
  bool sym = true, id = true, orth = true;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sym = sym && x(i, j) == x(j, i); id = id && x(i, j) == (i == j); }
  Mat g = mul(tr(x), x);
  LD od = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) od = std::max(od, fabsl(g(i, j) - (i == j)));
  orth = od < (rnd > 0 ? 1e-30L : 1e-13L);
  if (sym) MC_CHECK(k.IsSymmetric(), "symmetric matrix reported as not symmetric");
  else { LD d = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) d = std::max(d, fabsl(x(i, j) - x(j, i))); if (d > std::max(1e-9L, rnd) * f) MC_CHECK(!k.IsSymmetric(), "non-symmetric matrix reported as symmetric"); }
  LD di = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) di = std::max(di, fabsl(x(i, j) - (i == j)));
  if (id) MC_CHECK(k.IsIdentity(), "identity not recognised"); else if (di > std::max(1e-9L, rnd)) MC_CHECK(!k.IsIdentity(), "other matrix taken for the identity");
  if (Eps<M>::has) for (double e : {1e-3, 0.5, 1e-8}) { if (e < rnd) continue; if (di < 0.4 * e) MC_CHECK(Eps<M>::id(k, e), "identity within %g not recognised", e); if (di > 2.1 * e) MC_CHECK(!Eps<M>::id(k, e), "identity within %g accepts a deviation of %Lg", e, di); }
  if (orth) MC_CHECK(k.IsOrthogonal(), "orthogonal matrix not recognised"); else if (od > std::max(1e-9L, rnd)) MC_CHECK(!k.IsOrthogonal(), "other matrix taken for an orthogonal one");
  if (sym) {
    LD mn = symeig(x)[0];
    LD slack = std::max(1e-13L, rnd) * f;
    if (mn > -0.9e-7L + slack) MC_CHECK(k.IsPositiveSemiDefinite(), "smallest eigenvalue %Lg, not reported positive semi-definite", mn);
    if (mn < -1.1e-7L - slack) MC_CHECK(!k.IsPositiveSemiDefinite(), "smallest eigenvalue %Lg, reported positive semi-definite", mn);
    for (double e : {1e-3, 0.7, 3.0}) { if (mn > -0.9 * e + 1e-6 + rnd * f) MC_CHECK(k.IsPositiveSemiDefinite(e), "smallest eigenvalue %Lg, tolerance %g, refused", mn, e); if (mn < -1.1 * e - rnd * f) MC_CHECK(!k.IsPositiveSemiDefinite(e), "smallest eigenvalue %Lg, tolerance %g, accepted", mn, e); }
  }
  same(from(k), x, 0, "matrix after predicates");
  if (perturb) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    M v = k;
    if (sym && i != j && f > 0) {
      v = k; v.at(i, j) += (double) (1e-6L * f); MC_CHECK(!v.IsSymmetric(), "asymmetry 1e-6 at (%d,%d) not seen", i, j);
      v = k; v.at(i, j) += (double) (1e-10L * f); MC_CHECK(!v.IsSymmetric(), "asymmetry 1e-10 at (%d,%d) not seen", i, j);
      v = k; v.at(i, j) += (double) (1e-15L * f); MC_CHECK(v.IsSymmetric(), "asymmetry within rounding at (%d,%d) not tolerated", i, j);
    }
    if (id) { v = k; v.at(i, j) += 1e-6; MC_CHECK(!v.IsIdentity(), "deviation 1e-6 from the identity at (%d,%d) not seen", i, j); v = k; v.at(i, j) -= 1e-10; MC_CHECK(!v.IsIdentity(), "deviation 1e-10 from the identity at (%d,%d) not seen", i, j); v = k; v.at(i, j) += 1e-15; MC_CHECK(v.IsIdentity(), "deviation within rounding at (%d,%d)", i, j); }
    if (orth) { v = k; v.at(i, j) += 1e-4; MC_CHECK(!v.IsOrthogonal(), "deviation 1e-4 from an orthogonal matrix at (%d,%d) not seen", i, j); v = k; v.at(i, j) += 1e-9; MC_CHECK(!v.IsOrthogonal(), "deviation 1e-9 from an orthogonal matrix at (%d,%d) not seen", i, j); }
  }
}
template<class M> static void one(const char *cls, const Mat &x, bool perturb) {
  if (!mc::Case([&] { return std::string(cls) + " " + show(x); })) return;
  mc::Visit(cls, x.m, x.n, x.a);
  accessors<M>(x);
  if (x.m == x.n) predicates<M>(x, perturb);
  mc::Outcome(x.m == x.n ? "square" : "rectangular");
}
static Mat rotation(int n, int p, int q, double t) { Mat r = eye(n); r(p, p) = r(q, q) = cosl(t); r(p, q) = -sinl(t); r(q, p) = sinl(t); for (LD &v : r.a) v = (double) v; return r; }
static void explore() {
  for (int m = 1; m <= mc::Tier(7, 12); ++m) for (int n = 1; n <= mc::Tier(7, 12); ++n) for (int k = 0; k < 4; ++k) one<MN>("dynamic", generic(m, n, k), m * n <= 16);
  for (int n = 1; n <= 3; ++n) squares(n, [&](const Mat &x) { one<MN>("dynamic", x, n < 3); if (n == 3) one<M3>("3x3", x, false); });
  for (int n = 4; n <= 7; ++n) squares(n, [&](const Mat &x) { if (n == 6) one<M6>("6x6", x, false); if (n != 6 || mc::Thorough()) one<MN>("dynamic", x, false); });
  for (int n = 1; n <= 6; ++n) symmetrics(n, [&](const Mat &x) { one<MN>("dynamic", x, n != 3); if (n == 3) one<M3>("3x3", x, true); if (n == 6) one<M6>("6x6", x, true); });
  for (int n : {2, 3, 4, 6}) for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) if (p != q) for (double t : {0.1, 0.5, 1.5707963267948966, 2.5, -3.0}) {
    Mat r = rotation(n, p, q, t), s = mul(r, rotation(n, q, (q + 1) % n == p && n > 2 ? (q + 2) % n : (q + 1) % n, 0.7));
    if (n == 2) s = r;
    for (LD &v : s.a) v = (double) v;
    for (const Mat &x : {r, s}) { one<MN>("dynamic", x, true); if (n == 3) one<M3>("3x3", x, true); if (n == 6) one<M6>("6x6", x, true); }
  }
  // definiteness right next to the tolerances, in rotated frames
  for (int n : {2, 3, 4, 6, 9}) for (double l : {-8e-8, -1.25e-7, -1e-6, -1e-9, -8e-4, -1.25e-3, 1e-9, 0.0, -0.6, -0.8, -2.5, -3.5}) for (int at = 0; at < n; ++at) for (int k = 0; k < 3; ++k) {
    Mat d(n, n); for (int i = 0; i < n; ++i) d(i, i) = i == at ? l : k == 1 ? 1. : k == 2 ? 1e-9 * i : 0.5 + i;
    if (k) for (int p = 0; p < n; ++p) { Mat r = rotation(n, p, (p + 1) % n, 0.3 + p); if (n == 2 && p) break; d = mul(r, mul(d, tr(r))); }
    for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) d(i, j) = d(j, i) = (double) d(i, j);
    one<MN>("dynamic", d, false); if (n == 3) one<M3>("3x3", d, false); if (n == 6) one<M6>("6x6", d, false);
  }
  for (int n : {8, 9, 12, 16, 17, 20, 33, 48, 65}) for (int k = 0; k < (n > 40 ? 1 : 3); ++k) {
    Mat x = generic(n, n, k), y = generic(n, n, k + 7), z = eye(n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) y(i, j) = y(j, i);
    for (int p = 0; p + 1 < n; ++p) z = mul(z, rotation(n, p, (p + 1 + k) % n == p ? p + 1 : (p + 1 + k) % n, 0.2 + p)); for (LD &v : z.a) v = (double) v;
    one<MN>("large", x, false); one<MN>("large", y, n <= 20); one<MN>("large", z, n <= 12); one<MN>("large", eye(n), n <= 20);
    one<MN>("large", generic(n, n + 1 + k, k), false); one<MN>("large", generic(n + 2 - k, 3, k), false);
  }
  // scaled symmetric and identity matrices, tolerances relative to the content
  for (int n : {2, 3, 6}) for (double s : {1e-8, 1e-3, 1e5, 1e10}) for (int k = 0; k < 6; ++k) {
    Mat x = generic(n, n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) x(i, j) = x(j, i);
    x = scaled(x, s); for (LD &v : x.a) v = (double) v;
    one<MN>("dynamic", x, true); if (n == 3) one<M3>("3x3", x, true); if (n == 6) one<M6>("6x6", x, true);
  }
  // single precision
  rnd = 3e-5L;
  for (int m = 1; m <= 7; ++m) for (int n = 1; n <= 7; ++n) for (int k = 0; k < 4; ++k) one<MNf>("float dynamic", f32(generic(m, n, k)), false);
  for (int n = 1; n <= 6; ++n) {
    auto f = [&](const Mat &y) { Mat x = f32(y); one<MNf>("float dynamic", x, false); if (n == 3) one<M3f>("float 3x3", x, false); if (n == 6) one<M6f>("float 6x6", x, false); };
    squares(n, f); symmetrics(n, f);
  }
  rnd = 0;
  for (int n : {3, 6}) { one<MN>("dynamic", eye(n), true); if (n == 3) one<M3>("3x3", eye(3), true); else one<M6>("6x6", eye(6), true); }
}
MC_MAIN(explore)
