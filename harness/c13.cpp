// C13 - vector classes.
//@bounds quick: size 2, 3: all words over 9 values (3: also scaled by 1e-60 to 1e40); size 6 over 4 values; size n: all words over 5 values up to length 6 and lengths up to 1100; all permutations of length 7 and all 3-valued words up to length 8 for sorting; every single-entry perturbation at 9 magnitudes (0.8 and 1.25 times the tolerance) for the approximate-equality predicate, norms on both sides of the unit tolerance (0.8 and 1.25 times it); matrix products, sums and differences in which the vector itself occurs, moves and swaps; double and float
//@bounds thorough: n-vectors up to length 8, permutations of length 8, lengths up to 4200
//@model component-wise definitions in long double
#include "la.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
template<class V, class T> static void contents(const V &v, const std::vector<T> &w, const char *what) {
  mc::Same((size_t) v.size(), w.size(), "%s: size", what);
  for (size_t i = 0; i < w.size(); ++i) mc::Same(v.at((unsigned) i), w[i], "%s: component %zu", what, i);
}
static LD norm(const std::vector<double> &w) { LD s = 0; for (double x : w) s += (LD) x * x; return sqrtl(s); }
// operations every vector class has; mk builds a vector from components
template<class V, class T> static void common(V v, const std::vector<T> &w, LD eps, T big) {
  const V k = v;
  contents(k, w, "read back");
  for (size_t i = 0; i < w.size(); ++i) mc::Same(k[i], w[i], "operator[]");
  LD m = 0; for (T x : w) m = std::max(m, fabsl((LD) x));
  if (!w.empty()) mc::Same((LD) k.infNorm(), m, "infinity norm");
  for (size_t i = 0; i < w.size(); ++i) {   // writing one component changes only that one
    V u = k; u.at((unsigned) i) = big;
    std::vector<T> x = w; x[i] = big;
    contents(u, x, "after writing one component");
    mc::Same((LD) u.infNorm(), std::max(fabsl((LD) big), [&] { LD q = 0; for (size_t j = 0; j < w.size(); ++j) if (j != i) q = std::max(q, fabsl((LD) w[j])); return q; }()), "infinity norm after writing component %zu", i);
  }
  V u = k; u.SetNull(); contents(u, std::vector<T>(w.size(), 0), "after SetNull");
  contents(k, w, "original after operations on a copy");
  // expressions
  V s = k + k, d = k - k, h = k * (T) 0.5;
  for (size_t i = 0; i < w.size(); ++i) { mc::Same(s.at(i), w[i] + w[i], "sum"); mc::Same(d.at(i), w[i] - w[i], "difference"); mc::Same(h.at(i), w[i] * (T) 0.5, "scaled"); }
  u = k; u = u + k; for (size_t i = 0; i < w.size(); ++i) mc::Same(u.at(i), w[i] + w[i], "assignment from an expression of itself");
  u = k * (T) 2; u -= k; contents(u, w, "twice minus once");
  // matrix products in which the vector itself occurs
  if (!w.empty()) {
    int n = (int) w.size();
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = (T) ((i * 3 + j * 5 + 1) % 7 - 3);
    for (int form = 0; form < 6; ++form) {
      V x = k;
      if (form == 0) x = A * x; else if (form == 1) x = A * x + x; else if (form == 2) x = x + A * x; else if (form == 3) x += A * x; else if (form == 4) x -= A * x; else x = A.transpose() * x;
      mc::Same((int) x.size(), n, "size of a matrix product");
      for (int i = 0; i < n; ++i) {
        LD g = 0, sc = fabsl((LD) w[i]);
        for (int j = 0; j < n; ++j) { LD q = (LD) (form == 5 ? A(j, i) : A(i, j)) * w[j]; g += q; sc += fabsl(q); }
        if (form == 4) g = w[i] - g; else if (form >= 1 && form <= 3) g += w[i];
        mc::Near(x.at(i), g, sc, sizeof(T) == 4 ? 1e-6L : 1e-14L, "matrix product with the vector itself, form %d, component %d", form, i);
      }
    }
    V y(A * k), x2; x2 = y; V m(k); V mv(std::move(m)); V as; as = std::move(mv);   // construction, copy and move
    contents(as, w, "moved vector");
    for (int i = 0; i < n; ++i) mc::Same(x2.at(i), y.at(i), "copy");
    V sw = k * (T) 3; V other = k; sw.swap(other); contents(sw, w, "swapped vector");
  }
  (void) eps;
}
template<class V, class T> static void equality(const V &v, const std::vector<T> &w) {
  // isApprox semantics: |a-b| <= eps*min(|a|,|b|); only clear cases are judged
  LD n = norm(std::vector<double>(w.begin(), w.end()));
  V a = v, b = v;
  MC_CHECK(a.IsEqual(b), "a vector differs from its copy");
  MC_CHECK(a.IsEqual(b, (T) 1e-3), "a vector differs from its copy, given tolerance");
  if (n == 0) return;
  for (size_t i = 0; i < w.size(); ++i) {
    for (T e : {(T) 1e-3, (T) 1e-2, (T) 1e-5}) {
      b = v; b.at(i) += (T) (0.8 * e * n);
      MC_CHECK(a.IsEqual(b, e) && b.IsEqual(a, e), "perturbation %zu below the tolerance %g", i, (double) e);
      b = v; b.at(i) += (T) (1.25 * e * n);
      MC_CHECK(!a.IsEqual(b, e) && !b.IsEqual(a, e), "perturbation %zu above the tolerance %g", i, (double) e);
    }
    b = v; b.at(i) += (T) (1e-4 * n);
    MC_CHECK(!a.IsEqual(b), "default tolerance accepts a difference of 1e-4");
    if (sizeof(T) == 8) {
      b = v; b.at(i) += (T) (1e-10 * n);
      MC_CHECK(!a.IsEqual(b) && !b.IsEqual(a), "default tolerance accepts a relative difference of 1e-10");
      b = v; b.at(i) += (T) (1e-14 * n);
      MC_CHECK(a.IsEqual(b), "default tolerance refuses a relative difference of 1e-14");
    }
  }
}
template<class T> static Vector2d<T> mk2(const std::vector<T> &w) { return Vector2d<T>(w[0], w[1]); }
template<class T> static void v2(const std::vector<T> &w) {
  if (!mc::Case([&] { return "2-vector " + mc::vstr(w); })) return;
  mc::Visit(2, (int) sizeof(T), w);
  Vector2d<T> v(w[0], w[1]), z, u;
  contents(v, w, "constructor"); contents(z, std::vector<T>{0, 0}, "default constructor");
  u.Set(w[0], w[1]); contents(u, w, "Set");
  common(v, w, 0, (T) -1000); equality(v, w);
  mc::Outcome("2-vector");
}
template<class T> static void v3(const std::vector<T> &w, LD eps) {
  if (!mc::Case([&] { return "3-vector " + mc::vstr(w); })) return;
  mc::Visit(3, (int) sizeof(T), w);
  typedef Vector3d<T> V;
  V v(w[0], w[1], w[2]), z, u;
  contents(v, w, "constructor"); contents(z, std::vector<T>{0, 0, 0}, "default constructor");
  u.Set(w[0], w[1], w[2]); contents(u, w, "Set");
  common(v, w, 0, std::max((T) 1e6, (T) 2 * std::max(std::fabs(w[0]), std::fabs(w[1])))); equality(v, w);
  LD n = sqrtl((LD) w[0] * w[0] + (LD) w[1] * w[1] + (LD) w[2] * w[2]);
  if (n > 0) {
    u = v; u.Normalize();
    for (int i = 0; i < 3; ++i) mc::Near(u.at(i), w[i] / n, 1, eps, "normalised component %d", i);
    MC_CHECK(u.IsUnit(), "a normalised vector is not reported as unit");
    V q = u; q.Normalize();
    for (int i = 0; i < 3; ++i) mc::Near(q.at(i), u.at(i), 1, eps, "normalised twice");
    for (T f : {(T) 1.001, (T) 0.999, (T) 2, (T) 0.5, (T) 1e3, (T) 1e-3, (T) 1.0001, (T) 1.0000125, (T) 0.9999875}) { q = u * f; MC_CHECK(!q.IsUnit(), "vector of norm %g reported as unit", (double) f); }
    for (T f : {(T) -1, (T) 1.000001, (T) 0.999999, (T) 1.000008, (T) 0.999992}) { q = u * f; MC_CHECK(q.IsUnit(), "vector of norm %g reported as not unit", (double) f); }
    MC_CHECK(v.IsUnit() == (fabsl(n - 1) < 1e-5L) || fabsl(fabsl(n - 1) - 1e-5L) < 1e-6L, "IsUnit of a vector of norm %.9Lg", n);
  } else MC_CHECK(!v.IsUnit(), "null vector reported as unit");
  struct { double g; int y, x; const char *n; } an[] = {{0, 2, 1, "X"}, {0, 0, 2, "Y"}, {0, 1, 0, "Z"}};
  const V k = v;
  for (int a = 0; a < 3; ++a) for (int deg = 0; deg < 2; ++deg) {
    LD want = atan2l(w[an[a].y], w[an[a].x]) * (deg ? 180 / 3.14159265358979323846264338327950288L : 1.0L);
    ANGLE_UNIT u_ = deg ? DEG : RAD;
    double g = a == 0 ? k.GetProjectedAngleAroundX(u_) : a == 1 ? k.GetProjectedAngleAroundY(u_) : k.GetProjectedAngleAroundZ(u_);
    mc::Near(g, want, deg ? 180 : 3, eps, "projected angle around %s in %s", an[a].n, deg ? "degrees" : "radians");
  }
  mc::Outcome("3-vector");
}
template<class V, class M, class T> static void products(const V &a, const V &b, const char *what) {
  M o = outer(a, b), q = outer(a);
  LD s = 0, sc = 0;
  int n = (int) a.size();
  for (int i = 0; i < n; ++i) {
    s += (LD) a.at(i) * b.at(i); sc += fabsl((LD) a.at(i) * b.at(i));
    for (int j = 0; j < n; ++j) {
      mc::Same(o(i, j), (T) (a.at(i) * b.at(j)), "%s outer product (%d,%d)", what, i, j);
      mc::Same(q(i, j), (T) (a.at(i) * a.at(j)), "%s outer square (%d,%d)", what, i, j);
    }
  }
  mc::Near(inner(a, b), s, sc, 1e-14L, "%s inner product", what);
}
template<class T> static VectorN<T> mkn(const std::vector<T> &w) { VectorN<T> v((unsigned) w.size()); for (size_t i = 0; i < w.size(); ++i) v.at(i) = w[i]; return v; }
template<class T> static void vn(const std::vector<T> &w, bool full) {
  if (!mc::Case([&] { return mc::str("%s n-vector ", sizeof(T) == 4 ? "float" : "double") + mc::vstr(w); })) return;
  mc::Visit("n", (int) sizeof(T), w);
  VectorN<T> v = mkn(w);
  if (full && !w.empty()) { common(v, w, 0, (T) -1e7); equality(v, w); }
  VectorN<T> u = v; u.SetOnes(); contents(u, std::vector<T>(w.size(), 1), "SetOnes");
  u = v; u.Sort(); std::vector<T> s = w;
  // the model sorts by counting ranks
  for (size_t i = 0; i < w.size(); ++i) { size_t r = 0; for (size_t j = 0; j < w.size(); ++j) r += w[j] < w[i] || (w[j] == w[i] && j < i); s[r] = w[i]; }
  contents(u, s, "Sort");
  u = v; u.Sort(true); contents(u, s, "Sort ascending");
  u = v; u.Sort(false); contents(u, std::vector<T>(s.rbegin(), s.rend()), "Sort descending");
  u.Sort(false); contents(u, std::vector<T>(s.rbegin(), s.rend()), "Sort descending twice");
  u.Sort(); contents(u, s, "Sort ascending after descending");
  u = v; u.Reverse(); contents(u, std::vector<T>(w.rbegin(), w.rend()), "Reverse");
  u.Reverse(); contents(u, w, "Reverse twice");
  if (w.size() <= 140 && !w.empty()) {
    MatrixMN<T> q = v.GetMatrixSquare(), q2 = GetMatrixSquare(v), d = v.GetDiagonalMatrix(), d2 = GetDiagonalMatrix(v), t = mathutils::Transpose(v);
    size_t n = w.size();
    mc::Same((size_t) q.rows(), n, "square rows"); mc::Same((size_t) q.cols(), n, "square cols"); mc::Same((size_t) d.rows(), n, "diagonal rows"); mc::Same((size_t) d.cols(), n, "diagonal cols");
    mc::Same((size_t) q2.cols(), n, "square cols"); mc::Same((size_t) d2.cols(), n, "diagonal cols");
    mc::Same((size_t) t.rows(), (size_t) 1, "transpose rows"); mc::Same((size_t) t.cols(), n, "transpose cols");
    for (size_t i = 0; i < n; ++i) {
      mc::Same(t(0, i), w[i], "transpose");
      for (size_t j = 0; j < n; ++j) {
        mc::Same(q(i, j), (T) (w[i] * w[j]), "GetMatrixSquare (%zu,%zu)", i, j); mc::Same(q2(i, j), (T) (w[i] * w[j]), "free GetMatrixSquare (%zu,%zu)", i, j);
        mc::Same(d(i, j), i == j ? w[i] : (T) 0, "GetDiagonalMatrix (%zu,%zu)", i, j); mc::Same(d2(i, j), i == j ? w[i] : (T) 0, "free GetDiagonalMatrix (%zu,%zu)", i, j);
      }
    }
  }
  for (unsigned pre : {0u, 1u, (unsigned) w.size(), (unsigned) w.size() + 3}) { VectorN<T> a(pre); for (unsigned i = 0; i < pre; ++i) a.at(i) = 55; a = v; contents(a, w, "assigned over another size"); a = v * (T) 1; contents(a, w, "assigned from an expression"); VectorN<T> b(a); b = b; contents(b, w, "copy"); }
  contents(v, w, "n-vector after operations on copies");
  mc::Outcome("n-vector");
}
static void explore() {
  std::vector<double> al = {0, 1, -1, 0.5, -3, 1e6, -1e-6, 7.25, -1e3};
  for (mc::Odo o({9, 9}); o; ++o) { std::vector<double> w = {al[o[0]], al[o[1]]}; v2(w); v2(std::vector<float>(w.begin(), w.end())); }
  for (mc::Odo o({9, 9, 9}); o; ++o) {
    std::vector<double> w = {al[o[0]], al[o[1]], al[o[2]]};
    v3(w, 2e-15L); for (double sc : {1e-12, 1e-60, 1e40}) { auto x = w; for (auto &c : x) c *= sc; v3(x, 2e-15L); }
    v3(std::vector<float>(w.begin(), w.end()), 1e-6L);
    for (int s = 0; s < 5; ++s) {
      if (!mc::Case([&] { return "3-vector products " + mc::vstr(w) + mc::str(" shift %d", s); })) continue;
      Vector3d<double> a(w[0], w[1], w[2]), b(al[(o[1] + s) % 9], al[(o[2] + 2 * s) % 9], al[(o[0] + s) % 9]);
      mc::Visit("p3", w, s);
      products<Vector3d<double>, Matrix33<double>, double>(a, b, "3-vector");
    }
  }
  for (mc::Odo o(mc::rep(4, 6)); o; ++o) {
    std::vector<double> w;
    for (int i = 0; i < 6; ++i) w.push_back(al[o[i] == 3 ? 5 : o[i]] * (o[i] == 1 ? i + 1 : 1));
    if (!mc::Case([&] { return "6-vector " + mc::vstr(w); })) continue;
    mc::Visit(6, w);
    typedef Vector6d<double> V;
    V v(w[0], w[1], w[2], w[3], w[4], w[5]), z, u;
    contents(v, w, "constructor"); contents(z, std::vector<double>(6, 0), "default constructor");
    u.Set(w[0], w[1], w[2], w[3], w[4], w[5]); contents(u, w, "Set");
    common(v, w, 0, -1e9); equality(v, w);
    V b; for (int i = 0; i < 6; ++i) b.at(i) = mc::gen(i + 3 * o[i]);
    products<V, Matrix66<double>, double>(v, b, "6-vector"); products<V, Matrix66<double>, double>(b, v, "6-vector");
    mc::Outcome("6-vector");
  }
  double bl[5] = {0, 1, -1, 2.5, -4};
  for (int n = 0; n <= mc::Tier(6, 8); ++n)
    for (mc::Odo o(mc::rep(n <= 5 ? 5 : 3, n)); o; ++o) {
      std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(bl[o[i]]);
      vn(w, n <= 4);
      if (n <= 4) vn(std::vector<float>(w.begin(), w.end()), n <= 3);
    }
  for (int n : {7, 8}) if (n == 7 || mc::Thorough()) {
    std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(i - 3);
    do vn(w, false); while (std::next_permutation(w.begin(), w.end()));
  }
  for (int n = 7; n <= mc::Tier(1100, 4200); n += (n < 140 ? 1 : n < 260 ? 13 : 257)) {
    std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back(mc::gen(i * 7 + n));
    vn(w, n <= 24); vn(std::vector<double>(w.rbegin(), w.rend()), false);
    for (int i = 0; i < n; ++i) w[i] = i % 3; vn(w, false);
    for (int i = 0; i < n; ++i) w[i] = i; vn(w, false);
  }
}
MC_MAIN(explore)
