// Reference linear algebra of the matrix harnesses: long double and exact integer, written independently of Eigen.
#ifndef VERIF_LA_H
#define VERIF_LA_H
#include "mc.h"
namespace la {
typedef long double LD;
struct Mat {
  int m = 0, n = 0;
  std::vector<LD> a;
  Mat() {}
  Mat(int r, int c) : m(r), n(c), a((size_t) r * c, 0) {}
  LD &operator()(int i, int j) { return a[(size_t) i * n + j]; }
  LD operator()(int i, int j) const { return a[(size_t) i * n + j]; }
};
inline Mat eye(int n) { Mat r(n, n); for (int i = 0; i < n; ++i) r(i, i) = 1; return r; }
inline Mat mul(const Mat &x, const Mat &y) {
  if (x.n != y.m) mc::Fail("product of a %dx%d and a %dx%d matrix", x.m, x.n, y.m, y.n);
  Mat r(x.m, y.n);
  for (int i = 0; i < x.m; ++i) for (int k = 0; k < x.n; ++k) for (int j = 0; j < y.n; ++j) r(i, j) += x(i, k) * y(k, j);
  return r;
}
inline Mat tr(const Mat &x) { Mat r(x.n, x.m); for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) r(j, i) = x(i, j); return r; }
inline LD maxabs(const Mat &x) { LD s = 0; for (LD v : x.a) { if (std::isnan(v)) return v; s = std::max(s, fabsl(v)); } return s; }
inline LD fro(const Mat &x) { LD s = 0; for (LD v : x.a) s += v * v; return sqrtl(s); }
template<class E> Mat from(const E &e) {
  Mat r((int) e.rows(), (int) e.cols());
  for (int i = 0; i < r.m; ++i) for (int j = 0; j < r.n; ++j) r(i, j) = e(i, j);
  return r;
}
template<class M> M to(const Mat &x);   // specialised by the harness
// |g - w| <= tol entry by entry (absolute)
inline void same(const Mat &g, const Mat &w, LD tol, const char *f, ...) {
  char b[512];
  va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v);
  ++mc::C().checks;
  if (g.m != w.m || g.n != w.n) mc::Fail("%s: got a %dx%d matrix, expected %dx%d", b, g.m, g.n, w.m, w.n);
  for (int i = 0; i < g.m; ++i) for (int j = 0; j < g.n; ++j)
    if (!(fabsl(g(i, j) - w(i, j)) <= tol)) mc::Fail("%s: entry (%d,%d) is %.17Lg, expected %.17Lg (tolerance %.3Lg)", b, i, j, g(i, j), w(i, j), tol);
}
inline std::string show(const Mat &x) {
  std::ostringstream o; o.precision(9);
  o << x.m << "x" << x.n << "[";
  for (int i = 0; i < x.m; ++i) { for (int j = 0; j < x.n; ++j) o << (j ? " " : i ? "; " : "") << (double) x(i, j); if (i > 8) { o << "..."; break; } }
  o << "]";
  return o.str();
}
// exact determinant of an integer matrix given in long double (fraction-free elimination)
inline __int128 detint(Mat x) {
  int n = x.n; std::vector<__int128> a(n * n);
  for (int i = 0; i < n * n; ++i) a[i] = (__int128) x.a[i];
  __int128 p = 1; int s = 1;
  for (int k = 0; k < n - 1; ++k) {
    if (a[k * n + k] == 0) {
      int r = k + 1; while (r < n && a[r * n + k] == 0) ++r;
      if (r == n) return 0;
      for (int j = 0; j < n; ++j) std::swap(a[k * n + j], a[r * n + j]);
      s = -s;
    }
    for (int i = k + 1; i < n; ++i) for (int j = k + 1; j < n; ++j) a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / p;
    p = a[k * n + k];
  }
  return n == 0 ? 1 : s * a[n * n - 1];
}
inline int rankint(const Mat &x) {   // rank of an integer matrix, exact
  std::vector<std::vector<__int128>> a(x.m, std::vector<__int128>(x.n));
  for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) a[i][j] = (__int128) x(i, j);
  int r = 0;
  for (int c = 0; c < x.n && r < x.m; ++c) {
    int p = r; while (p < x.m && a[p][c] == 0) ++p;
    if (p == x.m) continue;
    std::swap(a[p], a[r]);
    for (int i = r + 1; i < x.m; ++i) if (a[i][c] != 0) {
      __int128 f = a[i][c], g = a[r][c], d = 0;
      for (int j = 0; j < x.n; ++j) { a[i][j] = a[i][j] * g - a[r][j] * f; }
      for (int j = 0; j < x.n; ++j) { __int128 u = a[i][j] < 0 ? -a[i][j] : a[i][j]; __int128 v = d; while (u) { __int128 t = v % u; v = u; u = t; } d = v; }
      if (d > 1) for (int j = 0; j < x.n; ++j) a[i][j] /= d;
    }
    ++r;
  }
  return r;
}
inline Mat inv(Mat x, bool &ok) {   // Gauss-Jordan with full row pivoting
  int n = x.n; Mat r = eye(n); ok = true;
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k; i < n; ++i) if (fabsl(x(i, k)) > fabsl(x(p, k))) p = i;
    if (fabsl(x(p, k)) < 1e-15L * (maxabs(x) + 1e-300L)) { ok = false; return r; }
    for (int j = 0; j < n; ++j) { std::swap(x(p, j), x(k, j)); std::swap(r(p, j), r(k, j)); }
    LD d = x(k, k);
    for (int j = 0; j < n; ++j) { x(k, j) /= d; r(k, j) /= d; }
    for (int i = 0; i < n; ++i) if (i != k) { LD f = x(i, k); if (f != 0) for (int j = 0; j < n; ++j) { x(i, j) -= f * x(k, j); r(i, j) -= f * r(k, j); } }
  }
  return r;
}
// characteristic polynomial coefficients e_1..e_n (elementary symmetric functions of the spectrum), exact for integer matrices
inline std::vector<LD> esym(const Mat &x) {
  int n = x.n; Mat m = eye(n); std::vector<LD> e(n + 1); e[0] = 1;   // Faddeev-LeVerrier
  LD c = 1;
  for (int k = 1; k <= n; ++k) {
    Mat am = mul(x, m); LD t = 0; for (int i = 0; i < n; ++i) t += am(i, i);
    c = -t / k;
    e[k] = (k % 2) ? -c : c;
    m = am; for (int i = 0; i < n; ++i) m(i, i) += c;
  }
  return e;
}
// eigenvalues of a symmetric matrix (cyclic Jacobi), ascending
inline std::vector<LD> symeig(Mat a) {
  int n = a.n;
  for (int sweep = 0; sweep < 60; ++sweep) {
    LD off = 0; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) off += a(i, j) * a(i, j);
    if (off == 0) break;
    for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) if (a(p, q) != 0) {
      LD th = (a(q, q) - a(p, p)) / (2 * a(p, q)), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (int k = 0; k < n; ++k) { LD u = a(k, p), v = a(k, q); a(k, p) = c * u - s * v; a(k, q) = s * u + c * v; }
      for (int k = 0; k < n; ++k) { LD u = a(p, k), v = a(q, k); a(p, k) = c * u - s * v; a(q, k) = s * u + c * v; }
    }
  }
  std::vector<LD> e; for (int i = 0; i < n; ++i) e.push_back(a(i, i));
  std::sort(e.begin(), e.end());
  return e;
}
inline std::vector<LD> singular(const Mat &x) {   // descending, min(m,n) values (via x'x or xx')
  std::vector<LD> e = symeig(x.m >= x.n ? mul(tr(x), x) : mul(x, tr(x)));
  std::reverse(e.begin(), e.end());
  for (LD &v : e) v = v > 0 ? sqrtl(v) : 0;
  return e;
}
}  // namespace la
#endif
