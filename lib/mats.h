// Enumerated matrix families shared by the matrix harnesses (C15..C18), and adapters to the three matrix classes.
#ifndef VERIF_MATS_H
#define VERIF_MATS_H
#include "la.h"
#include "MathUtils/MathUtils.h"
namespace la {
typedef mathutils::MatrixMN<double> MN;
typedef mathutils::Matrix33<double> M3;
typedef mathutils::Matrix66<double> M6;
typedef mathutils::MatrixMN<float> MNf;      // single precision
typedef mathutils::Matrix33<float> M3f;
typedef mathutils::Matrix66<float> M6f;
template<class M> struct Dynamic { static const bool value = std::is_same<M, MN>::value || std::is_same<M, MNf>::value; };
inline Mat f32(Mat x) { for (LD &v : x.a) v = (float) v; return x; }
template<class M> inline M fill(M e, const Mat &x) { for (int i = 0; i < x.m; ++i) for (int j = 0; j < x.n; ++j) e(i, j) = (typename M::Scalar) x(i, j); return e; }
template<> inline MN to<MN>(const Mat &x) { return fill(MN((unsigned) x.m, (unsigned) x.n), x); }
template<> inline M3 to<M3>(const Mat &x) { M3 e; return fill(e, x); }
template<> inline M6 to<M6>(const Mat &x) { M6 e; return fill(e, x); }
template<> inline MNf to<MNf>(const Mat &x) { return fill(MNf((unsigned) x.m, (unsigned) x.n), x); }
template<> inline M3f to<M3f>(const Mat &x) { M3f e; return fill(e, x); }
template<> inline M6f to<M6f>(const Mat &x) { M6f e; return fill(e, x); }
inline Mat word(int m, int n, const mc::Odo &o, const std::vector<double> &al, int at = 0) {
  Mat r(m, n); for (int i = 0; i < m * n; ++i) r.a[i] = al[o[at + i]]; return r;
}
inline Mat generic(int m, int n, int seed) { Mat r(m, n); for (int i = 0; i < m * n; ++i) r.a[i] = mc::gen(seed * 131 + i * 3 + 1); return r; }
inline Mat scaled(Mat x, LD f) { for (LD &v : x.a) v *= f; return x; }
inline Mat intgeneric(int m, int n, int seed) { Mat r = generic(m, n, seed); for (LD &v : r.a) v = roundl(v); return r; }
// integer matrix of exact rank r: product of an m x r and an r x n unit-triangular-ish integer factor
inline Mat ofrank(int m, int n, int r, int seed) {
  Mat a = intgeneric(m, r, seed), b = intgeneric(r, n, seed + 17);
  for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) { a(i, j) = i == j ? 1 : i < j ? 0 : a(i, j); b(i, j) = i == j ? 1 : i > j ? 0 : b(i, j); }
  if (r == 0) return Mat(m, n);
  return mul(a, b);
}
// visit(x, exactint): square matrices of the quick/thorough enumeration
template<class F> void squares(int n, F f) {
  if (n == 1) { for (double v : {0., 1., -1., 2.5, -1e6, 1e-4}) { Mat x(1, 1); x(0, 0) = v; f(x); } return; }
  if (n == 2) { std::vector<double> al = {0, 1, -1, 2, -3}; for (mc::Odo o(mc::rep(5, 4)); o; ++o) f(word(2, 2, o, al)); }
  if (n == 3) { std::vector<double> al = {0, 1, -1, 2, -2}; for (mc::Odo o(mc::rep(mc::Tier(3, 4), 9)); o; ++o) f(word(3, 3, o, al)); }
  if (n >= 3) {
    // every permutation matrix (n<=6 in full), with one sign pattern per permutation
    if (n <= 6) {
      std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i;
      int s = 0;
      do { Mat x(n, n); for (int i = 0; i < n; ++i) x(i, p[i]) = ((s >> (i % 5)) & 1) ? -1 : 1; f(x); ++s; } while (std::next_permutation(p.begin(), p.end()));
    }
    for (int k = 0; k < mc::Tier(60, 600); ++k) { f(generic(n, n, k)); f(intgeneric(n, n, k + 1000)); }
    for (int r = 0; r < n; ++r) for (int k = 0; k < 4; ++k) f(ofrank(n, n, r, k + 7 * r));
    for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) { Mat x = eye(n); x(k, l) += 3; f(x); x(l, k) -= 5; f(x); }
    Mat t(n, n), c(n, n), j(n, n), h(n, n);
    for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) { t(i, k) = i == k ? 2 : abs(i - k) == 1 ? -1 : 0; c(i, k) = k == n - 1 ? -(i + 1) : i == k + 1; j(i, k) = i == k ? 2 : k == i + 1; h(i, k) = i < k ? i + k : 0; }
    f(t); f(c); f(j); f(h); f(tr(h));
  }
}
// matrices that nearly have a structure: identity, permutation, rotation, diagonal, triangular, symmetric definite, with one
// entry (every position) displaced by a small amount
template<class F> void nearly(int n, F f) {
  std::vector<Mat> base;
  base.push_back(eye(n));
  { Mat p(n, n), d(n, n), u(n, n), s = generic(n, n, 3);
    for (int i = 0; i < n; ++i) { p(i, (i + 1) % n) = i % 2 ? -1 : 1; d(i, i) = i + 1.5; for (int j = i; j < n; ++j) { u(i, j) = i == j ? 2 + i : 0.5 * (i + 1) - j; s(j, i) = s(i, j); } s(i, i) = 4 * n + i; }
    base.push_back(p); base.push_back(d); base.push_back(u); base.push_back(tr(u)); base.push_back(s);
    Mat r = eye(n);
    for (int k = 0; k + 1 < n; ++k) { Mat g = eye(n); LD c = cosl(0.4L + k), t = sinl(0.4L + k); g(k, k) = g(k + 1, k + 1) = c; g(k, k + 1) = -t; g(k + 1, k) = t; r = mul(r, g); }
    base.push_back(r); }
  for (const Mat &b : base) for (double e : {0., 1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12}) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    if (e == 0 && (i || j)) continue;
    Mat x = b; x(i, j) += e; for (LD &v : x.a) v = (double) v;
    f(x);
  }
}
template<class F> void symmetrics(int n, F f) {
  std::vector<double> al = {0, 1, -1, 2, 3};
  if (n <= 3) {
    for (mc::Odo o(mc::rep(5, n * (n + 1) / 2)); o; ++o) { Mat x(n, n); int k = 0; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) x(i, j) = x(j, i) = al[o[k++]]; f(x); }
  } else {
    if (n == 4) for (mc::Odo o(mc::rep(mc::Tier(2, 3), 10)); o; ++o) { Mat x(n, n); int k = 0; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) x(i, j) = x(j, i) = al[o[k++]] + (i == j ? 1 : 0); f(x); }
    for (int k = 0; k < mc::Tier(60, 400); ++k) {
      Mat x = intgeneric(n, n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) x(i, j) = x(j, i);
      f(x);                                                                  // usually indefinite
      for (int i = 0; i < n; ++i) x(i, i) = 8 * n + i; f(x);                 // definite
      Mat y = intgeneric(n, n, k + 5000); f(mul(y, tr(y)));                  // semi-definite or definite
      Mat z = intgeneric(n, std::max(1, n - 2), k + 9000); f(mul(z, tr(z)));  // singular semi-definite
    }
  }
}
}  // namespace la
#endif
