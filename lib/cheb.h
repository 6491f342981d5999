// Reference model of tensor Chebyshev / power series over closed and half-open axes (long double), and adapters that
// give the eight Chebyshev classes and the eight power-series classes one three-dimensional face.
#ifndef VERIF_CHEB_H
#define VERIF_CHEB_H
#include "mc.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
namespace ch {
using namespace mathutils;
using mc::LD;
struct Ax {
  bool open; double lo, hi;
  LD u(LD x) const { return open ? 1 - 2 * (LD) lo / x : (2 * x - (LD) lo - hi) / ((LD) hi - lo); }
  LD x(LD u) const { return open ? 2 * (LD) lo / (1 - u) : ((LD) lo + hi + u * ((LD) hi - lo)) / 2; }
  LD du(LD x) const { return open ? 2 * (LD) lo / (x * x) : 2 / ((LD) hi - lo); }
  // conditioning of the map to the unit segment
  LD cond() const { return open ? 1 : 1 + (fabsl(lo) + fabsl(hi)) / ((LD) hi - lo); }
  std::string name() const { return open ? mc::str("[%g,inf)", lo) : mc::str("[%g,%g]", lo, hi); }
};
inline LD Tn(int n, LD u) { LD a = 1, b = u; if (n == 0) return 1; for (int i = 1; i < n; ++i) { LD c = 2 * u * b - a; a = b; b = c; } return b; }
inline LD Un(int n, LD u) { if (n < 0) return 0; LD a = 1, b = 2 * u; if (n == 0) return 1; for (int i = 1; i < n; ++i) { LD c = 2 * u * b - a; a = b; b = c; } return b; }
inline LD dTn(int n, LD u) { return n == 0 ? 0 : n * Un(n - 1, u); }
typedef std::function<LD(LD, LD, LD)> UF;           // a function of the three mapped coordinates
struct Ten {                                        // coefficients c[i][j][k]
  int n[3]; std::vector<LD> c;
  Ten(int a, int b, int d) : n{a, b, d}, c((size_t) (a + 1) * (b + 1) * (d + 1), 0) {}
  LD &at(int i, int j, int k) { return c[((size_t) i * (n[1] + 1) + j) * (n[2] + 1) + k]; }
  LD at(int i, int j, int k) const { return c[((size_t) i * (n[1] + 1) + j) * (n[2] + 1) + k]; }
  LD sum() const { LD s = 0; for (LD v : c) s += fabsl(v); return s; }
};
// transform of the values at the Chebyshev points, direct cosine sums
inline Ten Transform(const UF &f, int a, int b, int d) {
  Ten t(a, b, d), v(a, b, d);
  auto th = [](int r, int n) { return acosl(-1.L) * (2 * r + 1) / (2 * (n + 1)); };
  for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) for (int k = 0; k <= d; ++k) v.at(i, j, k) = f(cosl(th(i, a)), cosl(th(j, b)), cosl(th(k, d)));
  for (int ax = 0; ax < 3; ++ax) {                   // one axis at a time
    Ten w(a, b, d);
    int n = t.n[ax];
    for (int i = 0; i <= a; ++i) for (int j = 0; j <= b; ++j) for (int k = 0; k <= d; ++k) {
      int id[3] = {i, j, k}, m = id[ax];
      LD s = 0;
      for (int r = 0; r <= n; ++r) { id[ax] = r; s += v.at(id[0], id[1], id[2]) * cosl(m * th(r, n)); }
      w.at(i, j, k) = s * (m ? 2.L : 1.L) / (n + 1);
    }
    v = w;
  }
  return v;
}
// sum of c_ijk B_i(u)B_j(v)B_k(w), basis Chebyshev or powers, derivative along axis d (or -1)
inline LD Sum(const Ten &t, bool power, int d, LD u, LD v, LD w, LD *abs = nullptr) {
  std::vector<LD> B[3];
  LD q[3] = {u, v, w};
  for (int ax = 0; ax < 3; ++ax) for (int i = 0; i <= t.n[ax]; ++i)
    B[ax].push_back(power ? (ax == d ? (i ? i * powl(q[ax], i - 1) : 0) : powl(q[ax], i)) : (ax == d ? dTn(i, q[ax]) : Tn(i, q[ax])));
  LD s = 0, a = 0;
  for (int i = 0; i <= t.n[0]; ++i) for (int j = 0; j <= t.n[1]; ++j) for (int k = 0; k <= t.n[2]; ++k) { LD p = t.at(i, j, k) * B[0][i] * B[1][j] * B[2][k]; s += p; a += fabsl(p); }
  if (abs) *abs = a;
  return s;
}
// Chebyshev coefficients to power coefficients, by the recurrence T_{n+1} = 2uT_n - T_{n-1}
inline Ten ToPower(const Ten &t) {
  int N = std::max(t.n[0], std::max(t.n[1], t.n[2]));
  std::vector<std::vector<LD>> L(N + 1, std::vector<LD>(N + 1, 0));
  L[0][0] = 1; if (N) L[1][1] = 1;
  for (int n = 2; n <= N; ++n) for (int i = 0; i <= n; ++i) L[n][i] = (i ? 2 * L[n - 1][i - 1] : 0) - L[n - 2][i];
  Ten v = t;
  for (int ax = 0; ax < 3; ++ax) {
    Ten w(t.n[0], t.n[1], t.n[2]);
    for (int i = 0; i <= t.n[0]; ++i) for (int j = 0; j <= t.n[1]; ++j) for (int k = 0; k <= t.n[2]; ++k) {
      int id[3] = {i, j, k}, m = id[ax]; LD s = 0;
      for (int r = m; r <= t.n[ax]; ++r) { id[ax] = r; s += v.at(id[0], id[1], id[2]) * L[r][m]; }
      w.at(i, j, k) = s;
    }
    v = w;
  }
  return v;
}
// the user function handed to the library: physical coordinates in, value out
struct F1 : Function1d<double> { Ax a[3]; UF f; double Evaluate(const double &x) const override { return (double) f(a[0].u(x), 0, 0); } };
struct F2 : Function2d<double> { Ax a[3]; UF f; double Evaluate(const double &x, const double &y) const override { return (double) f(a[0].u(x), a[1].u(y), 0); } };
struct F3 : Function3d<double> { Ax a[3]; UF f; double Evaluate(const double &x, const double &y, const double &z) const override { return (double) f(a[0].u(x), a[1].u(y), a[2].u(z)); } };

typedef std::function<double(double, double, double)> Ev;
struct Series {
  int dim; std::function<void()> compute; Ev val, der[3]; std::function<Ten()> convert;
  std::shared_ptr<void> keep, fun;
};
template<class S> void bind1(Series &r, std::shared_ptr<S> s) {
  r.keep = s; r.compute = [s] { s->Compute_ai(); };
  r.val = [s](double x, double, double) { return s->Evaluate(x); };
  r.der[0] = [s](double x, double, double) { return s->Evaluate_derivative_x(x); };
  r.convert = [s] { auto b = s->Compute_bi(); Ten t((int) b.rows() - 1, 0, 0); for (int i = 0; i < b.rows(); ++i) t.at(i, 0, 0) = b(i); return t; };
}
template<class S> void bind2(Series &r, std::shared_ptr<S> s) {
  r.keep = s; r.compute = [s] { s->Compute_aij(); };
  r.val = [s](double x, double y, double) { return s->Evaluate(x, y); };
  r.der[0] = [s](double x, double y, double) { return s->Evaluate_derivative_x(x, y); };
  r.der[1] = [s](double x, double y, double) { return s->Evaluate_derivative_y(x, y); };
  r.convert = [s] { auto b = s->Compute_bij(); Ten t((int) b.rows() - 1, (int) b.cols() - 1, 0); for (int i = 0; i < b.rows(); ++i) for (int j = 0; j < b.cols(); ++j) t.at(i, j, 0) = b(i, j); return t; };
}
template<class S> void bind3(Series &r, std::shared_ptr<S> s) {
  r.keep = s; r.compute = [s] { s->Compute_aijk(); };
  r.val = [s](double x, double y, double z) { return s->Evaluate(x, y, z); };
  r.der[0] = [s](double x, double y, double z) { return s->Evaluate_derivative_x(x, y, z); };
  r.der[1] = [s](double x, double y, double z) { return s->Evaluate_derivative_y(x, y, z); };
  r.der[2] = [s](double x, double y, double z) { return s->Evaluate_derivative_z(x, y, z); };
  r.convert = [s] { auto b = s->Compute_bijk(); Ten t((int) b[0].rows() - 1, (int) b[0].cols() - 1, (int) b.size() - 1); for (int k = 0; k <= t.n[2]; ++k) for (int i = 0; i <= t.n[0]; ++i) for (int j = 0; j <= t.n[1]; ++j) t.at(i, j, k) = b[k](i, j); return t; };
}
inline Series Make(int dim, const std::vector<Ax> &a, const UF &f, int ox, int oy, int oz, F1 *s1 = nullptr, F2 *s2 = nullptr, F3 *s3 = nullptr) {
  // s1..s3: a user function shared by several series instead of one of its own
  Series r; r.dim = dim;
  auto no = [](void *) {};
  if (dim == 1) {
    auto F = s1 ? std::shared_ptr<F1>(s1, no) : std::make_shared<F1>(); if (!s1) { F->a[0] = a[0]; F->f = f; } r.fun = F;
    if (a[0].open) bind1(r, std::make_shared<ChebyshevSeries1dOpened<double>>(F.get(), a[0].lo, ox));
    else bind1(r, std::make_shared<ChebyshevSeries1dClosed<double>>(F.get(), a[0].lo, a[0].hi, ox));
  } else if (dim == 2) {
    auto F = s2 ? std::shared_ptr<F2>(s2, no) : std::make_shared<F2>(); if (!s2) { for (int i = 0; i < 2; ++i) F->a[i] = a[i]; F->f = f; } r.fun = F;
    if (a[0].open) bind2(r, std::make_shared<ChebyshevSeries2dOpened<double>>(F.get(), a[0].lo, a[1].lo, ox, oy));
    else if (a[1].open) bind2(r, std::make_shared<ChebyshevSeries2dMixed<double>>(F.get(), a[0].lo, a[0].hi, a[1].lo, ox, oy));
    else bind2(r, std::make_shared<ChebyshevSeries2dClosed<double>>(F.get(), a[0].lo, a[0].hi, a[1].lo, a[1].hi, ox, oy));
  } else {
    auto F = s3 ? std::shared_ptr<F3>(s3, no) : std::make_shared<F3>(); if (!s3) { for (int i = 0; i < 3; ++i) F->a[i] = a[i]; F->f = f; } r.fun = F;
    if (a[1].open) bind3(r, std::make_shared<ChebyshevSeries3dYZOpenedXClosed<double>>(F.get(), a[0].lo, a[0].hi, a[1].lo, a[2].lo, ox, oy, oz));
    else if (a[2].open) bind3(r, std::make_shared<ChebyshevSeries3dZOpenedXYClosed<double>>(F.get(), a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo, ox, oy, oz));
    else bind3(r, std::make_shared<ChebyshevSeries3dClosed<double>>(F.get(), a[0].lo, a[0].hi, a[1].lo, a[1].hi, a[2].lo, a[2].hi, ox, oy, oz));
  }
  return r;
}
inline Ax closed(double a, double b) { return Ax{false, a, b}; }
inline Ax opened(double a) { return Ax{true, a, 0}; }
inline std::vector<std::vector<Ax>> Domains(int dim, bool all) {
  std::vector<std::vector<Ax>> r;
  if (dim == 1) {
    for (auto p : std::vector<std::pair<double, double>>{{-1, 1}, {0, 1}, {2, 5}, {-3, -0.5}, {-0.01, 100}, {0, 1e-3}, {-1e4, 1e4}, {99, 101}}) r.push_back({closed(p.first, p.second)});
    for (double m : {1., 0.25, 10., 1e-3, 3.7, 1e4}) r.push_back({opened(m)});
  } else if (dim == 2) {
    r = {{closed(-1, 1), closed(-1, 1)}, {closed(0, 1), closed(2, 5)}, {closed(-3, -0.5), closed(-10, 40)}, {opened(1), opened(2)}, {opened(5), opened(0.25)}, {closed(-1, 2), opened(1)}, {closed(10, 12), opened(0.5)}};
  } else {
    r = {{closed(-1, 2), closed(3, 4), closed(-5, -1)}, {closed(0, 1), opened(0.5), opened(3)}, {closed(-2, 3), closed(1, 1.5), opened(2)}};
    if (all) for (auto v : std::vector<std::vector<Ax>>{{closed(0, 10), closed(-1, 1), closed(0, 0.1)}, {closed(-4, -2), opened(7), opened(0.1)}, {closed(5, 6), closed(-8, 8), opened(0.3)}}) r.push_back(v);
  }
  return r;
}
inline std::string name(const std::vector<Ax> &a, int ox, int oy, int oz) {
  std::string s = mc::str("%dd series on ", (int) a.size());
  for (auto &x : a) s += x.name();
  int o[3] = {ox, oy, oz};
  s += " orders";
  for (size_t i = 0; i < a.size(); ++i) s += mc::str(" %d", o[i]);
  return s;
}
// query coordinates along an axis: ends, Chebyshev points of the order, fixed unit positions
inline std::vector<double> Pts(const Ax &a, int order, const std::vector<LD> &us, bool nodes) {
  std::vector<double> r;
  for (LD u : us) { if (a.open && u >= 1) { r.push_back(a.lo * 1e3); r.push_back(a.lo * 1e12); } else r.push_back((double) a.x(u)); }
  if (nodes) for (int k = 0; k <= order; ++k) r.push_back((double) a.x(cosl(acosl(-1.L) * (2 * k + 1) / (2 * (order + 1)))));
  return r;
}
// Two series of the same user function, nearly alike (one bound, one order or the kind of one axis differs), driven through
// every history of the given depth over {compute A, compute B, change the function, read A, read B}; read(series, axes, orders,
// reference coefficients) judges a read against the coefficients of the function as it was at the last computation.
struct Spec { std::vector<Ax> a; std::array<int, 3> o; };
inline std::vector<Spec> Alike(const Spec &s, int dim) {
  std::vector<Spec> r;
  for (int i = 0; i < dim; ++i) {
    Spec t = s; if (!s.a[i].open) { t.a[i].hi += 1; r.push_back(t); t = s; t.a[i].lo -= 0.5; r.push_back(t); t = s; t.a[i].lo += 0.25; t.a[i].hi += 0.25; r.push_back(t); t = s; t.a[i].lo -= 0.25; t.a[i].hi += 0.25; r.push_back(t); }
    else { t.a[i].lo *= 2; r.push_back(t); t = s; t.a[i].lo += 1e-3; r.push_back(t); }
    t = s; t.o[i] += 1; r.push_back(t);
    for (int j = 0; j < i; ++j) { t = s; std::swap(t.o[i], t.o[j]); if (t.o != s.o) r.push_back(t); if (s.a[i].open == s.a[j].open) { t = s; std::swap(t.a[i], t.a[j]); r.push_back(t); } }
  }
  r.push_back(s);                                                       // and exactly alike
  if (dim == 1) { Spec t = s; t.a[0] = s.a[0].open ? closed(s.a[0].lo, s.a[0].lo + 2) : opened(fabs(s.a[0].lo) + 1); r.push_back(t); }
  return r;
}
template<class Read> void PairHistories(int depth, Read read) {
  UF g[2] = {[](LD x, LD y, LD z) { return (1 + x - 0.3L * y + 0.2L * z * x) / (1 + x * x + 0.5L * y * y + 0.25L * z * z); }, [](LD x, LD y, LD z) { return (x + 2 * y * z + 3) / (4 + x * x + y * y + z * z) - 0.5L; }};
  std::vector<Spec> base = {{{closed(0, 2)}, {4, 0, 0}}, {{opened(1)}, {5, 0, 0}}, {{closed(0, 2), closed(-1, 1)}, {3, 2, 0}}, {{opened(1), opened(2)}, {2, 3, 0}}, {{closed(0, 2), opened(1)}, {3, 3, 0}},
    {{closed(0, 2), closed(-1, 1), closed(3, 4)}, {2, 1, 2}}, {{closed(0, 2), opened(1), opened(2)}, {1, 2, 2}}, {{closed(0, 2), closed(-1, 1), opened(1)}, {2, 2, 1}}};
  for (auto &s : base) for (auto &t : Alike(s, (int) s.a.size())) {
    int dim = (int) s.a.size();
    const Spec *sp[2] = {&s, &t};
    std::vector<std::vector<Ten>> ref(2);                                // [series][function]
    for (int k = 0; k < 2; ++k) for (int q = 0; q < 2; ++q) { auto &sk = *sp[k]; auto &gq = g[q]; ref[k].push_back(Transform([&](LD u, LD v, LD w) { return gq(sk.a[0].x(u), dim > 1 ? sk.a[1].x(v) : 0, dim > 2 ? sk.a[2].x(w) : 0); }, sk.o[0], sk.o[1], sk.o[2])); }
    for (mc::Odo o(mc::rep(5, depth)); o; ++o) {
      if (o[depth - 1] < 3) continue;                                    // a history ends with a read
      { bool c[2] = {false, false}, ok = true; for (int i = 0; i < depth; ++i) { if (o[i] < 2) c[o[i]] = true; if (o[i] > 2 && !c[o[i] - 3]) ok = false; } if (!ok) continue; }
      if (!mc::Case([&] { std::string h = name(s.a, s.o[0], s.o[1], s.o[2]) + " (A) and " + name(t.a, t.o[0], t.o[1], t.o[2]) + " (B) of one function:"; static const char *N[] = {" compute-A", " compute-B", " change-function", " read-A", " read-B"}; for (int i = 0; i < depth; ++i) h += N[o[i]]; return h; })) continue;
      F1 f1; F2 f2; F3 f3; for (int i = 0; i < 3; ++i) f1.a[i] = f2.a[i] = f3.a[i] = closed(-1, 1);
      int q = 0, at[2] = {0, 0};
      f1.f = f2.f = f3.f = g[0];
      Series S[2] = {Make(dim, s.a, g[0], s.o[0], s.o[1], s.o[2], &f1, &f2, &f3), Make(dim, t.a, g[0], t.o[0], t.o[1], t.o[2], &f1, &f2, &f3)};
      for (int i = 0; i < depth; ++i) {
        mc::Visit("pair", &s - &base[0], q, at[0], at[1], o[i], i ? o[i - 1] : -1);
        if (o[i] < 2) { S[o[i]].compute(); at[o[i]] = q; }
        else if (o[i] == 2) { q = 1 - q; f1.f = f2.f = f3.f = g[q]; }
        else { int k = o[i] - 3; read(S[k], sp[k]->a, sp[k]->o, ref[k][at[k]]); }
      }
      mc::Outcome("pair of nearly alike series");
    }
  }
}
}  // namespace ch
#endif
