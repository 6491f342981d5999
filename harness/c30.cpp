// C30 - the multi-dimensional interpolation engine (simplicial and multilinear, copying and referencing).
//@bounds quick: both methods, copying and referencing, double (dimensions 1..5) and float (1..2); all axis sizes 1..4 (1D, 2D), 1..3 (3D), 2..3 (4D), 2 (5D) and larger shapes (up to 66000 nodes per axis, queried on a stride and around the wrap-around indices of narrow counters), 3 gap patterns, 2 data patterns and affine data; all data words over {0,2.5,-1} on 2x2, 3x2, two 2-valued sets of them on 2x2x2; nearly uniform, tiny, huge and far axes of 2..6 nodes in every position; queries: the product over axes of {nodes, next floats, fractions (with ties between axes), outside on both sides}, singly, as batches of every size 0..9 and as one batch in both orders; two-sided (discontinuous) values in 1..3 dimensions; geometric, clustered, one-gap, tiny (1e-301) and huge (1e299) axes of 2..40 nodes; values that are nearly equal (1e-12 to 1e-3); every wrong number of values 0..2n, for all copying and referencing classes; the C interface in 1..3 dimensions; sources overwritten and released after construction; two interpolators used alternately; the same object given new values, new axes, another shape, and moved; every batch of three of seven points of each case
//@bounds thorough: axis sizes 1..6 (2D), 1..4 (3D), 1..3 (4D), six dimensions with 2 nodes, nearly uniform axes of up to 16 nodes
//@model cell by linear scan, fractions in long double; simplicial: corner path in order of decreasing fraction; multilinear: sum over the 2^d corners; two-sided data: right limit of the lower and left limit of the upper node
#include "mc.h"
#include <numeric>
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/thirdparty/linterp.h"
using mc::LD;
template<class T> using Vt = std::vector<T>;
typedef std::vector<double> V;

// lower/upper index and fraction along one axis
template<class T> static void locate(const Vt<T> &g, T x, bool cont, size_t &lo, size_t &hi, LD &t) {
  size_t n = g.size();
  t = 0;
  if (x < g[0]) { lo = hi = 0; return; }
  if (x >= g[n - 1]) { lo = hi = cont ? n - 1 : 2 * n - 1; return; }
  size_t k = 0;
  while (!(x < g[k + 1])) ++k;
  t = ((LD) x - g[k]) / ((LD) g[k + 1] - g[k]);
  lo = cont ? k : 2 * k + 1;
  hi = lo + 1;
}
template<size_t D, class T> LD model(const std::vector<Vt<T>> &G, const Vt<T> &data, const std::array<T, D> &p, bool simplex, bool cont, LD &scale) {
  std::array<size_t, D> lo, hi, n;
  std::array<LD, D> t;
  for (size_t d = 0; d < D; ++d) { n[d] = G[d].size() * (cont ? 1 : 2); locate(G[d], p[d], cont, lo[d], hi[d], t[d]); }
  auto at = [&](const std::array<bool, D> &up) { size_t i = 0; for (size_t d = 0; d < D; ++d) i = i * n[d] + (up[d] ? hi[d] : lo[d]); return (LD) data[i]; };
  scale = 0;
  for (unsigned v = 0; v < (1u << D); ++v) { std::array<bool, D> up; for (size_t d = 0; d < D; ++d) up[d] = (v >> d) & 1; scale += fabsl(at(up)); }
  if (!simplex) {
    LD r = 0;
    for (unsigned v = 0; v < (1u << D); ++v) {
      LD w = 1;
      std::array<bool, D> up;
      for (size_t d = 0; d < D; ++d) { up[d] = (v >> d) & 1; w *= up[d] ? t[d] : 1 - t[d]; }
      if (w != 0) r += w * at(up);
    }
    return r;
  }
  std::array<int, D> ord;
  std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return t[a] > t[b]; });
  std::array<bool, D> up;
  up.fill(false);
  LD prev = at(up), r = prev;
  for (int d : ord) { up[d] = true; LD v = at(up); r += t[d] * (v - prev); prev = v; }
  return r;
}
template<size_t D, class T> struct Pts { std::vector<std::array<T, D>> p; };

// one interpolator class over one grid
template<class I, size_t D, class T> void engine(const std::vector<Vt<T>> &G, const Vt<T> &data, const std::vector<std::array<T, D>> &pts, bool simplex, bool copies, bool cont, int style) {
  const LD rel = sizeof(T) == 4 ? 1e-5L : 1e-12L;
  auto axes = std::make_unique<std::vector<Vt<T>>>(G);
  auto f = std::make_unique<Vt<T>>(data);
  std::vector<typename Vt<T>::const_iterator> begins;
  std::array<int, D> len;
  for (size_t d = 0; d < D; ++d) { begins.push_back((*axes)[d].begin()); len[d] = (int) G[d].size(); }
  auto make = [&](const Vt<T> &v) { return std::make_unique<I>(begins.begin(), len, v.data(), v.data() + v.size()); };
  auto make2 = [](const std::vector<typename Vt<T>::const_iterator> &b, const std::array<int, D> &l, const Vt<T> &v) { return std::make_unique<I>(b.begin(), l, v.data(), v.data() + v.size()); };
  auto A = make(*f);
  Vt<T> other(data.size());
  for (size_t i = 0; i < other.size(); ++i) other[i] = (T) (0.5 * (i % 7) - 1);
  auto B = make(other);
  if (copies) {           // the copy must not depend on anything outside of it
    for (auto &x : *f) x = (T) 1e30;
    f.reset();
    for (auto &a : *axes) for (auto &x : a) x = (T) -1e30;
    axes.reset();
  }
  auto value = [&](const std::array<T, D> &p, const Vt<T> &d, I &X, const char *what) {
    LD sc, w = model<D, T>(G, d, p, simplex, cont, sc);
    T got = X.interp(p.begin());
    mc::Visit(style, simplex, copies, cont, p, d);
    mc::Near(got, w, sc, rel, "%s at %s", what, mc::vstr(Vt<T>(p.begin(), p.end())).c_str());
    return got;
  };
  Vt<T> got;
  for (auto &p : pts) got.push_back(value(p, data, *A, "value"));
  for (size_t i = 0; i < pts.size(); i += 5) { value(pts[i], other, *B, "value of the second interpolator"); mc::Same(A->interp(pts[i].begin()), got[i], "repeated value"); }
  // batches: the whole list, the reversed list, prefixes
  auto batch = [&](const std::vector<std::array<T, D>> &q) {
    std::vector<Vt<T>> c(D);
    for (auto &p : q) for (size_t d = 0; d < D; ++d) c[d].push_back(p[d]);
    std::array<const T *, D> it;
    for (size_t d = 0; d < D; ++d) it[d] = c[d].data();
    Vt<T> r(q.size() + 1, (T) 77);
    A->interp_vec((int) q.size(), it.begin(), it.end(), r.begin());
    mc::Same(r.back(), (T) 77, "element behind a batch of %zu", q.size());
    r.pop_back();
    return r;
  };
  mc::SameV(batch(pts), got, "batch of %zu points", pts.size());
  std::vector<std::array<T, D>> rev(pts.rbegin(), pts.rend());
  mc::SameV(batch(rev), Vt<T>(got.rbegin(), got.rend()), "reversed batch of %zu points", pts.size());
  for (size_t n = 0; n < 10 && n <= pts.size(); ++n) mc::SameV(batch(std::vector<std::array<T, D>>(pts.begin(), pts.begin() + n)), Vt<T>(got.begin(), got.begin() + n), "batch of %zu points", n);
  // every batch of three of seven points spread over the list
  if (pts.size() >= 7 && pts.size() <= 2000) for (mc::Odo o(mc::rep(7, 3)); o; ++o) {
    std::vector<std::array<T, D>> q; Vt<T> w;
    for (int i = 0; i < 3; ++i) { size_t k = o[i] * (pts.size() - 1) / 6; q.push_back(pts[k]); w.push_back(got[k]); }
    mc::SameV(batch(q), w, "batch of three points %s", mc::vstr(o.v).c_str());
  }
  if (!copies) {          // a referenced array is read at evaluation time
    for (auto &x : *f) x = -2 * x;
    Vt<T> d2 = *f;
    for (size_t i = 0; i < pts.size(); i += 3) value(pts[i], d2, *A, "value after the referenced array has changed");
    mc::Outcome("reference followed");
  }
  // the same object with new values, with new axes, with another shape, and moved elsewhere
  {
    Vt<T> d3(data.size());
    for (size_t i = 0; i < d3.size(); ++i) d3[i] = (T) (0.25 * ((i * 5) % 9) - 1);
    A->set_f_array(d3.data(), d3.data() + d3.size(), copies);
    for (size_t i = 0; i < pts.size(); i += 7) value(pts[i], d3, *A, "value after new values were handed over");
    std::vector<Vt<T>> H = G; std::vector<std::array<T, D>> hp;
    for (auto &g : H) for (auto &x : g) x = 2 * x;
    for (size_t i = 0; i < pts.size(); i += 7) { auto p = pts[i]; for (auto &x : p) x = 2 * x; hp.push_back(p); }
    std::vector<typename Vt<T>::const_iterator> hb; for (auto &h : H) hb.push_back(h.begin());
    Vt<T> d4 = other;
    A->init(hb.begin(), len, d4.data(), d4.data() + d4.size());
    auto again = [&](const std::vector<Vt<T>> &K, const Vt<T> &d, I &X, const char *what) {
      for (auto &p : hp) { LD sc, w = model<D, T>(K, d, p, simplex, cont, sc); mc::Visit("again", style, simplex, copies, cont, p, d); mc::Near(X.interp(p.begin()), w, sc, rel, "%s at %s", what, mc::vstr(Vt<T>(p.begin(), p.end())).c_str()); }
    };
    again(H, d4, *A, "value after the axes were replaced");
    std::vector<Vt<T>> K = H; std::array<int, D> kl; size_t kn = 1;
    for (size_t d = 0; d < D; ++d) { if (d == 0 || K[d].size() > 3) K[d].push_back(K[d].back() + 3); else if (K[d].size() > 2) K[d].pop_back(); kl[d] = (int) K[d].size(); kn *= K[d].size() * (cont ? 1 : 2); }
    Vt<T> d5(kn); for (size_t i = 0; i < kn; ++i) d5[i] = (T) (0.5 * ((i * 7) % 11) - 2);
    std::vector<typename Vt<T>::const_iterator> kb; for (auto &k : K) kb.push_back(k.begin());
    A->init(kb.begin(), kl, d5.data(), d5.data() + d5.size());
    again(K, d5, *A, "value after initialisation with another shape");
    auto M = std::make_unique<I>(std::move(*A));
    A.reset();
    again(K, d5, *M, "value of a moved interpolator");
    *M = std::move(*make2(hb, len, d4));
    again(H, d4, *M, "value of an interpolator that was assigned another one");
  }
  for (size_t i = 0; i < pts.size(); i += 11) value(pts[i], other, *B, "value of the second interpolator after the first is gone");
}
template<size_t D, class T> std::vector<std::array<T, D>> queries(const std::vector<Vt<T>> &G, bool full, bool close) {
  std::vector<Vt<T>> Q(D);
  const T inf = std::numeric_limits<T>::infinity();
  for (size_t d = 0; d < D; ++d) {
    const Vt<T> &g = G[d];
    Vt<T> &q = Q[d];
    T w = g.size() > 1 ? g[1] - g[0] : (T) 1;
    q.push_back(g.front() - w);
    if (full) q.push_back(std::nextafter(g.front(), -inf));
    for (size_t i = 0; i < g.size(); ++i) {
      if (full || i == 0 || i + 1 == g.size()) q.push_back(g[i]);
      if (i + 1 < g.size()) {
        T h = g[i + 1] - g[i];
        q.push_back(g[i] + (T) 0.25 * h);
        q.push_back(g[i] + (T) (i % 2 ? 0.5 : 0.75) * h);
        if (full) { q.push_back(std::nextafter(g[i], inf)); q.push_back(std::nextafter(g[i + 1], -inf)); q.push_back(g[i] + (T) 0.3 * h); }
      }
    }
    if (full) q.push_back(std::nextafter(g.back(), inf));
    q.push_back(g.back() + 3 * w);
    if (close) for (double x : mc::CloseTo(V(g.begin(), g.end()))) q.push_back((T) x);
  }
  std::vector<std::array<T, D>> r;
  auto prod = [&](const std::vector<Vt<T>> &P) {
    std::vector<int> n;
    for (auto &q : P) n.push_back((int) q.size());
    for (mc::Odo o(n); o; ++o) { std::array<T, D> p; for (size_t d = 0; d < D; ++d) p[d] = P[d][o[d]]; r.push_back(p); }
  };
  if (close && D > 1) for (size_t a = 0; a < D; ++a) {
    std::vector<Vt<T>> P(D);
    for (size_t d = 0; d < D; ++d) { const Vt<T> &g = G[d]; P[d] = d == a ? Q[d] : Vt<T>{g.front(), g.front() + (T) 0.375 * (g.back() - g.front()), g.back()}; }
    prod(P);
  } else prod(Q);
  return r;
}
template<size_t D, class T> void grid(const std::vector<Vt<T>> &G, const Vt<T> &data, int style, bool full, bool close = false, bool cont = true) {
  auto name = [&](const char *m) { return [&, m] { std::string s = mc::str("%s, dim=%zu%s", m, D, cont ? "" : ", two-sided"); for (auto &g : G) s += " axis=" + mc::vstr(g); return s + " data=" + mc::vstr(data); }; };
  if (cont) {
    if (mc::Case(name("simplicial, copying"))) engine<InterpSimplex<D, T, true>, D, T>(G, data, queries<D, T>(G, full, close), true, true, true, style);
    if (mc::Case(name("simplicial, referencing"))) engine<InterpSimplex<D, T, false>, D, T>(G, data, queries<D, T>(G, full, close), true, false, true, style);
    if (mc::Case(name("multilinear, copying"))) engine<InterpMultilinear<D, T, true>, D, T>(G, data, queries<D, T>(G, full, close), false, true, true, style);
    if (mc::Case(name("multilinear, referencing"))) engine<InterpMultilinear<D, T, false>, D, T>(G, data, queries<D, T>(G, full, close), false, false, true, style);
  } else {
    if (mc::Case(name("simplicial, copying"))) engine<InterpSimplex<D, T, true, false>, D, T>(G, data, queries<D, T>(G, full, close), true, true, false, style);
    if (mc::Case(name("multilinear, copying"))) engine<InterpMultilinear<D, T, true, false>, D, T>(G, data, queries<D, T>(G, full, close), false, true, false, style);
    if (mc::Case(name("multilinear, referencing"))) engine<InterpMultilinear<D, T, false, false>, D, T>(G, data, queries<D, T>(G, full, close), false, false, false, style);
  }
}
static V axis(int n, int pat, double o) {
  V g;
  for (int i = 0; i < n; ++i) g.push_back(i ? g.back() + (pat == 0 ? 1. : pat == 1 ? (i % 2 ? 1. / 32 : 5.) : 0.5 + i * i) : o);
  return g;
}
static V vals(size_t n, int pat) { V d; for (size_t i = 0; i < n; ++i) d.push_back(pat == 0 ? mc::gen((int) i) : (i * 37 % 11 == 3 ? 1e4 : -0.5 * (i % 5))); return d; }
template<size_t D> size_t product(const std::vector<V> &G) { size_t n = 1; for (auto &g : G) n *= g.size(); return n; }
template<size_t D> V affine(const std::vector<V> &G) {
  V r;
  std::vector<int> n;
  for (auto &g : G) n.push_back((int) g.size());
  for (mc::Odo o(n); o; ++o) { double v = 0.75; for (size_t d = 0; d < D; ++d) v += (d + 1.5) * (d % 2 ? -1 : 1) * G[d][o[d]]; r.push_back(v); }
  return r;
}
// affine data is reproduced by both methods inside the grid, independently of the model above
template<size_t D> void affinecase(const std::vector<V> &G) {
  if (!mc::Case([&] { std::string s = mc::str("affine data, dim=%zu", D); for (auto &g : G) s += " axis=" + mc::vstr(g); return s; })) return;
  V f = affine<D>(G);
  std::vector<V::const_iterator> b;
  std::array<int, D> len;
  for (size_t d = 0; d < D; ++d) { b.push_back(G[d].begin()); len[d] = (int) G[d].size(); }
  InterpSimplex<D, double> S(b.begin(), len, f.data(), f.data() + f.size());
  InterpMultilinear<D, double> M(b.begin(), len, f.data(), f.data() + f.size());
  for (auto p : queries<D, double>(G, D < 3, false)) {
    LD w = 0.75L, sc = 1;
    for (size_t d = 0; d < D; ++d) { double x = std::min(std::max(p[d], G[d].front()), G[d].back()); LD t = (d + 1.5L) * (d % 2 ? -1 : 1) * x; w += t; sc += 2 * fabsl(t) + 2 * fabsl(G[d].front()) + 2 * fabsl(G[d].back()); }
    mc::Visit("affine", p, len);
    mc::Near(S.interp(p.begin()), w, sc, 1e-12L, "simplicial value of affine data at %s", mc::vstr(V(p.begin(), p.end())).c_str());
    mc::Near(M.interp(p.begin()), w, sc, 1e-12L, "multilinear value of affine data at %s", mc::vstr(V(p.begin(), p.end())).c_str());
  }
}
template<size_t D> void shapes(int lo, int hi, bool full, int pats) {
  for (mc::Odo o(mc::rep(hi - lo + 1, D)); o; ++o)
    for (int pat = 0; pat < pats; ++pat) {
      std::vector<V> G;
      for (size_t d = 0; d < D; ++d) G.push_back(axis(o[d] + lo, (pat + (int) d) % 3, d % 2 ? -7.5 : 3. * d));
      grid<D, double>(G, vals(product<D>(G), pat % 2), pat, full);
      affinecase<D>(G);
    }
}
template<size_t D> void twosided(int lo, int hi, bool full) {
  for (mc::Odo o(mc::rep(hi - lo + 1, D)); o; ++o) {
    std::vector<V> G;
    for (size_t d = 0; d < D; ++d) G.push_back(axis(o[d] + lo, (o[d] + (int) d) % 3, d % 2 ? -7.5 : 3. * d));
    grid<D, double>(G, vals(product<D>(G) << D, 0), 40, full, false, false);
  }
}
template<size_t D> void one(std::vector<int> sz) {
  std::vector<V> G;
  for (size_t d = 0; d < D; ++d) G.push_back(axis(sz[d], (int) (d + 1) % 2, -2. + d));
  grid<D, double>(G, vals(product<D>(G), 0), 9, false);
}
template<size_t D> void floats(int hi) {
  for (mc::Odo o(mc::rep(hi, D)); o; ++o) {
    std::vector<std::vector<float>> G;
    size_t n = 1;
    for (size_t d = 0; d < D; ++d) { V a = axis(o[d] + 1, (o[d] + (int) d) % 3, d % 2 ? -7.5 : 3. * d); G.emplace_back(a.begin(), a.end()); n *= a.size(); }
    V v = vals(n, 0);
    grid<D, float>(G, std::vector<float>(v.begin(), v.end()), 30, true);
  }
}
template<size_t D> void words(std::vector<int> sz) {
  int n = 1;
  std::vector<V> G;
  for (size_t d = 0; d < D; ++d) { G.push_back(axis(sz[d], 2, -1. * d)); n *= sz[d]; }
  for (int k = 0; k < (n > 6 ? 2 : 1); ++k) for (mc::Odo o(mc::rep(n > 6 ? 2 : 3, n)); o; ++o) {      // zeros, flat cells
    V d;
    for (int b : o.v) d.push_back(b == 0 ? (k ? -1. : 0.) : b == 1 ? 2.5 : -1.);
    grid<D, double>(G, d, 10, false);
  }
}
static void nearlyuniform(int n) {
  int k = 0;
  for (auto &g : mc::NearlyUniform(n)) {
    ++k;
    V o = axis(3, k % 3, -1);
    grid<1, double>({g}, vals(n, 0), 20, true, true);
    if (k % 3 && !mc::Thorough()) continue;
    grid<2, double>({g, o}, vals(3 * n, 0), 21, false, true);
    grid<2, double>({o, g}, vals(3 * n, 0), 22, false, true);
  }
}
// geometric, clustered and one-gap axes, tiny and huge ones; and nearly equal values
static void uneven(int n) {
  int k = 0;
  for (auto &g : mc::Uneven(n, 1e-301, 1e299)) {
    ++k;
    V o = axis(3, k % 3, -1);
    grid<1, double>({g}, vals(n, 0), 23, n < 12);
    if (n < 12) { grid<2, double>({g, o}, vals(3 * n, 0), 24, false); grid<2, double>({o, g}, vals(3 * n, 0), 25, false); grid<3, double>({{0, 1}, g, {-1, 3}}, vals(4 * n, 1), 26, false); }
  }
  for (double e : {1e-12, 1e-9, 1e-6, 1e-3}) for (int base = 0; base < 2; ++base) for (int at = 0; at < n && at < 5; ++at) {
    V d((size_t) n, base ? 1000. : 1.), d2((size_t) 2 * n, base ? -1000. : 1.);
    d[at] += e * d[0]; d2[2 * at] -= e * d2[0];
    grid<1, double>({axis(n, at % 3, 0)}, d, 27, true);
    grid<2, double>({axis(n, at % 3, 0), axis(2, 0, 1)}, d2, 28, false);
  }
}
// positions along an axis: the ends, a stride, and the indices where a narrow counter would wrap
static std::vector<int> pick(int n, int most) { std::vector<int> k; for (int i = 0; i + 1 < n; ++i) { bool b = i < 2 || i + 3 > n || i % std::max(1, n / most) == 0; for (int c : {126, 127, 255, 256, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1; if (b) k.push_back(i); } return k; }
template<class I, size_t D> void large(std::vector<int> sz, bool simplex, const char *what) {
  if (!mc::Case([&] { return mc::str("large grid, %s, dim=%zu ", what, D) + mc::vstr(sz); })) return;
  std::vector<V> G; V data;
  size_t n = 1;
  for (size_t d = 0; d < D; ++d) { V g; for (int i = 0; i < sz[d]; ++i) g.push_back(i ? g.back() + 0.25 + 0.5 * ((i * 5 + d) % 3) : -2. + d); G.push_back(g); n *= sz[d]; }
  for (size_t i = 0; i < n; ++i) data.push_back(mc::gen((int) (i % 4001)) + 1e-3 * i);
  std::vector<V::const_iterator> b;
  std::array<int, D> len;
  for (size_t d = 0; d < D; ++d) { b.push_back(G[d].begin()); len[d] = sz[d]; }
  I X(b.begin(), len, data.data(), data.data() + data.size());
  std::vector<std::vector<int>> P; std::vector<int> pn;
  for (size_t d = 0; d < D; ++d) { P.push_back(pick(sz[d], D == 1 ? 500 : D == 2 ? 25 : 5)); pn.push_back((int) P[d].size()); }
  V got; std::vector<V> c(D);
  for (mc::Odo o(pn); o; ++o) for (int f = 0; f < 2; ++f) {
    std::array<double, D> p;
    std::vector<V> C; V cd;
    for (size_t d = 0; d < D; ++d) { int i = P[d][o[d]]; C.push_back({G[d][i], G[d][i + 1]}); p[d] = f ? G[d][i] : (0.375 + 0.125 * d) * G[d][i] + (0.625 - 0.125 * d) * G[d][i + 1]; c[d].push_back(p[d]); }
    for (size_t v = 0; v < (1u << D); ++v) { size_t l = 0; for (size_t d = 0; d < D; ++d) l = l * sz[d] + P[d][o[d]] + ((v >> (D - 1 - d)) & 1); cd.push_back(data[l]); }
    LD sc, w = model<D, double>(C, cd, p, simplex, true, sc);
    mc::Visit("large", what, sz, p);
    got.push_back(X.interp(p.begin()));
    mc::Near(got.back(), w, sc, 1e-11L, "%s value of a large grid at %s", what, mc::vstr(V(p.begin(), p.end())).c_str());
  }
  std::array<const double *, D> it;
  for (size_t d = 0; d < D; ++d) it[d] = c[d].data();
  V r(got.size() + 1, 77.);
  X.interp_vec((int) got.size(), it.begin(), it.end(), r.begin());
  mc::Same(r.back(), 77., "element behind a batch");
  r.pop_back();
  mc::SameV(r, got, "batch in a large grid");
  mc::Outcome("large grid");
}
template<size_t D> void larges(std::vector<int> sz) { large<InterpSimplex<D, double>, D>(sz, true, "simplicial"); large<InterpMultilinear<D, double>, D>(sz, false, "multilinear"); }
template<class I, size_t D> void wrongsize(const std::vector<V> &G, size_t right, const char *what) {
  for (size_t n = 0; n <= 2 * right; ++n) {
    if (!mc::Case([&] { return mc::str("%s, dim=%zu: %zu values where %zu are needed", what, D, n, right); })) continue;
    mc::Visit(what, D, n, right);
    std::vector<V::const_iterator> b;
    std::array<int, D> len;
    for (size_t d = 0; d < D; ++d) { b.push_back(G[d].begin()); len[d] = (int) G[d].size(); }
    V f = vals(n + 1, 0);
    bool threw = mc::Throws([&] { I X(b.begin(), len, f.data(), f.data() + n); });
    MC_CHECK(threw == (n != right), "%zu values for %zu nodes %s", n, right, threw ? "refused" : "accepted");
    mc::Outcome(threw ? "size refused" : "size accepted");
  }
}
static void wrongsizes() {
  std::vector<V> G1 = {axis(3, 1, 0)}, G2 = {axis(2, 0, 0), axis(3, 1, 1)}, G3 = {axis(2, 0, 0), axis(2, 1, 1), axis(1, 0, 0)};
  wrongsize<InterpSimplex<1, double>, 1>(G1, 3, "simplicial");
  wrongsize<InterpSimplex<2, double>, 2>(G2, 6, "simplicial");
  wrongsize<InterpMultilinear<2, double>, 2>(G2, 6, "multilinear");
  wrongsize<InterpMultilinear<3, double>, 3>(G3, 4, "multilinear");
  wrongsize<InterpSimplex<3, double>, 3>(G3, 4, "simplicial");
  wrongsize<InterpMultilinear<1, double>, 1>(G1, 3, "multilinear");
  wrongsize<InterpSimplex<1, double, false>, 1>(G1, 3, "referencing simplicial");
  wrongsize<InterpSimplex<2, double, false>, 2>(G2, 6, "referencing simplicial");
  wrongsize<InterpSimplex<3, double, false>, 3>(G3, 4, "referencing simplicial");
  wrongsize<InterpMultilinear<1, double, false>, 1>(G1, 3, "referencing multilinear");
  wrongsize<InterpMultilinear<2, double, false>, 2>(G2, 6, "referencing multilinear");
  wrongsize<InterpMultilinear<3, double, false>, 3>(G3, 4, "referencing multilinear");
  wrongsize<InterpMultilinear<2, double, false, false>, 2>(G2, 24, "referencing two-sided multilinear");
  wrongsize<InterpMultilinear<1, double, true, false>, 1>(G1, 6, "two-sided multilinear");
  wrongsize<InterpSimplex<2, double, true, false>, 2>(G2, 24, "two-sided simplicial");
  wrongsize<InterpMultilinear<3, double, true, false>, 3>(G3, 32, "two-sided multilinear");
}
template<size_t D, class F> void cinterface(F fn, int hi) {
  for (mc::Odo o(mc::rep(hi, D)); o; ++o) {
    if (!mc::Case([&] { return mc::str("C interface, dim=%zu, sizes ", D) + mc::vstr(o.v); })) continue;
    std::vector<V> G;
    for (size_t d = 0; d < D; ++d) G.push_back(axis(o[d] + 1, (o[d] + (int) d) % 3, d % 2 ? -7.5 : 3. * d));
    V f = vals(product<D>(G), 0);
    auto pts = queries<D, double>(G, D < 3, false);
    std::vector<V> c(D);
    for (auto &p : pts) for (size_t d = 0; d < D; ++d) c[d].push_back(p[d]);
    std::array<double *, D> g, x;
    std::array<int, D> len;
    for (size_t d = 0; d < D; ++d) { g[d] = G[d].data(); x[d] = c[d].data(); len[d] = (int) G[d].size(); }
    V r(pts.size() + 1, 77.);
    auto G0 = G; auto f0 = f; auto c0 = c;
    fn(g.data(), len.data(), f.data(), (int) pts.size(), x.data(), r.data());
    MC_CHECK(G == G0 && f == f0 && c == c0, "the C interface modified its input");
    mc::Same(r.back(), 77., "element behind the results");
    for (size_t i = 0; i < pts.size(); ++i) {
      LD sc, w = model<D, double>(G, f, pts[i], true, true, sc);
      mc::Visit("c", pts[i], f);
      mc::Near(r[i], w, sc, 1e-12L, "C interface at %s", mc::vstr(V(pts[i].begin(), pts[i].end())).c_str());
    }
  }
}
static void explore() {
  int th = mc::Thorough();
  shapes<1>(1, th ? 12 : 8, true, 3);
  shapes<2>(1, th ? 6 : 4, true, 3);
  shapes<3>(1, th ? 4 : 3, false, th ? 3 : 2);
  shapes<4>(th ? 1 : 2, 3, false, 1);
  shapes<5>(2, 2, false, th ? 2 : 1);
  one<5>({2, 3, 2, 2, 2}); if (th) one<6>({2, 2, 2, 2, 2, 2});
  one<1>({33}); one<1>({257}); one<2>({17, 5}); one<2>({5, 17}); one<2>({2, 64}); one<3>({5, 3, 8}); one<3>({9, 2, 4});
  words<2>({2, 2}); words<2>({3, 2}); words<3>({2, 2, 2}); words<1>({4});
  if (th) { words<2>({3, 3}); words<2>({2, 4}); }
  floats<1>(6); floats<2>(3);
  twosided<1>(1, 6, true); twosided<2>(1, 3, true); twosided<3>(1, 2, false);
  for (int n : {2, 3, 4, 6}) nearlyuniform(n);
  if (th) for (int n : {5, 9, 16}) nearlyuniform(n);
  for (int n : {2, 3, 6, 12, 40}) uneven(n);
  wrongsizes();
  larges<1>({33000}); larges<1>({66000}); larges<2>({300, 300}); larges<2>({33000, 3}); larges<2>({3, 33000}); larges<3>({41, 42, 43});
  cinterface<1>(linterp_simplex_1, 6); cinterface<2>(linterp_simplex_2, 4); cinterface<3>(linterp_simplex_3, 3);
}
MC_MAIN(explore)
