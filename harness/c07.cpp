// C07 - regular-grid multilinear interpolation.
//@bounds quick: dimensions 1..6, all axis sizes 1..4 (1D,2D), 1..3 (3D), 2..3 (4D), 1..2 (5D), 2 (6D) and larger 1D/2D/3D shapes, 3 gap patterns per axis, 2 data patterns; all data words over {0,2.5,-1} on 2x2, 3x2, two 2-valued sets of them on 2x2x2; queries: the full product over axes of {nodes, next floats, fractions, outside by next float / 1 / 1e6 on both sides}; nearly equal values; strongly uneven axes of up to 40 nodes; nearly uniform, tiny, huge and far-away axes of 2..6 nodes in each position of 1D-3D grids with queries at 13 distances around every node and both ends (1e-15 to 1e300) and data scaled by 1e-12 to 1e9; grids of up to 99000 nodes (33000, 66000, 300x300, 33000x3, 3x33000, 66000x2, 41x42x43, 3x260x90, 9x20x20x20) on a stride and around the wrap-around indices of narrow counters; bound checking on and off; ascending and descending orders; invalid axes; variables given as column-major and as re-indexed arrays; single precision in 1..3 dimensions
//@bounds thorough: axis sizes 1..6 (2D), 1..4 (3D), 1..3 (4D), 5 dimensions with 2..3 nodes, more patterns, nearly uniform axes of up to 16 nodes
//@model clamp each coordinate, then multilinear interpolation over the 2^d corners in long double, cell by linear scan
#include "mc.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;

template<size_t D> LD model(const std::vector<V> &G, const V &data, const std::array<double, D> &p, LD &scale) {
  std::array<size_t, D> c;
  std::array<LD, D> t;
  for (size_t d = 0; d < D; ++d) {
    const V &g = G[d];
    if (g.size() == 1 || p[d] <= g[0]) { c[d] = 0; t[d] = 0; }
    else if (p[d] >= g.back()) { c[d] = g.size() - 2; t[d] = 1; }
    else { size_t k = 0; while (p[d] > g[k + 1]) ++k; c[d] = k; t[d] = ((LD) p[d] - g[k]) / ((LD) g[k + 1] - g[k]); }
  }
  LD r = 0;
  scale = 0;
  for (unsigned v = 0; v < (1u << D); ++v) {
    LD w = 1;
    size_t idx = 0;
    for (size_t d = 0; d < D; ++d) {
      bool b = (v >> d) & 1;
      size_t i = c[d] + (b && G[d].size() > 1 ? 1 : 0);
      w *= b ? t[d] : 1 - t[d];
      idx = idx * G[d].size() + i;
    }
    r += w * data[idx];
    scale += fabsl(data[idx]);
  }
  return r;
}
template<size_t D> void grid(const std::vector<V> &G, const V &data, int style, bool full, bool close = false) {
  if (!mc::Case([&] { std::string s = mc::str("dim=%zu", D); for (auto &g : G) s += " axis=" + mc::vstr(g); return s + " data=" + mc::vstr(data); })) return;
  RegularGridInterpolator<double, D> R;
  MC_CHECK(!R.IsValid(), "valid before being populated");
  std::array<size_t, D> sh;
  for (size_t d = 0; d < D; ++d) { V axis = G[d]; R.AddCoord(axis); for (auto &a : axis) a = 1e9; sh[d] = G[d].size(); }
  {
    boost::multi_array<double, D> A(sh);
    std::copy(data.begin(), data.end(), A.data());
    R.AddVar(A);
    std::fill(A.data(), A.data() + A.num_elements(), 1e33);
  }
  MC_CHECK(R.IsValid(), "not valid after being populated");
  // the same values held in arrays of another layout: column-major, indices from elsewhere than 0
  RegularGridInterpolator<double, D> RF, RB;
  for (size_t d = 0; d < D; ++d) { RF.AddCoord(G[d]); RB.AddCoord(G[d]); }
  {
    boost::multi_array<double, D> A(sh), F(sh, boost::fortran_storage_order());
    std::copy(data.begin(), data.end(), A.data());
    F = A;
    RF.AddVar(F);
    A.reindex(3);
    RB.AddVar(A);
  }
  mc::Same(R.GetDimension(), D, "dimension");
  for (size_t d = 0; d < D; ++d) {
    mc::SameV(R.GetCoord(d), G[d], "axis %zu", d);
    mc::Same(R.GetCoordMinVal(d), G[d].front(), "lower bound of axis %zu", d);
    mc::Same(R.GetCoordMaxVal(d), G[d].back(), "upper bound of axis %zu", d);
  }
  // stored values and values at nodes
  std::vector<int> n;
  for (auto &g : G) n.push_back((int) g.size());
  size_t k = 0;
  for (mc::Odo o(n); o; ++o, ++k) {
    std::array<size_t, D> ix;
    std::array<double, D> p;
    for (size_t d = 0; d < D; ++d) { ix[d] = o[d]; p[d] = G[d][o[d]]; }
    mc::Same(R.EvalAtIndice(ix), data[k], "stored value number %zu", k);
    mc::Same(RF.EvalAtIndice(ix), data[k], "stored value number %zu of a column-major variable", k);
    mc::Same(RB.EvalAtIndice(ix), data[k], "stored value number %zu of a re-indexed variable", k);
    mc::Visit("node", G.size(), n, style, p, data[k]);
    mc::Near(R.Interp(p), data[k], fabs(data[k]), 1e-14L, "value at node number %zu", k);
    mc::Near(R.Interp(p, true), data[k], fabs(data[k]), 1e-14L, "bound-checked value at node number %zu", k);
  }
  // query lists per axis
  std::vector<V> Q(D);
  for (size_t d = 0; d < D; ++d) {
    const V &g = G[d];
    V &q = Q[d];
    q.push_back(g.front() - 1);
    if (close) { for (double x : mc::CloseTo(g)) q.push_back(x); for (double e : {1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e15, 1e300}) { q.push_back(g.front() - e); q.push_back(g.back() + e); } }
    if (full) { q.push_back(g.front() - 1e6); q.push_back(std::nextafter(g.front(), -1e300)); }
    for (size_t i = 0; i < g.size(); ++i) {
      if (full || i == 0 || i + 1 == g.size()) q.push_back(g[i]);
      if (i + 1 < g.size()) {
        q.push_back(g[i] + (i % 2 ? 0.75 : 0.25) * (g[i + 1] - g[i]));
        if (full) { q.push_back(0.5 * (g[i] + g[i + 1])); q.push_back(std::nextafter(g[i], 1e300)); q.push_back(std::nextafter(g[i + 1], -1e300)); }
      }
    }
    if (full) { q.push_back(std::nextafter(g.back(), 1e300)); q.push_back(g.back() + 1e6); }
    q.push_back(g.back() + 1);
  }
  std::vector<int> qn;
  for (auto &q : Q) qn.push_back((int) q.size());
  std::vector<std::array<double, D>> pts;
  if (close && D > 1) {     // each axis in turn runs through its own list, the others through four positions
    for (size_t a = 0; a < D; ++a) {
      std::vector<V> P(D);
      std::vector<int> pn;
      for (size_t d = 0; d < D; ++d) { P[d] = d == a ? Q[d] : V{G[d].front() - 0.5, G[d].front(), 0.375 * G[d].front() + 0.625 * G[d].back(), G[d].back()}; pn.push_back((int) P[d].size()); }
      for (mc::Odo o(pn); o; ++o) { std::array<double, D> p; for (size_t d = 0; d < D; ++d) p[d] = P[d][o[d]]; pts.push_back(p); }
    }
  } else
  for (mc::Odo o(qn); o; ++o) { std::array<double, D> p; for (size_t d = 0; d < D; ++d) p[d] = Q[d][o[d]]; pts.push_back(p); }
  for (int dir = 0; dir < 2; ++dir) for (size_t i0 = 0; i0 < pts.size(); ++i0) {
    auto &p = pts[dir ? pts.size() - 1 - i0 : i0];
    if (dir && (i0 % 3)) continue;
    bool out = false;
    for (size_t d = 0; d < D; ++d) out = out || p[d] < G[d].front() || p[d] > G[d].back();
    LD sc, w = model<D>(G, data, p, sc);
    mc::Visit(G.size(), n, style, p, data);
    mc::Near(R.Interp(p), w, sc, 1e-12L, "value at %s (%s)", mc::vstr(V(p.begin(), p.end())).c_str(), out ? "outside" : "inside");
    if (i0 % 4 == 0) { mc::Near(RF.Interp(p), w, sc, 1e-12L, "value of a column-major variable at %s", mc::vstr(V(p.begin(), p.end())).c_str()); mc::Near(RB.Interp(p), w, sc, 1e-12L, "value of a re-indexed variable at %s", mc::vstr(V(p.begin(), p.end())).c_str()); }
    if (out && !close && (i0 % 16 && pts.size() > 400)) continue;    // exceptions are slow
    bool threw = false;
    double r = 0;
    try { r = R.Interp(p, true); } catch (const std::exception &) { threw = true; }
    MC_CHECK(threw == out, "bound-checked query %s: %s", mc::vstr(V(p.begin(), p.end())).c_str(), threw ? "threw although inside" : "did not throw although outside");
    if (!threw) mc::Near(r, w, sc, 1e-12L, "bound-checked value at %s", mc::vstr(V(p.begin(), p.end())).c_str());
    mc::Outcome(out ? "bound check threw" : "inside");
  }
}
static V axis(int n, int pat, double o) {
  V g;
  for (int i = 0; i < n; ++i) g.push_back(i ? g.back() + (pat == 0 ? 1. : pat == 1 ? (i % 2 ? 1. / 32 : 5.) : 0.5 + i * i) : o);
  return g;
}
static V vals(size_t n, int pat) { V d; for (size_t i = 0; i < n; ++i) d.push_back(pat == 0 ? mc::gen((int) i) : (i * 37 % 11 == 3 ? 1e4 : -0.5 * (i % 5))); return d; }
template<size_t D> void shapes(int lo, int hi, bool full, int pats) {
  for (mc::Odo o(mc::rep(hi - lo + 1, D)); o; ++o)
    for (int pat = 0; pat < pats; ++pat) {
      std::vector<V> G;
      size_t n = 1;
      for (size_t d = 0; d < D; ++d) { G.push_back(axis(o[d] + lo, (pat + (int) d) % 3, d % 2 ? -7.5 : 3. * d)); n *= G.back().size(); }
      grid<D>(G, vals(n, pat % 2), pat, full);
    }
}
template<size_t D> void one(std::vector<int> sz) {
  std::vector<V> G;
  size_t n = 1;
  for (size_t d = 0; d < D; ++d) { G.push_back(axis(sz[d], (int) (d + 1) % 2, -2. + d)); n *= sz[d]; }
  grid<D>(G, vals(n, 0), 9, false);
}
// positions along an axis: the ends, a stride, and the indices where a narrow counter would wrap
static std::vector<int> pick(int n, int most) { std::vector<int> k; for (int i = 0; i + 1 < n; ++i) { bool b = i < 2 || i + 3 > n || i % std::max(1, n / most) == 0; for (int c : {126, 127, 255, 256, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1; if (b) k.push_back(i); } return k; }
template<size_t D> void large(std::vector<int> sz) {
  if (!mc::Case([&] { return mc::str("large grid dim=%zu ", D) + mc::vstr(sz); })) return;
  std::vector<V> G; V data;
  std::array<size_t, D> sh;
  size_t n = 1;
  for (size_t d = 0; d < D; ++d) { V g; for (int i = 0; i < sz[d]; ++i) g.push_back(i ? g.back() + 0.25 + 0.5 * ((i * 5 + d) % 3) : -2. + d); G.push_back(g); sh[d] = g.size(); n *= sz[d]; }
  for (size_t i = 0; i < n; ++i) data.push_back(mc::gen((int) (i % 4001)) + 1e-3 * i);
  RegularGridInterpolator<double, D> R;
  for (auto &g : G) R.AddCoord(g);
  { boost::multi_array<double, D> A(sh); std::copy(data.begin(), data.end(), A.data()); R.AddVar(A); }
  std::vector<std::vector<int>> P; std::vector<int> pn;
  for (size_t d = 0; d < D; ++d) { P.push_back(pick(sz[d], D == 1 ? 500 : D == 2 ? 25 : 5)); pn.push_back((int) P[d].size()); }
  for (mc::Odo o(pn); o; ++o) for (int f = 0; f < 4; ++f) {
    std::array<double, D> p; std::array<size_t, D> ix; size_t lin = 0; bool out = false;
    for (size_t d = 0; d < D; ++d) {
      int i = P[d][o[d]]; ix[d] = i + (f == 1); lin = lin * sz[d] + ix[d];
      p[d] = f < 2 ? G[d][ix[d]] : f == 2 ? 0.375 * G[d][i] + 0.625 * G[d][i + 1] : d == (size_t) (i % D) ? G[d].back() + 1 : 0.75 * G[d][i] + 0.25 * G[d][i + 1];
      out = out || p[d] > G[d].back();
    }
    LD sc, w;
    mc::Visit("large", sz, p);
    if (f < 2) { mc::Same(R.EvalAtIndice(ix), data[lin], "stored value of a large grid"); w = data[lin]; sc = fabsl(w); }
    else {
      // the model on the cell alone
      std::vector<V> C; V cd; std::vector<size_t> c0;
      for (size_t d = 0; d < D; ++d) { size_t k = p[d] > G[d].back() ? sz[d] - 2 : P[d][o[d]]; c0.push_back(k); C.push_back({G[d][k], G[d][k + 1]}); }
      for (size_t v = 0; v < (1u << D); ++v) { size_t l = 0; for (size_t d = 0; d < D; ++d) l = l * sz[d] + c0[d] + ((v >> (D - 1 - d)) & 1); cd.push_back(data[l]); }
      w = model<D>(C, cd, p, sc);
    }
    mc::Near(R.Interp(p), w, sc, 1e-11L, "value of a large grid at %s", mc::vstr(V(p.begin(), p.end())).c_str());
    if (!out) mc::Near(R.Interp(p, true), w, sc, 1e-11L, "bound-checked value of a large grid at %s", mc::vstr(V(p.begin(), p.end())).c_str());
  }
  mc::Outcome("large grid");
}
static void nearlyuniform(int n) {
  double sc[] = {1, 1e-12, 1e9};
  int k = 0;
  for (auto &g : mc::NearlyUniform(n)) {
    ++k;
    V o = axis(3, k % 3, -1), d1 = vals(n, 0), d2 = vals(3 * n, 0), d3 = vals(6 * n, 0);
    for (auto &x : d1) x *= sc[k % 3];
    for (auto &x : d2) x *= sc[(k + 1) % 3];
    grid<1>({g}, d1, 20, true, true);
    grid<2>({g, o}, d2, 21, false, true);
    grid<2>({o, g}, d2, 22, false, true);
    if (k % 4 == 0 || mc::Thorough()) { grid<3>({o, g, {0, 0.5}}, d3, 23, false, true); grid<3>({{0, 0.5}, o, g}, d3, 24, false, true); grid<3>({g, {0, 0.5}, o}, d3, 25, false, true); }
  }
}
template<size_t D> void words(std::vector<int> sz) {
  int n = 1;
  std::vector<V> G;
  for (size_t d = 0; d < D; ++d) { G.push_back(axis(sz[d], 2, -1. * d)); n *= sz[d]; }
  for (int k = 0; k < (n > 6 ? 2 : 1); ++k) for (mc::Odo o(mc::rep(n > 6 ? 2 : 3, n)); o; ++o) {      // zeros, flat cells
    V d;
    for (int b : o.v) d.push_back(b == 0 ? (k ? -1. : 0.) : b == 1 ? 2.5 : -1.);
    grid<D>(G, d, 10, false);
  }
}
template<size_t D> void floats(int hi) {
  for (mc::Odo o(mc::rep(hi, D)); o; ++o) for (int pat = 0; pat < 3; ++pat) {
    if (!mc::Case([&] { return mc::str("single precision, dim=%zu, pattern %d, sizes-1 ", D, pat) + mc::vstr(o.v); })) continue;
    std::vector<V> G; std::array<size_t, D> sh; size_t n = 1;
    RegularGridInterpolator<float, D> R;
    for (size_t d = 0; d < D; ++d) { G.push_back(axis(o[d] + 1, (pat + (int) d) % 3, d % 2 ? -7.5 : 3. * d)); sh[d] = G[d].size(); n *= sh[d]; R.AddCoord(std::vector<float>(G[d].begin(), G[d].end())); }
    V data = vals(n, 1);
    { boost::multi_array<float, D> A(sh); std::copy(data.begin(), data.end(), A.data()); R.AddVar(A); }
    std::vector<V> Q(D); std::vector<int> qn;
    for (size_t d = 0; d < D; ++d) { const V &g = G[d]; Q[d] = {g.front() - 1, g.back() + 1}; for (size_t i = 0; i < g.size(); ++i) { Q[d].push_back(g[i]); if (i + 1 < g.size()) { Q[d].push_back(g[i] + 0.25 * (g[i + 1] - g[i])); Q[d].push_back(g[i] + 0.75 * (g[i + 1] - g[i])); Q[d].push_back(std::nextafter((float) g[i], 1e30f)); } } qn.push_back((int) Q[d].size()); }
    for (mc::Odo q(qn); q; ++q) {
      std::array<double, D> p; std::array<float, D> pf; bool out = false;
      for (size_t d = 0; d < D; ++d) { p[d] = Q[d][q[d]]; pf[d] = (float) p[d]; out = out || p[d] < G[d].front() || p[d] > G[d].back(); }
      LD sc, w = model<D>(G, data, p, sc);
      mc::Visit("float", pat, o.v, p);
      mc::Near(R.Interp(pf), w, sc, 1e-5L, "single precision value at %s", mc::vstr(V(p.begin(), p.end())).c_str());
      if (D > 1 && out && q[0] % 3) continue;
      bool threw = false; float r = 0;
      try { r = R.Interp(pf, true); } catch (const std::exception &) { threw = true; }
      MC_CHECK(threw == out, "single precision bound-checked query %s: %s", mc::vstr(V(p.begin(), p.end())).c_str(), threw ? "threw although inside" : "did not throw although outside");
      if (!threw) mc::Near(r, w, sc, 1e-5L, "single precision bound-checked value at %s", mc::vstr(V(p.begin(), p.end())).c_str());
    }
    mc::Outcome("single precision");
  }
}
template<size_t D> void badaxis() {
  std::vector<V> bad = {{0, 0}, {1, 0}, {0, 1, 1}, {0, 2, 1}, {3, 2, 1}, {0, 1, 2, 2, 3}, {-1, -2}, {0, 1, 2, 3, 2.5}, {0, 2e-17, 1e-17, 1}, {0, -5e-324}, {0, 1e-200, 1e-201}, {2e-20, 1e-20}};
  // one step of every kind that does not increase, at every place of axes of every short length, at several magnitudes
  for (double sc : {1., 1e-18, 1e-9, 1e9, 1e200}) for (double o : {0., -3.}) for (int n = 2; n <= mc::Tier(4, 6); ++n) for (int i = 1; i < n; ++i) for (int kind = 0; kind < 4; ++kind) {
    V b = {o * sc};
    for (int j = 1; j < n; ++j) { double p = b.back(); b.push_back(j != i ? p + sc : kind == 0 ? p : kind == 1 ? std::nextafter(p, -INFINITY) : kind == 2 ? p - sc : p - 1e-3 * sc); }
    bad.push_back(b);
  }
  for (auto &b : bad) for (size_t at = 0; at < D; ++at) {
    if (!mc::Case([&] { return mc::str("dim=%zu refused axis at position %zu ", D, at) + mc::vstr(b); })) continue;
    mc::Visit("badaxis", D, at, b);
    RegularGridInterpolator<double, D> R;
    size_t n = 1;
    std::vector<V> G;
    std::array<size_t, D> sh;
    for (size_t d = 0; d < D; ++d) {
      if (d == at) MC_CHECK(mc::Throws([&] { R.AddCoord(b); }), "axis that is not strictly increasing accepted");
      G.push_back(axis(2 + (int) d % 2, 1, d)); R.AddCoord(G[d]); sh[d] = G[d].size(); n *= sh[d];
    }
    boost::multi_array<double, D> A(sh);
    V data = vals(n, 0);
    std::copy(data.begin(), data.end(), A.data());
    R.AddVar(A);
    std::array<double, D> p;
    for (size_t d = 0; d < D; ++d) p[d] = 0.25 * G[d][0] + 0.75 * G[d][1];
    LD sc, w = model<D>(G, data, p, sc);
    mc::Near(R.Interp(p), w, sc, 1e-12L, "value after a refused axis");
    mc::Outcome("axis refused");
  }
}
static void explore() {
  int th = mc::Thorough();
  shapes<1>(1, th ? 12 : 8, true, 3);
  shapes<2>(1, th ? 6 : 4, true, 3);
  shapes<3>(1, th ? 4 : 3, th, th ? 3 : 2);
  shapes<4>(th ? 1 : 2, 3, false, th ? 3 : 1);
  if (th) shapes<5>(2, 3, false, 1); else shapes<5>(1, 2, false, 1);
  one<5>({3, 2, 2, 2, 3}); one<5>({2, 3, 2, 4, 2}); one<6>({2, 2, 2, 2, 2, 2});
  one<1>({33}); one<1>({64}); one<1>({257}); one<2>({17, 5}); one<2>({5, 17}); one<2>({2, 64}); one<3>({5, 3, 8}); one<3>({9, 2, 4}); one<4>({4, 2, 3, 5});
  words<2>({2, 2}); words<2>({3, 2}); words<3>({2, 2, 2}); words<1>({4});
  if (th) { words<2>({3, 3}); words<3>({2, 3, 2}); words<2>({2, 4}); }
  for (int n : {2, 3, 4, 6}) nearlyuniform(n);
  for (int n : {2, 3, 12, 24, 40}) for (auto &g : mc::Uneven(n, 1e-301, 1e299)) { grid<1>({g}, vals(n, 0), 30, true, n < 20); if (n > 3 && n < 30) { grid<2>({g, axis(3, 1, -1)}, vals(3 * n, 0), 31, false); grid<2>({axis(3, 1, -1), g}, vals(3 * n, 0), 32, false); } }
  for (double base : {1., -1000., 3e-6}) for (double e : {1e-3, 1e-5, 1e-7, 1e-9, 1e-10}) for (mc::Odo o(mc::rep(2, 4)); o; ++o) {      // nearly equal values
    V d; for (int i = 0; i < 4; ++i) d.push_back(base * (1 + (o[i] ? e : 0)));
    grid<1>({{-1, 0, 2, 2.5}}, d, 33, false); grid<2>({{-1, 0.5}, {0, 3}}, d, 34, false);
  }
  if (th) for (int n : {5, 9, 16}) nearlyuniform(n);
  large<1>({33000}); large<1>({66000}); large<2>({300, 300}); large<2>({33000, 3}); large<2>({3, 33000}); large<2>({66000, 2}); large<3>({41, 42, 43}); large<3>({3, 260, 90}); large<4>({9, 20, 20, 20});
  floats<1>(5); floats<2>(3); floats<3>(2);
  badaxis<1>(); badaxis<2>(); badaxis<3>();
}
MC_MAIN(explore)
