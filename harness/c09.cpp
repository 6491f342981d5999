// C09 - nearest-node lookup.
//@bounds quick: six inadmissible requests on originals and copies in 1 to 3 dimensions; dimensions 1..5 (4 and 5 with 1..2 and 2 nodes per axis, and a 3x2x2x3 grid); values of type double, float, int, 64-bit integer, complex and string; all axis sizes 1..5 (1D,2D) and 1..3 (3D) plus sizes up to 65 and large grids (33000, 66000, 300x300, 33000x3, 3x33000, 41x42x43) on a stride and around the wrap-around indices of narrow counters, 3 gap patterns; queries: the full product over axes of {nodes, mid-points, next floats of both, fractions, outside near and far}; nearly uniform, tiny, huge and far-away axes with queries at 13 distances around every node and both ends and 6 around every mid-point; variables given as column-major and as re-indexed arrays; single-precision coordinates; geometric, clustered and one-gap axes of up to 40 nodes, tiny and huge ones; copies, moves, swaps, vectors of lookups, assignments (also over populated grids of the same and of another shape), mutated and destroyed originals
//@bounds thorough: axis sizes 1..7 (2D), 1..4 (3D), 1..3 (4D), 1..2 (5D), 2 (6D), full query sets
//@model per axis: the closest coordinate by exhaustive distance comparison (upper one on an exact tie at the rounded mid-point); corners of the enclosing cell by linear scan
//@assume query points closer than 4 ulps to a mid-point, but not at it, may go either way (rounding of the mid-point)
#include "mc.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
static V axis(int n, int pat, double o) {
  V g;
  for (int i = 0; i < n; ++i) g.push_back(i ? g.back() + (pat == 0 ? 1. : pat == 1 ? (i % 2 ? 1. / 32 : 5.) : 0.5 + i * i) : o);
  return g;
}
// -1: ambiguous within rounding
static int nearest(const V &g, double x) {
  if (x <= g.front()) return 0;
  if (x >= g.back()) return (int) g.size() - 1;
  int k = 0;
  while (x >= g[k + 1]) ++k;
  long double mid = ((long double) g[k] + g[k + 1]) / 2;
  long double eps = 4 * 2.3e-16L * std::max(fabsl((long double) g[k]), fabsl((long double) g[k + 1]));
  if ((long double) x != mid && fabsl(x - mid) < eps) return -1;
  return x >= mid ? k + 1 : k;
}
template<size_t D, class T> using RGN = RegularGridNearest<T, D>;
template<class T> T mkval(size_t i);
template<> double mkval<double>(size_t i) { return mc::gen((int) i) + 10. * i; }
template<> std::string mkval<std::string>(size_t i) { return mc::str("v%zu", i); }
template<> long long mkval<long long>(size_t i) { return (1LL << 60) + 3 * (long long) i + 1; }
template<> float mkval<float>(size_t i) { return (float) mc::gen((int) i); }
template<> std::complex<double> mkval<std::complex<double>>(size_t i) { return {mc::gen((int) i), -1.5 * i}; }
template<> int mkval<int>(size_t i) { return (int) (i * 7 + 3); }

template<size_t D, class T> static void check(const RGN<D, T> &R, const std::vector<V> &G, const std::vector<V> &Q, const char *who, int stride) {
  mc::Same(R.GetDimension(), D, "%s: dimension", who);
  for (size_t d = 0; d < D; ++d) {
    mc::SameV(R.GetCoord(d), G[d], "%s: axis", who);
    mc::Same(R.GetCoordMinVal(d), G[d].front(), "%s: lower bound", who);
    mc::Same(R.GetCoordMaxVal(d), G[d].back(), "%s: upper bound", who);
  }
  std::vector<int> qn;
  for (auto &q : Q) qn.push_back((int) q.size());
  auto lin = [&](const std::array<size_t, D> &ix) { size_t k = 0; for (size_t d = 0; d < D; ++d) k = k * G[d].size() + ix[d]; return k; };
  int cnt = 0;
  for (mc::Odo o(qn); o; ++o) {
    if (cnt++ % stride) continue;
    std::array<double, D> p;
    bool amb = false;
    std::array<size_t, D> w;
    for (size_t d = 0; d < D; ++d) { p[d] = Q[d][o[d]]; int k = nearest(G[d], p[d]); if (k < 0) amb = true; w[d] = (size_t) std::max(k, 0); }
    mc::Visit(who, D, (int) sizeof(T), G, p);
    std::string at = mc::vstr(V(p.begin(), p.end()));
    if (!amb) {
      auto n = R.Nearest(p);
      for (size_t d = 0; d < D; ++d) {
        mc::Same(n.indices()[d], w[d], "%s: nearest index along axis %zu of %s", who, d, at.c_str());
        mc::Same(n.coords()[d], G[d][w[d]], "%s: nearest coordinate along axis %zu of %s", who, d, at.c_str());
      }
      mc::Same(n.val(), mkval<T>(lin(w)), "%s: nearest value of %s", who, at.c_str());
      mc::Same(R.GetData(p), mkval<T>(lin(w)), "%s: data of %s", who, at.c_str());
      mc::Outcome("nearest");
    }
    auto s = R.GetSurroundingGridNodes(p);
    mc::Same(s.size(), (size_t) 1 << D, "%s: number of corners", who);
    for (size_t v = 0; v < s.size(); ++v) {
      std::array<size_t, D> ix;
      for (size_t d = 0; d < D; ++d) {
        const V &g = G[d];
        int b = (v >> (D - 1 - d)) & 1;
        if (p[d] < g.front()) ix[d] = 0;
        else if (p[d] >= g.back()) ix[d] = g.size() - 1;
        else { size_t k = 0; while (p[d] >= g[k + 1]) ++k; ix[d] = k + b; }
        mc::Same(s[v].indices()[d], ix[d], "%s: corner %zu index along axis %zu of %s", who, v, d, at.c_str());
        mc::Same(s[v].coords()[d], g[ix[d]], "%s: corner %zu coordinate along axis %zu of %s", who, v, d, at.c_str());
      }
      mc::Same(s[v].val(), mkval<T>(lin(ix)), "%s: corner %zu value of %s", who, v, at.c_str());
    }
    mc::Outcome("corners");
  }
}
template<size_t D, class T> static void fillvar(RGN<D, T> &R, const std::vector<V> &G, size_t shift) {
  std::array<size_t, D> sh;
  for (size_t d = 0; d < D; ++d) sh[d] = G[d].size();
  boost::multi_array<T, D> A(sh);
  for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = mkval<T>(i + shift);
  R.AddVar(A);
}
template<size_t D, class T> static void grid(const std::vector<V> &G, bool full, bool close = false) {
  if (!mc::Case([&] { std::string s = mc::str("dim=%zu", D); for (auto &g : G) s += " axis=" + mc::vstr(g); return s; })) return;
  std::vector<V> Q(D);
  for (size_t d = 0; d < D; ++d) {
    const V &g = G[d];
    V &q = Q[d];
    q = {g.front() - 1, g.back() + 1};
    if (close) {
      for (double x : mc::CloseTo(g)) q.push_back(x);
      for (double e : {1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e15, 1e300}) { q.push_back(g.front() - e); q.push_back(g.back() + e); }
      for (size_t i = 0; i + 1 < g.size(); ++i) for (double e : {1e-13, 1e-11, 1e-9, 1e-7, 1e-5, 1e-3}) for (int s = -1; s <= 1; s += 2) q.push_back(0.5 * (g[i] + g[i + 1]) + s * e * (g[i + 1] - g[i]));
    }
    if (full) for (double x : {g.front() - 1e6, std::nextafter(g.front(), -1e300), std::nextafter(g.back(), 1e300), g.back() + 1e6}) q.push_back(x);
    for (size_t i = 0; i < g.size(); ++i) {
      q.push_back(g[i]);
      if (i + 1 < g.size()) {
        double m = 0.5 * (g[i] + g[i + 1]);
        q.push_back(m);
        q.push_back(g[i] + 0.45 * (g[i + 1] - g[i]));
        if (full) for (double x : {std::nextafter(g[i], 1e300), std::nextafter(g[i + 1], -1e300), g[i] + 0.55 * (g[i + 1] - g[i]), g[i] + 0.01 * (g[i + 1] - g[i]), g[i] + 0.4999 * (g[i + 1] - g[i]), g[i] + 0.5001 * (g[i + 1] - g[i])}) q.push_back(x);
      }
    }
  }
  if (close && D > 1) for (size_t d = 0; d < D; ++d) if (G[d].size() < 4) Q[d] = {G[d].front() - 1, G[d].front(), 0.3 * G[d].front() + 0.7 * G[d].back(), G[d].back()};
  std::unique_ptr<RGN<D, T>> R(new RGN<D, T>);
  for (auto &g : G) R->AddCoord(g);
  fillvar<D, T>(*R, G, 500);
  fillvar<D, T>(*R, G, 0);      // replacing the variable
  check<D, T>(*R, G, Q, "original", 1);
  RGN<D, T> c(*R), a, b, e;
  a = *R;
  {   // assignment to objects which already hold a grid of the same and of another shape
    std::vector<V> H = G, K = G;
    for (auto &h : H) for (auto &x : h) x = 2 * x + 3;
    for (auto &h : K) h.push_back(h.back() + 1);
    for (auto &h : H) b.AddCoord(h);
    for (auto &h : K) e.AddCoord(h);
    fillvar<D, T>(b, H, 77);
    fillvar<D, T>(e, K, 99);
    b.Nearest(std::array<double, D>{}); e.Nearest(std::array<double, D>{});
    b = *R; e = *R;
  }
  if (!close) {      // the same values in arrays of another layout
    std::array<size_t, D> sh;
    for (size_t d = 0; d < D; ++d) sh[d] = G[d].size();
    boost::multi_array<T, D> A(sh), F(sh, boost::fortran_storage_order());
    for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = mkval<T>(i);
    F = A;
    A.reindex(2);
    RGN<D, T> rf, rb;
    for (auto &g : G) { rf.AddCoord(g); rb.AddCoord(g); }
    rf.AddVar(F); rb.AddVar(A);
    RGN<D, T> rc(rf);
    check<D, T>(rf, G, Q, "column-major variable", 3);
    check<D, T>(rc, G, Q, "copy of a column-major variable", 5);
    check<D, T>(rb, G, Q, "re-indexed variable", 5);
  }
  { auto &self = *R; self = *R; }
  check<D, T>(*R, G, Q, "after self-assignment", 7);
  fillvar<D, T>(*R, G, 1000);
  check<D, T>(c, G, Q, "copy", 5);
  check<D, T>(b, G, Q, "assigned over a grid of the same shape", 9);
  check<D, T>(e, G, Q, "assigned over a larger grid", 13);
  {   // moves, swaps, containers; the sources are destroyed or assigned since
    auto junk = [&] { std::vector<std::vector<T>> j; size_t n = 1; for (auto &g : G) n *= g.size(); for (int i = 0; i < 6; ++i) j.push_back(std::vector<T>(n, mkval<T>(4321))); return j; };
    std::unique_ptr<RGN<D, T>> u(new RGN<D, T>(c)), v(new RGN<D, T>(*R));
    RGN<D, T> m(std::move(*u));
    *u = *R; auto j0 = junk();
    check<D, T>(m, G, Q, "moved from one that was assigned since", 13);
    u.reset(); auto j1 = junk();
    check<D, T>(m, G, Q, "moved from a destroyed one", 17);
    RGN<D, T> k(c);
    std::swap(k, *v); v.reset(); auto j2 = junk();
    k = std::move(m); auto j3 = junk();
    check<D, T>(k, G, Q, "swapped and move-assigned", 19);
    std::vector<RGN<D, T>> w; for (int i = 0; i < 3; ++i) w.push_back(i == 1 ? *R : k);
    w.erase(w.begin()); auto j4 = junk();
    check<D, T>(w[1], G, Q, "in a grown vector", 19);
  }
  R.reset();
  check<D, T>(c, G, Q, "copy of a destroyed original", 11);
  check<D, T>(a, G, Q, "assigned from a destroyed original", 3);
}
template<size_t D, class T> static void shapes(int lo, int hi, bool full, int pats) {
  for (mc::Odo o(mc::rep(hi - lo + 1, D)); o; ++o) for (int pat = 0; pat < pats; ++pat) {
    std::vector<V> G;
    for (size_t d = 0; d < D; ++d) G.push_back(axis(o[d] + lo, (pat + (int) d) % 3, d % 2 ? -7.5 : 3. * d));
    grid<D, T>(G, full);
  }
}
// positions along an axis: the ends, a stride, and the indices where a narrow counter would wrap
static std::vector<int> pick(int n, int most) { std::vector<int> k; for (int i = 0; i + 1 < n; ++i) { bool b = i < 2 || i + 3 > n || i % std::max(1, n / most) == 0; for (int c : {126, 127, 255, 256, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1; if (b) k.push_back(i); } return k; }
template<size_t D> static void large(std::vector<int> sz) {
  if (!mc::Case([&] { return mc::str("large grid dim=%zu ", D) + mc::vstr(sz); })) return;
  std::vector<V> G;
  for (size_t d = 0; d < D; ++d) { V g; for (int i = 0; i < sz[d]; ++i) g.push_back(i ? g.back() + 0.25 + 0.5 * ((i * 5 + d) % 3) : -2. + d); G.push_back(g); }
  RGN<D, double> R0;
  for (auto &g : G) R0.AddCoord(g);
  fillvar<D, double>(R0, G, 0);
  RGN<D, double> R1(R0);
  std::vector<std::vector<int>> P; std::vector<int> pn;
  for (size_t d = 0; d < D; ++d) { P.push_back(pick(sz[d], D == 1 ? 500 : D == 2 ? 25 : 5)); pn.push_back((int) P[d].size()); }
  for (mc::Odo o(pn); o; ++o) for (int f = 0; f < 3; ++f) {
    std::array<double, D> p; size_t ln = 0, lu = 0, ll = 0;
    std::array<size_t, D> w;
    for (size_t d = 0; d < D; ++d) {
      int i = P[d][o[d]];
      p[d] = f == 0 ? G[d][i] : f == 1 ? 0.625 * G[d][i] + 0.375 * G[d][i + 1] : 0.25 * G[d][i] + 0.75 * G[d][i + 1];
      w[d] = i + (f == 2); ln = ln * sz[d] + w[d]; ll = ll * sz[d] + i; lu = lu * sz[d] + i + 1;
    }
    mc::Visit("large", sz, p);
    for (const RGN<D, double> *R : {&R0, &R1}) {
      std::string at = mc::vstr(V(p.begin(), p.end()));
      auto n = R->Nearest(p);
      for (size_t d = 0; d < D; ++d) { mc::Same(n.indices()[d], w[d], "large grid: nearest index along axis %zu of %s", d, at.c_str()); mc::Same(n.coords()[d], G[d][w[d]], "large grid: nearest coordinate along axis %zu of %s", d, at.c_str()); }
      mc::Same(n.val(), mkval<double>(ln), "large grid: nearest value of %s", at.c_str());
      mc::Same(R->GetData(p), mkval<double>(ln), "large grid: data of %s", at.c_str());
      auto s = R->GetSurroundingGridNodes(p);
      mc::Same(s.size(), (size_t) 1 << D, "number of corners");
      mc::Same(s.front().val(), mkval<double>(ll), "large grid: lowest corner of %s", at.c_str());
      mc::Same(s.back().val(), mkval<double>(lu), "large grid: highest corner of %s", at.c_str());
    }
  }
  mc::Outcome("large grid");
}
// single-precision coordinates
template<size_t D> static void floats(int hi) {
  for (mc::Odo o(mc::rep(hi, D)); o; ++o) for (int pat = 0; pat < 3; ++pat) {
    if (!mc::Case([&] { return mc::str("single precision coordinates, dim=%zu, pattern %d, sizes-1 ", D, pat) + mc::vstr(o.v); })) continue;
    std::vector<V> G; std::array<size_t, D> sh;
    RegularGridNearest<int, D, float> R;
    for (size_t d = 0; d < D; ++d) { G.push_back(axis(o[d] + 1, (pat + (int) d) % 3, d % 2 ? -7.5 : 3. * d)); sh[d] = G[d].size(); R.AddCoord(std::vector<float>(G[d].begin(), G[d].end())); }
    { boost::multi_array<int, D> A(sh); for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = (int) i * 3 + 1; R.AddVar(A); }
    std::vector<V> Q(D); std::vector<int> qn;
    for (size_t d = 0; d < D; ++d) { const V &g = G[d]; Q[d] = {g.front() - 1, g.back() + 1}; for (size_t i = 0; i < g.size(); ++i) { Q[d].push_back(g[i]); if (i + 1 < g.size()) for (double f : {0.125, 0.375, 0.5, 0.625, 0.875}) Q[d].push_back(g[i] + f * (g[i + 1] - g[i])); } qn.push_back((int) Q[d].size()); }
    for (mc::Odo q(qn); q; ++q) {
      std::array<float, D> p; size_t lin = 0;
      for (size_t d = 0; d < D; ++d) { p[d] = (float) Q[d][q[d]]; lin = lin * G[d].size() + (size_t) std::max(0, nearest(G[d], Q[d][q[d]])); }
      mc::Visit("float", pat, o.v, p);
      mc::Same(R.GetData(p), (int) lin * 3 + 1, "single precision: data at %s", mc::vstr(std::vector<float>(p.begin(), p.end())).c_str());
      mc::Same(R.Nearest(p).val(), (int) lin * 3 + 1, "single precision: nearest at %s", mc::vstr(std::vector<float>(p.begin(), p.end())).c_str());
      mc::Same(R.GetSurroundingGridNodes(p).size(), (size_t) 1 << D, "single precision: corners");
    }
    mc::Outcome("single precision");
  }
}
// requests that cannot be met: the process ends with a failure
template<size_t D> static void refusals() {
  for (int k = 0; k < 6; ++k) for (int cp = 0; cp < 2; ++cp) {
    if (!mc::Case([&] { return mc::str("dim=%zu refusal %d copied %d", D, k, cp); })) continue;
    mc::Visit("refusal", D, k, cp);
    RGN<D, double> S;
    for (size_t d = 0; d + (k == 1 ? 1 : 0) < D; ++d) S.AddCoord(V{1, 2.5});
    std::array<size_t, D> sh; sh.fill(2);
    boost::multi_array<double, D> var(sh); std::fill(var.data(), var.data() + var.num_elements(), 3.);
    if (k >= 2) S.AddVar(var);
    RGN<D, double> T(S); RGN<D, double> &R = cp ? T : S;
    mc::Ending e = mc::InChild([&] {
      if (k == 0 || k == 2) R.AddCoord(V{0, 1});
      if (k == 1) R.AddVar(var);
      if (k == 3) R.GetCoord(D);
      if (k == 4) R.GetCoordMinVal(D);
      if (k == 5) R.GetCoordMaxVal(D + 2);
    });
    MC_CHECK(e != mc::RETURNED && e != mc::EXIT_ZERO && e != mc::MISUSE, "inadmissible request %d %s", k, mc::endname(e));
    mc::Outcome("request refused");
  }
}
static void explore() {
  floats<1>(5); floats<2>(3);

  large<1>({33000}); large<1>({66000}); large<2>({300, 300}); large<2>({33000, 3}); large<2>({3, 33000}); large<3>({41, 42, 43});

  int th = mc::Thorough();
  refusals<1>(); refusals<2>(); refusals<3>();
  shapes<1, double>(1, th ? 16 : 10, true, 3);
  shapes<1, std::string>(1, 4, true, 3);
  shapes<1, int>(1, 6, true, 3);
  shapes<2, double>(1, th ? 7 : 5, true, th ? 3 : 2);
  shapes<2, std::string>(2, 3, false, 2);
  shapes<3, double>(1, th ? 4 : 3, th, th ? 2 : 1);
  shapes<3, int>(2, 3, false, 1);
  shapes<1, long long>(1, 4, true, 2); shapes<1, float>(2, 4, true, 2); shapes<1, std::complex<double>>(1, 4, true, 2);
  shapes<2, long long>(2, 3, false, 1); shapes<2, std::complex<double>>(2, 3, false, 1); shapes<2, float>(2, 3, false, 1);
  if (th) shapes<4, double>(1, 3, false, 1); else shapes<4, double>(1, 2, false, 1);
  shapes<5, double>(th ? 1 : 2, 2, false, 1);
  grid<4, double>({axis(3, 0, 0), axis(2, 1, -1), axis(2, 2, 4), axis(3, 1, 2)}, false);
  if (th) shapes<6, int>(2, 2, false, 1);
  for (int n : {4, 6}) for (auto &g : mc::NearlyUniform(n)) {
    grid<1, double>({g}, true, true);
    grid<2, double>({g, axis(3, 1, 0)}, false, true);
    grid<2, double>({axis(3, 1, 0), g}, false, true);
  }
  for (int n : {2, 3, 12, 24, 40}) for (auto &g : mc::Uneven(n, 1e-30, 1e30)) {
    grid<1, double>({g}, true);
    if (n > 3 && n < 30) { grid<2, double>({g, axis(3, 1, 0)}, false); grid<2, double>({axis(2, 1, 0), g}, false); }
  }
  for (int n : {17, 32, 33, 64, 65}) {
    grid<1, double>({axis(n, 1, -3)}, true);
    grid<2, double>({axis(n, 0, -3), axis(3, 2, 1)}, false);
    grid<2, double>({axis(2, 0, -3), axis(n, 1, 1)}, false);
  }
}
MC_MAIN(explore)
