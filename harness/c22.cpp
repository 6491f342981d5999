// C22 - Chebyshev series.
//@bounds quick: 1D orders 0..30 on 14 domains with every basis polynomial of degree 0..order+3 (reproduction and aliasing), every monomial up to the order and 3 non-polynomial functions; functions scaled from 1e-25 to 1e12 and highest-degree terms down to 1e-9 of the rest in 1D, 2D and 3D; 2D all orders 0..6 x 0..6 on 7 domains of the 3 kinds with every monomial; 3D all orders 0..3 per axis on 3 domains (one per kind) with every monomial, plus dense generic coefficients at uneven orders up to 30 (2D) and 20 (3D); value and all partial derivatives at ends, interior (down to 1e-12 from the middle and the ends), Chebyshev points; recomputation 1 and 2 times, interleaved with other series; every history of length 4 over {compute, change the function, read} of two series of one user function that differ in one bound, order or axis kind (8 base series, all 8 classes)
//@bounds thorough: 1D orders up to 60, 2D up to 9x9, 3D up to 4 per axis on 6 domains, pair histories of length 6
//@model long-double cosine transform of the values at the Chebyshev points, evaluated with its exact derivative series
#include "cheb.h"
using namespace ch;
static void run(int dim, const std::vector<Ax> &a, int ox, int oy, int oz, const UF &f, const std::string &fn, bool full, LD unit = 1) {
  if (!mc::Case([&] { return name(a, ox, oy, oz) + " of " + fn; })) return;
  int o[3] = {ox, oy, oz};
  Ten ref = Transform(f, ox, oy, oz);
  LD cond = 1, n2 = 1; for (int i = 0; i < dim; ++i) { cond = std::max(cond, a[i].cond()); n2 += (LD) o[i] * o[i]; }
  LD scale = ref.sum() + unit, tol = 4e-14L * n2 * cond;   // unit: magnitude of the function, whose values at the points carry rounding errors
  Series s = Make(dim, a, f, ox, oy, oz), other = Make(dim, a, [](LD u, LD v, LD w) { return 2 + u - v * w; }, ox, oy, oz);
  std::vector<double> P[3] = {{0}, {0}, {0}};
  for (int i = 0; i < dim; ++i) P[i] = Pts(a[i], o[i], dim == 1 ? full ? std::vector<LD>{-1, 1, 0, -0.75L, 0.3L, 0.95L, -0.999L, 1e-3L, -1e-6L, 1e-9L, -1e-12L, 0.999999L, -1 + 1e-9L, 1 - 1e-12L, 0.5L, -0.5L} : std::vector<LD>{-1, 1, 0, -0.75L, 0.3L, 0.95L, -0.999L} : dim == 2 ? std::vector<LD>{-1, 1, 0.3L, -0.6L} : std::vector<LD>{-1, 1, 0.4L}, full && dim < 3);
  for (int rep = 0; rep < 3; ++rep) {
    s.compute();
    if (rep == 0) other.compute();
    bool first = true;
    for (double x : P[0]) for (double y : P[1]) for (double z : P[2]) {
      if (rep && !first && dim > 1) break;
      first = false;
      mc::Visit(dim, fn, ox, oy, oz, rep, x, y, z, a[0].lo);
      LD u = a[0].u(x), v = dim > 1 ? a[1].u(y) : 0, w = dim > 2 ? a[2].u(z) : 0;
      double g = s.val(x, y, z);
      mc::Near(g, Sum(ref, false, -1, u, v, w), scale, tol, "value at (%g,%g,%g) after %d computation(s)", x, y, z, rep + 1);
      for (int d = 0; d < dim; ++d) {
        LD c = d == 0 ? a[0].du(x) : d == 1 ? a[1].du(y) : a[2].du(z);
        mc::Near(s.der[d](x, y, z), c * Sum(ref, false, d, u, v, w), fabsl(c) * scale * (1 + o[d] * o[d]), tol, "derivative %d at (%g,%g,%g) after %d computation(s)", d, x, y, z, rep + 1);
      }
      mc::Same(s.val(x, y, z), g, "value at (%g,%g,%g) evaluated again", x, y, z);
      if (rep == 1) { other.compute(); (void) other.val(x, y, z); }
    }
  }
  mc::Outcome(dim == 1 ? "1d" : dim == 2 ? "2d" : "3d");
}
static LD pw(LD u, int n) { LD r = 1; while (n--) r *= u; return r; }
static void readpair(Series &s, const std::vector<Ax> &a, const std::array<int, 3> &o, const Ten &ref) {
  int dim = (int) a.size();
  LD cond = 1, n2 = 1; for (int i = 0; i < dim; ++i) { cond = std::max(cond, a[i].cond()); n2 += (LD) o[i] * o[i]; }
  LD scale = ref.sum() + 1, tol = 4e-14L * n2 * cond;
  for (int p = 0; p < 3; ++p) {
    LD uu[3] = {p == 0 ? 0.3L : p == 1 ? -1 : 0.7L, p == 0 ? -0.6L : p == 1 ? -0.2L : -1, p == 0 ? 0.4L : p == 1 ? 0.1L : -0.9L};
    double x = (double) a[0].x(uu[0]), y = dim > 1 ? (double) a[1].x(uu[1]) : 0, z = dim > 2 ? (double) a[2].x(uu[2]) : 0;
    LD u = a[0].u(x), v = dim > 1 ? a[1].u(y) : 0, w = dim > 2 ? a[2].u(z) : 0;
    mc::Near(s.val(x, y, z), Sum(ref, false, -1, u, v, w), scale, tol, "value at (%g,%g,%g)", x, y, z);
    for (int d = 0; d < dim; ++d) { LD c = d == 0 ? a[0].du(x) : d == 1 ? a[1].du(y) : a[2].du(z); mc::Near(s.der[d](x, y, z), c * Sum(ref, false, d, u, v, w), fabsl(c) * scale * (1 + o[d] * o[d]), tol, "derivative %d at (%g,%g,%g)", d, x, y, z); }
  }
}
static void explore() {
  PairHistories(mc::Tier(4, 6), readpair);
  for (auto &a : Domains(1, true)) for (int n = 0; n <= mc::Tier(30, 60); ++n) {
    for (int m = 0; m <= n + 3; ++m) run(1, a, n, 0, 0, [m](LD u, LD, LD) { return Tn(m, u); }, mc::str("T%d", m), m == n);
    for (int m = 2; m <= n; ++m) run(1, a, n, 0, 0, [m](LD u, LD, LD) { return pw(u, m); }, mc::str("u^%d", m), false);
    run(1, a, n, 0, 0, [](LD u, LD, LD) { return expl(u); }, "exp", true);
    run(1, a, n, 0, 0, [](LD u, LD, LD) { return 1 / (1.5L + u); }, "1/(1.5+u)", true);
    run(1, a, n, 0, 0, [](LD u, LD, LD) { return cosl(3 * u + 1); }, "cos(3u+1)", true);
    for (LD c : {1e-9L, 1e-25L, 1e12L}) run(1, a, n, 0, 0, [c](LD u, LD, LD) { return c * expl(u); }, mc::str("%Lg exp", c), true, c);
    for (int m = std::max(0, n - 2); m <= n; ++m) for (LD c : {1e-6L, 1e-9L}) run(1, a, n, 0, 0, [c, m](LD u, LD, LD) { return 1 + c * Tn(m, u); }, mc::str("1+%Lg T%d", c, m), false);
  }
  int N = mc::Tier(6, 9);
  for (auto &a : Domains(2, true)) for (int m = 0; m <= N; ++m) for (int n = 0; n <= N; ++n) {
    for (int i = 0; i <= m; ++i) for (int j = 0; j <= n; ++j) run(2, a, m, n, 0, [=](LD u, LD v, LD) { return pw(u, i) * pw(v, j); }, mc::str("u^%d v^%d", i, j), false);
    run(2, a, m, n, 0, [](LD u, LD v, LD) { return expl(u - 0.5L * v) + u * v * v; }, "exp(u-v/2)+uv^2", true);
    run(2, a, m, n, 0, [](LD u, LD v, LD) { return 1 / (2 + u + 0.3L * v * v); }, "1/(2+u+.3v^2)", false);
    for (LD c : {1e-10L, 1e-25L, 1e12L}) run(2, a, m, n, 0, [c](LD u, LD v, LD) { return c * expl(u - 0.5L * v); }, mc::str("%Lg exp", c), false, c);
    run(2, a, m, n, 0, [m, n](LD u, LD v, LD) { return 1 + 1e-8L * Tn(m, u) * Tn(n, v); }, "1+1e-8 Tm Tn", false);
  }
  std::vector<std::array<int, 2>> big2 = {{9, 2}, {2, 9}, {7, 5}, {12, 1}, {0, 12}, {0, 13}, {13, 0}, {0, 20}, {20, 0}, {1, 25}, {25, 1}, {15, 15}, {30, 3}, {3, 30}, {17, 8}, {8, 17}};
  for (auto &a : Domains(2, true)) for (auto b : big2) run(2, a, b[0], b[1], 0, [=](LD u, LD v, LD) { LD s = 0; for (int i = 0; i <= b[0]; ++i) for (int j = 0; j <= b[1]; ++j) s += mc::gen(i * 17 + j) * Tn(i, u) * Tn(j, v); return s; }, "generic", true);
  N = mc::Tier(3, 4);
  for (auto &a : Domains(3, mc::Thorough())) for (mc::Odo o(mc::rep(N + 1, 3)); o; ++o) {
    int l = o[0], m = o[1], n = o[2];
    for (int i = 0; i <= l; ++i) for (int j = 0; j <= m; ++j) for (int k = 0; k <= n; ++k) run(3, a, l, m, n, [=](LD u, LD v, LD w) { return pw(u, i) * pw(v, j) * pw(w, k); }, mc::str("u^%d v^%d w^%d", i, j, k), false);
    run(3, a, l, m, n, [](LD u, LD v, LD w) { return expl(u - 0.5L * v + 0.25L * w) + u * v * v * w; }, "exp", true);
    for (LD c : {1e-10L, 1e-25L, 1e12L}) run(3, a, l, m, n, [c](LD u, LD v, LD w) { return c * expl(u - 0.5L * v + 0.25L * w); }, mc::str("%Lg exp", c), false, c);
    run(3, a, l, m, n, [l, m, n](LD u, LD v, LD w) { return 1 + 1e-8L * Tn(l, u) * Tn(m, v) * Tn(n, w); }, "1+1e-8 Tl Tm Tn", false);
  }
  std::vector<std::array<int, 3>> big3 = {{4, 1, 3}, {1, 4, 2}, {2, 3, 4}, {5, 0, 1}, {0, 5, 0}, {0, 1, 5}, {0, 0, 15}, {0, 15, 0}, {15, 0, 0}, {1, 1, 12}, {1, 12, 1}, {12, 1, 1}, {6, 6, 6}, {2, 9, 4}, {9, 4, 2}, {4, 2, 9}, {0, 20, 1}, {1, 0, 20}, {20, 1, 0}};
  for (auto &a : Domains(3, true)) for (auto b : big3) run(3, a, b[0], b[1], b[2], [=](LD u, LD v, LD w) { LD s = 0; for (int i = 0; i <= b[0]; ++i) for (int j = 0; j <= b[1]; ++j) for (int k = 0; k <= b[2]; ++k) s += mc::gen(i * 31 + j * 7 + k) * Tn(i, u) * Tn(j, v) * Tn(k, w); return s; }, "generic", true);
}
MC_MAIN(explore)
