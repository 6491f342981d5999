// C06 - 2D linear interpolation.
//@bounds quick: all grid shapes 2..4 x 2..4 with gaps from {2^-6,1,5}, 3 origins per axis, 3 data patterns; all data words over {0,3.25,-1} on 2x2, 2x3, 3x2; shapes up to 12x9, {2x40,40x2,33x17} and, queried around the wrap-around indices of narrow counters and on a stride, 300x300, 260x7, 33000x3, 66000x2 and their transposes; uniform, nearly uniform, strongly uneven (up to 20 nodes), tiny and huge axes; nearly equal data; one vector as both axes (sizes 2..4); single precision grids up to 5x5; queries: every node, edge/cell fractions {1/4,1/2}, neighbours of nodes, offsets of 11 magnitudes around every grid line; ascending, descending and all ordered query pairs on small grids; out-of-grid calls observed in forked children; every list of points as words over 6 points up to length 4 and over 3 points up to length 7
//@bounds thorough: shapes 2..5 x 2..5, 5 origins, all 2-valued words up to 3x3, shapes up to 30x30 and 128x3, 3x128
//@model bilinear interpolant of the enclosing cell in long double, found by linear scan
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::vector<double> V;
static LD val2(const V &X, const V &Y, const V &D, double x, double y, LD &sc) {
  size_t i = 0, j = 0, ny = Y.size();
  while (i + 2 < X.size() && x > X[i + 1]) ++i;
  while (j + 2 < ny && y > Y[j + 1]) ++j;
  LD dx = (LD) X[i + 1] - X[i], dy = (LD) Y[j + 1] - Y[j], u = (x - (LD) X[i]) / dx, v = (y - (LD) Y[j]) / dy;
  LD a = D[i * ny + j], b = D[i * ny + j + 1], c = D[(i + 1) * ny + j], d = D[(i + 1) * ny + j + 1];
  sc = (fabsl(a) + fabsl(b) + fabsl(c) + fabsl(d)) * (1 + (fabsl(X[i]) + fabsl(X[i + 1])) / dx) * (1 + (fabsl(Y[j]) + fabsl(Y[j + 1])) / dy);
  return (1 - u) * ((1 - v) * a + v * b) + u * ((1 - v) * c + v * d);
}
static void grid(const V &X, const V &Y, const V &D, bool pairs, bool outside) {
  if (!mc::Case([&] { return "X=" + mc::vstr(X) + " Y=" + mc::vstr(Y) + " D=" + mc::vstr(D); })) return;
  std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR));
  auto sx = std::make_shared<const V>(X);
  p->Initialize(sx, X == Y ? sx : std::make_shared<const V>(Y), std::make_shared<const V>(D));      // equal axes: one vector for both
  mc::Same(p->GetXmin(), X.front(), "x lower bound"); mc::Same(p->GetXmax(), X.back(), "x upper bound");
  mc::Same(p->GetYmin(), Y.front(), "y lower bound"); mc::Same(p->GetYmax(), Y.back(), "y upper bound");
  V qx, qy;
  auto fill = [](const V &A, V &q) {
    for (size_t i = 0; i < A.size(); ++i) {
      q.push_back(A[i]);
      if (i + 1 < A.size()) {
        q.push_back(std::nextafter(A[i], 1e300));
        for (double f : {0.25, 0.5}) q.push_back(A[i] + f * (A[i + 1] - A[i]));
        q.push_back(std::nextafter(A[i + 1], -1e300));
      }
    }
  };
  fill(X, qx); fill(Y, qy);
  std::vector<V> pts;
  for (double x : qx) for (double y : qy) pts.push_back({x, y});
  std::vector<LD> want(pts.size()), sc(pts.size());
  for (size_t i = 0; i < pts.size(); ++i) want[i] = val2(X, Y, D, pts[i][0], pts[i][1], sc[i]);
  auto ev = [&](size_t i, const char *w) {
    mc::Visit(X, Y, D, pts[i]);
    mc::Near(p->Eval(pts[i][0], pts[i][1]), want[i], sc[i], 1e-13L, "%s at (%.17g,%.17g)", w, pts[i][0], pts[i][1]);
  };
  for (size_t i = 0; i < pts.size(); ++i) ev(i, "evaluation");
  for (size_t i = pts.size(); i-- > 0;) ev(i, "descending evaluation");
  if (pairs) for (size_t i = 0; i < pts.size(); i += 2) for (size_t j = 0; j < pts.size(); j += 3) { ev(i, "pair, first"); ev(j, "pair, second"); }
  if (X.size() + Y.size() <= 9) {                           // close to the grid lines
    double ym = 0.3 * Y[0] + 0.7 * Y[1], xm = 0.3 * X[0] + 0.7 * X[1];
    auto near = [&](double x, double y) { if (x < X[0] || x > X.back() || y < Y[0] || y > Y.back()) return; LD s, w = val2(X, Y, D, x, y, s); mc::Visit(X, Y, D, x, y); mc::Near(p->Eval(x, y), w, s, 1e-13L, "close to a grid line at (%.17g,%.17g)", x, y); };
    for (double x : mc::CloseTo(X)) { near(x, ym); near(x, Y.back()); near(x, Y[0]); }
    for (double y : mc::CloseTo(Y)) { near(xm, y); near(X.back(), y); near(X[0], y); }
  }
  auto r = p->Eval(pts);
  auto r2 = (*p)(std::vector<V>(pts.rbegin(), pts.rend()));
  mc::Same(r.size(), pts.size(), "list size"); mc::Same(r2.size(), pts.size(), "list size");
  for (size_t i = 0; i < pts.size(); ++i) {
    mc::Near(r[i], want[i], sc[i], 1e-13L, "list evaluation at (%.17g,%.17g)", pts[i][0], pts[i][1]);
    mc::Near(r2[pts.size() - 1 - i], want[i], sc[i], 1e-13L, "list call operator at (%.17g,%.17g)", pts[i][0], pts[i][1]);
    mc::Near((*p)(pts[i][0], pts[i][1]), want[i], sc[i], 1e-13L, "call operator at (%.17g,%.17g)", pts[i][0], pts[i][1]);
  }
  mc::Outcome("in-grid surface");
  if (outside) {
    double mx = 0.5 * (X[0] + X[1]), my = 0.5 * (Y[0] + Y[1]);
    double bx[4] = {std::nextafter(X.front(), -1e300), X.front() - 3, std::nextafter(X.back(), 1e300), X.back() + 1e3};
    double by[4] = {std::nextafter(Y.front(), -1e300), Y.front() - 3, std::nextafter(Y.back(), 1e300), Y.back() + 1e3};
    for (int k = 0; k < 12; ++k) {
      double x = k < 4 ? bx[k] : k < 8 ? mx : bx[k - 8], y = k < 4 ? my : by[k % 4];
      mc::Visit("outside", X, Y, x, y);
      mc::Ending e = mc::InChild([&] { volatile double z = (k % 2) ? p->Eval(x, y) : (*p)(std::vector<V>{{mx, my}, {x, y}})[1]; (void) z; });
      MC_CHECK(e == mc::SIGNALLED || e == mc::THREW || e == mc::EXIT_NONZERO, "query (%.17g,%.17g) outside the grid %s", x, y, mc::endname(e));
      mc::Outcome("refused outside");
    }
  }
}
static void large(int nx, int ny) {
  if (!mc::Case([&] { return mc::str("large grid %d x %d", nx, ny); })) return;
  V X, Y, D;
  for (int i = 0; i < nx; ++i) X.push_back(i ? X.back() + 0.25 + 0.5 * ((i * 5) % 3) : -3.);
  for (int i = 0; i < ny; ++i) Y.push_back(i ? Y.back() + 0.125 + ((i * 7) % 4) : 10.);
  for (long i = 0; i < (long) nx * ny; ++i) D.push_back(mc::gen((int) (i % 4001)) + 1e-3 * i);
  std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR));
  p->Initialize(std::make_shared<const V>(X), std::make_shared<const V>(Y), std::make_shared<const V>(D));
  auto pick = [](int n) { std::vector<int> k; for (int i = 0; i + 1 < n; ++i) { bool b = i < 2 || i + 3 > n || i % std::max(1, n / 40) == 0; for (int c : {126, 127, 255, 256, 32767, 32768, 65535, 65536}) b = b || std::abs(i - c) <= 1; if (b) k.push_back(i); } return k; };
  std::vector<V> q; std::vector<LD> want, sc;
  for (int i : pick(nx)) for (int j : pick(ny)) for (int f = 0; f < 2; ++f) {
    double x = f ? X[i + 1] : 0.375 * X[i + 1] + 0.625 * X[i], y = f ? Y[j] : 0.75 * Y[j + 1] + 0.25 * Y[j];
    LD s = ((LD) x - X[i]) / ((LD) X[i + 1] - X[i]), t = ((LD) y - Y[j]) / ((LD) Y[j + 1] - Y[j]), w = 0, m = 0;
    for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { LD v = D[(size_t) (i + a) * ny + j + b]; w += (a ? s : 1 - s) * (b ? t : 1 - t) * v; m += fabsl(v); }
    q.push_back({x, y}); want.push_back(w);
    sc.push_back(m * (1 + (fabsl(X[i]) + fabsl(X[i + 1])) / (X[i + 1] - X[i])) * (1 + (fabsl(Y[j]) + fabsl(Y[j + 1])) / (Y[j + 1] - Y[j])));
    mc::Visit("large", nx, ny, x, y);
    mc::Near(p->Eval(x, y), want.back(), sc.back(), 1e-13L, "value in a large grid at (%.17g,%.17g)", x, y);
  }
  auto r = p->Eval(q);
  mc::Same(r.size(), q.size(), "size of the list of values");
  for (size_t i = 0; i < q.size(); ++i) mc::Near(r[i], want[i], sc[i], 1e-13L, "list value in a large grid at (%.17g,%.17g)", q[i][0], q[i][1]);
  mc::Outcome("large grid");
}
static void explore() {
  large(300, 300); large(260, 7); large(7, 260); large(33000, 3); large(3, 33000); large(66000, 2); large(2, 66000);

  double gaps[3] = {1. / 64, 1, 5};
  V org = mc::Thorough() ? V{0, -4, 1000.5, 0.1, -77} : V{0, -4, 1000.5};
  int nm = mc::Tier(4, 5);
  for (int nx = 2; nx <= nm; ++nx) for (int ny = 2; ny <= nm; ++ny)
    for (mc::Odo o(mc::rep(3, std::min(nx - 1, 3) + std::min(ny - 1, 3))); o; ++o)
      for (size_t ox = 0; ox < org.size(); ++ox) {
        size_t oy = (ox + o[0] + 1) % org.size();
        V X = {org[ox]}, Y = {org[oy]}, D;
        int kx = std::min(nx - 1, 3);
        for (int i = 1; i < nx; ++i) X.push_back(X.back() + gaps[o[(i - 1) % kx]]);
        for (int i = 1; i < ny; ++i) Y.push_back(Y.back() + gaps[o[kx + (i - 1) % std::min(ny - 1, 3)]]);
        int pat = (o[0] + (int) ox + nx) % 3;
        for (int i = 0; i < nx * ny; ++i) D.push_back(pat == 0 ? mc::gen(i + nx * 31) : pat == 1 ? (i % 3 ? 1e6 : -2e-3) : (double) (i * i % 7));
        bool first = o[0] == 0 && o[1] == 1;
        grid(X, Y, D, nx + ny <= 4, first && nx + ny <= 6 && ox < 1);
      }
  for (int n : {2, 3, 5}) for (auto &A : mc::NearlyUniform(n)) for (int sw = 0; sw < 2; ++sw) for (double ds : {1., 1e-12, 1e9}) {
    if (ds != 1 && n > 2) continue;
    V B = {-1, 0.5, 4}, D; for (int i = 0; i < 3 * n; ++i) D.push_back(ds * mc::gen(i + n));
    if (sw) grid(B, A, D, false, false); else grid(A, B, D, false, false);
  }
  for (int n : {2, 4, 11, 20}) for (auto &A : mc::Uneven(n, 1e-30, 1e30)) for (int sw = 0; sw < 2; ++sw) {
    V B = {-1, 0.5, 4}, D; for (int i = 0; i < 3 * n; ++i) D.push_back(mc::gen(i + n));
    if (sw) grid(B, A, D, false, false); else grid(A, B, D, false, false);
  }
  for (double base : {1., -1000., 3e-6}) for (double e : {1e-3, 1e-5, 1e-7, 1e-9, 1e-10}) for (mc::Odo o(mc::rep(2, 6)); o; ++o) {      // nearly equal data
    V D; for (int i = 0; i < 6; ++i) D.push_back(base * (1 + (o[i] ? e : 0)));
    grid({-1, 1, 2.5}, {0.5, 2}, D, false, false);
  }
  for (int n = 2; n <= 4; ++n) for (mc::Odo o(mc::rep(3, n - 1)); o; ++o) for (double x0 : org) for (int pat = 0; pat < 4; ++pat) {      // the same axis in both directions
    V X = {x0}, D; for (int i = 1; i < n; ++i) X.push_back(X.back() + gaps[o[i - 1]]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) D.push_back(pat == 0 ? mc::gen(i * n + j) : pat == 1 ? mc::gen(i + j) : pat == 2 ? mc::gen(i * n + j) * (i > j) : (i < j) - 2.5 * (i > j));
    grid(X, X, D, n == 2, false);
  }
  for (int nx = 2; nx <= 5; ++nx) for (int ny = 2; ny <= 5; ++ny) for (int k = 0; k < 3; ++k) {
    if (!mc::Case([&] { return mc::str("single precision %d x %d kind=%d", nx, ny, k); })) continue;
    std::vector<float> X, Y, D;
    for (int i = 0; i < nx; ++i) X.push_back(k == 1 ? i * (i + 1) * 0.5f - 2 : i * 0.25f);
    for (int i = 0; i < ny; ++i) Y.push_back(k == 2 ? i * (i + 3) * 0.25f + 1 : i * 0.5f - 1);
    for (int i = 0; i < nx * ny; ++i) D.push_back((float) mc::gen(i + nx));
    std::unique_ptr<Interp2d<float>> p(Interp2d<float>::MakeInterp2d(LINEAR));
    p->Initialize(std::make_shared<const std::vector<float>>(X), std::make_shared<const std::vector<float>>(Y), std::make_shared<const std::vector<float>>(D));
    V Xd(X.begin(), X.end()), Yd(Y.begin(), Y.end()), Dd(D.begin(), D.end());
    std::vector<std::vector<float>> pts; std::vector<LD> want, sc;
    for (int i = 0; i < 4 * nx - 3; ++i) for (int j = 0; j < 4 * ny - 3; ++j) {
      float x = i % 4 ? X[i / 4] + (i % 4) * 0.25f * (X[i / 4 + 1] - X[i / 4]) : X[i / 4], y = j % 4 ? Y[j / 4] + (j % 4) * 0.25f * (Y[j / 4 + 1] - Y[j / 4]) : Y[j / 4];
      LD s; want.push_back(val2(Xd, Yd, Dd, x, y, s)); sc.push_back(s); pts.push_back({x, y});
      mc::Visit("float", nx, ny, k, x, y);
      mc::Near(p->Eval(x, y), want.back(), s, 1e-5L, "single precision evaluation at (%.9g,%.9g)", x, y);
      mc::Near((*p)(x, y), want.back(), s, 1e-5L, "single precision call at (%.9g,%.9g)", x, y);
    }
    auto r = p->Eval(pts);
    for (size_t i = 0; i < pts.size(); ++i) mc::Near(r[i], want[i], sc[i], 1e-5L, "single precision list at (%.9g,%.9g)", pts[i][0], pts[i][1]);
    mc::Outcome("single precision");
  }
  std::vector<std::pair<int, int>> wsh = {{2, 2}, {2, 3}, {3, 2}};
  if (mc::Thorough()) wsh.push_back({3, 3});
  for (auto sh : wsh) for (mc::Odo o(mc::rep(sh.first * sh.second > 6 ? 2 : 3, sh.first * sh.second)); o; ++o) {
    V X, Y, D;
    for (int i = 0; i < sh.first; ++i) X.push_back(i * 1.5 - 1);
    for (int i = 0; i < sh.second; ++i) Y.push_back(2 + i * i * 0.75);
    for (int b : o.v) D.push_back(b == 0 ? 0. : b == 1 ? 3.25 : -1.);
    grid(X, Y, D, true, false);
  }
  std::vector<std::pair<int, int>> big = {{2, 40}, {40, 2}, {33, 17}, {5, 9}, {9, 5}, {12, 9}, {7, 7}, {16, 8}, {8, 16}};
  if (mc::Thorough()) { for (int a = 5; a <= 30; ++a) for (int b = 5; b <= 30; b += 5) big.push_back({a, b}); big.push_back({128, 3}); big.push_back({3, 128}); }
  for (auto sh : big) {
    V X, Y, D;
    for (int i = 0; i < sh.first; ++i) X.push_back(i ? X.back() + 0.25 + 0.5 * ((i * 5) % 3) : -3.);
    for (int i = 0; i < sh.second; ++i) Y.push_back(i ? Y.back() + 0.125 + ((i * 7) % 4) : 10.);
    for (int i = 0; i < sh.first * sh.second; ++i) D.push_back(mc::gen(i));
    grid(X, Y, D, false, false);
  }
  // every list of points: all words over 6 points up to length 4, over 3 points up to length 7
  {
    V X = {0, 0.5, 2}, Y = {-1, 1, 1.5, 4}, D; for (int i = 0; i < 12; ++i) D.push_back(mc::gen(i + 3));
    std::unique_ptr<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR)); p->Initialize(std::make_shared<V>(X), std::make_shared<V>(Y), std::make_shared<V>(D));
    const std::vector<V> P = {{0.25, 0.5}, {0.25, 0.75}, {1.75, 0.5}, {0, -1}, {2, 4}, {0.5, 1.5}};
    for (int pass = 0; pass < 2; ++pass) for (int n = 1; n <= (pass ? mc::Tier(7, 9) : mc::Tier(4, 5)); ++n) for (mc::Odo o(mc::rep(pass ? 3 : 6, n)); o; ++o) {
      if (!mc::Case([&] { return mc::str("list of points, pass %d: ", pass) + mc::vstr(o.v); })) continue;
      std::vector<V> q; for (int i = 0; i < n; ++i) q.push_back(P[o[i]]);
      mc::Visit("points", pass, o.v);
      auto r = p->Eval(q), r2 = (*p)(q);
      mc::Same(r.size(), q.size(), "list size"); mc::Same(r2.size(), q.size(), "list size");
      for (int i = 0; i < n; ++i) { LD sc, w = val2(X, Y, D, q[i][0], q[i][1], sc); mc::Near(r[i], w, sc, 1e-13L, "entry %d", i); mc::Near(r2[i], w, sc, 1e-13L, "call operator, entry %d", i); }
      mc::Outcome("list of points");
    }
  }
  for (int m : {(int) LINEAR_EXTRAPOLATE, (int) LINEAR_SATURATE, (int) BSPLINE, 9}) {
    if (!mc::Case([&] { return mc::str("factory method %d", m); })) continue;
    mc::Visit("factory", m);
    mc::Ending e = mc::InChild([&] { Interp2d<double>::MakeInterp2d((INTERP_METHOD) m); });
    MC_CHECK(e != mc::RETURNED && e != mc::EXIT_ZERO && e != mc::MISUSE, "factory accepted 2D method %d (%s)", m, mc::endname(e));
    mc::Outcome("factory refused");
  }
}
MC_MAIN(explore)
