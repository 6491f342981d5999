// Operations of all parts of the library, part number PART of 8 (see lib/ops.h).  Every part includes the whole library.
#ifndef PART
#define PART 0
#endif
#include "ops.h"
#if PART % 2
#include <boost/circular_buffer.hpp>
#include "MathUtils/thirdparty/linterp.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/MathUtils.h"
#else
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#include <boost/circular_buffer.hpp>
#include "MathUtils/thirdparty/linterp.h"
#include "MathUtils/MathUtils.h"
#include "MathUtils/MathUtilsBoost.h"
#include "MathUtils/thirdparty/linterp.h"
#endif
using namespace mathutils;
typedef std::vector<double> V;
typedef std::complex<double> CD;
typedef Vector3d<double> P3;
typedef MatrixMN<double> MN;
static void op(const char *part, const char *name, std::function<void(int, Out &)> f) { OPS.push_back({part, name, std::move(f)}); }
static void put(Out &o, double d) { o.put(d); }
static void put(Out &o, CD z) { o.put(z.real()); o.put(z.imag()); }
template<class T> void put(Out &o, const std::vector<T> &v) { o.put((double) v.size()); for (const auto &x : v) put(o, x); }
// values of very different size: mantissa and exponent, so that a large one does not hide the others in a comparison
static void pute(Out &o, double d) { int e = 0; o.put(std::frexp(d, &e)); o.put(e); }
template<class M> void putm(Out &o, const M &m) { o.put((double) m.rows()); o.put((double) m.cols()); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) put(o, m(i, j)); }

// user functions; while `userhook` is set they run another operation of the library first (nested use)
static void nest() { if (userhook) (*userhook)(); }
static double ff(double x) { nest(); return std::sin(3 * x) + 0.5 * x * x; }
static double fg(double x) { nest(); return std::cos(2 * x) - 0.25 * x; }
struct U1 : Function1d<double> { double a; explicit U1(double q = 1) : a(q) {} double Evaluate(const double &x) const override { nest(); return a / (1.5 + x * x) + x; } };
struct U2 : Function2d<double> { double a; explicit U2(double q = 1) : a(q) {} double Evaluate(const double &x, const double &y) const override { nest(); return a / (1.5 + x * x + y) + x * y; } };
struct U3 : Function3d<double> { double a; explicit U3(double q = 1) : a(q) {} double Evaluate(const double &x, const double &y, const double &z) const override { nest(); return a / (1.5 + x * x + y + 0.5 * z) + x * y - z; } };
struct UI : Integrand<double> { double a; explicit UI(double q = 1) : a(q) {} double Evaluate(const P3 &x) const override { nest(); return a * x[0] * x[0] + x[1] - 2 * x[2] * x[0]; } };
struct UC : Integrand<CD> { CD Evaluate(const P3 &x) const override { nest(); return CD(x[0] * x[1], x[2] - x[0]); } };
struct UM : Integrand<MN> { MN Evaluate(const P3 &x) const override { nest(); MN m(2, 2); m << x[0], x[1], x[2], x[0] * x[1]; return m; } };

template<class T> using SP = std::shared_ptr<T>;
static SP<const V> sv(V v) { return std::make_shared<const V>(std::move(v)); }
static V gens(int n, int s) { V v; for (int i = 0; i < n; ++i) v.push_back(opgen(i + s)); return v; }
static MN gm(int r, int c, int s, double diag = 0) { MN m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = opgen(i * 7 + j + s) + (i == j ? diag : 0); return m; }
template<class M> M gs(int n, int s, double diag) { M m; if constexpr (std::is_same<M, MN>::value) m = MN(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = opgen(i * 7 + j + s) + (i == j ? diag : 0); return m; }

#if PART == 0
static void make1d() {
  static const V X = {-2, -0.5, 0, 1.5, 4, 4.25, 7}, X2 = {-2, -0.5, 0.25, 1.5, 4, 4.5, 7};
  for (auto me : {LINEAR, LINEAR_EXTRAPOLATE, LINEAR_SATURATE}) {
    std::vector<SP<Interp1d<double, double>>> o;
    for (int k = 0; k < 2; ++k) { SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(me)); p->Initialize(sv(k ? X2 : X), sv(gens(7, 3 * k))); o.push_back(p); }
    std::string n = me == LINEAR ? "interp1d" : me == LINEAR_EXTRAPOLATE ? "interp1d extrapolating" : "interp1d saturating";
    op(n.c_str(), "values", [o](int w, Out &r) { auto &p = *o[w == 2]; for (double x : w ? V{6.5, -1.9, 4.1, 0.7} : V{-1, 5, 1.5, 4.2}) put(r, p.Eval(x)); put(r, p(w ? 0.25 : 2.5)); put(r, p.GetXmin()); });
    op(n.c_str(), "list", [o](int w, Out &r) { auto &p = *o[w == 2]; put(r, p.Eval(w ? V{6.5, -1.9, 4.1, 0.7, 0.1} : V{-1, 5, 1.5})); put(r, p(w ? V{0., 1.} : V{2., 3., 4.})); });
    op(n.c_str(), "build", [me](int w, Out &r) { SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(me)); p->Initialize(sv(w == 1 ? X : X2), sv(gens(7, 50 + w))); put(r, p->Eval(V{-1., 0.1, 4.1, 6.})); });
  }
  auto cz = [] (int k) { SP<Interp1d<double, CD>> p(Interp1d<double, CD>::MakeInterp1d(LINEAR)); std::vector<CD> y; for (int i = 0; i < 7; ++i) y.push_back(CD(opgen(i + k), opgen(i + 40 + k))); p->Initialize(sv(X), std::make_shared<const std::vector<CD>>(y)); return p; };
  std::vector<SP<Interp1d<double, CD>>> c = {cz(0), cz(9)};
  op("interp1d complex", "values", [c](int w, Out &r) { for (double x : w ? V{6.5, -1.9} : V{-1, 5}) put(r, c[w == 2]->Eval(x)); });
  typedef LookupTable1D<double, double> L1;
  auto mk = [](int k) { auto t = std::make_shared<L1>(LINEAR); t->SetX(k ? X2 : X); for (auto n : {"alpha", "beta", "gamma"}) t->AddY(n, gens(7, n[0] + 11 * k)); return t; };
  std::vector<SP<L1>> t = {mk(0), mk(1)};
  op("table1d", "value", [t](int w, Out &r) { auto &p = *t[w == 2]; put(r, p.Eval(w == 1 ? "beta" : "alpha", w ? 4.1 : -1.)); put(r, p.Eval(w == 1 ? "alpha" : "gamma", w ? 0.3 : 5.)); });
  op("table1d", "list", [t](int w, Out &r) { put(r, t[w == 2]->Eval(w == 1 ? "gamma" : "beta", w ? V{0.1, 6., -1} : V{3., 4.1})); });
  op("table1d", "all series", [t](int w, Out &r) { auto m = t[w == 2]->Eval<double, double>(w ? 4.4 : -0.3); for (auto n : {"alpha", "beta", "gamma"}) put(r, m.at(n)); });
  op("table1d", "reading", [t](int w, Out &r) { auto &p = *t[w == 2]; put(r, p.GetX()); put(r, p.GetNbSeries()); put(r, p.GetNbSample()); put(r, p.GetXmin("beta")); put(r, p.GetXmax("alpha")); });
  op("table1d", "build and move", [](int w, Out &r) { L1 c(LINEAR); c.SetX(w == 1 ? X2 : X); c.AddY("delta", gens(7, 90 + w)); L1 d(std::move(c)); put(r, d.Eval("delta", w ? 4.1 : 0.7)); });
  op("table1d", "build", [](int w, Out &r) { L1 c(LINEAR); c.SetX(w == 1 ? X2 : X); c.AddY("a", gens(7, w)); c.AddY("b", gens(7, 5 + w)); put(r, c.Eval("b", 1.)); put(r, c.Eval("a", 5.)); });
}
static void make2d() {
  static const V X = {-1, 0, 2, 5}, X2 = {-1, 0.5, 2, 5}, Y = {0, 1, 1.5, 4, 6}, Y2 = {0, 1, 2.5, 4, 6};
  std::vector<SP<Interp2d<double>>> o;
  for (int k = 0; k < 2; ++k) { SP<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR)); p->Initialize(sv(k ? X2 : X), sv(k ? Y2 : Y), sv(gens(20, 5 * k))); o.push_back(p); }
  op("interp2d", "values", [o](int w, Out &r) { auto &p = *o[w == 2]; for (auto q : w ? std::vector<V>{{4, 5.5}, {-0.5, 0.3}, {1, 1.2}} : std::vector<V>{{0.3, 2}, {3, 3}}) put(r, p.Eval(q[0], q[1])); put(r, p(w ? 1. : 0.7, 1.3)); });
  op("interp2d", "list", [o](int w, Out &r) { auto &p = *o[w == 2]; put(r, p.Eval(w ? std::vector<V>{{4, 5.5}, {-0.5, 0.3}, {1, 1.2}} : std::vector<V>{{0.3, 2}, {3, 3}})); });
  op("interp2d", "build", [](int w, Out &r) { SP<Interp2d<double>> p(Interp2d<double>::MakeInterp2d(LINEAR)); p->Initialize(sv(w == 1 ? X2 : X), sv(Y), sv(gens(20, 70 + w))); put(r, p->Eval(0.7, 1.2)); put(r, p->Eval(4., 5.)); });
  typedef LookupTable2d<double> L2;
  auto mk = [](int k) { auto t = std::make_shared<L2>(); t->SetX(k ? X2 : X); t->SetY(Y); for (auto n : {"p", "q"}) t->AddData(n, gens(20, n[0] + 31 * k)); return t; };
  std::vector<SP<L2>> t = {mk(0), mk(1)};
  op("table2d", "value", [t](int w, Out &r) { auto &p = *t[w == 2]; put(r, p.Eval(w == 1 ? "q" : "p", w ? 4.1 : 0.3, w ? 0.2 : 5.)); put(r, p.Eval(w == 1 ? "p" : "q", V{w ? 0.1 : 3.3, 2.})); put(r, p.HasSerie("p")); });
  op("table2d", "list", [t](int w, Out &r) { put(r, t[w == 2]->Eval("q", w ? std::vector<V>{{4, 5.5}, {-0.5, 0.3}, {1, 1.2}} : std::vector<V>{{0.3, 2}, {3, 3}})); });
  op("table2d", "reading", [t](int w, Out &r) { auto &p = *t[w == 2]; put(r, p.GetX()); put(r, p.GetY()); put(r, p.GetNbSeries()); put(r, p.GetNbSample()); });
  op("table2d", "build", [](int w, Out &r) { L2 c; c.SetX(w == 1 ? X2 : X); c.SetY(Y2); c.AddData("a", gens(20, w)); put(r, c.Eval("a", 1., 3.)); });
}
// tables with many samples and many series
static void makemany() {
  auto xs = [](int n, double a) { V v; for (int i = 0; i < n; ++i) v.push_back(a + 0.5 * i + 0.125 * (i % 3)); return v; };
  op("table1d", "many series", [xs](int w, Out &r) { LookupTable1D<double, double> t(w == 1 ? LINEAR : LINEAR_SATURATE); int n = w ? 40 : 19; t.SetX(xs(n, w)); for (int k = 0; k < 12; ++k) t.AddY("s" + std::to_string(k), gens(n, 3 * k + w)); for (int k = 0; k < 12; k += 5) { put(r, t.Eval("s" + std::to_string(k), 3.3 + k * 0.25)); put(r, t.Eval("s" + std::to_string(11 - k), xs(7, 2.6))); } auto m = t.Eval<double, double>(7.1); for (int k = 0; k < 12; ++k) put(r, m.at("s" + std::to_string(k))); });
  op("table2d", "many series", [xs](int w, Out &r) { LookupTable2d<double> t; int n = w ? 18 : 11, m = w ? 17 : 20; t.SetX(xs(n, w)); t.SetY(xs(m, 0)); for (int k = 0; k < 10; ++k) t.AddData("s" + std::to_string(k), gens(n * m, 3 * k + w)); for (int k = 0; k < 10; k += 3) put(r, t.Eval("s" + std::to_string(k), 3.3 + k * 0.15, 2.1 + 0.5 * k)); put(r, t.Eval("s9", std::vector<V>{{4, 5.5}, {2.5, 0.3}, {3, 1.2}, {3, 4}, {2.1, 5.9}, {3.3, 0.}, {4, 1}, {2, 2}, {2.5, 3.5}})); });
  op("interp1d", "long table", [xs](int w, Out &r) { SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(LINEAR)); int n = w ? 150 : 70; p->Initialize(sv(xs(n, w)), sv(gens(n, 8 + w))); for (int i = 0; i < 20; ++i) put(r, p->Eval(2.2 + 1.5 * i)); put(r, p->Eval(xs(30, 2.1))); });
}
void ops0() { make1d(); make2d(); makemany(); }
#endif

#if PART == 1
template<class I> SP<I> lint(const std::vector<V> &G, const V &f) { std::vector<V::const_iterator> b; std::array<int, 2> l; for (int d = 0; d < 2; ++d) { b.push_back(G[d].begin()); l[d] = (int) G[d].size(); } return std::make_shared<I>(b.begin(), l, f.data(), f.data() + f.size()); }
static std::string mc_str(size_t d) { return std::to_string(d); }
static void makegrid() {
  static const V A[3] = {{0, 1, 3, 4}, {-1, 0.5, 2}, {2, 3}}, B[3] = {{0, 1, 3.5, 4}, {-1, 0.75, 2}, {2, 3}};
  typedef RegularGridInterpolator<double, 3> R3;
  typedef RegularGridNearest<double, 3> N3;
  auto arr = [](int s) { boost::multi_array<double, 3> a(boost::extents[4][3][2]); for (int i = 0; i < 24; ++i) a.data()[i] = opgen(i + s); return a; };
  std::vector<SP<R3>> g; std::vector<SP<N3>> n;
  for (int k = 0; k < 2; ++k) { auto p = std::make_shared<R3>(); auto q = std::make_shared<N3>(); for (int d = 0; d < 3; ++d) { p->AddCoord(k ? B[d] : A[d]); q->AddCoord(k ? B[d] : A[d]); } p->AddVar(arr(9 * k)); q->AddVar(arr(9 * k)); g.push_back(p); n.push_back(q); }
  typedef std::array<double, 3> Q;
  op("grid", "interpolation", [g](int w, Out &r) { auto &p = *g[w == 2]; for (Q q : w ? std::vector<Q>{{3.5, 0, 2.2}, {0.5, 1.9, 3}} : std::vector<Q>{{1.5, -0.5, 2.7}, {3.1, 1, 2}}) { put(r, p.Interp(q)); put(r, p.Interp(q, true)); } });
  op("grid", "reading", [g](int w, Out &r) { auto &p = *g[w == 2]; put(r, p.EvalAtIndice({w ? 2ul : 1ul, 1, 1})); put(r, p.GetCoord(w ? 1 : 0)); put(r, p.GetCoordMinVal(1)); put(r, p.GetCoordMaxVal(0)); put(r, (double) p.GetDimension()); put(r, p.IsValid()); });
  op("grid", "copy", [g, arr](int w, Out &r) { R3 c(*g[w == 2]); put(r, c.Interp({1.5, 0.25, 2.5})); R3 d; d = *g[w == 1]; put(r, d.Interp({3.2, 1.25, 2.5})); });
  op("nearest", "lookup", [n](int w, Out &r) { auto &p = *n[w == 2]; for (Q q : w ? std::vector<Q>{{3.9, 0, 2.2}, {0.5, 1.9, 3}} : std::vector<Q>{{1.5, -0.5, 2.7}, {3.1, 1, 2}}) { put(r, p.GetData(q)); auto e = p.Nearest(q); for (int d = 0; d < 3; ++d) { put(r, (double) e.indices()[d]); put(r, e.coords()[d]); } } });
  op("nearest", "surrounding nodes", [n](int w, Out &r) { auto &p = *n[w == 2]; for (auto &e : p.GetSurroundingGridNodes(w ? Q{3.9, 0, 2.2} : Q{1.5, -0.5, 2.7})) { put(r, e.val()); for (int d = 0; d < 3; ++d) put(r, e.coords()[d]); } });
  op("nearest", "copy", [n](int w, Out &r) { N3 c(*n[w == 2]); put(r, c.GetData({3.2, 0, 2.1})); put(r, c.GetCoord(1)); });
  static const std::vector<V> G = {{0, 1, 3, 4, 4.5}, {-1, 0.5, 2}}, G2 = {{0, 1, 3.5, 4, 4.5}, {-1, 0.75, 2}};
  typedef InterpMultilinear<2, double> ML; typedef InterpSimplex<2, double> SX;
  std::vector<SP<ML>> m = {lint<ML>(G, gens(15, 0)), lint<ML>(G2, gens(15, 4))};
  std::vector<SP<SX>> s = {lint<SX>(G, gens(15, 0)), lint<SX>(G2, gens(15, 4))};
  typedef std::array<double, 2> Q2;
  op("linterp", "multilinear", [m](int w, Out &r) { for (Q2 q : w ? std::vector<Q2>{{4.2, 1.9}, {0.1, -0.9}, {9, 9}} : std::vector<Q2>{{2, 0}, {3.2, 0.7}}) put(r, m[w == 2]->interp(q.begin())); });
  op("linterp", "simplicial", [s](int w, Out &r) { for (Q2 q : w ? std::vector<Q2>{{4.2, 1.9}, {0.1, -0.9}, {9, 9}} : std::vector<Q2>{{2, 0}, {3.2, 0.7}}) put(r, s[w == 2]->interp(q.begin())); });
}
// other dimensions, longer axes
template<size_t D> static std::vector<V> axesd(int w) { std::vector<V> a; for (size_t d = 0; d < D; ++d) { int n = D == 1 ? 40 : D == 2 ? 12 - (int) d : d == 1 ? 4 : d == 3 ? 2 : 3; V v; for (int i = 0; i < n; ++i) v.push_back(i + 0.25 * ((i + d) % 2) + 0.0625 * w * (i % 2)); a.push_back(v); } return a; }
template<size_t D, class G> static void filld(G &g, int w) { auto a = axesd<D>(w); boost::array<long, D> e; for (size_t d = 0; d < D; ++d) { g.AddCoord(a[d]); e[d] = (long) a[d].size(); } boost::multi_array<double, D> z(e); for (size_t i = 0; i < z.num_elements(); ++i) z.data()[i] = opgen((int) i + 13 * w); g.AddVar(z); }
template<size_t D> static std::array<double, D> pointd(int k) { std::array<double, D> q; for (size_t d = 0; d < D; ++d) q[d] = (0.1 + 0.2 * ((k + 2 * d) % 5)) * (d == 3 ? 1 : 2) + (D == 1 ? 3 * k : 0); return q; }
template<size_t D> static void makedim() {
  static std::string n = mc_str(D);
  std::vector<SP<RegularGridInterpolator<double, D>>> g; std::vector<SP<RegularGridNearest<double, D>>> e;
  for (int k = 0; k < 2; ++k) { g.push_back(std::make_shared<RegularGridInterpolator<double, D>>()); filld<D>(*g[k], k); e.push_back(std::make_shared<RegularGridNearest<double, D>>()); filld<D>(*e[k], k); }
  op("grid", (n + " dimensions").c_str(), [g](int w, Out &r) { for (int k = 0; k < 3; ++k) put(r, g[w == 2]->Interp(pointd<D>(k + (w == 1)), k == 1)); RegularGridInterpolator<double, D> c(*g[w == 1]); put(r, c.Interp(pointd<D>(2))); });
  op("nearest", (n + " dimensions").c_str(), [e](int w, Out &r) { for (int k = 0; k < 3; ++k) { auto q = pointd<D>(k + (w == 1)); put(r, e[w == 2]->GetData(q)); double t = 0; for (auto &x : e[w == 2]->GetSurroundingGridNodes(q)) t += x.val() * (1 + x.coords()[0]); put(r, t); } });
  auto lin = [](auto *tag, int w, Out &r) { typedef typename std::remove_pointer<decltype(tag)>::type I; auto a = axesd<D>(w); std::vector<V::const_iterator> b; std::array<int, D> l; size_t m = 1; for (size_t d = 0; d < D; ++d) { b.push_back(a[d].begin()); l[d] = (int) a[d].size(); m *= a[d].size(); } V f = gens((int) m, 5 * w); I p(b.begin(), l, f.data(), f.data() + f.size()); for (int k = 0; k < 4; ++k) { auto q = pointd<D>(k); put(r, p.interp(q.begin())); } };
  op("linterp", (n + " dimensions").c_str(), [lin](int w, Out &r) { lin((InterpMultilinear<D, double> *) nullptr, w, r); lin((InterpSimplex<D, double> *) nullptr, w, r); });
}
void ops1() { makegrid(); makedim<1>(); makedim<2>(); makedim<4>(); makedim<5>(); }
#endif

#if PART == 2
template<class S> void ev1(Out &r, const S &s, int w) { for (double x : w ? V{1.1, 1.9, 1.35} : V{1.7, 1.2}) { put(r, s.Evaluate(x)); put(r, s.Evaluate_derivative_x(x)); } }
template<class S> void ev2(Out &r, const S &s, int w) { for (double x : w ? V{1.1, 1.9} : V{1.7}) for (double y : w ? V{2.1} : V{2.7, 2.9}) { put(r, s.Evaluate(x, y)); put(r, s.Evaluate_derivative_x(x, y)); put(r, s.Evaluate_derivative_y(x, y)); } }
template<class S> void ev3(Out &r, const S &s, int w) { double x = w ? 1.1 : 1.6, y = w ? 2.9 : 2.3, z = w ? 3.3 : 3.8; put(r, s.Evaluate(x, y, z)); put(r, s.Evaluate_derivative_x(x, y, z)); put(r, s.Evaluate_derivative_y(x, y, z)); put(r, s.Evaluate_derivative_z(x, y, z)); }
template<class S, class... A> std::vector<SP<S>> two(A... a) { return {std::make_shared<S>(a...), std::make_shared<S>(a...)}; }
static void makeseries() {
  static U1 f1(1), g1(2); static U2 f2(1), g2(2); static U3 f3(1), g3(2);
  typedef ChebyshevSeries1dClosed<double> C1; typedef ChebyshevSeries1dOpened<double> O1;
  typedef ChebyshevSeries2dClosed<double> C2; typedef ChebyshevSeries2dOpened<double> O2; typedef ChebyshevSeries2dMixed<double> M2;
  typedef ChebyshevSeries3dClosed<double> C3; typedef ChebyshevSeries3dYZOpenedXClosed<double> O3; typedef ChebyshevSeries3dZOpenedXYClosed<double> Z3;
  std::vector<SP<C1>> c1 = {std::make_shared<C1>(&f1, 1., 2., 5), std::make_shared<C1>(&g1, 1., 2.5, 6)};
  std::vector<SP<O1>> o1 = {std::make_shared<O1>(&f1, 1., 5), std::make_shared<O1>(&g1, 1.05, 6)};
  std::vector<SP<C2>> c2 = {std::make_shared<C2>(&f2, 1., 2., 2., 3., 3, 4), std::make_shared<C2>(&g2, 1., 2., 2., 3., 4, 3)};
  std::vector<SP<O2>> o2 = {std::make_shared<O2>(&f2, 1., 2., 3, 4), std::make_shared<O2>(&g2, 1., 2., 4, 3)};
  std::vector<SP<M2>> m2 = {std::make_shared<M2>(&f2, 1., 2., 2., 3, 4), std::make_shared<M2>(&g2, 1., 2., 2., 4, 3)};
  std::vector<SP<C3>> c3 = {std::make_shared<C3>(&f3, 1., 2., 2., 3., 3., 4., 2, 3, 2), std::make_shared<C3>(&g3, 1., 2., 2., 3., 3., 4., 3, 2, 2)};
  std::vector<SP<O3>> o3 = {std::make_shared<O3>(&f3, 1., 2., 2., 3., 2, 3, 2), std::make_shared<O3>(&g3, 1., 2., 2., 3., 3, 2, 2)};
  std::vector<SP<Z3>> z3 = {std::make_shared<Z3>(&f3, 1., 2., 2., 3., 3., 2, 3, 2), std::make_shared<Z3>(&g3, 1., 2., 2., 3., 3., 3, 2, 2)};
  for (int k = 0; k < 2; ++k) { c1[k]->Compute_ai(); o1[k]->Compute_ai(); c2[k]->Compute_aij(); o2[k]->Compute_aij(); m2[k]->Compute_aij(); c3[k]->Compute_aijk(); o3[k]->Compute_aijk(); z3[k]->Compute_aijk(); }
  op("series1d", "closed", [c1](int w, Out &r) { ev1(r, *c1[w == 2], w); });
  op("series1d", "open", [o1](int w, Out &r) { ev1(r, *o1[w == 2], w); });
  op("series2d", "closed", [c2](int w, Out &r) { ev2(r, *c2[w == 2], w); });
  op("series2d", "open", [o2](int w, Out &r) { ev2(r, *o2[w == 2], w); });
  op("series2d", "mixed", [m2](int w, Out &r) { ev2(r, *m2[w == 2], w); });
  op("series3d", "closed", [c3](int w, Out &r) { ev3(r, *c3[w == 2], w); });
  op("series3d", "y, z open", [o3](int w, Out &r) { ev3(r, *o3[w == 2], w); });
  op("series3d", "z open", [z3](int w, Out &r) { ev3(r, *z3[w == 2], w); });
  op("series1d", "compute", [](int w, Out &r) { U1 f(w + 1); C1 s(&f, 1., 2. + (w == 2), 4 + (w == 1)); s.Compute_ai(); ev1(r, s, w); put(r, s.Compute_bi()(1)); });
  op("series1d", "compute open", [](int w, Out &r) { U1 f(w + 1); O1 s(&f, 1. + 0.01 * (w == 2), 4 + (w == 1)); s.Compute_ai(); ev1(r, s, w); put(r, s.Compute_bi()(1)); });
  op("series2d", "compute", [](int w, Out &r) { U2 f(w + 1); C2 s(&f, 1., 2. + (w == 2), 2., 3., 3 + (w == 1), 2); s.Compute_aij(); ev2(r, s, w); putm(r, s.Compute_bij()); });
  op("series2d", "compute mixed", [](int w, Out &r) { U2 f(w + 1); M2 s(&f, 1., 2. + (w == 2), 2., 3 + (w == 1), 2); s.Compute_aij(); ev2(r, s, w); putm(r, s.Compute_bij()); });
  op("series3d", "compute", [](int w, Out &r) { U3 f(w + 1); Z3 s(&f, 1., 2. + (w == 2), 2., 3., 3., 1 + (w == 1), 2, 1); s.Compute_aijk(); ev3(r, s, w); for (auto &m : s.Compute_bijk()) putm(r, m); });
  typedef PowerSeries1dClosed<double> P1; typedef PowerSeries2dClosed<double> P2; typedef PowerSeries2dMixed<double> PM2; typedef PowerSeries3dClosed<double> P3c; typedef PowerSeries3dYZOpenedXClosed<double> P3o; typedef PowerSeries3dZOpenedXYClosed<double> P3z;
  std::vector<SP<P1>> p1; std::vector<SP<P2>> p2; std::vector<SP<PM2>> pm; std::vector<SP<P3c>> p3; std::vector<SP<P3o>> po; std::vector<SP<P3z>> pz;
  for (int k = 0; k < 2; ++k) { auto b1 = c1[k]->Compute_bi(); auto b2 = c2[k]->Compute_bij(); auto bm = m2[k]->Compute_bij(); auto b3 = c3[k]->Compute_bijk(); auto bo = o3[k]->Compute_bijk(); auto bz = z3[k]->Compute_bijk();
    p1.push_back(std::make_shared<P1>(b1, 1., k ? 2.5 : 2.)); p2.push_back(std::make_shared<P2>(b2, 1., 2., 2., 3.)); pm.push_back(std::make_shared<PM2>(bm, 1., 2., 2.));
    p3.push_back(std::make_shared<P3c>(b3, 1., 2., 2., 3., 3., 4.)); po.push_back(std::make_shared<P3o>(bo, 1., 2., 2., 3.)); pz.push_back(std::make_shared<P3z>(bz, 1., 2., 2., 3., 3.)); }
  op("power1d", "closed", [p1](int w, Out &r) { ev1(r, *p1[w == 2], w); put(r, p1[w == 2]->Evaluate_unit(w ? 0.3 : -0.7)); });
  op("power2d", "closed", [p2](int w, Out &r) { ev2(r, *p2[w == 2], w); put(r, p2[w == 2]->Evaluate_unit(w ? 0.3 : -0.7, 0.2)); });
  op("power2d", "mixed", [pm](int w, Out &r) { ev2(r, *pm[w == 2], w); });
  op("power3d", "closed", [p3](int w, Out &r) { ev3(r, *p3[w == 2], w); });
  op("power3d", "z open", [pz](int w, Out &r) { ev3(r, *pz[w == 2], w); put(r, pz[w == 2]->Evaluate_zinf(1.2, w ? 2.2 : 2.9)); });
  op("power3d", "all at once", [po](int w, Out &r) { auto &p = *po[w == 2]; double f, a, b; p.Evaluate_f_dfdx_dfdy(w ? 1.1 : 1.6, 2.4, w ? 3.3 : 3.9, f, a, b); put(r, f); put(r, a); put(r, b); put(r, p.Evaluate_derivative_x_zinf(1.3, w ? 2.2 : 2.7)); put(r, p.Evaluate_derivative_y_zinf(1.3, w ? 2.2 : 2.7)); });
  op("power3d", "z predefined", [po](int w, Out &r) { auto &p = *po[w == 2]; auto c = p.Compute_cij(w ? 3.3 : 3.9); putm(r, c); put(r, p.Evaluate_z_predefined(w ? 1.1 : 1.6, 2.4, c)); double f, a, b; p.Evaluate_f_dfdx_dfdy_z_predefined(1.4, w ? 2.2 : 2.6, c, f, a, b); put(r, f); put(r, a); put(r, b); put(r, p.Evaluate_derivative_x_z_predefined(1.4, w ? 2.2 : 2.6, c)); put(r, p.Evaluate_derivative_y_z_predefined(1.4, w ? 2.2 : 2.6, c)); auto d = p.Compute_cij_zinf(); put(r, p.Evaluate_z_predefined(1.5, 2.5, d)); });
}
// higher orders
static void makehigh() {
  typedef ChebyshevSeries1dClosed<double> C1; typedef ChebyshevSeries1dOpened<double> O1; typedef ChebyshevSeries2dClosed<double> C2; typedef ChebyshevSeries2dOpened<double> O2; typedef ChebyshevSeries3dClosed<double> C3;
  op("series1d", "high order", [](int w, Out &r) { U1 f(w + 1); C1 s(&f, 1., 2. + (w == 2), w ? 17 : 11); s.Compute_ai(); ev1(r, s, w); auto b = s.Compute_bi(); put(r, b(1)); PowerSeries1dClosed<double> p(b, 1., 2. + (w == 2)); ev1(r, p, w); O1 o(&f, 1. + 0.01 * (w == 2), w ? 40 : 25); o.Compute_ai(); ev1(r, o, w); C1 l(&f, 1., 2., w ? 60 : 33); l.Compute_ai(); ev1(r, l, w); });
  op("series2d", "high order", [](int w, Out &r) { U2 f(w + 1); C2 s(&f, 1., 2. + (w == 2), 2., 3., w ? 9 : 12, w ? 10 : 7); s.Compute_aij(); ev2(r, s, w); auto b = s.Compute_bij(); PowerSeries2dClosed<double> p(b, 1., 2. + (w == 2), 2., 3.); ev2(r, p, w); O2 o(&f, 1., 2., w ? 9 : 12, w ? 10 : 7); o.Compute_aij(); ev2(r, o, w); });
  op("series3d", "high order", [](int w, Out &r) { U3 f(w + 1); C3 s(&f, 1., 2. + (w == 2), 2., 3., 3., 4., w ? 5 : 4, w ? 4 : 6, 5); s.Compute_aijk(); ev3(r, s, w); auto b = s.Compute_bijk(); PowerSeries3dClosed<double> p(b, 1., 2. + (w == 2), 2., 3., 3., 4.); ev3(r, p, w); });
}
void ops2() { makeseries(); makehigh(); }
#endif

#if PART == 3
static void makecalc() {
  static UI f(1), g(2); static UC fc; static UM fm;
  typedef Integration2dTriangle<double> IT;
  for (int ord : {3, 7}) {
    std::vector<SP<IT>> t = {std::make_shared<IT>(&f, ord), std::make_shared<IT>(&g, ord + 1)};
    op("triangle", ord == 3 ? "order 3" : "order 7", [t](int w, Out &r) { put(r, t[w == 2]->Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); });
  }
  static Integration2dTriangle<CD> tc(&fc, 4); static Integration2dTriangle<MN> tm(&fm, 5);
  op("triangle", "complex", [](int w, Out &r) { put(r, tc.Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); });
  op("triangle", "matrix", [](int w, Out &r) { putm(r, tm.Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); });
  op("triangle", "build", [](int w, Out &r) { UI u(w + 3); IT t(&u, 2 + w); put(r, t.Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); });
  op("integrate1d", "function", [](int w, Out &r) { Integrate1d<double> I(w == 1 ? fg : ff, 0.5 * w, 2., 9 + w); put(r, I.Get()); I.SetXmax(3.); put(r, I.Get()); });
  op("integrate1d", "data", [](int w, Out &r) { V y = gens(6 + w, w); Integrate1d<double> I(y, 0., 2. + w, 6 + w); put(r, I.Get()); });
  op("integrate1d", "Trapz", [](int w, Out &r) { put(r, Trapz(gens(5 + w, w), 0.25)); put(r, Trapz(w ? V{0, 1, 4, 4.5} : V{-1, 0, 3, 3.5}, gens(4, w + 7))); });
  op("polynomial", "Horner", [](int w, Out &r) { V c = gens(4 + w, w); put(r, Horner<double>(c, 0.3 + w)); put(r, Horner_derivative<double>(c, 0.3 + w)); put(r, Horner<CD>(c, CD(0.1, w))); put(r, Horner_derivative<CD>(c, CD(0.1, w))); });
  static const V sx = {0, 1, 1.5, 3, 4, 6}, sx2 = {0, 1, 2, 3, 4.5, 6};
  auto spl = [](int k) { V x = k ? sx2 : sx, y = gens(6, 5 * k); return std::make_shared<Spline<double, 1, 3>>(x, y); };
  std::vector<SP<Spline<double, 1, 3>>> s = {spl(0), spl(1)};
  op("spline", "values", [s](int w, Out &r) { for (double x : w ? V{5.5, 0.2, 3.3} : V{2.2, 4.7}) put(r, (*s[w == 2])(x)); });
  op("spline", "build", [](int w, Out &r) { V x = w == 1 ? sx2 : sx, y = gens(6, w + 60); Spline<double, 1, 2> q(x, y); put(r, q(1.2)); put(r, q(5.)); });
  op("fft", "full", [](int w, Out &r) { FFT<double> t; std::vector<CD> z; V v = gens(w ? 12 : 8, w), b; t.fft(z, v); put(r, z); t.ifft(b, z); put(r, b); });
  op("fft", "half", [](int w, Out &r) { FFT<double> t; t.HalfSpectrumON(); std::vector<CD> z; V v = gens(w ? 6 : 8, w), b, fr; t.fft(z, fr, v, 10. + w); put(r, z); put(r, fr); t.ScalingOFF(); t.ifft(b, z); put(r, b); });
  op("convolution", "circular", [](int w, Out &r) { boost::circular_buffer<double> b(5); for (int i = 0; i < 7 + w; ++i) b.push_back(opgen(i + w)); put(r, NaiveConvolution(gens(5, w + 9), b, 0.25)); put(r, NaiveConvolution(gens(5, w + 9), b, 0.25, false)); });
  op("shapes", "steps", [](int w, Out &r) { V x = linspace<double>(-1, 2 + w, 7); put(r, Heaviside(x, 0.5)); put(r, Door(x, 0., 1.)); put(r, Dirac(x, 0.5)); put(r, Ramp(x, 0., 1., 2., 3.)); put(r, Sinc(x)); put(r, Sinc<double>(0., 1. + w, 5)); });
  op("shapes", "generated", [](int w, Out &r) { put(r, linspace<double>(w, 5, 6 + w)); put(r, logspace<double>(0, 1 + w, 5)); put(r, arange<double>(w, 4, 0.5)); });
  op("stdvector", "element-wise", [](int w, Out &r) { V a = gens(4 + w, w), b = gens(4 + w, w + 9); for (double &x : b) x += 10; put(r, Add(a, b)); put(r, AddScalar(a, 2.)); put(r, Sum(a)); put(r, Minus(a, b)); put(r, Mult(a, b)); put(r, Divide(a, b)); Scale(a, 3.); put(r, a); });
  op("complex", "parts", [](int w, Out &r) { std::vector<CD> z; for (int i = 0; i < 4 + w; ++i) z.push_back(CD(opgen(i + w), opgen(i + 20))); put(r, Real(z)); put(r, Imag(z)); put(r, Amplitude(z)); put(r, Phase(z)); put(r, Phase(z, DEG)); });
  op("special", "Bessel", [](int w, Out &r) { double x = w ? 7.5 : 2.25; pute(r, Cyl_Bessel_first_kind<int, double, double>(w, x)); pute(r, Cyl_Bessel_second_kind<int, double, double>(w, x)); pute(r, Cyl_modified_Bessel_first_kind<int, double, double>(w, x)); pute(r, Cyl_modified_Bessel_second_kind<int, double, double>(w, x)); put(r, Cyl_Hankel_first_kind<int, double>(w, x)); pute(r, Cyl_Bessel_first_kind_derivative<int, double, double>(w, x)); });
  op("special", "polynomials", [](int w, Out &r) { double x = w ? 0.75 : -0.3; pute(r, Legendre_polynomial<int, double>(3 + w, x)); pute(r, Legendre_polynomial_derivative<int, double>(3 + w, x)); pute(r, Chebyshev_polynomial<int, double>(4 + w, x)); pute(r, Chebyshev_polynomial_derivative<int, double>(4 + w, x)); pute(r, Chebyshev_polynomial_shifted<int, double>(2 + w, 0.4)); pute(r, Factorial<int, double>(5 + w)); pute(r, Gamma<double>(2.5 + w)); });
  op("special", "Struve", [](int w, Out &r) { for (double x : w ? V{4.5, 1.} : V{2.5, 9.}) { pute(r, Struve_zero_order(x)); pute(r, Struve_first_order(x)); pute(r, Struve_zero_order_derivative(x)); } });
  op("special", "exponential integrals", [](int w, Out &r) { for (double x : w ? V{0.5, 15, 3.5} : V{8, 30, 0.2}) { pute(r, Ei(x)); pute(r, Ei_approximation(x)); pute(r, E1(x)); pute(r, E1_approximation(x)); pute(r, expEi(x)); } });
}
// long inputs; of long results the length, a sum and a few entries
template<class T> void digest(Out &r, const std::vector<T> &v) { T s(0); for (size_t i = 0; i < v.size(); ++i) s += v[i] * double(1 + i % 3); put(r, (double) v.size()); put(r, s); for (size_t i = 0; i < v.size(); i += 1 + v.size() / 5) put(r, v[i]); }
static void makebulk() {
  op("bulk", "integration", [](int w, Out &r) { int n = 1500 + 700 * w; V y = gens(n, w), x; for (int i = 0; i < n; ++i) x.push_back(0.5 * i + 0.125 * (i % 3)); put(r, Trapz(y, 0.25)); put(r, Trapz(x, y)); Integrate1d<double> I(ff, 0., 2. + w, n); put(r, I.Get()); Integrate1d<double> J(y, 0., 3., n); put(r, J.Get()); });
  op("bulk", "generation", [](int w, Out &r) { int n = 1300 + 900 * w; digest(r, linspace<double>(-1, 2 + w, n)); digest(r, logspace<double>(0, 1 + w, n)); digest(r, arange<double>(w, w + 0.5 * n, 0.5)); V x = linspace<double>(-3, 4, n); digest(r, Heaviside(x, 0.5)); digest(r, Ramp(x, 0., 1., 2., 3.)); digest(r, Sinc(x)); });
  op("bulk", "element-wise", [](int w, Out &r) { V a = gens(1200 + 1000 * w, w), b = gens(1200 + 1000 * w, w + 9); for (double &x : b) x += 10; digest(r, Add(a, b)); put(r, Sum(a)); digest(r, Minus(a, b)); digest(r, Mult(a, b)); digest(r, Divide(a, b)); digest(r, AddScalar(a, 2.)); Scale(a, 3.); digest(r, a); deg2rad(a); digest(r, a); std::vector<CD> z; for (size_t i = 0; i < a.size(); ++i) z.push_back(CD(a[i], b[i])); digest(r, Real(z)); digest(r, Amplitude(z)); digest(r, Phase(z)); });
  op("bulk", "interpolation", [](int w, Out &r) { int n = 1100 + 800 * w; V x, y = gens(n, w), q; for (int i = 0; i < n; ++i) x.push_back(0.5 * i + 0.125 * (i % 3)); for (int i = 0; i < 2500; ++i) q.push_back(0.2 * i); SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(w ? LINEAR_EXTRAPOLATE : LINEAR)); p->Initialize(sv(x), sv(y)); digest(r, p->Eval(q)); SP<Interp2d<double>> p2(Interp2d<double>::MakeInterp2d(LINEAR)); p2->Initialize(sv(V(x.begin(), x.begin() + 40)), sv(V(x.begin(), x.begin() + 30)), sv(gens(1200, w))); std::vector<V> pts; for (int i = 0; i < 1500; ++i) pts.push_back({(i % 37) * 0.5, (i % 29) * 0.45}); digest(r, p2->Eval(pts)); });
  op("bulk", "transform", [](int w, Out &r) { FFT<double> t; std::vector<CD> z; V v = gens(w ? 1536 : 1024, w), b; t.fft(z, v); digest(r, z); t.ifft(b, z); digest(r, b); boost::circular_buffer<double> c(1200); for (int i = 0; i < 1500 + w; ++i) c.push_back(opgen(i + w)); put(r, NaiveConvolution(gens(1200, w + 9), c, 0.25)); });
  op("bulk", "matrices", [](int w, Out &r) { MN m(34 + w, 34 + w); for (int i = 0; i < 34 + w; ++i) for (int j = 0; j < 34 + w; ++j) m(i, j) = opgen(i * 40 + j) + (i == j ? 99 : 0); MN b(34 + w, 1); for (int i = 0; i < 34 + w; ++i) b(i, 0) = opgen(i); putm(r, m.LUSolver(b)); putm(r, m.QRSolver(b)); MN k = m.GetInverse(); put(r, k.norm()); VectorN<double> v(1500); for (int i = 0; i < 1500; ++i) v.at(i) = opgen(i + w); put(r, v.infNorm()); v.Sort(w == 1); for (int i = 0; i < 1500; i += 200) put(r, v.at(i)); });
}
static void makesizes() {
  op("polynomial", "long", [](int w, Out &r) { for (int n : w ? V{70, 1, 2, 33, 70} : V{40, 3, 12, 18, 40}) { V c = gens(n, w); double x = w ? 0.8 : 0.9; CD z(0.1, w ? 0.6 : 0.5); put(r, Horner<double>(c, x)); put(r, Horner_derivative<double>(c, x)); put(r, Horner<CD>(c, z)); put(r, Horner_derivative<CD>(c, z)); } });
  op("fft", "lengths", [](int w, Out &r) { for (int n : w ? V{133, 5, 7, 16, 100, 128, 133} : V{60, 2, 9, 15, 64, 17, 60}) { FFT<double> t; if (n % 3 == 1) t.HalfSpectrumON(); std::vector<CD> z; V v = gens(n, w), b; t.fft(z, v); put(r, std::vector<CD>(z.begin(), z.begin() + std::min<size_t>(9, z.size()))); put(r, z.back()); if (n % 3 != 1 || n % 2 == 0) { t.ifft(b, z); put(r, V(b.begin(), b.begin() + 2)); } } });
  static UI f(1), g(2); static UC fc;
  op("triangle", "orders", [](int w, Out &r) { for (int o = 1; o <= 8; ++o) { Integration2dTriangle<double> t(w == 2 ? &g : &f, o); put(r, t.Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); Integration2dTriangle<CD> c(&fc, o); put(r, c.Compute(P3(0, 0, w), P3(2, w, 1), P3(0.5, 1, -1))); } });
  op("integrate1d", "points", [](int w, Out &r) { for (int n : w ? V{100, 2, 5, 33, 100} : V{64, 3, 4, 17, 64}) { Integrate1d<double> I(w == 1 ? fg : ff, 0.5 * w, 2., n); put(r, I.Get()); V y = gens(n, w); put(r, Integrate1d<double>(y, 0., 1., n).Get()); put(r, Trapz(y, 0.5)); } });
  op("spline", "degrees", [](int w, Out &r) { int n = w ? 24 : 17; V x; for (int i = 0; i < n; ++i) x.push_back(i + 0.25 * (i % 3)); V y = gens(n, w + 3); Spline<double, 1, 1> a(x, y); Spline<double, 1, 3> c(x, y); Spline<double, 1, 5> e(x, y); for (double t : V{0.3, 5.2, 11.1, 15.9}) { put(r, a(t)); put(r, c(t)); put(r, e(t)); } });
  op("shapes", "lengths", [](int w, Out &r) { for (int n : w ? V{70, 2, 20, 70} : V{90, 3, 33, 90}) { V x = linspace<double>(-1 - w, 2, n); put(r, x); put(r, logspace<double>(0, 1 + w, n)); put(r, Sum(Ramp(x, 0., 1., 2., 3.))); put(r, Sum(Heaviside(x, 0.5))); put(r, Sum(Sinc(x))); put(r, Sum(Mult(x, AddScalar(x, 2.)))); boost::circular_buffer<double> b(n); for (int i = 0; i < n + 3 + w; ++i) b.push_back(opgen(i + w)); put(r, NaiveConvolution(gens(n, w + 9), b, 0.25)); } });
  op("special", "orders", [](int w, Out &r) { for (int n = 0; n < 24; n += 1 + (n > 9) * 6) { double x = w == 0 ? -0.4 : w == 1 ? 0.8 : 0.55; pute(r, Legendre_polynomial<int, double>(n, x)); pute(r, Legendre_polynomial_derivative<int, double>(n, x)); pute(r, Chebyshev_polynomial<int, double>(n, x)); pute(r, Chebyshev_polynomial_derivative<int, double>(n, x)); pute(r, Factorial<int, double>(n)); pute(r, Cyl_Bessel_first_kind<int, double, double>(n, 5. + w)); pute(r, Cyl_modified_Bessel_first_kind<int, double, double>(n, 5. + w)); } for (double x : {0.2, 1.5, 4., 12., 30.}) { x += 0.1 * w; pute(r, Struve_zero_order(x)); pute(r, Struve_first_order(x)); pute(r, Struve_zero_order_derivative(x)); pute(r, E1_approximation(x)); pute(r, Ei_approximation(x)); pute(r, Ei(x)); pute(r, E1(x)); pute(r, expEi(x)); } });
}
// other contents at the same place in memory, everything else equal: what is remembered by address shows
template<class T, class F> static void placed(F make, std::function<void(T &)> use) { alignas(64) static thread_local char mem[sizeof(T)]; T *p = make((void *) mem); use(*p); p->~T(); }
static void makereuse() {
  op("reuse", "lists", [](int w, Out &r) {
    static thread_local V x(45), y(45), o; static thread_local std::vector<CD> z(45);
    for (int i = 0; i < 45; ++i) { x[i] = i + 0.125 * ((i * (w + 1)) % 3); y[i] = opgen(i + 45 * w); z[i] = CD(y[i], opgen(i + 7 * w)); }
    put(r, Horner<double>(y, 0.9)); put(r, Horner_derivative<double>(y, 0.9)); put(r, Horner<CD>(y, CD(0.5, 0.5))); put(r, Horner_derivative<CD>(y, CD(0.5, 0.5)));
    put(r, Trapz(y, 0.25)); put(r, Trapz(x, y)); put(r, Integrate1d<double>(y, 0., 1., 45).Get());
    FFT<double> t; t.fft(z, y); put(r, z[3]); t.ifft(o, z); put(r, o[2]); Spline<double, 1, 3> s(x, y); put(r, s(3.3));
    put(r, Sum(y)); put(r, Sum(Add(x, y))); put(r, Sum(Minus(x, y))); put(r, Sum(Mult(x, y))); put(r, Sum(Heaviside(y, 0.5))); put(r, Sum(Ramp(x, 1., 20., 0., 3.))); put(r, Sum(Sinc(y))); put(r, Sum(Real(z))); put(r, Sum(Amplitude(z))); put(r, Sum(Phase(z)));
    static thread_local boost::circular_buffer<double> b(45); for (int i = 0; i < 45; ++i) b.push_back(y[i]); put(r, NaiveConvolution(x, b, 0.25)); put(r, IsClose(x, y)); Scale(y, 2.); put(r, y[7]); deg2rad(y); put(r, y[7]); });
  op("reuse", "objects", [](int w, Out &r) {
    static thread_local V X(20), Y(20), D(400); for (int i = 0; i < 20; ++i) { X[i] = i + 0.125 * ((i * (w + 1)) % 3); Y[i] = opgen(i + 20 * w); } for (int i = 0; i < 400; ++i) D[i] = opgen(i + 3 * w);
    placed<LookupTable1D<double, double>>([](void *m) { return new (m) LookupTable1D<double, double>(LINEAR); }, [&](auto &t) { t.SetX(X); t.AddY("a", Y); put(r, t.Eval("a", 3.3)); put(r, t.Eval("a", V{7.7, 0.2})); });
    placed<LookupTable2d<double>>([](void *m) { return new (m) LookupTable2d<double>(); }, [&](auto &t) { t.SetX(X); t.SetY(X); t.AddData("a", D); put(r, t.Eval("a", 3.3, 5.2)); });
    placed<RegularGridInterpolator<double, 2>>([](void *m) { return new (m) RegularGridInterpolator<double, 2>(); }, [&](auto &t) { t.AddCoord(X); t.AddCoord(X); boost::multi_array<double, 2> a(boost::extents[20][20]); a.assign(D.begin(), D.end()); t.AddVar(a); put(r, t.Interp({3.3, 5.2})); });
    placed<RegularGridNearest<double, 2>>([](void *m) { return new (m) RegularGridNearest<double, 2>(); }, [&](auto &t) { t.AddCoord(X); t.AddCoord(X); boost::multi_array<double, 2> a(boost::extents[20][20]); a.assign(D.begin(), D.end()); t.AddVar(a); put(r, t.GetData({3.3, 5.2})); });
    U1 f(w + 1); U2 g(w + 1); U3 h(w + 1); UI q(w + 1);
    placed<ChebyshevSeries1dClosed<double>>([&](void *m) { return new (m) ChebyshevSeries1dClosed<double>(&f, 1., 2., 12); }, [&](auto &t) { t.Compute_ai(); put(r, t.Evaluate(1.3)); put(r, t.Evaluate_derivative_x(1.3)); put(r, t.Compute_bi()(2)); });
    placed<ChebyshevSeries2dClosed<double>>([&](void *m) { return new (m) ChebyshevSeries2dClosed<double>(&g, 1., 2., 1., 2., 6, 7); }, [&](auto &t) { t.Compute_aij(); put(r, t.Evaluate(1.3, 1.4)); put(r, t.Evaluate_derivative_x(1.3, 1.4)); put(r, t.Compute_bij()(2, 1)); });
    placed<ChebyshevSeries3dClosed<double>>([&](void *m) { return new (m) ChebyshevSeries3dClosed<double>(&h, 1., 2., 1., 2., 1., 2., 3, 4, 3); }, [&](auto &t) { t.Compute_aijk(); put(r, t.Evaluate(1.3, 1.4, 1.6)); put(r, t.Evaluate_derivative_z(1.3, 1.4, 1.6)); });
    placed<Integration2dTriangle<double>>([&](void *m) { return new (m) Integration2dTriangle<double>(&q, 6); }, [&](auto &t) { put(r, t.Compute(P3(0, 0, 1), P3(2, 0, 1), P3(0.5, 1, -1))); });
    placed<Matrix33<double>>([](void *m) { return new (m) Matrix33<double>(); }, [&](auto &t) { for (int i = 0; i < 9; ++i) t(i / 3, i % 3) = D[i] + (i % 4 == 0 ? 9 : 0); putm(r, t.GetInverse()); putm(r, t.LUSolver(P3(1, 2, 3))); auto e = t.Eigenvalues(); put(r, (double) e.rows()); });
    static thread_local MN M(5, 5); for (int i = 0; i < 25; ++i) M(i / 5, i % 5) = D[i] + (i % 6 == 0 ? 19 : 0); putm(r, M.GetInverse()); MN bb(5, 1); bb.setOnes(); putm(r, M.LUSolver(bb)); putm(r, M.QRSolver(bb)); MN Q, R; M.GetQRDecomposition(Q, R); putm(r, R); putm(r, M.GetPseudoInverse()); });
}
void ops3() { makecalc(); makebulk(); makesizes(); makereuse(); }
#endif

#if PART >= 4
template<class M> void decomp(Out &r, const M &a, int kind) {
  M Q, R, P;
  if (kind == 0) { a.GetQRDecomposition(Q, R); putm(r, Q); putm(r, R); a.GetLUDecomposition(P, Q, R); putm(r, P); putm(r, Q); putm(r, R); }
  else if (kind == 1) { a.GetCholeskyDecomposition(Q); putm(r, Q); put(r, a.IsPositiveSemiDefinite()); put(r, a.IsSymmetric()); put(r, a.IsOrthogonal()); }
}
#endif

#if PART == 4
void ops4() {
  static const MN a[2] = {gm(4, 4, 0, 9), gm(4, 4, 3, 8)}, s[2] = {gs<MN>(4, 0, 20), gs<MN>(4, 4, 22)}, t[2] = {gm(5, 3, 2, 6), gm(5, 3, 8, 7)};
  op("matrix", "QR, LU", [](int w, Out &r) { decomp(r, a[w == 2], 0); });
  op("matrix", "Cholesky", [](int w, Out &r) { decomp(r, s[w == 2], 1); });
  op("matrix", "SVD", [](int w, Out &r) { MN U, S, W; t[w == 2].GetSVDDecomposition(U, S, W); putm(r, U); putm(r, S); putm(r, W); putm(r, t[w == 2].GetPseudoInverse()); });
  op("matrix", "solvers", [](int w, Out &r) { const MN b = gm(4, 1 + (w > 0), w + 5); putm(r, a[w == 2].LUSolver(b)); putm(r, a[w == 2].QRSolver(b)); putm(r, t[w == 2].LeastSquareSolver(gm(5, 1, w))); putm(r, t[w == 2].LeastSquareSolverConstraint(gm(5, 1, w), gm(1, 3, w + 2), gm(1, 1, w))); });
  op("matrix", "eigenvalues", [](int w, Out &r) { auto e = a[w == 2].Eigenvalues(); putm(r, e); });
  op("matrix", "reading", [](int w, Out &r) { auto &m = a[w == 2]; putm(r, m.GetRow(w)); putm(r, m.GetColumn(w)); putm(r, m.GetDiag()); putm(r, m.GetInverse()); putm(r, Transpose(m)); putm(r, MakeSymmetricFromUpper(m)); put(r, m.IsIdentity()); put(r, m.IsEqual(a[0])); });
  op("matrix", "Cholesky update", [](int w, Out &r) { const MN &m = s[w == 2]; MN L, v = gm(4, 1, w + 3); m.GetCholeskyUpdate(L, v, 0.5 + w); putm(r, L); MN c = m; c.InPlaceCholeskyUpdate(v, 0.5 + w); putm(r, c); });
  op("matrix", "full QR", [](int w, Out &r) { MN Q, R; t[w == 2].GetFullQRDecomposition(Q, R); putm(r, Q); putm(r, R); });
  op("matrix", "changing", [](int w, Out &r) { MN m = a[w == 2]; m.Inverse(); putm(r, m); m.Transpose(); putm(r, m); putm(r, Pinv(m)); putm(r, MakeSymmetricFromLower(m)); m.at(1, 2) = w; put(r, m.at(1, 2)); put(r, m.GetNbRows()); m.SetIdentity(); put(r, m.IsIdentity()); put(r, m.IsIdentity(1e-3)); put(r, m.IsOrthogonal()); put(r, m.IsSquare()); m.SetNull(); putm(r, m); });
}
#endif

#if PART == 5
void ops5() {
  static const Matrix33<double> m3[2] = {gs<Matrix33<double>>(3, 1, 15), gs<Matrix33<double>>(3, 5, 18)};
  op("matrix33", "decompositions", [](int w, Out &r) { decomp(r, m3[w == 2], w ? 0 : 1); decomp(r, m3[w == 2], w ? 1 : 0); auto e = m3[w == 2].Eigenvalues(); putm(r, e); });
  op("matrix33", "inverse", [](int w, Out &r) { auto m = m3[w == 2]; m.Inverse(); putm(r, m); m.Transpose(); putm(r, m); m.SetIdentity(); put(r, m.IsIdentity()); });
  op("vectors", "vector3d", [](int w, Out &r) { P3 v(1 + w, -2, 3); put(r, v.infNorm()); P3 u = v; u.Normalize(); putm(r, u); put(r, u.IsUnit()); put(r, v.IsEqual(u)); });
  op("vectors", "vectorN", [](int w, Out &r) { VectorN<double> v(4 + w); for (int i = 0; i < 4 + w; ++i) v.at(i) = opgen(i + w); put(r, v.infNorm()); v.Sort(w == 1); putm(r, v); });
  op("vectors", "vector2d", [](int w, Out &r) { Vector2d<double> v(1 + w, 2), o; v.ProjectLocalOnNED(o, 30. + w, DEG); putm(r, o); v.ProjectNEDOnLocal(o, 0.3 + w, RAD); putm(r, o); v.ProjectLocalOnNED(20., DEG); putm(r, v); });
  op("rotations", "conversions", [](int w, Out &r) { Eigen::Vector3d e(0.3 + w * 0.2, -0.4, 1.1); auto q = eulerAnglesZYXToQuaternion(e); auto R = eulerAnglesZYXToRotationMatrix(e); putm(r, R); putm(r, q.coeffs()); putm(r, quaternionToEulerAnglesZYX(q)); putm(r, rotationMatrixToEulerAnglesZYX(R)); putm(r, quaternionToRotationMatrix(q)); auto p = RotationMatrixToQuaternion(R); putm(r, p.coeffs()); });
  op("scalars", "angles and units", [](int w, Out &r) { double x = 500 + 77 * w; put(r, Normalize_0_360(x)); put(r, Normalize__180_180(x)); put(r, Normalize_0_2PI(x)); put(r, Normalize__PI_PI(x)); put(r, convert_velocity_unit(x, KNOT, w ? KMH : MS)); put(r, convert_frequency(x, RPM, w ? HERTZ : RADS)); double c, s; _GetTrigo(x, c, s, DEG); put(r, c); put(r, s); V v = {x, 1}; deg2rad(v); put(r, v); put(r, IsClose(x, x + 1e-9)); put(r, Saturate(x, 0., 1. + w)); put(r, SgnSqrt(-x)); put(r, is_odd(w)); });
  op("matrix33", "SVD and solvers", [](int w, Out &r) { const auto &m = m3[w == 2]; Matrix33<double> U, W; Eigen::Matrix<double, 3, 1> S; m.GetSVDDecomposition(U, S, W); putm(r, U); putm(r, S); putm(r, W); putm(r, m.GetPseudoInverse()); putm(r, m.GetInverse()); P3 b(1, w, -2); putm(r, m.LUSolver(b)); putm(r, m.QRSolver(b)); putm(r, m.LeastSquareSolver(b)); });
  op("matrix33", "reading", [](int w, Out &r) { const auto &m = m3[w == 2]; putm(r, m.GetRow(w)); putm(r, m.GetColumn(w)); putm(r, m.GetDiag()); putm(r, Transpose(m)); putm(r, Pinv(m)); putm(r, MakeSymmetricFromUpper(m)); putm(r, MakeSymmetricFromLower(m)); put(r, m.IsEqual(m3[0])); put(r, m.IsIdentity()); put(r, m.IsSquare()); put(r, m.GetNbRows()); put(r, m.at(1, 2)); });
  op("vectors", "vector6d", [](int w, Out &r) { Vector6d<double> v(1, -2, 3 + w, 4, 5, -6), u(0, 1, w, 2, 3, 1); put(r, v.infNorm()); putm(r, outer(v, u)); putm(r, outer(v)); put(r, inner(v, u)); put(r, v.IsEqual(u)); u.SetNull(); putm(r, u); });
  op("vectors", "vector3d products", [](int w, Out &r) { P3 v(1, -2, 3 + w), u(0, 1, w); putm(r, outer(v, u)); putm(r, outer(v)); put(r, inner(v, u)); put(r, v.GetProjectedAngleAroundX(DEG)); put(r, v.GetProjectedAngleAroundY(RAD)); put(r, v.GetProjectedAngleAroundZ(DEG)); u.Set(1, 2, 3); putm(r, u); u.SetNull(); putm(r, u); });
  op("vectors", "vectorN square", [](int w, Out &r) { VectorN<double> v(3 + w); for (int i = 0; i < 3 + w; ++i) v.at(i) = opgen(i + w); putm(r, v.GetMatrixSquare()); putm(r, v.GetDiagonalMatrix()); v.Reverse(); putm(r, v); put(r, v.IsEqual(v)); v.SetOnes(); putm(r, v); v.SetNull(); putm(r, v); });
  op("vectors", "vector2d projections", [](int w, Out &r) { Vector2d<double> v(1 + w, 2); put(r, v.ProjectOnNorthAxis(30. + w, DEG)); put(r, v.ProjectOnEastAxis(0.3 + w)); put(r, v.ProjectOnLocalXAxis(10., DEG)); put(r, v.ProjectOnLocalYAxis(10., DEG)); v.SetNEDFromLocal(1, w, 20, DEG); putm(r, v); put(r, v.infNorm()); put(r, v.IsEqual(Vector2d<double>(1, 2))); putm(r, ProjectLocalOnNED(v, 0.5)); putm(r, ProjectNEDOnLocal(v, 30., DEG)); });
  op("scalars", "closeness at the edge", [](int w, Out &r) { const double n = std::numeric_limits<double>::quiet_NaN(); V x = {0., 1., 1. + 1e-5, -1., 1e-8, 1e308, n}; for (double a : x) for (double b : x) { put(r, IsClose(a, b)); put(r, IsClose(a, b, 1e-3 * w, 0.)); put(r, IsClose(V{1., a}, V{1., b})); } for (double a : x) if (a == a && a < 1e300) { put(r, sgn(a - w)); put(r, SgnSqrt(a)); put(r, Saturate(a, -1., 0.5 + w)); } for (int i = -3; i < 4; ++i) { put(r, is_odd(i)); put(r, is_even(i)); } });
  op("scalars", "every pair of units", [](int w, Out &r) { for (SPEED_UNIT a : {MS, KNOT, KMH}) for (SPEED_UNIT b : {MS, KNOT, KMH}) { put(r, convert_velocity_unit(3.5 + w, a, b)); put(r, (double) convert_velocity_unit(3.5f + w, a, b)); } for (FREQUENCY_UNIT a : {HERTZ, RADS, DEGS, DEGM, S, RPM}) for (FREQUENCY_UNIT b : {HERTZ, RADS, DEGS, DEGM, S, RPM}) put(r, convert_frequency(0.75 + w, a, b)); for (ANGLE_UNIT u : {DEG, RAD}) { double c, s; _GetTrigo(0.7 + w, c, s, u); put(r, c); put(r, s); put(r, convert_velocity_unit(2. + w, KNOT)); } });
  op("scalars", "units", [](int w, Out &r) { double x = 12.5 + w; put(r, KNOT2MS(x)); put(r, MS2KNOT(x)); put(r, KMH2MS(x)); put(r, MS2KMH(x)); put(r, KMH2KNOT(x)); put(r, KNOT2KMH(x)); put(r, DEGS2RADS(x)); put(r, RADS2DEGS(x)); put(r, HZ2RADS(x)); put(r, RADS2HZ(x)); put(r, HZ2S(x)); put(r, S2HZ(x)); put(r, RADS2S(x)); put(r, S2RADS(x)); put(r, RPM2RADS(x)); put(r, RADS2RPM(x)); put(r, DEGM2RADS(x)); put(r, RADS2DEGM(x)); V v = {x, 2}, o(2); rad2deg(v); put(r, v); kt2ms(v); put(r, v); deg2rad(v, o); put(r, o); put(r, (double) STRING2ANGLE(w ? "DEG" : "RAD")); put(r, modulo360(x * 100)); put(r, modulo2pi(x)); put(r, sgn(-x)); put(r, is_even(w)); });
}
#endif

#if PART == 6
void ops6() {
  static const Matrix66<double> m6[2] = {gs<Matrix66<double>>(6, 1, 35), gs<Matrix66<double>>(6, 5, 38)};
  op("matrix66", "decompositions", [](int w, Out &r) { decomp(r, m6[w == 2], w ? 0 : 1); decomp(r, m6[w == 2], w ? 1 : 0); auto e = m6[w == 2].Eigenvalues(); putm(r, e); });
  op("matrix66", "SVD and solvers", [](int w, Out &r) { const auto &m = m6[w == 2]; putm(r, m.GetPseudoInverse()); putm(r, m.GetInverse()); Vector6d<double> b(1, w, -2, 3, 0.5, -1); putm(r, m.LUSolver(b)); putm(r, m.QRSolver(b)); putm(r, m.LeastSquareSolver(b)); });
  op("matrix66", "reading", [](int w, Out &r) { auto m = m6[w == 2]; putm(r, m.GetRow(w)); putm(r, m.GetColumn(w)); putm(r, m.GetDiag()); putm(r, Transpose(m)); putm(r, MakeSymmetricFromUpper(m)); putm(r, MakeSymmetricFromLower(m)); put(r, m.IsEqual(m6[0])); put(r, m.IsIdentity()); put(r, m.IsSymmetric()); m.Inverse(); putm(r, m); m.Transpose(); putm(r, m); m.SetIdentity(); put(r, m.IsOrthogonal()); m.SetNull(); putm(r, m); });
}
#endif

#if PART == 7
// calls that must be refused (an exception or the end of the process, never an answer), in every build; what the library
// leaves to assertions only (2D interpolation outside the grid, sizes of matrices) is not among them
void refusals() {
  for (int c = 0; c < 2; ++c) op("refusal", c ? "interp1d, list" : "interp1d outside its table", [c](int w, Out &r) { SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d(LINEAR)); p->Initialize(sv(V{0, 1, 3}), sv(V{4, 5, 7})); double x = w == 0 ? -0.5 : w == 1 ? 3.25 : 100; if (c) put(r, p->Eval(V{1, x})); else put(r, p->Eval(x)); });
  op("refusal", "interp1d factory", [](int w, Out &r) { SP<Interp1d<double, double>> p(Interp1d<double, double>::MakeInterp1d((INTERP_METHOD) (w ? 40 + w : (int) BSPLINE))); p->Initialize(sv(V{0, 1, 3}), sv(V{4, 5, 7})); put(r, p->Eval(1.5)); });
  op("refusal", "table1d unknown series", [](int w, Out &r) { LookupTable1D<double, double> t(LINEAR); t.SetX({0, 1, 3}); t.AddY("a", {4, 5, 7}); if (w == 0) put(r, t.Eval("b", 1.)); if (w == 1) put(r, t.Eval("b", V{1.})); if (w == 2) put(r, t.GetXmin("")); });
  op("refusal", "table1d outside", [](int w, Out &r) { LookupTable1D<double, double> t(LINEAR); t.SetX({0, 1, 3}); t.AddY("a", {4, 5, 7}); if (w == 0) put(r, t.Eval("a", -1.)); if (w == 1) put(r, t.Eval("a", V{1., 4.})); if (w == 2) { auto m = t.Eval<double, double>(5.); put(r, m.at("a")); } });
  op("refusal", "table2d", [](int w, Out &r) { LookupTable2d<double> t; t.SetX({0, 1, 3}); t.SetY({0, 2}); if (w == 0) { t.AddData("a", gens(6, 1)); put(r, t.Eval("b", 1., 1.)); } if (w == 1) { t.AddData("a", gens(5, 1)); put(r, t.Eval("a", 1., 1.)); } if (w == 2) { t.SetInterpolationMethod(LINEAR_SATURATE); t.AddData("a", gens(6, 1)); put(r, t.Eval("a", 1., 1.)); } });
  typedef RegularGridInterpolator<double, 2> R2;
  op("refusal", "grid axis", [](int w, Out &r) { R2 g; g.AddCoord(w == 0 ? V{0, 1, 1, 2} : w == 1 ? V{0, 2, 1, 3} : V{3, 2, 1, 0}); g.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[4][2]); for (int i = 0; i < 8; ++i) a.data()[i] = i; g.AddVar(a); put(r, g.Interp({0.5, 0.5})); });
  op("refusal", "grid variable", [](int w, Out &r) { R2 g; g.AddCoord({0, 1, 3}); if (w != 2) g.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[w == 0 ? 2 : 3][w == 0 ? 3 : w == 1 ? 1 : 2]); g.AddVar(a); put(r, g.Interp({0.5, 0.5})); });
  op("refusal", "grid checked bounds", [](int w, Out &r) { R2 g; g.AddCoord({0, 1, 3}); g.AddCoord({0, 1}); boost::multi_array<double, 2> a(boost::extents[3][2]); for (int i = 0; i < 6; ++i) a.data()[i] = i; g.AddVar(a); put(r, g.Interp({w == 0 ? 3.5 : 0.5, w == 1 ? -0.5 : w == 2 ? 1.5 : 0.5}, true)); });
  op("refusal", "grid coordinate number", [](int w, Out &r) { R2 g; g.AddCoord({0, 1, 3}); g.AddCoord({0, 1}); if (w == 0) put(r, g.GetCoord(2)); if (w == 1) put(r, g.GetCoordMinVal(2)); if (w == 2) { g.AddCoord({0, 1}); put(r, 1.); } });
  op("refusal", "nearest", [](int w, Out &r) { RegularGridNearest<double, 2> g; g.AddCoord({0, 1, 3}); if (w == 0) { boost::multi_array<double, 2> a(boost::extents[3][2]); g.AddVar(a); } g.AddCoord({0, 1}); if (w == 1) put(r, g.GetCoord(2)); if (w == 2) g.AddCoord({0, 1}); put(r, 1.); });
  op("refusal", "linterp data", [](int w, Out &r) { std::vector<V> G = {{0, 1, 3}, {0, 1}}; V f = gens(w == 0 ? 5 : w == 1 ? 7 : 12, 1); std::vector<V::const_iterator> b = {G[0].begin(), G[1].begin()}; std::array<int, 2> l = {3, 2}; InterpMultilinear<2, double> m(b.begin(), l, f.data(), f.data() + f.size()); std::array<double, 2> q = {0.5, 0.5}; put(r, m.interp(q.begin())); });
  op("refusal", "Cholesky", [](int w, Out &r) { MN m(2, 2), L; if (w == 0) m << 1, 2, 3, 9; if (w == 1) m << 1, 2, 2, -3; if (w == 2) { m = MN(2, 3); m << 1, 2, 3, 4, 5, 6; } m.GetCholeskyDecomposition(L); putm(r, L); });
  op("refusal", "Cholesky 3x3, 6x6", [](int w, Out &r) { if (w < 2) { Matrix33<double> m, L; m << 1, 2, 0, (w ? 2. : 3.), (w ? -3. : 9.), 0, 0, 0, 1; m.GetCholeskyDecomposition(L); putm(r, L); } else { Matrix66<double> m, L; m.SetIdentity(); m(2, 4) = 0.5; m.GetCholeskyDecomposition(L); putm(r, L); } });
  op("refusal", "Newton-Cotes", [](int w, Out &r) { Integrate1d<double> I(ff, 0., 1. + w, 9); I.SetIntegrationMethod(NEWTON_COTES); put(r, I.Get()); });
  op("refusal", "triangle order", [](int w, Out &r) { UI u(1); Integration2dTriangle<double> t(&u, w == 0 ? 0 : w == 1 ? 99 : -3); put(r, t.Compute(P3(0, 0, 0), P3(1, 0, 0), P3(0, 1, 0))); });
  op("refusal", "angle unit", [](int w, Out &r) { put(r, (double) STRING2ANGLE(w == 0 ? "" : w == 1 ? "GRAD" : "degrees")); });
  op("refusal", "special functions", [](int w, Out &r) { put(r, w == 0 ? Struve_zero_order(-1.) : w == 1 ? Struve_first_order(-0.5) : E1_approximation(-1.)); });
  op("refusal", "exponential integral", [](int w, Out &r) { put(r, Ei_approximation(w == 0 ? 0. : w == 1 ? -1. : -25.)); });
  op("refusal", "power series of high order", [](int w, Out &r) { U1 f(1); U2 g(1); if (w == 0) { ChebyshevSeries1dClosed<double> s(&f, 1., 2., 19); s.Compute_ai(); put(r, s.Compute_bi()(0)); } if (w == 1) { ChebyshevSeries2dClosed<double> s(&g, 1., 2., 1., 2., 19, 1); s.Compute_aij(); putm(r, s.Compute_bij()); } if (w == 2) { U3 h(1); ChebyshevSeries3dClosed<double> s(&h, 1., 2., 1., 2., 1., 2., 1, 1, 19); s.Compute_aijk(); put(r, s.Compute_bijk().size()); } });
}
#endif
