// C08 - histories of regular-grid interpolators.
//@bounds quick: all operation sequences over two interpolators, of length <=4 from empty and once-populated 2D ones and from 1D ones, <=3 from twice-populated ones (axes of different or of equal sizes and ends), <=2 from populated 3D ones; 22 operations: add one of 3 axes, refused axis, set variable (2 contents), variable of wrong shape (2 kinds), copy-assign, self-assign, destroy and re-create, copy-construct replacement; each sequence once silently and once with an evaluation of both after every operation; complete observation of both after every sequence; variables that differ from the previous one, and axes that differ from those of another interpolator, by 1e-12 to 1e-2 in a single entry; 8 ways of moving, swapping and storing interpolators in containers with the source destroyed, reassigned or refilled, in 1..3 dimensions; single-operation refusals (too many axes, variable before axes, index out of dimension) in forked children
//@bounds thorough: one operation more in every family
//@model (axes accepted so far, last accepted variable); answers recomputed with the multilinear formula; failed operations change nothing
#include "mc.h"
#include "MathUtils/MathUtilsBoost.h"
using namespace mathutils;
typedef std::vector<double> V;
static const V AX[3] = {{0, 1, 3}, {-1, 2}, {0, 2.25, 3}};   // the third: same size and ends as the first
static const int NOP = 11;
struct Model { std::vector<int> ax; int var = -1; };
static double dat(int var, size_t i) { return mc::gen(var * 50 + (int) i); }
template<size_t D> static double model(const Model &M, const std::array<double, D> &p) {
  std::array<size_t, D> c;
  std::array<double, D> t;
  for (size_t d = 0; d < D; ++d) {
    const V &g = AX[M.ax[d]];
    double x = std::min(std::max(p[d], g.front()), g.back());
    size_t k = 0;
    while (k + 2 < g.size() && x > g[k + 1]) ++k;
    c[d] = k; t[d] = (x - g[k]) / (g[k + 1] - g[k]);
  }
  double r = 0;
  for (unsigned v = 0; v < (1u << D); ++v) {
    double w = 1;
    size_t idx = 0;
    for (size_t d = 0; d < D; ++d) { int b = (v >> d) & 1; w *= b ? t[d] : 1 - t[d]; idx = idx * AX[M.ax[d]].size() + c[d] + b; }
    r += w * dat(M.var, idx);
  }
  return r;
}
template<size_t D> using RGI = RegularGridInterpolator<double, D>;
template<size_t D> static void observe(const RGI<D> &R, const Model &M, const char *who) {
  mc::Same(R.IsValid(), M.var >= 0, "%s: validity", who);
  for (size_t d = 0; d < M.ax.size(); ++d) mc::SameV(R.GetCoord(d), AX[M.ax[d]], "%s: axis %zu", who, d);
  if (M.var < 0) return;
  std::vector<int> n;
  for (size_t d = 0; d < D; ++d) {
    n.push_back((int) AX[M.ax[d]].size());
    mc::Same(R.GetCoordMinVal(d), AX[M.ax[d]].front(), "%s: lower bound", who);
    mc::Same(R.GetCoordMaxVal(d), AX[M.ax[d]].back(), "%s: upper bound", who);
  }
  size_t k = 0;
  for (mc::Odo o(n); o; ++o, ++k) {
    std::array<size_t, D> ix;
    for (size_t d = 0; d < D; ++d) ix[d] = o[d];
    mc::Same(R.EvalAtIndice(ix), dat(M.var, k), "%s: stored value %zu", who, k);
  }
  const double q[5] = {-2, 0.25, 1, 2.5, 9};
  for (mc::Odo o(mc::rep(5, D)); o; ++o) {
    std::array<double, D> p;
    for (size_t d = 0; d < D; ++d) p[d] = q[o[d]];
    mc::Near(R.Interp(p), model<D>(M, p), 10, 1e-12L, "%s: value", who);
  }
}
template<size_t D> static void addvar(RGI<D> &R, const std::array<size_t, D> &sh, int var) {
  boost::multi_array<double, D> A(sh);
  for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = dat(var, i);
  if (var == 1) { boost::multi_array<double, D> F(sh, boost::fortran_storage_order()); F = A; R.AddVar(F); return; }      // one of the contents arrives column-major
  R.AddVar(A);
}
template<size_t D> static bool enabled(const std::vector<int> &ops) {
  size_t n[2] = {0, 0};
  for (int op : ops) {
    int w = op / NOP, k = op % NOP;
    if (k < 3) { if (n[w] == D) return false; ++n[w]; }
    else if (k == 3) { if (n[w] == D) return false; }
    else if (k < 8) { if (n[w] < D) return false; }
    else if (k == 8 || k == 10) n[w] = n[1 - w];
    else n[w] = n[w];
  }
  return true;
}
template<size_t D> static void run(int prefix, const std::vector<int> &ops, bool evals) {
  std::unique_ptr<RGI<D>> R[2] = {std::unique_ptr<RGI<D>>(new RGI<D>), std::unique_ptr<RGI<D>>(new RGI<D>)};
  Model M[2];
  auto apply = [&](int op) {
    int w = op / NOP, k = op % NOP;
    mc::Visit(D, M[0].ax, M[0].var, M[1].ax, M[1].var, op);
    if (mc::Replaying()) mc::Op(mc::str("operation %d on R%d", k, w));
    std::array<size_t, D> sh;
    if (M[w].ax.size() == D) for (size_t d = 0; d < D; ++d) sh[d] = AX[M[w].ax[d]].size();
    if (k < 3) { R[w]->AddCoord(AX[k]); M[w].ax.push_back(k); }
    else if (k == 3) { MC_CHECK(mc::Throws([&] { R[w]->AddCoord(V{0, 2, 1}); }), "bad axis accepted"); mc::Outcome("axis refused"); }
    else if (k < 6) { addvar<D>(*R[w], sh, k - 4); M[w].var = k - 4; mc::Outcome("variable set"); }
    else if (k < 8) {
      auto s2 = sh;
      if (k == 6) s2[0] += 1;                                  // wrong total size
      else if (sh[0] != sh[D - 1]) std::swap(s2[0], s2[D - 1]);  // right total size, wrong shape
      else s2[D - 1] -= 1;
      MC_CHECK(mc::Throws([&] { addvar<D>(*R[w], s2, 3); }), "variable whose shape does not match the axes accepted");
      mc::Outcome("variable refused");
    } else if (k == 8) { *R[w] = *R[1 - w]; M[w] = M[1 - w]; mc::Outcome("assigned"); }
    else if (k == 9) { RGI<D> &self = *R[w]; self = *R[w]; mc::Outcome("self-assigned"); }
    else { R[w].reset(new RGI<D>(*R[1 - w])); M[w] = M[1 - w]; mc::Outcome("copy-constructed"); }
    if (!evals) return;
    std::array<double, D> p;        // the same point after every operation, on both: nothing may be remembered
    p.fill(0.25);
    for (int v = 0; v < 2; ++v) if (M[v].var >= 0) mc::Near(R[v]->Interp(p, v == 0), model<D>(M[v], p), 10, 1e-12L, "interpolator %d during the history", v);
  };
  if (prefix) {
    std::vector<int> pre;
    for (size_t d = 0; d < D; ++d) pre.push_back((int) d % 2);
    pre.push_back(4);
    for (size_t d = 0; d < D; ++d) pre.push_back(NOP + (prefix == 3 ? (d % 2 ? 1 : 2) : 1 - (int) d % 2));
    if (prefix >= 2) pre.push_back(NOP + 5);
    for (int op : pre) apply(op);
  }
  for (int op : ops) apply(op);
  observe<D>(*R[0], M[0], "first interpolator");
  observe<D>(*R[1], M[1], "second interpolator");
  // copies outlive their source
  for (int w = 0; w < 2; ++w) {
    RGI<D> c(*R[w]);
    RGI<D> a;
    a = *R[w];
    if (M[w].var >= 0) {
      std::array<size_t, D> sh;
      for (size_t d = 0; d < D; ++d) sh[d] = AX[M[w].ax[d]].size();
      addvar<D>(*R[w], sh, 2);
      Model m2 = M[w];
      m2.var = 2;
      observe<D>(*R[w], m2, "source changed after the copy");
    }
    R[w].reset();
    observe<D>(c, M[w], "copy of a destroyed interpolator");
    observe<D>(a, M[w], "assigned from a destroyed interpolator");
  }
}
template<size_t D> static void histories(int prefix, int depth) {
  for (int n = 0; n <= depth; ++n)
    for (mc::Odo o(mc::rep(2 * NOP, n)); o; ++o) {
      std::vector<int> full;
      if (prefix) { for (size_t d = 0; d < D; ++d) full.push_back(0); for (size_t d = 0; d < D; ++d) full.push_back(NOP); }
      full.insert(full.end(), o.v.begin(), o.v.end());
      if (!enabled<D>(full)) continue;
      for (int ev = 0; ev < 2; ++ev) {
        if (!mc::Case([&] { return mc::str("dim=%zu prefix=%d evaluating after each operation=%d ops=", D, prefix, ev) + mc::vstr(o.v); })) continue;
        run<D>(prefix, o.v, ev);
      }
    }
}
// interpolators and variables which are nearly alike
template<size_t D> static void alike() {
  for (double e : {1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 1e-2}) for (int at = 0; at < (1 << D) + (int) D; ++at) for (int how = 0; how < 3; ++how) {
    if (!mc::Case([&] { return mc::str("dim=%zu nearly alike by %g in entry %d, way %d", D, e, at, how); })) continue;
    std::array<size_t, D> sh;
    sh.fill(2);
    boost::multi_array<double, D> A(sh), B(sh);
    for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = B.data()[i] = 1 + mc::gen((int) i) / 8;
    std::vector<V> GA(D, V{0, 1}), GB = GA;
    if (at < (1 << D)) B.data()[at] += e; else GB[at - (1 << D)][1] += e;
    if (how == 1 && GA != GB) continue;
    auto val = [&](const std::vector<V> &G, const boost::multi_array<double, D> &Y, double q) {
      mc::LD r = 0;
      for (unsigned v = 0; v < (1u << D); ++v) {
        mc::LD w = 1;
        size_t idx = 0;
        for (size_t d = 0; d < D; ++d) { int b = (v >> d) & 1; mc::LD t = ((mc::LD) q - G[d][0]) / ((mc::LD) G[d][1] - G[d][0]); w *= b ? t : 1 - t; idx = idx * 2 + b; }
        r += w * Y.data()[idx];
      }
      return r;
    };
    auto see = [&](const RGI<D> &R, const std::vector<V> &G, const boost::multi_array<double, D> &Y, const char *who) {
      for (double q : {0.75, 0.3125, 0.75}) {
        std::array<double, D> p;
        p.fill(q);
        mc::Visit("alike", D, e, at, how, who, q);
        mc::Near(R.Interp(p), val(G, Y, q), 0, 4e-15L, "%s", who);
      }
      for (size_t d = 0; d < D; ++d) { mc::SameV(R.GetCoord(d), G[d], "%s: axis", who); mc::Same(R.GetCoordMaxVal(d), G[d][1], "%s: upper bound", who); }
      std::array<size_t, D> ix;
      for (unsigned v = 0; v < (1u << D); ++v) { for (size_t d = 0; d < D; ++d) ix[d] = (v >> (D - 1 - d)) & 1; mc::Same(R.EvalAtIndice(ix), Y.data()[v], "%s: stored value", who); }
    };
    RGI<D> a, b;
    for (auto &g : GA) a.AddCoord(g);
    for (auto &g : GB) b.AddCoord(g);
    a.AddVar(A); see(a, GA, A, "first");
    b.AddVar(B); see(b, GB, B, "second"); see(a, GA, A, "first again");
    if (how == 0) { b = a; see(b, GA, A, "assigned over one nearly alike"); }
    if (how == 1) { a.AddVar(B); see(a, GB, B, "variable nearly alike"); a.AddVar(A); see(a, GA, A, "first variable again"); }
    if (how == 2) { RGI<D> c(b); c = a; see(c, GA, A, "copied, then assigned"); c = b; see(c, GB, B, "assigned again"); see(a, GA, A, "source"); }
    mc::Outcome("nearly alike");
  }
}
// moves, swaps and containers of interpolators; the source is destroyed or gets another content, and its memory is used again
template<size_t D> static void moved() {
  for (int how = 0; how < 8; ++how) for (int big = 0; big < 2; ++big) {
    if (!mc::Case([&] { return mc::str("dim=%zu moved, way %d, size %d", D, how, big); })) continue;
    std::array<size_t, D> sh; std::vector<V> G;
    for (size_t d = 0; d < D; ++d) { V g; for (int i = 0; i < (big ? 9 : 2) + (int) d; ++i) g.push_back(i * 1.25 - (int) d); sh[d] = g.size(); G.push_back(g); }
    auto fill = [&](RGI<D> &R, double k) { boost::multi_array<double, D> A(sh); for (size_t i = 0; i < A.num_elements(); ++i) A.data()[i] = k * (1 + (double) i); R.AddVar(A); };
    auto make = [&](double k) { std::unique_ptr<RGI<D>> r(new RGI<D>); for (auto &g : G) r->AddCoord(g); fill(*r, k); return r; };
    auto see = [&](const RGI<D> &R, double k, const char *who) {
      std::vector<int> n;
      for (size_t d = 0; d < D; ++d) { n.push_back((int) sh[d]); mc::SameV(R.GetCoord(d), G[d], "%s: axis", who); }
      size_t i = 0;
      for (mc::Odo o(n); o; ++o, ++i) {
        std::array<size_t, D> ix; std::array<double, D> p;
        for (size_t d = 0; d < D; ++d) { ix[d] = o[d]; p[d] = G[d][o[d]]; }
        if (i % 7 && i > 9) continue;
        mc::Visit("moved", D, how, big, who, i);
        mc::Same(R.EvalAtIndice(ix), k * (1 + (double) i), "%s: stored value %zu", who, i);
        mc::Near(R.Interp(p), k * (1 + (double) i), 0, 1e-12L, "%s: node %zu", who, i);
      }
    };
    auto junk = [&] { std::vector<std::vector<double>> j; size_t n = 1; for (size_t v : sh) n *= v; for (int i = 0; i < 8; ++i) j.push_back(V(n, 77.)); return j; };   // takes the memory of what was released
    auto a = make(1), b = make(-3);
    if (how == 0) { RGI<D> m(std::move(*a)); a.reset(); auto j = junk(); see(m, 1, "moved from a destroyed one"); }
    if (how == 1) { RGI<D> m(std::move(*a)); *a = *b; auto j = junk(); see(m, 1, "moved from one that was assigned since"); see(*a, -3, "assigned after it was moved from"); }
    if (how == 2) { RGI<D> m(*b); m = std::move(*a); a.reset(); auto j = junk(); see(m, 1, "move-assigned"); see(*b, -3, "other"); }
    if (how == 3) { std::swap(*a, *b); auto j = junk(); see(*a, -3, "swapped"); see(*b, 1, "swapped"); fill(*a, 5); see(*a, 5, "swapped and set again"); see(*b, 1, "swapped, other set again"); b.reset(); auto j2 = junk(); see(*a, 5, "other destroyed"); }
    if (how == 4) { std::vector<RGI<D>> v; for (int i = 0; i < 5; ++i) v.push_back(i % 2 ? *b : *a); a.reset(); auto j = junk(); for (int i = 0; i < 5; ++i) see(v[i], i % 2 ? -3 : 1, "in a grown vector"); v.erase(v.begin()); auto j2 = junk(); for (int i = 0; i < 4; ++i) see(v[i], i % 2 ? 1 : -3, "in a vector after an erasure"); }
    if (how == 5) { std::vector<RGI<D>> v; v.push_back(std::move(*a)); v.push_back(std::move(*b)); a.reset(); b.reset(); auto j = junk(); v.resize(9); auto j2 = junk(); see(v[0], 1, "moved into a vector"); see(v[1], -3, "moved into a vector"); v[4] = v[0]; v[0] = v[1]; see(v[4], 1, "assigned within a vector"); see(v[0], -3, "assigned within a vector"); }
    if (how == 6) { auto f = [&](double k) { RGI<D> r; for (auto &g : G) r.AddCoord(g); fill(r, k); return r; }; RGI<D> m = f(2), q(*a); q = f(4); auto j = junk(); see(m, 2, "returned by a function"); see(q, 4, "assigned from a function"); see(*a, 1, "source"); }
    if (how == 7) { RGI<D> m(std::move(*a)); fill(m, 6); RGI<D> k2(std::move(m)); a.reset(); m = *b; auto j = junk(); see(k2, 6, "moved twice"); see(m, -3, "assigned after it was moved from"); fill(m, 8); see(k2, 6, "moved twice, source set again"); }
    mc::Outcome("moved");
  }
}
template<size_t D> static void refusals() {
  for (int k = 0; k < 6; ++k) {
    if (!mc::Case([&] { return mc::str("dim=%zu refusal %d", D, k); })) continue;
    mc::Visit("refusal", D, k);
    RGI<D> R;
    for (size_t d = 0; d + (k == 1 ? 1 : 0) < D; ++d) R.AddCoord(AX[1]);
    std::array<size_t, D> sh;
    sh.fill(2);
    if (k >= 2) addvar<D>(R, sh, 0);
    mc::Ending e = mc::InChild([&] {
      if (k == 0 || k == 2) R.AddCoord(AX[0]);
      if (k == 1) addvar<D>(R, sh, 0);
      if (k == 3) R.GetCoord(D);
      if (k == 4) R.GetCoordMinVal(D);
      if (k == 5) R.GetCoordMaxVal(D + 2);
    });
    MC_CHECK(e != mc::RETURNED && e != mc::EXIT_ZERO && e != mc::MISUSE, "inadmissible request %d %s", k, mc::endname(e));
    mc::Outcome("request refused");
  }
}
static void explore() {
  histories<2>(0, mc::Tier(4, 5));
  histories<2>(1, mc::Tier(4, 5));
  histories<2>(2, mc::Tier(3, 4));
  histories<2>(3, mc::Tier(3, 4));
  histories<3>(1, mc::Tier(2, 3));
  histories<1>(0, mc::Tier(4, 5));
  histories<1>(2, mc::Tier(4, 5));
  histories<1>(3, mc::Tier(3, 4));
  moved<1>(); moved<2>(); moved<3>();
  alike<1>(); alike<2>(); alike<3>();
  refusals<1>(); refusals<2>(); refusals<3>();
}
MC_MAIN(explore)
