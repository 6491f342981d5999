// C11 - unit conversions.
//@bounds quick: 3x3 velocity and 6x6 frequency unit pairs, all third units, 120 magnitudes (powers of ten and two from 1e-30 to 1e30, both signs, zero, 40 generic values), double and float; vectors of every length 0..6 over all words of 3 values, all lengths up to 140 and some up to 1100
//@bounds thorough: additionally 20000 generic values and vectors up to length 8 over 3 values, up to 5000 entries
//@model exact conversion factors in long double
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
static const LD PI = 3.14159265358979323846264338327950288L;
static LD toMS(int u, LD v) { return u == MS ? v : u == KNOT ? v * 1852 / 3600 : v * 1000 / 3600; }
static LD fromMS(int u, LD v) { return u == MS ? v : u == KNOT ? v * 3600 / 1852 : v * 3600 / 1000; }
static LD toHz(int u, LD v) {
  switch (u) { case HERTZ: return v; case RADS: return v / (2 * PI); case DEGS: return v / 360; case DEGM: return v / 21600; case RPM: return v / 60; default: return 1 / v; }
}
static LD fromHz(int u, LD v) {
  switch (u) { case HERTZ: return v; case RADS: return v * 2 * PI; case DEGS: return v * 360; case DEGM: return v * 21600; case RPM: return v * 60; default: return 1 / v; }
}
static const char *FN[6] = {"HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM"};
static const char *VN[3] = {"MS", "KNOT", "KMH"};
template<class R> static void value(R v, LD eps, const char *ty) {
  SPEED_UNIT su[3] = {MS, KNOT, KMH};
  for (SPEED_UNIT a : su) for (SPEED_UNIT b : su) {
    if (!mc::Case([&] { return mc::str("%s velocity %.17g %s->%s", ty, (double) v, VN[a], VN[b]); })) continue;
    mc::Visit(ty, "v", (double) v, (int) a, (int) b);
    LD w = fromMS(b, toMS(a, v));
    R g = convert_velocity_unit<R>(v, a, b);
    mc::Near(g, w, 0, eps, "%.17g %s in %s", (double) v, VN[a], VN[b]);
    if (b == MS) mc::Near(convert_velocity_unit<R>(v, a), w, 0, eps, "default target, from %s", VN[a]);
    mc::Near(convert_velocity_unit<R>(g, b, a), v, 0, 4 * eps, "%s -> %s -> back", VN[a], VN[b]);
    for (SPEED_UNIT c : su) mc::Near(convert_velocity_unit<R>(convert_velocity_unit<R>(v, a, c), c, b), w, 0, 4 * eps, "%s -> %s -> %s", VN[a], VN[c], VN[b]);
    R n = g;
    if (a == KNOT && b == MS) n = KNOT2MS(v);
    if (a == MS && b == KNOT) n = MS2KNOT(v);
    if (a == KMH && b == MS) n = KMH2MS(v);
    if (a == MS && b == KMH) n = MS2KMH(v);
    if (a == KMH && b == KNOT) n = KMH2KNOT(v);
    if (a == KNOT && b == KMH) n = KNOT2KMH(v);
    mc::Near(n, w, 0, eps, "named conversion %s to %s of %.17g", VN[a], VN[b], (double) v);
    mc::Outcome("velocity");
  }
  FREQUENCY_UNIT fu[6] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
  for (FREQUENCY_UNIT a : fu) for (FREQUENCY_UNIT b : fu) {
    if (v == 0 && (a == S || b == S)) continue;   // no finite period of a null frequency
    if (!mc::Case([&] { return mc::str("%s frequency %.17g %s->%s", ty, (double) v, FN[a], FN[b]); })) continue;
    mc::Visit(ty, "f", (double) v, (int) a, (int) b);
    LD w = a == b ? (LD) v : fromHz(b, toHz(a, v));
    R g = convert_frequency<R>(v, a, b);
    mc::Near(g, w, 0, eps, "%.17g %s in %s", (double) v, FN[a], FN[b]);
    mc::Near(convert_frequency<R>(g, b, a), v, 0, 4 * eps, "%s -> %s -> back", FN[a], FN[b]);
    for (FREQUENCY_UNIT c : fu) if (v != 0 || c != S)
      mc::Near(convert_frequency<R>(convert_frequency<R>(v, a, c), c, b), w, 0, 4 * eps, "%s -> %s -> %s of %.17g", FN[a], FN[c], FN[b], (double) v);
    R n = g;
    if (a == DEGS && b == RADS) n = DEGS2RADS(v);
    if (a == RADS && b == DEGS) n = RADS2DEGS(v);
    if (a == HERTZ && b == RADS) n = HZ2RADS(v);
    if (a == RADS && b == HERTZ) n = RADS2HZ(v);
    if (a == HERTZ && b == S) n = HZ2S(v);
    if (a == S && b == HERTZ) n = S2HZ(v);
    if (a == RADS && b == S) n = RADS2S(v);
    if (a == S && b == RADS) n = S2RADS(v);
    if (a == RPM && b == RADS) n = RPM2RADS(v);
    if (a == RADS && b == RPM) n = RADS2RPM(v);
    if (a == DEGM && b == RADS) n = DEGM2RADS(v);
    if (a == RADS && b == DEGM) n = RADS2DEGM(v);
    mc::Near(n, w, 0, eps, "named conversion %s to %s of %.17g", FN[a], FN[b], (double) v);
    mc::Outcome("frequency");
  }
}
template<class T> static void vec(const std::vector<T> &v, LD eps, const char *ty) {
  if (!mc::Case([&] { return mc::str("%s vector ", ty) + mc::vstr(v); })) return;
  LD f[3] = {PI / 180, 180 / PI, 1852.0L / 3600};
  const char *n[3] = {"deg2rad", "rad2deg", "kt2ms"};
  for (int k = 0; k < 3; ++k) {
    auto chk = [&](const std::vector<T> &g, const char *how) {
      mc::Same(g.size(), v.size(), "%s %s: size", n[k], how);
      for (size_t i = 0; i < v.size(); ++i) mc::Near(g[i], v[i] * f[k], 0, eps, "%s %s, entry %zu", n[k], how, i);
    };
    std::vector<T> in = v;
    mc::Visit(ty, "vec", k, std::vector<double>(v.begin(), v.end()));
    k == 0 ? deg2rad(in) : k == 1 ? rad2deg(in) : kt2ms(in);
    chk(in, "in place");
    for (size_t pre : {(size_t) 0, v.size(), v.size() + 3, v.size() / 2}) {
      std::vector<T> src = v, out(pre, (T) 77);
      k == 0 ? deg2rad(src, out) : k == 1 ? rad2deg(src, out) : kt2ms(src, out);
      chk(out, "by copy");
      mc::SameV(src, v, "%s by copy: source", n[k]);
      k == 0 ? deg2rad(src, out) : k == 1 ? rad2deg(src, out) : kt2ms(src, out);
      chk(out, "by copy, output reused");
    }
    in = v;
    k == 0 ? deg2rad(in, in) : k == 1 ? rad2deg(in, in) : kt2ms(in, in);
    chk(in, "by copy onto itself");
  }
  mc::Outcome("vector");
}
static void explore() {
  std::vector<double> vals = {0, 1, -1, 60, 360, -360, 0.1, 3600, 1852, 9.549296585513721, 6.283185307179586};
  for (int e = -30; e <= 30; e += 2) { vals.push_back(pow(10, e)); vals.push_back(-pow(10, e)); }
  for (int e = -40; e <= 40; e += 10) vals.push_back(ldexp(1, e));
  for (int i = 0; i < mc::Tier(40, 20000); ++i) vals.push_back(mc::gen(i) * (1 + i % 7) + 0.001);
  for (double v : vals) {
    value<double>(v, 1e-14L, "double");
    if (fabs(v) < 1e20 && (v == 0 || fabs(v) > 1e-20)) value<float>((float) v, 2e-6L, "float");
  }
  double a[3] = {1, -90.5, 1e6};
  for (int n = 0; n <= mc::Tier(6, 8); ++n)
    for (mc::Odo o(mc::rep(3, n)); o; ++o) {
      std::vector<double> v;
      for (int i = 0; i < n; ++i) v.push_back(a[o[i]] + i);
      vec(v, 1e-14L, "double");
      if (n <= 4) vec(std::vector<float>(v.begin(), v.end()), 2e-6L, "float");
    }
  for (int n = 7; n <= mc::Tier(1100, 5000); n = n < 140 ? n + 1 : 2 * n - 23) {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) v.push_back(mc::gen(i) * 100);
    vec(v, 1e-14L, "double");
  }
}
MC_MAIN(explore)
