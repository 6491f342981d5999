// C12 - planar vectors: frames and transport.
//@bounds quick: all pairs of 9 component values x 176 angles (multiples of 15 deg up to +-390 deg, 1e-10 to 1e-1 deg around multiples of 90 deg, tiny, large) x 2 angle units x all projection forms; 49 vectors x 49 points x 9 rates x 6 frequency units for transport (also with the point being the vector or the output itself); 49 speeds x 88 angles x 2 x 3 x 3 units for the velocity builder; double and float; one application and all histories of up to 3 in-place operations out of 6
//@bounds thorough: 11 component values, 150 angles, histories up to 5
//@model plane rotation and rigid-body velocity transport in long double
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
static const LD PI = 3.14159265358979323846264338327950288L;
struct P { LD x, y; };
static P rot(P v, LD a) { LD c = cosl(a), s = sinl(a); return {c * v.x - s * v.y, s * v.x + c * v.y}; }
static LD rad(LD a, ANGLE_UNIT u) { return u == DEG ? a * PI / 180 : a; }
static LD rads(LD w, FREQUENCY_UNIT u) {
  switch (u) { case HERTZ: return w * 2 * PI; case RADS: return w; case DEGS: return w * PI / 180; case DEGM: return w * PI / 10800; case RPM: return w * 2 * PI / 60; default: return 2 * PI / w; }
}
static LD speed(LD v, SPEED_UNIT a, SPEED_UNIT b) {
  LD f[3] = {1, 1852.0L / 3600, 1000.0L / 3600};
  return v * f[a] / f[b];
}
template<class V> static void is(const V &g, P w, LD sc, LD eps, const char *what) {
  mc::Near(g.at(0), w.x, sc, eps, "%s, first component", what);
  mc::Near(g.at(1), w.y, sc, eps, "%s, second component", what);
}
template<class R> static void project(R x, R y, R a, ANGLE_UNIT u, LD eps) {
  if (!mc::Case([&] { return mc::str("%s vector (%.9g,%.9g) angle %.17g %s", sizeof(R) == 4 ? "float" : "double", (double) x, (double) y, (double) a, u == DEG ? "DEG" : "RAD"); })) return;
  LD th = rad(a, u), sc = hypotl(x, y);
  eps *= 1 + fabsl(th);
  P v{x, y}, ned = rot(v, th), loc = rot(v, -th);
  typedef Vector2d<R> V;
  const V in(x, y);
  mc::Visit((int) sizeof(R), (double) x, (double) y, (double) a, (int) u);
  V o(99, -99);
  in.ProjectLocalOnNED(o, a, u); is(o, ned, sc, eps, "ProjectLocalOnNED copy-out");
  in.ProjectNEDOnLocal(o, a, u); is(o, loc, sc, eps, "ProjectNEDOnLocal copy-out");
  V p = in; p.ProjectLocalOnNED(a, u); is(p, ned, sc, eps, "ProjectLocalOnNED in place");
  mc::Near(hypotl(p.at(0), p.at(1)), sc, 0, 2 * eps, "norm after projection");
  p.ProjectNEDOnLocal(a, u); is(p, v, sc, 3 * eps, "projection there and back");
  p = in; p.ProjectNEDOnLocal(a, u); is(p, loc, sc, eps, "ProjectNEDOnLocal in place");
  p.ProjectLocalOnNED(a, u); is(p, v, sc, 3 * eps, "reverse projection there and back");
  p = in; p.ProjectLocalOnNED(p, a, u); is(p, ned, sc, eps, "ProjectLocalOnNED onto itself");
  p = in; p.ProjectNEDOnLocal(p, a, u); is(p, loc, sc, eps, "ProjectNEDOnLocal onto itself");
  is(ProjectLocalOnNED(in, a, u), ned, sc, eps, "free ProjectLocalOnNED");
  is(ProjectNEDOnLocal(in, a, u), loc, sc, eps, "free ProjectNEDOnLocal");
  mc::Near(in.ProjectOnNorthAxis(a, u), ned.x, sc, eps, "ProjectOnNorthAxis");
  mc::Near(in.ProjectOnEastAxis(a, u), ned.y, sc, eps, "ProjectOnEastAxis");
  mc::Near(in.ProjectOnLocalXAxis(a, u), loc.x, sc, eps, "ProjectOnLocalXAxis");
  mc::Near(in.ProjectOnLocalYAxis(a, u), loc.y, sc, eps, "ProjectOnLocalYAxis");
  mc::Near(ProjectOnNorthAxis(in, a, u), ned.x, sc, eps, "free ProjectOnNorthAxis");
  mc::Near(ProjectOnEastAxis(in, a, u), ned.y, sc, eps, "free ProjectOnEastAxis");
  mc::Near(ProjectOnLocalXAxis(in, a, u), loc.x, sc, eps, "free ProjectOnLocalXAxis");
  mc::Near(ProjectOnLocalYAxis(in, a, u), loc.y, sc, eps, "free ProjectOnLocalYAxis");
  V s(5, 6); s.SetNEDFromLocal(x, y, a, u); is(s, ned, sc, eps, "SetNEDFromLocal");
  if (u == RAD) {   // default unit
    p = in; p.ProjectLocalOnNED(a); is(p, ned, sc, eps, "ProjectLocalOnNED default unit");
    p = in; p.ProjectNEDOnLocal(a); is(p, loc, sc, eps, "ProjectNEDOnLocal default unit");
    in.ProjectLocalOnNED(o, a); is(o, ned, sc, eps, "copy-out default unit");
    in.ProjectNEDOnLocal(o, a); is(o, loc, sc, eps, "copy-out default unit");
    is(ProjectLocalOnNED(in, a), ned, sc, eps, "free default unit");
    is(ProjectNEDOnLocal(in, a), loc, sc, eps, "free default unit");
    s.SetNEDFromLocal(x, y, a); is(s, ned, sc, eps, "SetNEDFromLocal default unit");
    mc::Near(in.ProjectOnNorthAxis(a), ned.x, sc, eps, "North default unit"); mc::Near(in.ProjectOnEastAxis(a), ned.y, sc, eps, "East default unit");
    mc::Near(in.ProjectOnLocalXAxis(a), loc.x, sc, eps, "X default unit"); mc::Near(in.ProjectOnLocalYAxis(a), loc.y, sc, eps, "Y default unit");
  }
  MC_CHECK(in.at(0) == x && in.at(1) == y, "projection modified its input");
  mc::Outcome("projection");
}
template<class R> static void transport(R x, R y, R px, R py, R w, FREQUENCY_UNIT u, LD eps) {
  if (u == S && w == 0) return;
  if (!mc::Case([&] { return mc::str("transport (%.9g,%.9g) at (%.9g,%.9g) w=%.9g unit %d", (double) x, (double) y, (double) px, (double) py, (double) w, (int) u); })) return;
  mc::Visit("t", (double) x, (double) y, (double) px, (double) py, (double) w, (int) u);
  LD o = rads(w, u), sc = fabsl(x) + fabsl(y) + (fabsl(px) + fabsl(py)) * fabsl(o);
  P r{x - o * py, y + o * px};
  typedef Vector2d<R> V;
  const V in(x, y), pt(px, py);
  V q(9, 9);
  in.TransportAtPoint(q, pt, w, u); is(q, r, sc, eps, "TransportAtPoint copy-out");
  q = in; q.TransportAtPoint(pt, w, u); is(q, r, sc, eps, "TransportAtPoint in place");
  q = in; q.TransportAtPoint(q, pt, w, u); is(q, r, sc, eps, "TransportAtPoint onto itself");
  is(TransportAtPoint(in, pt, w, u), r, sc, eps, "free TransportAtPoint");
  q = pt; in.TransportAtPoint(q, q, w, u); is(q, r, sc, eps, "TransportAtPoint copy-out onto the point");
  P r2{x - o * y, y + o * x};
  LD sc2 = (fabsl(x) + fabsl(y)) * (1 + fabsl(o));
  q = in; q.TransportAtPoint(q, w, u); is(q, r2, sc2, eps, "TransportAtPoint in place at itself");
  in.TransportAtPoint(q, in, w, u); is(q, r2, sc2, eps, "TransportAtPoint copy-out at itself");
  q = in; q.TransportAtPoint(q, q, w, u); is(q, r2, sc2, eps, "TransportAtPoint onto itself at itself");
  q = in; is(TransportAtPoint(q, q, w, u), r2, sc2, eps, "free TransportAtPoint at itself"); MC_CHECK(q == in, "free TransportAtPoint modified its input");
  if (u == RADS) {
    q = in; q.TransportAtPoint(pt, w); is(q, r, sc, eps, "in place, default unit");
    in.TransportAtPoint(q, pt, w); is(q, r, sc, eps, "copy-out, default unit");
    is(TransportAtPoint(in, pt, w), r, sc, eps, "free, default unit");
  }
  MC_CHECK(in.at(0) == x && in.at(1) == y && pt.at(0) == px && pt.at(1) == py, "transport modified its input");
  mc::Outcome("transport");
}
static void ned(double l, double t, double a, ANGLE_UNIT au, SPEED_UNIT iu, SPEED_UNIT ou) {
  if (!mc::Case([&] { return mc::str("NED velocity (%.9g,%.9g) angle %.9g units %d %d %d", l, t, a, (int) au, (int) iu, (int) ou); })) return;
  mc::Visit("ned", l, t, a, (int) au, (int) iu, (int) ou);
  P r = rot({speed(l, iu, ou), speed(t, iu, ou)}, rad(a, au));
  LD sc = hypotl(r.x, r.y), eps = 1e-14L * (1 + fabsl(rad(a, au)));
  is(GetNEDVelocityVector(l, t, a, au, iu, ou), r, sc, eps, "GetNEDVelocityVector");
  if (ou == MS) {
    is(GetNEDVelocityVector(l, t, a, au, iu), r, sc, eps, "default output unit");
    if (iu == KNOT) {
      is(GetNEDVelocityVector(l, t, a, au), r, sc, eps, "default speed units");
      if (au == RAD) is(GetNEDVelocityVector(l, t, a), r, sc, eps, "all default units");
    }
  }
  mc::Outcome("NED velocity");
}
static void explore() {
  std::vector<double> c = {0, 1, -1, 2.5, -3.75, 1e6, -1e-6, 3e-12, -2e9};
  if (mc::Thorough()) for (double v : {0.1, -77.0, 1e-150, 1e150}) c.push_back(v);
  std::vector<double> deg = {1e-9, 1234.5, -720};
  for (double b : {0., 90., -90., 180., -270., 360.}) for (double e : {1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10}) for (int s = -1; s <= 1; s += 2) deg.push_back(b + s * e);
  for (int k = mc::Tier(-26, -70); k <= mc::Tier(26, 70); ++k) deg.push_back(15.0 * k);
  for (double x : c) for (double y : c) for (double d : deg) {
    project<double>(x, y, d, DEG, 1e-14L);
    project<double>(x, y, (double) (d * PI / 180), RAD, 1e-14L);
    if (fabs(x) < 1e20 && fabs(y) < 1e20 && (fabs(x) > 1e-20 || x == 0) && (fabs(y) > 1e-20 || y == 0)) {
      project<float>((float) x, (float) y, (float) d, DEG, 3e-6L);
      project<float>((float) x, (float) y, (float) (d / 57), RAD, 3e-6L);
    }
  }
  double w[9] = {0, 1, -1, 0.25, -30, 1e4, 1e-4, -3e-9, 2e-13};
  FREQUENCY_UNIT fu[6] = {HERTZ, RADS, DEGS, DEGM, S, RPM};
  for (size_t i = 0; i < 7; ++i) for (size_t j = 0; j < 7; ++j) for (size_t k = 0; k < 7; ++k) for (size_t l = 0; l < 7; ++l)
    for (int m = 0; m < 9; ++m) for (FREQUENCY_UNIT u : fu) {
      transport<double>(c[i], c[j], c[k], c[l], w[m], u, 1e-14L);
      if (m < 3) transport<float>((float) c[i], (float) c[j], (float) c[k], (float) c[l], (float) w[m], u, 3e-6L);
    }
  SPEED_UNIT su[3] = {MS, KNOT, KMH};
  for (size_t i = 0; i < 7; ++i) for (size_t j = 0; j < 7; ++j) for (size_t d = 0; d < deg.size(); d += 2)
    for (int au = 0; au < 2; ++au) for (SPEED_UNIT a : su) for (SPEED_UNIT b : su)
      ned(c[i], c[j], au == DEG ? deg[d] : deg[d] / 50, (ANGLE_UNIT) au, a, b);
  // histories of in-place operations against the model
  for (int n = 1; n <= mc::Tier(3, 5); ++n)
    for (mc::Odo o(mc::rep(6, n)); o; ++o) {
      if (!mc::Case([&] { std::string s = "history"; for (int i = 0; i < n; ++i) s += mc::str(" %d", o[i]); return s; })) continue;
      Vector2d<double> v(1, -2), pt(0.5, 3);
      P m{1, -2};
      for (int i = 0; i < n; ++i) {
        mc::Visit("h", v.at(0), v.at(1), o[i]);
        switch (o[i]) {
          case 0: v.ProjectLocalOnNED(30., DEG); m = rot(m, PI / 6); break;
          case 1: v.ProjectNEDOnLocal(1.25, RAD); m = rot(m, -1.25L); break;
          case 2: v.TransportAtPoint(pt, 2., RPM); { LD w = rads(2, RPM); m = {m.x - w * 3, m.y + w * 0.5L}; } break;
          case 3: { const Vector2d<double> k = v; k.ProjectLocalOnNED(v, -100., DEG); m = rot(m, -100 * PI / 180); } break;
          case 4: v.SetNEDFromLocal(4, 5, 0.5); m = rot({4, 5}, 0.5L); break;
          case 5: { Vector2d<double> k = v; v.TransportAtPoint(k, 0.5); m = {m.x - 0.5L * m.y, m.y + 0.5L * m.x}; } break;
        }
        is(v, m, 10, 1e-12L, "history");
      }
      mc::Outcome("history");
    }
}
MC_MAIN(explore)
