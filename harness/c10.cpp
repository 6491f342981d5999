// C10 - angle normalisation.
//@bounds quick: every multiple k*quarter-turn/3 for |k|<=240 with offsets {0, +-1..3 ulp, +-2^-k for k in 0..60}, every power of two +-2^-1074..2^1023 and its neighbours, all floats with a 20-bit prefix (2^20 values) as double inputs; both trigonometric units; every string over {D,E,G,R,A,d,' '} up to length 4 as unit name
//@bounds thorough: |k|<=5000, and all 2^32 float values as double inputs and (degrees) as float inputs
//@model the definition: value in range and congruent to the input modulo a turn, in long double
//@assume the radian turn is the double nearest to 2*pi; congruence is judged within 1e-15*|angle|
//@opt -O2
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
static const LD PI = 3.14159265358979323846264338327950288L;
// distance of (b-a) to the next multiple of turn
static LD off(LD a, LD b, LD turn) { LD d = remainderl(b - a, turn); return fabsl(d); }
static bool congruent(double a, double r, LD turn) {
  if (fabs(a) > 1e15) return true;   // rounding of the input exceeds the range
  return off(a, r, turn) <= 1e-14L * turn + 1e-15L * fabsl((LD) a);
}
template<class R> static const char *one(R a) {
  LD t2 = (LD) MU_2PI, tol = 2e-15L;
  double d0 = Normalize_0_360<double>(a), d1 = Normalize__180_180<double>(a);
  double r0 = Normalize_0_2PI<double>(a), r1 = Normalize__PI_PI<double>(a);
  if (!(d0 >= 0 && d0 < 360)) return "[0,360[ range";
  if (!(d1 > -180 && d1 <= 180)) return "]-180,180] range";
  if (!(r0 >= 0 && r0 < MU_2PI)) return "[0,2pi[ range";
  if (!(r1 > -M_PI && r1 <= M_PI)) return "]-pi,pi] range";
  if (!congruent(a, d0, 360)) return "[0,360[ changed the angle";
  if (!congruent(a, d1, 360)) return "]-180,180] changed the angle";
  if (!congruent(a, r0, t2)) return "[0,2pi[ changed the angle";
  if (!congruent(a, r1, t2)) return "]-pi,pi] changed the angle";
  // in-range angles unchanged
  if (a >= 0 && a < 360 && fabsl((LD) d0 - a) > 360 * tol) return "[0,360[ moved an angle already in range";
  if (a > -180 && a <= 180 && fabsl((LD) d1 - a) > 360 * tol) return "]-180,180] moved an angle already in range";
  if (a >= 0 && a < MU_2PI && fabsl((LD) r0 - a) > t2 * tol) return "[0,2pi[ moved an angle already in range";
  if (a > -M_PI && a <= M_PI && fabsl((LD) r1 - a) > t2 * tol) return "]-pi,pi] moved an angle already in range";
  // twice
  if (fabsl((LD) Normalize_0_360(d0) - d0) > 360 * tol) return "[0,360[ twice differs from once";
  if (fabsl((LD) Normalize__180_180(d1) - d1) > 360 * tol) return "]-180,180] twice differs from once";
  if (fabsl((LD) Normalize_0_2PI(r0) - r0) > t2 * tol) return "[0,2pi[ twice differs from once";
  if (fabsl((LD) Normalize__PI_PI(r1) - r1) > t2 * tol) return "]-pi,pi] twice differs from once";
  // plain remainders of non-negative angles
  if (a >= 0) {
    double m0 = modulo360<double>(a), m1 = modulo2pi<double>(a);
    if (!(m0 >= 0 && m0 < 360) || !congruent(a, m0, 360)) return "modulo360";
    if (!(m1 >= 0 && m1 < MU_2PI) || !congruent(a, m1, t2)) return "modulo2pi";
  }
  return nullptr;
}
static const char *trig(double a) {
  double c, s;
  if (fabs(a) > 1e7) return nullptr;
  LD e = 1e-15L + 1e-15L * fabsl((LD) a);
  _GetTrigo(a, c, s);
  if (fabsl(c - cosl((LD) a)) > e || fabsl(s - sinl((LD) a)) > e) return "cosine/sine, default unit (radian)";
  _GetTrigo(a, c, s, RAD);
  if (fabsl(c - cosl((LD) a)) > e || fabsl(s - sinl((LD) a)) > e) return "cosine/sine in radian";
  _GetTrigo(a, c, s, DEG);
  LD b = remainderl((LD) a, 360) * PI / 180;
  if (fabsl(c - cosl(b)) > e || fabsl(s - sinl(b)) > e) return "cosine/sine in degree";
  // degree and radian normalisations agree
  double rad = a * MU_PI_180;
  LD t2 = 2 * PI, tol = 1e-13L * (1 + fabsl((LD) rad));
  if (off((LD) Normalize_0_360(a) * PI / 180, Normalize_0_2PI(rad), t2) > tol) return "[0,360[ and [0,2pi[ disagree";
  if (off((LD) Normalize__180_180(a) * PI / 180, Normalize__PI_PI(rad), t2) > tol) return "]-180,180] and ]-pi,pi] disagree";
  return nullptr;
}
static void angle(double a) {
  if (!std::isfinite(a)) return;
  if (!mc::Case([&] { return mc::str("angle %.17g", a); })) return;
  mc::Visit(a);
  const char *e = one(a);
  if (!e) e = trig(a);
  MC_CHECK(!e, "angle %.17g: %s (normalised: %.17g %.17g %.17g %.17g)", a, e, Normalize_0_360(a), Normalize__180_180(a), Normalize_0_2PI(a), Normalize__PI_PI(a));
  mc::Outcome("normalised");
}
static void around(double a) {
  angle(a);
  double u = a, d = a;
  for (int i = 0; i < 3; ++i) { u = std::nextafter(u, INFINITY); d = std::nextafter(d, -INFINITY); angle(u); angle(d); }
}
// all floats whose bit pattern is p<<shift; one case per block
static void floats(int prefixbits) {
  int shift = 32 - prefixbits;
  const uint64_t n = 1ull << prefixbits, block = 1ull << 12;
  for (uint64_t b = 0; b < n; b += block) {
    if (!mc::Case([&] { return mc::str("floats with bit patterns %#llx..%#llx step %#x", (unsigned long long) (b << shift), (unsigned long long) ((b + block - 1) << shift), 1 << shift); })) continue;
    mc::Visit("floats", (long long) (b << shift));
    for (uint64_t i = b; i < b + block; ++i) {
      uint32_t w = (uint32_t) (i << shift);
      float f;
      memcpy(&f, &w, 4);
      if (!std::isfinite(f)) continue;
      ++mc::C().transitions; ++mc::C().checks;
      const char *e = one(f);
      if (e) mc::Fail("angle %.9g: %s", f, e);
      float g0 = Normalize_0_360(f), g1 = Normalize__180_180(f);
      bool ok = g0 >= 0 && g0 < 360 && g1 > -180 && g1 <= 180;
      if (ok && fabsf(f) < 1e6f) {
        LD tol = 1e-4L + 3e-7L * fabsl((LD) f);
        ok = off(f, g0, 360) <= tol && off(f, g1, 360) <= tol;
      }
      if (!ok) mc::Fail("single precision angle %.9g normalised to %.9g and %.9g", f, g0, g1);
    }
    mc::Outcome("float block");
  }
}
static void explore() {
  int K = mc::Tier(240, 5000);
  for (int unit = 0; unit < 2; ++unit)
    for (int k = -K; k <= K; ++k) {
      double a = unit ? k * (M_PI / 6) : k * 30.0;
      if (unit && k % 6 == 0) { around((k / 6) * M_PI); }
      around(a);
      if (k % 3 == 0 && abs(k) <= 240)
        for (int e = 0; e <= 60; ++e) { angle(a + ldexp(1, -e)); angle(a - ldexp(1, -e)); }
      else { angle(a + 0.1); angle(a - 7.3); }
    }
  for (int e = -1074; e <= 1023; ++e) { around(ldexp(1, e)); around(-ldexp(1, e)); }
  around(0); angle(-0.0); around(1.7976931348623157e308); around(-1.7976931348623157e308);
  floats(mc::Tier(20, 32));
  // unit names
  const char *al = "DEGRAd ";
  for (int len = 0; len <= 4; ++len)
    for (mc::Odo o(mc::rep(7, len)); o; ++o) {
      std::string s;
      for (int i = 0; i < len; ++i) s += al[o[i]];
      if (len == 4 && !(s.compare(0, 3, "DEG") == 0 || s.compare(0, 3, "RAD") == 0 || s.compare(1, 3, "DEG") == 0 || s.compare(1, 3, "RAD") == 0)) continue;
      if (!mc::Case([&] { return "unit name '" + s + "'"; })) continue;
      mc::Visit("unit", s);
      if (s == "DEG") mc::Same((int) STRING2ANGLE(s), (int) DEG, "unit of DEG");
      else if (s == "RAD") mc::Same((int) STRING2ANGLE(s), (int) RAD, "unit of RAD");
      else {
        mc::Ending e = mc::InChild([&] { STRING2ANGLE(s); });
        MC_CHECK(e != mc::RETURNED && e != mc::EXIT_ZERO && e != mc::MISUSE, "unit name '%s' %s", s.c_str(), mc::endname(e));
        mc::Outcome("unit refused");
      }
    }
}
MC_MAIN(explore)
