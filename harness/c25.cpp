// C25 - generated sequences.
//@bounds quick: linspace and logspace (9 bases, float and double) for all pairs of 27 ends and all counts 2..40 plus 97,100,101,128,1000,1001 (to 65537 for 12 pairs), ends 1e-15..1e-3 apart; arange for 21 starts x 24 dyadic steps x all sequence lengths 1..40 with a stop at, half a step below and slivers of 2^-10, 2^-20, 2^-30 steps above/below a multiple (ten lengths to 65536), plus decimal steps
//@bounds thorough: counts up to 300, stepped lengths up to 300
//@model exact positions in long double; counts by exact arithmetic for dyadic data
//@assume decimal steps: an end within 1e-9 steps of a multiple may count or not
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
template<class R> void lin(R a, R b, unsigned n, const char *ty) {
  if (!mc::Case([&] { return mc::str("linspace<%s>(%.17g,%.17g,%u)", ty, (double) a, (double) b, n); })) return;
  mc::Visit("lin", ty, a, b, n);
  auto v = linspace<R>(a, b, n);
  LD e = std::numeric_limits<R>::epsilon() * 4, mag = std::max(fabsl(a), fabsl(b));
  mc::Same(v.size(), (size_t) n, "size");
  mc::Same(v.front(), a, "first"); mc::Same(v.back(), b, "last");
  for (unsigned i = 0; i < n; ++i) {
    mc::Near(v[i], (LD) a + i * ((LD) b - a) / (n - 1), mag, e, "entry %u", i);
    if (i) MC_CHECK(v[i] >= v[i - 1], "entry %u below its predecessor", i);
  }
  for (R base : {(R) 10, (R) 2, (R) 2.718281828459045, (R) 0.5, (R) 1, (R) 100, (R) 3, (R) 9.5, (R) 1.0001}) {
    if (mag * fabsl(logl(base)) > (sizeof(R) == 4 ? 80 : 600)) continue;
    mc::Visit("log", ty, a, b, n, base);
    auto w = logspace<R>(a, b, n, base);
    mc::Same(w.size(), (size_t) n, "logspace size");
    for (unsigned i = 0; i < n; ++i) { LD x = (LD) a + i * ((LD) b - a) / (n - 1); mc::Near(w[i], powl(base, x), 0, e * (2 + 2 * mag * fabsl(logl(base))), "logspace base %g entry %u", (double) base, i); }
    if (base == (R) 10) { auto d = logspace<R>(a, b, n); mc::SameV(d, w, "logspace default base"); }
  }
  mc::Outcome("linspace/logspace");
}
template<class R> void ar(R a, R b, R s, long want, bool exact, const char *ty) {
  if (!(a < b)) return;
  if (!mc::Case([&] { return mc::str("arange<%s>(%.17g,%.17g,%.17g)", ty, (double) a, (double) b, (double) s); })) return;
  mc::Visit("arange", ty, a, b, s);
  auto v = arange<R>(a, b, s);
  if (exact) mc::Same((long) v.size(), want, "size");
  else MC_CHECK(labs((long) v.size() - want) <= 1, "size %zu, expected about %ld", v.size(), want);
  LD mag = std::max(fabsl(a), fabsl(b));
  for (size_t i = 0; i < v.size(); ++i) {
    if (exact) mc::Same((LD) v[i], (LD) a + (LD) i * s, "entry %zu", i);
    else mc::Near(v[i], (LD) a + (LD) i * s, mag, std::numeric_limits<R>::epsilon() * 4, "entry %zu", i);
  }
  if (s == 1) mc::SameV(arange<R>(a, b), v, "default step");
  mc::Outcome("arange");
}
static void explore() {
  std::vector<double> E = {0, 1, -1, 0.1, -0.1, 0.5, 2, -2, 3, 7, -7, 10, -10, 100, 1e3, -1e3, 1e-3, 1e-9, -1e-9, 1e6, 1e12, -1e12, 1.0000000000000002, 0.30000000000000004, 3.141592653589793, 1e-300, 1e200};
  std::vector<unsigned> N; for (unsigned n = 2; n <= mc::Tier(40u, 300u); ++n) N.push_back(n);
  for (unsigned n : {97u, 100u, 101u, 128u, 1000u, 1001u}) if (n > N.back()) N.push_back(n);
  for (double a : E) for (double b : E) if (a <= b) for (unsigned n : N) { lin<double>(a, b, n, "double"); if (n < 12 && fabs(a) < 1e20 && fabs(b) < 1e20) lin<float>((float) a, (float) b, n, "float"); }
  std::vector<double> A = {0, 1, -1, 0.5, -0.5, 3, -3, 10, -10, 100, -100, 1024, -1024, 0.25, 7.75, -7.75, 1e4, -1e4, 0.125, 65536, -0.0625};
  std::vector<double> St = {1, 2, 0.5, 0.25, 0.125, 3, 5, 0.75, 1.5, 10, 7, 100, 0.03125, 1024, 2.25, 0.0009765625, 6, 9, 11, 0.375, 12.5, 33, 0.625, 1.125};
  for (double a : {0., -1., 0.1, 1e3}) for (double b : {1e3, 1e3 + 0.1, 1e6}) for (unsigned n : {2048u, 4097u, 10000u, 65536u, 65537u}) lin<double>(a, b, n, "double");
  for (double a : {1., -3., 0.1, 1e5, 1e-5}) for (double d : {1e-15, 1e-12, 1e-9, 1e-6, 1e-3}) for (unsigned n : {2u, 3u, 5u, 10u, 33u}) { lin<double>(a, a + d * fabs(a), n, "double"); lin<double>(a - d, a + d, n, "double"); }
  for (double a : {0., -3., 100.}) for (double s : {1., 0.5, 0.375, 7.}) for (int k : {255, 256, 257, 999, 1000, 1001, 1023, 1024, 4096, 65536}) { ar<double>(a, a + k * s, s, k, true, "double"); ar<double>(a, a + k * s - s / 2, s, k, true, "double"); ar<double>(a, a + k * s + s / 4, s, k + 1, true, "double"); }
  int K = mc::Tier(40, 300);
  for (double a : A) for (double s : St) for (int k = 1; k <= K; ++k) {
    double e = a + k * s, q = s / 1024;
    ar<double>(a, e, s, k, true, "double");
    ar<double>(a, e - s / 2, s, k, true, "double");
    ar<double>(a, e + q, s, k + 1, true, "double");
    ar<double>(a, e - q, s, k, true, "double");
    if (k <= 12) for (double f : {std::ldexp(1., -20), std::ldexp(1., -30)}) { double u = s * f; if ((e + u) - e == u && (e - u) - e == -u) { ar<double>(a, e + u, s, k + 1, true, "double"); ar<double>(a, e - u, s, k, true, "double"); } }
    if (k <= 8 && fabs(a) <= 100 && s > 0.01) { ar<float>((float) a, (float) e, (float) s, k, true, "float"); ar<float>((float) a, (float) (e - s / 2), (float) s, k, true, "float"); }
  }
  for (double a : {0., 0.1, -0.3, 1e3, 1e-6}) for (double s : {0.1, 0.01, 0.3, 1e-3, 1 / 3., 2.2, 1e-9, 1e6}) for (int k = 1; k <= K; ++k) {
    if (fabs(a) > 1e6 * s) continue;
    ar<double>(a, a + k * s, s, k, false, "double");
    ar<double>(a, a + (k - 0.5) * s, s, k, false, "double");
  }
}
MC_MAIN(explore)
