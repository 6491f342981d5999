// C29 - scalar helpers.
//@bounds quick: sign, saturation, signed square root over all triples of 31 doubles/floats (magnitudes 5e-324..1e308, signs, representable neighbours of the bounds) and of 17 values of 5 integer types including their extremes; parity of every integer in [-2000,2000] and around the extremes of 8 types; closeness over all pairs of 37 values x 6 relative x 6 absolute tolerances and of all vector pairs of length 0..3 over 6 values and of lengths 1..70 and seven up to 1025 with a deviation at every position, and an undefined number at every position up to length 5
//@bounds thorough: parity in [-100000,100000]; vectors up to length 4 over 6 values
//@model the definitions, evaluated in long double / __int128; closeness decided except within 1e-12 (relative) of the tolerance
//@assume finite values (closeness: also undefined numbers)
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
template<class T> std::string pr(T v) { std::ostringstream o; o.precision(21); o << +v; return o.str(); }
template<class T> void scal(const std::vector<T> &A, const char *ty) {
  for (T v : A) {
    if (!mc::Case([&] { return std::string(ty) + " helpers at " + pr(v); })) continue;
    mc::Visit("sgn", ty, (LD) v);
    mc::Same(sgn<T>(v), v > 0 ? 1 : v < 0 ? -1 : 0, "sgn<%s>(%s)", ty, pr(v).c_str());
    for (T a : A) for (T b : A) if (a <= b) {
      mc::Visit("sat", ty, (LD) v, (LD) a, (LD) b);
      T r = Saturate<T>(v, a, b);
      T w = v < a ? a : v > b ? b : v;
      MC_CHECK(r == w, "Saturate<%s>(%s; %s, %s) = %s", ty, pr(v).c_str(), pr(a).c_str(), pr(b).c_str(), pr(r).c_str());
    }
    mc::Outcome("sign and saturation");
  }
}
template<class T> void roots(const std::vector<T> &A, const char *ty) {
  for (T v : A) {
    if (!mc::Case([&] { return std::string(ty) + " signed root of " + pr(v); })) continue;
    mc::Visit("root", ty, (LD) v);
    LD w = v > 0 ? sqrtl(v) : v < 0 ? -sqrtl(-(LD) v) : 0;
    mc::Near(SgnSqrt<T>(v), w, 0, 4 * (LD) std::numeric_limits<T>::epsilon(), "SgnSqrt<%s>(%s)", ty, pr(v).c_str());
    mc::Outcome("signed root");
  }
}
template<class T> void parity(std::vector<T> A, const char *ty) {
  for (T v : A) {
    if (!mc::Case([&] { return std::string("parity of ") + ty + " " + pr(v); })) continue;
    mc::Visit("parity", ty, (long long) v);
    __int128 q = v; bool odd = (q < 0 ? -q : q) % 2 == 1;
    mc::Same(is_odd<T>(v), odd, "is_odd<%s>(%s)", ty, pr(v).c_str());
    mc::Same(is_even<T>(v), !odd, "is_even<%s>(%s)", ty, pr(v).c_str());
    mc::Outcome("parity");
  }
}
template<class T> std::vector<T> ints(long n) {
  std::vector<T> r; auto mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max();
  for (long i = -n; i <= n; ++i) if ((__int128) i >= (__int128) mn && (__int128) i <= (__int128) mx) r.push_back((T) i);
  for (int i = 0; i < 6; ++i) { r.push_back((T) (mx - i)); r.push_back((T) (mn + i)); r.push_back((T) (mx / 2 + i)); }
  return r;
}
template<class R> int close(LD a, LD b, LD rt, LD at) {              // 1, 0 or -1 when too near to call
  LD d = fabsl(a - b), t = at + rt * fabsl(b), e = 16 * (LD) std::numeric_limits<R>::epsilon();
  if (d == 0) return 1;
  if (fabsl(d - t) <= e * (d + t) + (LD) std::numeric_limits<R>::epsilon() * (fabsl(a) + fabsl(b)) * 0 ) return -1;
  return d <= t;
}
template<class R> void closeness(const std::vector<R> &A, const char *ty) {
  for (R a : A) for (R b : A) {
    if (!mc::Case([&] { return mc::str("%s closeness of %.17g and %.17g", ty, (double) a, (double) b); })) continue;
    for (double rt : {0., 1e-5, 1e-12, 0.1, 1., 1e-3}) for (double at : {0., 1e-8, 1e-3, 1., 1e-12, 100.}) {
      mc::Visit("close", ty, a, b, rt, at);
      int w = close<R>(a, b, (R) rt, (R) at);
      bool g = IsClose<R>(a, b, (R) rt, (R) at);
      if (w >= 0) mc::Same(g, (bool) w, "IsClose(%.17g, %.17g, %g, %g)", (double) a, (double) b, rt, at);
      std::vector<R> va = {(R) 1, a}, vb = {(R) 1, b};
      mc::Same(IsClose<R>(va, vb, (R) rt, (R) at), g, "vector IsClose of %.17g and %.17g, %g, %g", (double) a, (double) b, rt, at);
    }
    int w = close<R>(a, b, (R) 1e-5, (R) 1e-8);
    bool g = IsClose<R>(a, b);
    if (w >= 0) mc::Same(g, (bool) w, "IsClose(%.17g, %.17g) with default tolerances", (double) a, (double) b);
    if (w >= 0) { int w3 = close<R>(a, b, (R) 1e-2, (R) 1e-8); if (w3 >= 0) mc::Same(IsClose<R>(a, b, (R) 1e-2), (bool) w3, "IsClose(%.17g, %.17g, 1e-2)", (double) a, (double) b); }
    std::vector<R> va = {a}, vb = {b};
    mc::Same(IsClose<R>(va, vb), g, "vector IsClose with default tolerances");
    mc::Outcome(g ? "close" : "not close");
  }
}
static void asserts() {
  for (double a : {0., 1., -2., 1e6, 1.000001, 1.1}) for (double b : {0., 1., -2., 1e6, 1.1}) {
    if (!mc::Case([&] { return mc::str("AssertIsClose(%g,%g)", a, b); })) continue;
    mc::Visit("assert", a, b);
    bool g = IsClose<double>(a, b);
    auto e = mc::InChild([&] { AssertIsClose<double>(a, b); }), f = mc::InChild([&] { AssertIsClose<double>(std::vector<double>{1, a}, std::vector<double>{1, b}); });
    MC_CHECK((e == mc::RETURNED) == g && e != mc::MISUSE, "AssertIsClose(%g,%g): %s", a, b, mc::endname(e));
    MC_CHECK((f == mc::RETURNED) == g && f != mc::MISUSE, "vector AssertIsClose(%g,%g): %s", a, b, mc::endname(f));
    mc::Outcome("asserted");
  }
}
template<class R> void undefinedd(const std::vector<R> &A, const char *ty) {      // an undefined number is close to nothing, at no position
  const R q = std::numeric_limits<R>::quiet_NaN();
  for (R a : A) {
    if (!mc::Case([&] { return mc::str("%s closeness of an undefined number and %.17g", ty, (double) a); })) continue;
    for (R rt : {(R) 0, (R) 1e-5, (R) 1}) for (R at : {(R) 0, (R) 1e-8, (R) 100}) {
      mc::Visit("nan", ty, a, rt, at);
      MC_CHECK(!IsClose<R>(q, a, rt, at) && !IsClose<R>(a, q, rt, at) && !IsClose<R>(q, q, rt, at), "an undefined number is close to %.17g (%g, %g)", (double) a, (double) rt, (double) at);
      for (int n = 1; n <= 5; ++n) for (int p = 0; p < n; ++p) { std::vector<R> u((size_t) n, a), v = u; v[p] = q; MC_CHECK(!IsClose<R>(u, v, rt, at) && !IsClose<R>(v, u, rt, at) && !IsClose<R>(v, v, rt, at), "an undefined number at %d of %d is close to %.17g", p, n, (double) a); }
    }
    mc::Outcome("undefined number");
  }
}
static void vectors() {
  const double al[6] = {0, 1, -1, 1e5, 1e-9, 2};
  for (int n = 0; n <= mc::Tier(3, 4); ++n) for (mc::Odo o(mc::rep(6, 2 * n)); o; ++o) {
    if (!mc::Case([&] { return mc::str("vector closeness, length %d", n); })) { if (n == 0) break; continue; }
    std::vector<double> a, b; bool all = true;
    for (int i = 0; i < n; ++i) { a.push_back(al[o[i]]); b.push_back(al[o[n + i]]); all = all && close<double>(a[i], b[i], 1e-5, 1e-8) == 1; }
    mc::Visit("vclose", a, b);
    const auto c = a, d = b;
    mc::Same(IsClose<double>(c, d), all, "IsClose of %s and %s", mc::vstr(a).c_str(), mc::vstr(b).c_str());
    mc::Outcome(all ? "vectors close" : "vectors not close");
    if (n == 0) break;
  }
  for (int n : [] { std::vector<int> v; for (int i = 1; i <= 70; ++i) v.push_back(i); for (int i : {100, 128, 129, 256, 257, 1000, 1025}) v.push_back(i); return v; }()) for (int p = 0; p < n; ++p) {
    if (!mc::Case([&] { return mc::str("length %d, deviation at %d", n, p); })) continue;
    std::vector<double> a((size_t) n, 3), b = a; b[p] = 3.1;
    { std::vector<double> u, w; for (int i = 0; i < n; ++i) u.push_back(mc::gen(i) + 5); w = u; w[p] += 3e-4; MC_CHECK(!IsClose<double>(u, w) && IsClose<double>(u, w, 1e-3), "small deviation at %d of %d", p, n); std::vector<float> uf(u.begin(), u.end()), wf(w.begin(), w.end()); MC_CHECK(!IsClose<float>(uf, wf, 1e-6f, 1e-6f) && IsClose<float>(uf, wf, 1e-3f), "small deviation at %d of %d, float", p, n); }
    mc::Visit("vdev", n, p);
    MC_CHECK(!IsClose<double>(a, b) && !IsClose<double>(b, a) && IsClose<double>(a, a), "deviation at %d of %d", p, n);
    MC_CHECK(IsClose<double>(a, b, 0.1, 0.) && IsClose<double>(a, b, 0., 0.2), "loose tolerances at %d of %d", p, n);
    mc::Outcome("deviation");
  }
}
static void explore() {
  auto nb = [](double v) { return std::vector<double>{v, std::nextafter(v, 1e308), std::nextafter(v, -1e308)}; };
  std::vector<double> D = {0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e-10, -1e-10, 0.5, -0.5, 2, -2, 3.75, -9, 1e3, -1e3, 1e16, -1e16, 1e308, -1e308, 0.1, 9007199254740993., 123456789.125};
  for (double v : {1., -1., 10.}) for (double w : nb(v)) D.push_back(w);
  std::vector<float> F; for (double v : D) if (fabs(v) < 1e30 && (v == 0 || fabs(v) > 1e-30)) F.push_back((float) v);
  std::vector<long double> L; for (double v : D) { L.push_back(v); } L.push_back(1.L + 1e-19L); L.push_back(1.L - 1e-19L);
  scal<double>(D, "double"); scal<float>(F, "float"); scal<long double>(L, "long double");
  auto ext = [](auto z) { typedef decltype(z) T; auto mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min(); std::vector<T> r = {0, 1, 2, 5, 100, mx, (T) (mx - 1), (T) (mx - 2), (T) (mx / 2), (T) (mx / 2 + 1), mn, (T) (mn + 1)}; if (std::numeric_limits<T>::is_signed) for (T v : {(T) -1, (T) -2, (T) -5, (T) -100, (T) (mn / 2)}) r.push_back(v); return r; };
  scal<int>(ext((int) 0), "int"); scal<long>(ext((long) 0), "long"); scal<short>(ext((short) 0), "short"); scal<signed char>(ext((signed char) 0), "signed char");
  scal<unsigned>(ext((unsigned) 0), "unsigned"); scal<unsigned long>(ext((unsigned long) 0), "unsigned long");
  scal<long>({9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993, 9007199254740995, 4611686018427387905}, "long");
  roots<double>(D, "double"); roots<float>(F, "float");
  long n = mc::Tier(2000, 100000);
  parity<int>(ints<int>(n), "int"); parity<long>(ints<long>(n), "long"); parity<long long>(ints<long long>(n), "long long"); parity<short>(ints<short>(n), "short"); parity<signed char>(ints<signed char>(n), "signed char");
  parity<unsigned>(ints<unsigned>(n), "unsigned"); parity<unsigned long>(ints<unsigned long>(n), "unsigned long"); parity<unsigned char>(ints<unsigned char>(n), "unsigned char");
  std::vector<double> K = {0, 1, -1, 1e-9, -1e-9, 1e-8, 2e-8, 1.1e-8, 0.9e-8, 1e-4, 1.000005, 1.00002, 1.0000001, 0.99999, 0.999, -1.000005, -1.00002, 1e5, 1e5 + 0.5, 1e5 + 2, 100000.999, -1e5, -1e5 - 2, 1e12, 1e12 + 1, 1e12 + 1e8, 3, 3.3, 3.4, 2.7, 2, 0.5, 101, -99, 1e-300, 1e100, 1.05e100};
  std::vector<float> KF; for (double v : K) if (fabs(v) < 1e30 && (v == 0 || fabs(v) > 1e-30)) KF.push_back((float) v);
  closeness<double>(K, "double"); closeness<float>(KF, "float");
  asserts(); vectors();
  undefinedd<double>(K, "double"); undefinedd<float>(KF, "float");
}
MC_MAIN(explore)
