// C18 - eigenvalues.
//@bounds quick: all 2x2 (5 values) and 3x3 (3 values) matrices for the dynamic class, the latter also for the 3x3 class; square families 4..7, 6x6 class: 720 signed permutations, companion, Jordan, triangular, generic, all ranks; symmetric words up to 3x3 over 5 values and families to 7x7; scales 1e-6..1e6; seven structures of size 2..6 with any one entry displaced by 1e-12 to 1e-2; sizes up to 20; diagonal and upper triangular matrices up to 4x4 (and 6x6) over 7 magnitudes from 7e-14 to 4e13; normal matrices of known (also repeated) spectrum up to 80x80
//@bounds thorough: 3x3 words over 4 values, ten times larger families, sizes up to 10
//@model elementary symmetric functions of the spectrum against the characteristic polynomial (Faddeev-LeVerrier, long double); Jacobi eigenvalues of symmetric matrices
#include "mats.h"
using namespace mathutils;
using namespace la;
typedef std::complex<LD> CL;
template<class M> static std::vector<CL> spectrum(const M &a, int n) {
  auto e = a.Eigenvalues();
  mc::Same((int) e.size(), n, "number of eigenvalues");
  std::vector<CL> r;
  for (int i = 0; i < n; ++i) { std::complex<double> z = e(i); r.push_back(CL(z.real(), z.imag())); }
  return r;
}
template<class M> static void judge(const Mat &x, bool sym) {
  int n = x.n;
  const M a = to<M>(x);
  mc::Visit((int) sizeof(M), x.a);
  std::vector<CL> l = spectrum(a, n);
  // norm-wise scale: the computed spectrum is that of A+E with |E| <= c*eps*|A|
  LD f = fro(x) + 1e-300L;
  std::vector<CL> e(n + 1, CL(0)); e[0] = 1;
  for (int i = 0; i < n; ++i) { MC_CHECK(std::isfinite(l[i].real()) && std::isfinite(l[i].imag()), "eigenvalue %d is not finite", i); for (int k = i + 1; k >= 1; --k) e[k] += e[k - 1] * l[i]; }
  std::vector<LD> w = esym(x);
  LD bin = 1, pw = 1;
  for (int k = 1; k <= n; ++k) {
    bin = bin * (n - k + 1) / k; pw *= f;
    LD tol = 1e-12L * bin * pw * k;
    if (!(fabsl(e[k].real() - w[k]) <= tol && fabsl(e[k].imag()) <= tol)) mc::Fail("symmetric function %d of the eigenvalues is (%.17Lg,%.17Lg), expected %.17Lg (tolerance %Lg)", k, e[k].real(), e[k].imag(), w[k], tol);
    ++mc::C().checks;
  }
  // conjugate pairs
  std::vector<char> used(n, 0);
  for (int i = 0; i < n; ++i) if (!used[i] && fabsl(l[i].imag()) > 1e-12L * f) {
    int b = -1; for (int j = 0; j < n; ++j) if (!used[j] && j != i && std::abs(l[j] - std::conj(l[i])) <= 1e-12L * f) b = j;
    MC_CHECK(b >= 0, "eigenvalue (%.17Lg,%.17Lg) has no conjugate", l[i].real(), l[i].imag());
    used[i] = used[b] = 1;
  }
  if (sym) {
    std::vector<LD> ref = symeig(x), g;
    for (auto &z : l) { MC_CHECK(fabsl(z.imag()) <= 1e-12L * f, "symmetric matrix with the complex eigenvalue (%.17Lg,%.17Lg)", z.real(), z.imag()); g.push_back(z.real()); }
    std::sort(g.begin(), g.end());
    for (int i = 0; i < n; ++i) mc::Near(g[i], ref[i], f, 1e-12L, "eigenvalue %d of a symmetric matrix", i);
    mc::Outcome("symmetric");
  } else mc::Outcome("general");
  std::vector<CL> l2 = spectrum(a, n);
  for (int i = 0; i < n; ++i) { bool ok = false; for (int j = 0; j < n; ++j) ok = ok || std::abs(l2[i] - l[j]) <= 1e-13L * f; MC_CHECK(ok, "second computation gives another eigenvalue"); }
  same(from(a), x, 0, "matrix after computing eigenvalues");
}
template<class M> static void one(const char *cls, Mat x, LD s) {
  x = scaled(x, s); for (LD &v : x.a) v = (double) v;
  if (!mc::Case([&] { return std::string(cls) + " " + show(x); })) return;
  bool sym = true; for (int i = 0; i < x.n; ++i) for (int j = 0; j < i; ++j) sym = sym && x(i, j) == x(j, i);
  judge<M>(x, sym);
}
// large normal matrices of a known spectrum (their eigenvalues are well conditioned)
static void known(int n, int k, bool sym) {
  if (!mc::Case([&] { return mc::str("known spectrum n=%d variant %d symmetric %d", n, k, sym); })) return;
  Mat d(n, n); std::vector<CL> want;
  for (int i = 0; i < n;) {
    if (!sym && i + 1 < n && (i + k) % 3) { LD a = mc::gen(i + 5 * k), b = 0.5L + 0.25L * (i % 7); d(i, i) = d(i + 1, i + 1) = a; d(i, i + 1) = b; d(i + 1, i) = -b; want.push_back(CL(a, b)); want.push_back(CL(a, -b)); i += 2; }
    else { LD a = k == 2 && i % 2 ? -1.5L : mc::gen(i + 7 * k); d(i, i) = a; want.push_back(a); ++i; }      // k == 2: repeated eigenvalues
  }
  for (int p = 0; p < 2 * n; ++p) { Mat &x = d; int i = p % n, j = (i + 1 + p / n) % n; if (i == j) continue; LD c = cosl(0.3L + p), t = sinl(0.3L + p);
    for (int q = 0; q < n; ++q) { LD u = x(i, q), v = x(j, q); x(i, q) = c * u - t * v; x(j, q) = t * u + c * v; }
    for (int q = 0; q < n; ++q) { LD u = x(q, i), v = x(q, j); x(q, i) = c * u - t * v; x(q, j) = t * u + c * v; } }
  if (sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) d(i, j) = d(j, i);
  for (LD &v : d.a) v = (double) v;
  mc::Visit("known", n, k, sym);
  const MN a = to<MN>(d);
  std::vector<CL> l = spectrum(a, n);
  std::vector<char> used(n, 0);
  for (auto &w : want) {
    int b = -1; for (int i = 0; i < n; ++i) if (!used[i] && (b < 0 || std::abs(l[i] - w) < std::abs(l[b] - w))) b = i;
    MC_CHECK(std::abs(l[b] - w) <= 1e-11L * fro(d), "eigenvalue (%.17Lg,%.17Lg) missing; closest (%.17Lg,%.17Lg)", w.real(), w.imag(), l[b].real(), l[b].imag());
    used[b] = 1;
  }
  mc::Outcome("known spectrum");
}
// diagonal and upper triangular matrices: the eigenvalues are the diagonal entries, however different their sizes
template<class M> static void graded(const char *cls, const std::vector<double> &dg, int shape) {
  int n = (int) dg.size();
  if (!mc::Case([&] { return mc::str("%s graded shape %d ", cls, shape) + mc::vstr(dg); })) return;
  Mat x(n, n); double lo = INFINITY; for (double v : dg) lo = std::min(lo, std::fabs(v));
  for (int i = 0; i < n; ++i) { x(i, i) = dg[i]; if (shape) for (int j = i + 1; j < n; ++j) x(i, j) = lo * (1 + (i + j) % 3); }
  mc::Visit("graded", cls, shape, dg);
  const M a = to<M>(x);
  std::vector<CL> l = spectrum(a, n);
  std::vector<char> used(n, 0);
  for (double w : dg) {
    int b = -1; for (int i = 0; i < n; ++i) if (!used[i] && (b < 0 || std::abs(l[i] - (LD) w) < std::abs(l[b] - (LD) w))) b = i;
    MC_CHECK(std::abs(l[b] - (LD) w) <= 1e-10L * fabsl(w), "eigenvalue %.17g missing; closest (%.17Lg,%.17Lg)", w, l[b].real(), l[b].imag());
    used[b] = 1;
  }
  mc::Outcome("graded");
}
static void explore() {
  const double gr[7] = {1, 2, -3e-4, 5e-9, 7e-14, -2e6, 4e13};
  for (int n = 2; n <= mc::Tier(4, 5); ++n) for (mc::Odo o(mc::rep(7, n)); o; ++o) for (int shape = 0; shape < 2; ++shape) {
    std::vector<double> d; for (int i = 0; i < n; ++i) d.push_back(gr[o[i]] * (1 + i));   // distinct entries
    graded<MN>("dynamic", d, shape); if (n == 3) { graded<M3>("3x3", d, shape); auto e = d; e.insert(e.end(), d.rbegin(), d.rend()); for (int i = 3; i < 6; ++i) e[i] *= 11; graded<M6>("6x6", e, shape); }
  }
  for (int n : {2, 3, 5, 8, 16, 20, 21, 32, 33, 48, 64, 65, 80}) for (int k = 0; k < 3; ++k) for (int sym = 0; sym < 2; ++sym) known(n, k, sym);

  int c = 0; double sc[5] = {1, 1, 1e-6, 1e6, 1. / 3};
  for (int n = 1; n <= mc::Tier(7, 10); ++n) {
    auto f = [&](const Mat &x) { double s = sc[++c % 5]; one<MN>("dynamic", x, s); if (n == 3) one<M3>("3x3", x, s); if (n == 6) one<M6>("6x6", x, s); };
    squares(n, f); symmetrics(n, f);
    if (n > 1 && n <= 6) nearly(n, f);
  }
  for (int n : {8, 9, 12, 16, 17, 20}) for (int k = 0; k < 4; ++k) {
    Mat g = scaled(generic(n, n, k), 0.25), y = g; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) y(i, j) = y(j, i);
    one<MN>("large", g, 1); one<MN>("large", y, 1);
  }
}
MC_MAIN(explore)
