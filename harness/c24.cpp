// C24 - discrete Fourier transforms.
//@bounds quick: every length 2..70 plus 96,100,121,127,128,243,250,256,257,499,500,512,1000,1023,1024 in double and float; sparse signals of 2048 to 70000 samples; all unit impulses up to length 24 and 11 signals per length (generic, constant, alternating, half zero, pure tones, offset, from 1e-20 to 1e15); both settings in all 4 combinations; output vectors previously empty, shorter, exact and longer; every toggle/transform history of length 5 over two transformers and 6 operations each (after each step both are checked); frequency vectors for every length, 5 sampling frequencies, 6 units and signals from 1e-20 to 1e12
//@bounds thorough: lengths up to 300 (and up to 4096), histories of length 6
//@model direct long-double Fourier sums
//@assume signals have at least two samples (Eigen has no transform of one sample)
//@assume an inverse transform is given a spectrum of the kind (half or full) the transformer is set to; the half-spectrum round trip is claimed for even lengths (an odd length cannot be told from its half spectrum)
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
typedef std::complex<LD> CL;
template<class R> const std::vector<CL> &dft(const std::vector<R> &s, std::vector<CL> &o) {
  size_t n = s.size();
  static std::map<size_t, std::vector<CL>> W;
  auto &w = W[n];
  if (w.empty()) for (size_t k = 0; k < n; ++k) { LD a = -2 * acosl(-1.L) * k / n; w.push_back(CL(cosl(a), sinl(a))); }
  o.assign(n, CL(0));
  for (size_t k = 0; k < n; ++k) for (size_t j = 0; j < n; ++j) if (s[j] != 0) o[k] += (LD) s[j] * w[(j * k) % n];
  return o;
}
// sizes the output vectors had before the call: rotates through empty, exact, shorter, longer
static size_t before(size_t n) { static unsigned k = 0; size_t c[] = {3, 0, n, n + 1, 2 * n, n / 2 + 1, n - 1, 1}; return c[k++ % 8]; }
template<class R> void check(FFT<R> &t, bool half, bool scaled, const std::vector<R> &s, const std::vector<CL> &ref, const char *what) {
  size_t n = s.size();
  LD eps = std::numeric_limits<R>::epsilon() * 4 * (8 + 2 * log2l(n + 1) + (n > 8 ? sqrtl(n) : 0)), mag = 0;
  for (R v : s) mag += fabsl(v);
  std::vector<std::complex<R>> f(before(n), std::complex<R>(9, 9));
  const std::vector<R> in = s;
  t.fft(f, in);
  size_t m = half ? n / 2 + 1 : n;
  mc::Same(f.size(), m, "%s: spectrum length for %zu samples (half %d)", what, n, half);
  for (size_t k = 0; k < m; ++k) mc::NearC(std::complex<double>(f[k].real(), f[k].imag()), ref[k], mag, eps, "%s: bin %zu of %zu (half %d, scaled %d)", what, k, n, half, scaled);
  mc::SameV(in, s, "%s: signal after the transform", what);
  if (half && n % 2) return;
  if (half && n == 0) return;
  std::vector<R> back(before(n), 7);
  const auto g = f;
  t.ifft(back, g);
  mc::Same(back.size(), n, "%s: length of the inverse", what);
  for (size_t j = 0; j < n; ++j) mc::Near(back[j], (LD) s[j] * (scaled ? 1 : (LD) n), mag * (scaled ? 1 : (LD) n), eps, "%s: sample %zu of %zu after the round trip (half %d, scaled %d)", what, j, n, half, scaled);
  MC_CHECK(g == f, "%s: spectrum after the inverse", what);
}
template<class R> std::vector<R> generic(int n, int k) { std::vector<R> v; for (int i = 0; i < n; ++i) v.push_back((R) mc::gen(i * 3 + k * 101 + n)); return v; }
template<class R> void set(FFT<R> &t, bool half, bool scaled) { if (half) t.HalfSpectrumON(); else t.HalfSpectrumOFF(); if (scaled) t.ScalingON(); else t.ScalingOFF(); }
template<class R> void lengths(const char *ty, const std::vector<int> &L) {
  for (int n : L) {
    if (!mc::Case([&] { return mc::str("%s transforms of length %d", ty, n); })) continue;
    std::vector<std::vector<R>> sig;
    if (n <= 24) for (int i = 0; i < n; ++i) { std::vector<R> v((size_t) n, 0); v[i] = (R) 1.5; sig.push_back(v); }
    for (int k = 0; k < 3; ++k) sig.push_back(generic<R>(n, k));
    sig.push_back(std::vector<R>((size_t) n, (R) -2));
    { std::vector<R> a; for (int i = 0; i < n; ++i) a.push_back((R) (i % 2 ? -1e3 : 1e3)); sig.push_back(a); }
    { std::vector<R> a; for (int i = 0; i < n; ++i) a.push_back((R) (1e-6 * mc::gen(i))); sig.push_back(a); }
    { std::vector<R> a((size_t) n, 0); sig.push_back(a); for (int i = 0; i < (n + 1) / 2; ++i) a[i] = (R) mc::gen(i + 5); sig.push_back(a); }     // nothing; zeros in the second half
    { std::vector<R> a, b, c; for (int i = 0; i < n; ++i) { a.push_back((R) cosl(2 * acosl(-1.L) * i / n)); b.push_back((R) sinl(2 * acosl(-1.L) * i * (n / 3) / n)); c.push_back((R) (1e4 + mc::gen(i))); } sig.push_back(a); sig.push_back(b); sig.push_back(c); }   // pure tones; a large offset
    { std::vector<R> a, b; for (int i = 0; i < n; ++i) { a.push_back((R) (1e-20 * mc::gen(i))); b.push_back((R) (1e15 * mc::gen(i + 3))); } sig.push_back(a); sig.push_back(b); }
    std::vector<CL> ref;
    FFT<R> d;                                          // defaults: full spectrum, scaled
    for (auto &s : sig) {
      dft(s, ref);
      check(d, false, true, s, ref, "default settings");
      for (int c = 0; c < 4; ++c) {
        mc::Visit(ty, n, s.empty() ? R(0) : s[0], s.size() > 1 ? s[1] : R(0), &s - &sig[0], c);
        FFT<R> t; set(t, c & 1, c & 2); check(t, c & 1, c & 2, s, ref, "fresh"); check(t, c & 1, c & 2, s, ref, "again"); }
    }
    mc::Outcome(n % 2 ? "odd length" : "even length");
  }
}
// long signals of a few impulses and a constant (the sums stay short)
template<class R> void longs(const char *ty, const std::vector<int> &L) {
  for (int n : L) for (int k = 0; k < 3; ++k) {
    if (!mc::Case([&] { return mc::str("%s transform of %d samples, signal %d", ty, n, k); })) continue;
    std::vector<R> s((size_t) n, 0);
    if (k == 0) { s[1] = (R) 1.5; s[n / 2 + 1] = -2; s[n - 1] = (R) 0.25; } else if (k == 1) { s[0] = 1; s[n / 3] = (R) -0.75; s[std::min(n - 1, 32768)] = 3; } else s[n - 2] = 1;
    std::vector<CL> ref;
    dft(s, ref);
    for (int c = 0; c < 4; ++c) { mc::Visit("long", ty, n, k, c); FFT<R> t; set(t, c & 1, c & 2); check(t, c & 1, c & 2, s, ref, "long signal"); }
    mc::Outcome("long signal");
  }
}
template<class R> void freqs(const std::vector<int> &L, const std::vector<double> &sf) {
  for (int n : L) for (double fs : sf) for (int half = 0; half < 2; ++half) {
    if (!mc::Case([&] { return mc::str("frequency vector of %d samples at %g (half %d)", n, fs, half); })) continue;
    FFT<R> t; set(t, half, true);
    LD pi = acosl(-1.L), eps = std::numeric_limits<R>::epsilon() * 4 * (n + 4);
    std::pair<FREQUENCY_UNIT, LD> un[] = {{HERTZ, 1}, {RADS, 2 * pi}, {DEGS, 360}, {DEGM, 360 * 60}, {RPM, 60}};
    auto s = generic<R>(n, 1);
    size_t m = half ? n / 2 + 1 : n;
    auto see = [&](const std::vector<R> &v, LD fac, const char *w, int u) {
      mc::Same(v.size(), m, "%s: length for %d samples, unit %d", w, n, u);
      for (size_t i = 0; i < m; ++i) mc::Near(v[i], fac * fs * i / n, fac * fs, eps, "%s: entry %zu for %d samples at %g, unit %d", w, i, n, fs, u);
    };
    for (auto &u : un) {
      mc::Visit("freq", n, fs, half, (int) u.first);
      see(t.GetFrequencyVector((unsigned) n, (R) fs, u.first), u.second, "GetFrequencyVector", u.first);
      std::vector<std::complex<R>> f(before(m), 3); std::vector<R> fr(before(m), 5);
      t.fft(f, fr, s, (R) fs, u.first);
      see(fr, u.second, "fft with frequencies", u.first);
      mc::Same(f.size(), fr.size(), "spectrum and frequency vector lengths");
      std::vector<std::complex<R>> g; t.fft(g, s);
      MC_CHECK(f == g, "spectrum of the two fft forms");
      for (double sc : {1e-9, 1e-13, 1e-20, 1e12}) for (int imp = 0; imp < 2 && (imp == 0 || n <= 24); ++imp) {      // weak and strong signals, impulses
        if (n > 24 && u.first != HERTZ) break;
        auto w = s; for (int i = 0; i < n; ++i) w[i] = (R) (imp ? (i == 1) * sc : s[i] * sc);
        t.fft(f, fr, w, (R) fs, u.first); t.fft(g, w);
        MC_CHECK(f == g, "spectrum of the two fft forms for a signal of size %g", sc);
        see(fr, u.second, "fft with frequencies", u.first);
      }
    }
    see(t.GetFrequencyVector((unsigned) n, (R) fs), 1, "GetFrequencyVector default unit", -1);
    { std::vector<std::complex<R>> f; std::vector<R> fr; t.fft(f, fr, s, (R) fs); see(fr, 1, "fft with frequencies, default unit", -1); }
    auto p = t.GetFrequencyVector((unsigned) n, (R) fs, S);
    mc::Same(p.size(), m, "period vector length");
    for (size_t i = 1; i < m; ++i) mc::Near(p[i], n / ((LD) fs * i), n / (LD) fs, eps, "period %zu", i);
    mc::Outcome("frequency vector");
  }
}
static void histories(int depth) {
  const int lens[3] = {8, 7, 12};
  std::vector<double> sig[3]; std::vector<CL> ref[3];
  for (int i = 0; i < 3; ++i) { sig[i] = generic<double>(lens[i], i); dft(sig[i], ref[i]); }
  // operations: 0 half on, 1 half off, 2 scaling on, 3 scaling off, 4 transform length 8, 5 transform lengths 7 and 12; of transformer A or B
  for (mc::Odo o(mc::rep(12, depth)); o; ++o) {
    if (!mc::Case([&] { std::string s = "history"; for (int i = 0; i < depth; ++i) s += mc::str(" %c%d", "AB"[o[i] / 6], o[i] % 6); return s; })) continue;
    FFT<double> t[2]; bool half[2] = {false, false}, sc[2] = {true, true};
    for (int i = 0; i < depth; ++i) {
      int w = o[i] / 6, op = o[i] % 6;
      mc::Visit("h", half[0], half[1], sc[0], sc[1], o[i]);
      switch (op) {
        case 0: t[w].HalfSpectrumON(); half[w] = true; break;
        case 1: t[w].HalfSpectrumOFF(); half[w] = false; break;
        case 2: t[w].ScalingON(); sc[w] = true; break;
        case 3: t[w].ScalingOFF(); sc[w] = false; break;
        case 4: check(t[w], half[w], sc[w], sig[0], ref[0], "history"); break;
        case 5: check(t[w], half[w], sc[w], sig[1], ref[1], "history"); check(t[w], half[w], sc[w], sig[2], ref[2], "history"); break;
      }
    }
    for (int w = 0; w < 2; ++w) {
      check(t[w], half[w], sc[w], sig[0], ref[0], "end of history"); check(t[w], half[w], sc[w], sig[2], ref[2], "end of history");
      mc::Same(t[w].GetFrequencyVector(12, 3.).size(), (size_t) (half[w] ? 7 : 12), "frequency vector length at the end of a history");
      FFT<double> c(t[w]); check(c, half[w], sc[w], sig[1], ref[1], "copy");
    }
    t[0] = t[1]; check(t[0], half[1], sc[1], sig[0], ref[0], "assigned"); check(t[1], half[1], sc[1], sig[2], ref[2], "source of an assignment");
    mc::Outcome("history");
  }
}
static void explore() {
  std::vector<int> L;
  for (int n = 2; n <= mc::Tier(70, 300); ++n) L.push_back(n);
  for (int n : {96, 100, 121, 127, 128, 243, 250, 256, 257, 499, 500, 512, 1000, 1023, 1024}) if (n > L.back() || !mc::Thorough()) if (std::find(L.begin(), L.end(), n) == L.end()) L.push_back(n);
  if (mc::Thorough()) for (int n : {2000, 2048, 2187, 2500, 4096}) L.push_back(n);
  lengths<double>("double", L);
  lengths<float>("float", L);
  longs<double>("double", {2048, 4095, 4096, 4097, 8192, 10000, 32768, 65536, 70000}); longs<float>("float", {4096, 65536});
  freqs<double>({32768, 65535, 70000}, {0.3});
  freqs<double>(L, {1, 10, 0.125, 44100, 1e-3});
  freqs<double>({2000, 2048, 4095, 4096}, {1, 0.3});
  freqs<float>({2, 3, 8, 17, 64}, {1, 10, 0.125});
  histories(mc::Tier(5, 6));
}
MC_MAIN(explore)
