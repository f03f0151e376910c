// C16 the FFT wrapping, with a plain discrete Fourier transform in PFFFT's place
#include "h.h"
#include "fast_fourier_transform.h"
#include "misc_math.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
typedef std::complex<double> C;
const double kPi = 3.14159265358979323846;
size_t Pow2(size_t n) {
  size_t p = 32;
  while (p < n) p *= 2;
  return p;
}
M Signal(const char* name, int n, int sym) {
  M m(n, 1);
  // the symbolic samples spread over the signal
  for (int i = 0; i < n; i++) m(i, 0) = 0.125 * ((i * 5) % 7) - 0.25;
  for (int k = 0; k < sym && k < n; k++) m(sym >= n ? k : k * (n - 1) / std::max(1, sym - 1), 0) = vsx_range(name, -1, 1);
  return m;
}
bool Near(double a, double b, double t) { return std::fabs(a - b) <= t; }
void Spectrum(const M& x, const AMatrix<C>& s, size_t fft) {
  vsx_assert(s.NumRows() == fft && s.NumCols() == 1, "the full spectrum is returned");
  vsx_assert(s(0).imag() == 0 && s(fft / 2).imag() == 0, "DC and Nyquist bins are real");
  for (size_t k = 0; k <= fft / 2; k++) {
    double re = 0, im = 0;
    for (size_t i = 0; i < x.NumRows(); i++) {
      re += x(i, 0) * cos(2 * kPi * (i * k % fft) / fft);
      im -= x(i, 0) * sin(2 * kPi * (i * k % fft) / fft);
    }
    vsx_assert(Near(s(k).real(), re, 1e-4) && Near(s(k).imag(), im, 1e-4), "each bin is the discrete Fourier transform of the signal");
    if (k && k < fft / 2) vsx_assert(s(fft - k).real() == s(k).real() && s(fft - k).imag() == -s(k).imag(), "the second half mirrors the first");
  }
}
void Back(const M& x, const M& y) {
  vsx_assert(y.NumRows() == x.NumRows() && y.NumCols() == 1, "the inverse has the signal's length");
  for (size_t i = 0; i < x.NumRows(); i++) vsx_assert(Near(x(i, 0), y(i, 0), 1e-4), "the inverse returns the signal");
}
}  // namespace
ENTRY h_pow2() {
  const uint32_t n = vsx_u32("n");
  vsx_assume(n >= 1 && n <= (1u << 31));
  const size_t p = MiscMath::NextPowTwo(n);
  vsx_assert(p != 0 && (p & (p - 1)) == 0 && p >= n && p / 2 < n, "the smallest power of two at least the length");
  vsx_reach("power");
}
ENTRY h_sizes() {
  const int n = vsx_param("n", 33);
  pffft_shim::only_touch = true;
  {
    auto m = std::make_unique<FftManager>(n);
    vsx_assert(m->GetFftSize() == Pow2(n) && m->GetSamplesPerChannel() == (size_t)n, "the transform size is the next power of two, at least 32");
    M x(n, 1);
    for (int i = 0; i < n; i++) x(i, 0) = 0;
    const auto s = FastFourierTransform::Forward1d(m, x);
    vsx_assert(s.NumRows() == Pow2(n), "the full spectrum is returned");
    vsx_assert(FastFourierTransform::Inverse1d(m, s).NumRows() == (size_t)n, "the inverse has the signal's length");
  }
  vsx_assert(pffft_shim::setups == 0 && pffft_shim::blocks == 0, "everything allocated is released");
  vsx_reach("sizes");
}
ENTRY h_roundtrip() {
  const int n = vsx_param("n", 5), n2 = vsx_param("n2", 0);
  const M x = Signal("x", n, vsx_param("sym", 99));
  auto m = std::make_unique<FftManager>(n);
  for (int use = 0; use < (n2 ? 2 : 1); use++) {  // a manager that has been used gives the same
    M y = x;
    if (use == 1) y = Signal("y", n, n2);
    const M y0 = y;
    const auto s = FastFourierTransform::Forward1d(m, y);
    for (int i = 0; i < n; i++) vsx_assert(Same(y(i, 0), y0(i, 0)), "the signal is not modified");
    Spectrum(y, s, Pow2(n));
    const auto inv = FastFourierTransform::Inverse1d(m, s);
    M re(n, 1);
    vsx_assert(inv.NumRows() == (size_t)n, "the inverse has the signal's length");
    for (int i = 0; i < n; i++) {
      vsx_assert(inv(i).imag() == 0, "the inverse is real");
      re(i, 0) = inv(i).real();
    }
    Back(y, re);
    Back(y, FastFourierTransform::Inverse1dConjSym(m, s));
  }
  vsx_reach("round trip");
}
ENTRY h_points() {  // zero padded to a given number of points
  const int n = vsx_param("n", 3), points = vsx_param("points", 8);
  const M x = Signal("x", n, 99);
  auto m = std::make_unique<FftManager>(points);
  const auto s = FastFourierTransform::Forward1d(m, x, points);
  vsx_assert(x.NumRows() == (size_t)n, "the signal is not modified");
  Spectrum(x, s, Pow2(points));
  const M y = FastFourierTransform::Inverse1dConjSym(m, s);
  vsx_assert(y.NumRows() == (size_t)points, "the inverse has the padded length");
  for (int i = 0; i < points; i++) vsx_assert(Near(y(i, 0), i < n ? x(i, 0) : 0, 1e-4), "the inverse returns the padded signal");
  vsx_reach("padded");
}
namespace {
template <class S> auto Scale(S& m, size_t n, float g, const float* a, float* b, int) -> decltype((void)m.SimdScalarMultiply(n, g, a, b)) { m.SimdScalarMultiply(n, g, a, b); }
template <class S> void Scale(S&, size_t, float, const float*, float*, long) { Gone("scaled"); }
}  // namespace
ENTRY h_scale() {
  const int n = vsx_param("n", 5);
  FftManager m(vsx_param("samples", 8));
  const float gain = vsx_f32("gain");
  AudioChannel in, out;
  in.Init(n);
  out.Init(n);
  std::vector<float> v(n);
  for (int i = 0; i < n; i++) v[i] = in[i] = vsx_f32("v");
  const bool inplace = vsx_choose("in place", 2);
  Scale(m, n, gain, in.begin(), inplace ? in.begin() : out.begin(), 0);
  for (int i = 0; i < n; i++) {
    const float e = v[i] * gain, g = inplace ? in[i] : out[i];
    vsx_assert(Same(g, e), "every element is scaled");
    if (!inplace) vsx_assert(Same(in[i], v[i]), "the input is not modified");
  }
  vsx_reach("scaled");
}
ENTRY h_reverse_scale() {
  const int n = vsx_param("n", 5);
  FftManager m(n);
  AudioChannel& t = m.GetTimeChannel();
  vsx_assert(t.size() == (size_t)n && m.GetFreqChannel().size() == Pow2(n), "channel sizes");
  std::vector<float> v(n);
  for (int i = 0; i < n; i++) v[i] = t[i] = (float)vsx_range("v", -1e6, 1e6);
  m.ApplyReverseFftScaling(&t);
  for (int i = 0; i < n; i++) vsx_assert(Same(t[i], v[i] / (float)Pow2(n)), "the scaling is one over the transform size");
  vsx_reach("scaled");
}
