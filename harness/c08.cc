// C08 time alignment. SHIFT: the lag search is arbitrary; otherwise the real
// envelope, correlation and FFT wrapping over a plain DFT
#include "h.h"
#include "alignment.h"
#include "audio_signal.h"
#include "envelope.h"
#include "xcorr.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
void SameMatrix(const M& a, const M& b, const char* msg) {
  vsx_assert(a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(), msg);
  for (size_t i = 0; i < b.NumElements(); i++) vsx_assert(Same(a(i), b(i)), msg);
}
}  // namespace
#ifdef SHIFT
namespace {
const M *the_ref, *the_deg;
int64_t the_lag;
int envelopes;
M Sym(const char* name, int n) {
  M m(n, 1);
  for (int i = 0; i < n; i++) m(i, 0) = vsx_f64(name);
  return m;
}
}  // namespace
namespace Visqol {
M Envelope::CalcUpperEnv(const M& signal) {
  envelopes++;
  return signal;
}
int64_t XCorr::FindLowestLagIndex(const M& a, const M& b) {
  SameMatrix(a, *the_ref, "the envelope of the reference comes first");
  SameMatrix(b, *the_deg, "the envelope of the degraded signal comes second");
  return the_lag;
}
}  // namespace Visqol
namespace {
// the shift the property asks for
M Shifted(const M& ref, const M& deg, int64_t lag, bool* moved) {
  const int64_t r = ref.NumRows(), d = deg.NumRows();
  *moved = lag != 0 && 2 * (lag < 0 ? -lag : lag) <= r && -lag < d;
  if (!*moved) return deg;
  M m(d + lag, 1);
  for (int64_t i = 0; i < d + lag; i++) m(i, 0) = i < lag ? 0 : deg(i - lag, 0);
  return m;
}
void CheckLag(double lag_s, int64_t lag, bool moved, size_t rate) {
  vsx_assert(lag_s == (moved ? lag / (double)rate : 0.0), "the lag in seconds is the lag over the sample rate, zero when nothing is shifted");
}
struct Case {
  M ref, deg;
  int64_t lag;
  size_t rate;
};
Case Make() {
  static const size_t rates[] = {49, 16000, 44100, 48000, 1};
  Case c;
  const int r = vsx_param("r", 3), d = vsx_param("d", 3), n = std::max(r, d);
  c.ref = Sym("ref", r);
  c.deg = Sym("deg", d);
  c.rate = rates[vsx_choose("rate", 5)];
  the_lag = c.lag = (int64_t)vsx_choose("lag", 2 * n - 1) - (n - 1);
  return c;
}
}  // namespace
ENTRY h_align() {
  const Case c = Make();
  const AudioSignal ref{c.ref, c.rate}, deg{c.deg, c.rate};
  the_ref = &c.ref, the_deg = &c.deg;
  const auto out = Alignment::GloballyAlign(ref, deg);
  bool moved;
  const M want = Shifted(c.ref, c.deg, c.lag, &moved);
  SameMatrix(std::get<0>(out).data_matrix, want, moved ? "the degraded signal is shifted by the lag" : "the degraded signal is unchanged");
  vsx_assert(std::get<0>(out).sample_rate == c.rate, "the sample rate is kept");
  CheckLag(std::get<1>(out), c.lag, moved, c.rate);
  SameMatrix(ref.data_matrix, c.ref, "the reference is not modified");
  SameMatrix(deg.data_matrix, c.deg, "the degraded input is not modified");
  vsx_reach(!moved ? "unchanged" : c.lag > 0 ? "delayed" : "advanced");
}
ENTRY h_truncate() {
  const Case c = Make();
  const AudioSignal ref{c.ref, c.rate}, deg{c.deg, c.rate};
  the_ref = &c.ref, the_deg = &c.deg;
  const auto out = Alignment::AlignAndTruncate(ref, deg);
  bool moved;
  const M s = Shifted(c.ref, c.deg, c.lag, &moved);
  const M &a = std::get<0>(out).data_matrix, &b = std::get<1>(out).data_matrix;
  const size_t skip = s.NumRows() > c.ref.NumRows() && moved && c.lag > 0 ? c.lag : 0, end = std::min(s.NumRows(), c.ref.NumRows());
  vsx_assert(a.NumRows() == b.NumRows() && a.NumRows() == end - skip && a.NumCols() == 1 && b.NumCols() == 1, "both have the length that is common");
  for (size_t i = 0; i < end - skip; i++) {
    vsx_assert(Same(a(i, 0), c.ref(skip + i, 0)), "consecutive samples of the reference");
    vsx_assert(Same(b(i, 0), s(skip + i, 0)), "consecutive samples of the shifted degraded signal");
  }
  vsx_assert(std::get<0>(out).sample_rate == c.rate && std::get<1>(out).sample_rate == c.rate, "the sample rate is kept");
  CheckLag(std::get<2>(out), c.lag, moved, c.rate);
  vsx_reach(s.NumRows() > c.ref.NumRows() ? "degraded longer" : s.NumRows() < c.ref.NumRows() ? "reference longer" : "same length");
}
#else
namespace {
// one of a few fixed shapes, the first `sym` samples free
M Signal(const char* name, int n, int sym, int shape) {
  static const double v[4][8] = {{0.5, -0.25, 0.75, -1, 0.25, 0.5, -0.5, 1}, {0, 0, 1, 0, 0, 0, 0, 0}, {1, 1, 1, 1, 1, 1, 1, 1}, {-0.5, -1, -0.75, -0.5, -1, -0.25, -0.5, -0.75}};
  M m(n, 1);
  // shape 4 (5): a weak (strong) sound at the start and a strong (weak) one at the end
  for (int i = 0; i < n; i++) m(i, 0) = i < sym ? vsx_range(name, -1, 1) : shape < 4 ? v[shape][i % 8] : i == 0 ? (shape == 4 ? 0.125 : 1) : i == n - 1 ? (shape == 4 ? 1 : 0.125) : 0;
  return m;
}
// displacing b by lag against a: sum of a[i + lag] b[i]
double Corr(const M& a, const M& b, int lag) {
  double s = 0;
  for (int i = 0; i < (int)b.NumRows(); i++)
    if (i + lag >= 0 && i + lag < (int)a.NumRows()) s += a(i + lag, 0) * b(i, 0);
  return s;
}
void Best(const M& a, const M& b, int64_t lag) {
  const int n = (int)std::max(a.NumRows(), b.NumRows());
  vsx_assert(lag > -n && lag < n, "the lag is shorter than the longer signal");
  for (int l = 1 - n; l < n; l++) vsx_assert(Corr(a, b, (int)lag) >= Corr(a, b, l) - 1e-3, "no other displacement correlates better");
}
}  // namespace
ENTRY h_lag() {
  const int na = vsx_param("na", 3), nb = vsx_param("nb", 3);
  const M a = Signal("a", na, vsx_param("sa", 2), vsx_param("shape", 0)), b = Signal("b", nb, vsx_param("sb", 0), vsx_param("shapeb", 0));
  const int64_t lag = XCorr::FindLowestLagIndex(a, b);
  Best(a, b, lag);
  vsx_reach("lag");
}
ENTRY h_delayed() {  // a delayed copy of an isolated sound is found again
  const int n = vsx_param("n", 8), len = vsx_param("len", 2), at = n / 2 - 1;
  const int k = (int)vsx_choose("delay", 2 * at + 1) - at;
  M a = M::Filled(n, 1, 0.0), b = M::Filled(n, 1, 0.0);
  for (int i = 0; i < len; i++) a(at + i, 0) = b(at + i + k, 0) = vsx_range("v", 0.01, 1);
  // values at other displacements are at most the energy (Cauchy-Schwarz), which is reached only at the delay
  vsx_assert(XCorr::FindLowestLagIndex(a, b) == -k, "the delay of a copy is found");
  vsx_reach("delayed");
}
ENTRY h_whole() {
  const int nr = vsx_param("nr", 4), nd = vsx_param("nd", 4);
  const AudioSignal ref{Signal("r", nr, vsx_param("sr", 0), vsx_param("shape", 0)), 16000};
  const AudioSignal deg{Signal("d", nd, vsx_param("sd", 1), vsx_param("shapeb", 0)), 16000};
  const auto out = Alignment::GloballyAlign(ref, deg);
  const double lag_s = std::get<1>(out);
  int lag = 99;
  for (int l = -8; l <= 8; l++) if (std::fabs(lag_s * 16000 - l) < 1e-6) lag = l;
  vsx_assert(lag != 99, "the lag is a number of samples over the sample rate");
  vsx_assert((int)std::get<0>(out).data_matrix.NumRows() == nd + lag, "the degraded signal is shifted by the lag");
  const M re = Envelope::CalcUpperEnv(ref.data_matrix), de = Envelope::CalcUpperEnv(deg.data_matrix);
  if (lag) {
    Best(re, de, lag);
  } else {  // no displacement that may be used is better than none or than every other
    const int n = std::max(nr, nd);
    double best = Corr(re, de, 0);
    for (int l = 1 - n; l < n; l++) if (2 * std::abs(l) > nr || -l >= nd) best = std::max(best, Corr(re, de, l));
    for (int l = 1 - n; l < n; l++) vsx_assert(best >= Corr(re, de, l) - 1e-3, "the best displacement is used");
  }
  vsx_reach(lag ? "shifted" : "not shifted");
}
#endif
