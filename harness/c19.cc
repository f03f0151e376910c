// C19 matching the level of the degraded signal to the reference
#include "h.h"
#include "misc_audio.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
// n samples, the first `sym` of them symbolic, never silent
AudioSignal Sig(const char* name, int n, int sym, double base, size_t rate) {
  M m(n, 1);
  for (int i = 0; i < n; i++) m(i, 0) = i < sym ? vsx_range(name, -1, 1) : (i % 2 ? -base : base) * (1 + 0.5 * i);
  vsx_assume(std::fabs(m(0, 0)) > 1e-6);
  return {m, rate};
}
double Power(const M& m) {
  double s = 0;
  for (size_t i = 0; i < m.NumRows(); i++) s += m(i, 0) * m(i, 0);
  return s / m.NumRows();
}
void SameShape(const AudioSignal& out, const AudioSignal& deg) {
  vsx_assert(out.data_matrix.NumRows() == deg.data_matrix.NumRows() && out.data_matrix.NumCols() == 1, "the number of samples is kept");
  vsx_assert(out.sample_rate == deg.sample_rate, "the sample rate is kept");
}
}  // namespace
ENTRY h_level() {
  const int nr = vsx_param("nr", 2), nd = vsx_param("nd", 2);
  const AudioSignal ref = Sig("ref", nr, vsx_param("sr", 1), 0.25, 16000), deg = Sig("deg", nd, vsx_param("sd", 1), 0.125, 48000);
  const AudioSignal ref0 = ref, deg0 = deg;
  const AudioSignal out = MiscAudio::ScaleToMatchSoundPressureLevel(ref, deg);
  SameShape(out, deg0);
  const M &o = out.data_matrix, &d = deg0.data_matrix;
  for (int i = 0; i < nr; i++) vsx_assert(Same(ref.data_matrix(i, 0), ref0.data_matrix(i, 0)), "the reference is not modified");
  for (int i = 0; i < nd; i++) vsx_assert(Same(deg.data_matrix(i, 0), d(i, 0)), "the degraded input is not modified");
  vsx_close(Power(o), Power(ref0.data_matrix), 1e-9, "the level equals the reference's");
  vsx_assert(o(0, 0) * d(0, 0) > 0, "the factor is positive");
  for (int i = 1; i < nd; i++) vsx_close(o(i, 0) * d(0, 0), o(0, 0) * d(i, 0), 1e-9, "one factor for all samples");
  vsx_reach("matched");
}
ENTRY h_equal() {
  const int n = vsx_param("n", 2), sym = vsx_param("sym", 99);
  const AudioSignal ref = Sig("ref", n, sym, 0.25, 16000);
  AudioSignal deg = ref;
  // same level: the same samples, mirrored, and in another order
  if (vsx_choose("mirrored", 2)) for (int i = 0; i < n; i++) deg.data_matrix(i, 0) = -ref.data_matrix(n - 1 - i, 0);
  const AudioSignal out = MiscAudio::ScaleToMatchSoundPressureLevel(ref, deg);
  SameShape(out, deg);
  for (int i = 0; i < n; i++) vsx_close(out.data_matrix(i, 0), deg.data_matrix(i, 0), 1e-9, "equal levels leave the signal unchanged");
  vsx_reach("equal");
}
ENTRY h_gain() {
  const int nr = vsx_param("nr", 2), nd = vsx_param("nd", 2);
  const AudioSignal ref = Sig("ref", nr, vsx_param("sr", 1), 0.25, 16000), deg = Sig("deg", nd, vsx_param("sd", 1), 0.125, 16000);
  const double g = vsx_range("gain", 0.01, 100);
  AudioSignal loud = deg;
  for (int i = 0; i < nd; i++) loud.data_matrix(i, 0) = deg.data_matrix(i, 0) * g;
  const AudioSignal a = MiscAudio::ScaleToMatchSoundPressureLevel(ref, deg), b = MiscAudio::ScaleToMatchSoundPressureLevel(ref, loud);
  for (int i = 0; i < nd; i++) vsx_close(a.data_matrix(i, 0), b.data_matrix(i, 0), 1e-9, "amplifying the degraded signal changes nothing");
  vsx_reach("amplified");
}
namespace {
template <class S> auto Level(const AudioSignal& x, int) -> decltype((double)S::CalcSoundPressureLevel(x)) { return S::CalcSoundPressureLevel(x); }
template <class S> double Level(const AudioSignal&, long) { Gone("level"); return 0; }
}  // namespace
ENTRY h_spl() {
  const AudioSignal x = Sig("x", vsx_param("n", 2), 99, 0.25, 16000);
  vsx_close(Level<MiscAudio>(x, 0), 20 * std::log10(std::sqrt(Power(x.data_matrix)) / 0.00002), 1e-9, "the level is that of the RMS over 20 micropascal");
  vsx_reach("level");
}
