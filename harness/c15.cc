// C15 which patches of the reference are compared
#include "h.h"
#include "amatrix.h"
#include "analysis_window.h"
#include "image_patch_creator.h"
#include "rms_vad.h"
#include "vad_patch_creator.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
// only the number of columns of the spectrogram matters here
void SetCols(M& m, size_t n) { arma::access::rw(m.matrix_.n_cols) = n; }
}  // namespace
ENTRY h_image() {
  const size_t P = vsx_u32("patch"), L = vsx_u32("length");
  vsx_assume(P >= 2 && P <= 1 << 20);
  vsx_assume(L <= vsx_param("ratio", 4) * P);
  M spec(1, 1);
  SetCols(spec, L);
  const ImagePatchCreator c(P);
  AudioSignal sig{M(1, 1), 16000};
  const auto r = c.CreateRefPatchIndices(spec, sig, AnalysisWindow(16000, 0.25));
  SetCols(spec, 1);
  if (L < P + P / 2) {
    vsx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "less than one and a half patches is rejected");
    vsx_reach("too short");
    return;
  }
  vsx_assert(r.ok(), "one and a half patches are enough");
  const auto& v = r.value();
  vsx_assert(!v.empty(), "at least one patch");
  for (size_t i = 0; i < v.size(); i++) {
    vsx_assert(v[i] == P / 2 - 1 + i * P, "half a patch less one frame in, at patch-size spacing");
    vsx_assert(v[i] + P <= L, "inside the spectrogram");
  }
  // the next one of the grid would leave fewer than two frames behind it
  vsx_assert(P / 2 - 1 + v.size() * P + P + 2 > L, "no patch of the grid is left out");
  vsx_reach("patches");
}
// loud and quiet chunks of one hop in any combination
ENTRY h_speech() {
  const size_t P = vsx_param("patch", 2), L = vsx_param("length", 4), hop = 2;
  AnalysisWindow w(16000, 0.25);
  w.size = 8;
  const size_t n = w.size + (L ? L - 1 : 0) * hop + vsx_param("rest", 0), first = P / 2 - 1;
  AudioSignal sig{M(n, 1), 16000};
  std::vector<bool> quiet;
  bool loud = false;
  for (size_t i = 0; i < n; i++) {
    const size_t chunk = i < first ? 0 : (i - first) / hop;
    if (i == 0 || i == first || (i > first && (i - first) % hop == 0)) loud = vsx_u8("loud") & 1;
    sig.data_matrix(i, 0) = i + 1 == n ? 1.0 : vsx_ite_f64(loud, i % 2 ? -0.5 : 0.75, i % 2 ? -0.05 : 0.1);
    if (i >= first && (i - first) % hop == 0) quiet.push_back(!loud);
    (void)chunk;
  }
  M spec(1, 1);
  SetCols(spec, L);
  const M before = sig.data_matrix;
  const VadPatchCreator c(P);
  const auto r = c.CreateRefPatchIndices(spec, sig, w);
  SetCols(spec, 1);
  for (size_t i = 0; i < n; i++) vsx_assert(Same(before(i, 0), sig.data_matrix(i, 0)), "the signal is not modified");
  if (L < first + P) {
    vsx_assert(!r.ok() || r.value().empty(), "a reference too short for one patch has none");
    vsx_reach("too short");
    return;
  }
  vsx_assert(r.ok(), "long enough");
  std::vector<size_t> want;
  for (size_t s = first, k = 0; s + P <= L; s += P, k++) {
    bool active = false;
    for (size_t f = k * P; f < (k + 1) * P; f++) active |= f < 2 || !(quiet[f] && quiet[f - 1] && quiet[f - 2]);
    if (active) want.push_back(s);
  }
  vsx_assert(r.value() == want, "the patches of the grid with at least one active frame");
  vsx_reach("patches");
}
// any samples: every chosen patch is one of the grid
ENTRY h_speech_any() {
  const size_t P = vsx_param("patch", 2), L = vsx_param("length", 3), hop = 1;
  AnalysisWindow w(16000, 0.25);
  w.size = 4;
  const size_t n = w.size + (L ? L - 1 : 0) * hop;
  AudioSignal sig{M(n, 1), 16000};
  // a full-scale peak, silence, only negative samples, no number
  const double fill[] = {0.01, 0.0, -0.25, NAN, 3.5};
  const int kind = vsx_choose("kind", 5), sym = kind ? 0 : vsx_param("sym", 2);
  for (size_t i = 0; i < n; i++) sig.data_matrix(i, 0) = (int)i < sym ? (int16_t)vsx_u16("x") / 32768.0 : fill[kind];
  if (kind == 0) sig.data_matrix(n - 1, 0) = 1;
  M spec(1, 1);
  SetCols(spec, L);
  const auto r = VadPatchCreator(P).CreateRefPatchIndices(spec, sig, w);
  SetCols(spec, 1);
  if (r.ok()) {
    size_t last = 0;
    for (size_t k = 0; k < r.value().size(); k++) {
      const size_t s = r.value()[k];
      vsx_assert(s >= P / 2 - 1 && (s - (P / 2 - 1)) % P == 0 && s + P <= L, "on the grid and inside the spectrogram");
      vsx_assert(k == 0 || s > last, "in order");
      last = s;
    }
  }
  vsx_reach("any");
}
