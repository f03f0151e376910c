// C10 the comparison engine's protocol; C18 the result message; C09 reuse of an engine
#include "h.h"
#include <cstring>
#include <memory>
#include <tuple>
#include "alignment.h"
#include "analysis_window.h"
#include "misc_audio.h"
#include "speech_similarity_to_quality_mapper.h"
#include "visqol.h"
#include "visqol_manager.h"
#include "files.h"
#include "models.h"
using namespace Visqol;
typedef AMatrix<double> M;
namespace {
struct Align { M ref, deg; };
struct Calc {
  AudioSignal ref, deg;
  const void *builder, *creator, *selector, *mapper;
  SpectrogramBuilder* b;
  const ImagePatchCreator* c;
  const SimilarityToQualityMapper* m;
  size_t size; double overlap;
  int window; bool norealign;
};
struct World {
  std::vector<Align> aligned;
  std::vector<Calc> calls;
  AudioSignal shifted;                  // what alignment answers
  double lag = 0;
  absl::Status error;                   // what the comparison answers
  SimilarityResult answer;
} *g;
bool Eq(const M& a, const M& b) {
  if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false;
  int ok = 1;
  for (size_t i = 0; i < a.NumElements(); i++) ok = vsx_and(ok, Same(a(i), b(i)));
  return ok != 0;
}
bool Eq(const std::vector<double>& a, const google::protobuf::RepeatedField<double>& b) {
  if ((int)a.size() != b.size()) return false;
  int ok = 1;
  for (size_t i = 0; i < a.size(); i++) ok = vsx_and(ok, Same(a[i], b.Get((int)i)));
  return ok != 0;
}
AudioSignal Signal(const char* n, int rows, size_t rate) {
  AudioSignal s;
  s.data_matrix = M(SymVec(n, rows));
  s.sample_rate = rate;
  return s;
}
SimilarityResult Answer() {
  SimilarityResult r{};
  r.moslqo = vsx_f64("moslqo"); r.vnsim = vsx_f64("vnsim");
  return r;
}
void Start() {
  g = new World; g_svm = new Svm; g_tf = new TfState;
  g->answer = Answer();
  g->shifted = Signal("shifted", 2, 0);
  g->lag = vsx_f64("lag");
}
void LatticeInputs() {
  g_tf->in.push_back({"tau", 0}); g_tf->tensors.push_back(new TfLiteTensor);
  for (const char* f : {"fvnsim", "fvnsim10_", "fstdnsim", "fvdegenergy"})
    for (int i = 0; i < 21; i++) { g_tf->in.push_back({f + std::to_string(i), 0}); g_tf->tensors.push_back(new TfLiteTensor); }
}
}  // namespace
// ---- stand-ins: the aligner and the comparison
namespace Visqol {
std::tuple<AudioSignal, double> Alignment::GloballyAlign(const AudioSignal& ref, const AudioSignal& deg) {
  vsx_assert(ref.data_matrix.NumRows() > 0 && deg.data_matrix.NumRows() > 0, "only signals with samples can be aligned");
  g->aligned.push_back({ref.data_matrix, deg.data_matrix});
  AudioSignal s = g->shifted;
  s.sample_rate = deg.sample_rate;
  return std::make_tuple(s, g->lag);
}
std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(const AudioSignal& ref, const AudioSignal& deg) { return std::make_tuple(ref, deg, 0.0); }
absl::StatusOr<SimilarityResult> Visqol::CalculateSimilarity(const AudioSignal& ref, AudioSignal& deg, SpectrogramBuilder* b, const AnalysisWindow& w, const ImagePatchCreator* c, const ComparisonPatchesSelector* s, const SimilarityToQualityMapper* m, const int window, const bool norealign) const {
  g->calls.push_back({ref, deg, b, c, s, m, b, c, m, w.size, w.overlap, window, norealign});
  if (!g->error.ok()) return g->error;
  // the mapper given must be ready to use
  std::vector<double> o(21, 1.0);
  m->PredictQuality(o, o, o, o);
  return g->answer;
}
}  // namespace Visqol
// any sequence of initialisations and comparisons
ENTRY h_protocol() {
  Start();
  LatticeInputs();
  VisqolManager v;
  bool ready = false;
  const int n = vsx_param("steps", 3);
  for (int i = 0; i < n; i++) {
    const int op = vsx_choose(("op" + std::to_string(i)).c_str(), 6);
    if (op < 5) {
      const bool speech = op < 3, lattice = op == 1 || op == 2;
      g_svm->load = op == 3; g_tf->load = op == 1;
      const bool ok = op == 0 || op == 1 || op == 3;
      vsx_assert(v.Init(FilePath("model"), speech, false, 60, lattice).ok() == ok, "initialisation fails exactly when the model cannot be loaded");
      ready = ok;
    }
    if (op == 5 || i == n - 1) {
      g->calls.clear();
      const AudioSignal ref = Signal("ref", 2, 48000);
      AudioSignal deg = Signal("deg", 2, 48000);
      const auto r = v.Run(ref, deg);
      vsx_assert(r.ok() == ready, "a comparison runs exactly when the last initialisation succeeded");
      vsx_assert(g->calls.size() == (ready ? 1 : 0), "nothing is compared by an engine that is not initialised");
      if (ready) vsx_assert(Same(r.value().moslqo(), g->answer.moslqo), "the score is the comparison's");
      vsx_reach(ready ? "ran" : "refused");
    }
  }
}
// the options and signals that reach the comparison
ENTRY h_run() {
  Start();
  LatticeInputs();
  const bool speech = vsx_choose("speech", 2), lattice = speech && vsx_choose("lattice", 2), unscaled = !lattice && speech;
  const bool noalign = vsx_u8("noalign") & 1, norealign = vsx_u8("norealign") & 1;
  const int window = (int)vsx_u32("window");
  const size_t r0 = vsx_u32("ref_rate"), r1 = vsx_u32("deg_rate");
  const int shape = vsx_choose("lengths", 3);
  const AudioSignal ref = Signal("ref", 1 + (shape == 1), r0), ref0 = ref;
  AudioSignal deg = Signal("deg", 1 + (shape == 2), r1);
  const AudioSignal deg0 = deg;
  const bool fails = vsx_choose("fails", 2);
  if (fails) g->error = absl::InternalError("comparison failed");
  VisqolManager v;
  vsx_assert(v.Init(FilePath("the/model"), speech, unscaled, window, lattice, noalign, norealign).ok(), "initialised");
  const auto r = v.Run(ref, deg);
  vsx_assert(Eq(ref.data_matrix, ref0.data_matrix) && ref.sample_rate == r0, "the reference is not modified");
  if (r0 != r1) {
    vsx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "different sample rates are an invalid argument");
    vsx_assert(g->calls.empty(), "signals of different sample rates are not compared");
    vsx_reach("rates differ");
    return;
  }
  vsx_assert(g->calls.size() == 1, "one comparison");
  const Calc& c = g->calls[0];
  vsx_assert(Eq(c.ref.data_matrix, ref0.data_matrix) && c.ref.sample_rate == r0, "the reference is compared as given");
  if (noalign) {
    vsx_assert(g->aligned.empty() && Eq(c.deg.data_matrix, deg0.data_matrix), "without global alignment the degraded signal is compared as given");
  } else {
    vsx_assert(g->aligned.size() == 1 && Eq(g->aligned[0].ref, ref0.data_matrix) && Eq(g->aligned[0].deg, deg0.data_matrix), "the given signals are aligned");
    vsx_assert(Eq(c.deg.data_matrix, g->shifted.data_matrix), "the aligned degraded signal is compared");
  }
  vsx_assert(c.deg.sample_rate == r1, "the sample rate is kept");
  vsx_assert(c.window == window, "the configured search window");
  vsx_assert(c.norealign == norealign, "fine realignment exactly when it is not disabled");
  const AnalysisWindow w{r0, 0.25};
  vsx_assert(c.size == w.size && Same(c.overlap, w.overlap), "the analysis window of the sample rate with a quarter hop");
  if (fails) {
    vsx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "an error of the comparison is returned");
    vsx_reach("error");
    return;
  }
  vsx_assert(r.ok() && Same(r.value().moslqo(), g->answer.moslqo) && Same(r.value().vnsim(), g->answer.vnsim), "the comparison's result is returned");
  vsx_assert(Same(r.value().alignment_lag_s(), noalign ? 0.0 : g->lag), "the alignment lag is reported");
  vsx_reach(noalign ? "not aligned" : "aligned");
}
// what each mode consists of
ENTRY h_modes() {
  Start();
  LatticeInputs();
  const bool speech = vsx_choose("speech", 2), lattice = vsx_choose("lattice", 2), unscaled = vsx_choose("unscaled", 2);
  // an engine used in another mode before gives the same
  VisqolManager v;
  const int before = vsx_choose("before", 3);
  if (before) v.Init(FilePath("other"), before == 1, !unscaled, 7, !lattice, true, true).IgnoreError();
  g_svm->path = g_tf->path = "";
  vsx_assert(v.Init(FilePath("the/model"), speech, unscaled, 60, lattice).ok(), "initialised");
  const AudioSignal ref = Signal("ref", 2, 48000);
  AudioSignal deg = Signal("deg", 2, 48000);
  vsx_assert(v.Run(ref, deg).ok() && g->calls.size() == 1 && g->aligned.size() == 1, "compared once, aligned by default");
  const Calc& c = g->calls[0];
  vsx_assert(!c.norealign, "fine realignment is on by default");
  // the mapping
  const std::vector<double> o(21, 1.0);
  g_svm->answer = 3.25; g_tf->out = 2.5f;
  const double q = c.m->PredictQuality(o, o, o, o);
  if (!speech) vsx_assert(q == 3.25 && g_svm->path == "the/model", "audio mode uses the support-vector model of the path");
  else if (lattice) vsx_assert(q == 2.5 && g_tf->path == "the/model", "speech mode with a lattice uses the lattice model of the path");
  else vsx_assert(unscaled ? q > 4.01 && q < 4.03 : std::fabs(q - 5) < 1e-6, "speech mode without a lattice uses the exponential, scaled unless asked otherwise");
  // the bands
  AudioSignal s;
  s.data_matrix = M(std::vector<double>{1, 2, -1, 0.5, 0.25, -3, 1, 4, 0.125, 2, -2, 1});
  s.sample_rate = 48000;
  AnalysisWindow w{200, 0.25};
  w.size = 8;
  const auto sp = c.b->Build(s, w);
  vsx_assert(sp.ok() && sp.value().Data().NumRows() == (speech ? 21 : 32), "21 bands for speech, 32 for audio");
  const double top = sp.value().GetCenterFreqBands()[speech ? 20 : 31], bottom = sp.value().GetCenterFreqBands()[0];
  vsx_assert(speech ? top > 5000 && top < 8000 : top > 15000 && top < 24000, "the bands end at 8 kHz for speech, at half the sample rate for audio");
  vsx_assert(std::fabs(bottom - 50) < 1, "the bands start at 50 Hz");
  // the patches
  const M wide = M::Filled(2, 40, 0.5);
  const auto patches = c.c->CreatePatchesFromIndices(wide, {0});
  vsx_assert(patches.size() == 1 && patches[0].NumCols() == (speech ? 20 : 30), "patches of 20 frames for speech, 30 for audio");
  vsx_reach(speech ? "speech" : "audio");
}
// signals without samples
ENTRY h_empty() {
  Start();
  VisqolManager v;
  vsx_assert(v.Init(FilePath("m"), true, false, 60, false, vsx_choose("noalign", 2), false).ok(), "initialised");
  const int n0 = vsx_choose("ref_len", 2), n1 = vsx_choose("deg_len", 2);
  if (n0 && n1) return;
  const AudioSignal ref = n0 ? Signal("ref", 1, 48000) : AudioSignal{M(), 48000};
  AudioSignal deg = n1 ? Signal("deg", 1, 48000) : AudioSignal{M(), 48000};
  const auto r = v.Run(ref, deg);
  vsx_assert(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument && g->calls.empty(), "a signal without samples is an invalid argument");
  vsx_reach("empty");
}
namespace {
std::string Wav(uint32_t rate, const std::vector<int16_t>& x) {
  std::string s;
  const auto u = [&](uint32_t v, int n) { for (int i = 0; i < n; i++) s += (char)(uint8_t)(v >> (8 * i)); };
  s += "RIFF"; u(36 + 2 * x.size(), 4); s += "WAVEfmt "; u(16, 4); u(1, 2); u(1, 2); u(rate, 4); u(rate * 2, 4); u(2, 2); u(16, 2);
  s += "data"; u(2 * x.size(), 4);
  for (int16_t v : x) u((uint16_t)v, 2);
  return s;
}
}  // namespace
// a pair of files: present, absent, or not audio
ENTRY h_files() {
  Start();
  VisqolManager v;
  const bool noalign = vsx_choose("noalign", 2), init = vsx_choose("init", 4) != 0;
  if (init) vsx_assert(v.Init(FilePath("m"), true, false, 60, false, noalign, false).ok(), "initialised");
  std::vector<int16_t> x[2];
  int kind[2];
  for (int i = 0; i < 2; i++) {
    kind[i] = vsx_choose(i ? "deg_kind" : "ref_kind", 4);
    for (int k = 0; k < (kind[i] == 0 ? 2 : kind[i] == 1 ? 1 : 0); k++) x[i].push_back((int16_t)vsx_u16("sample"));
    const std::string name = i ? "d.wav" : "r.wav";
    if (kind[i] < 2) PutFile(name, Wav(16000, x[i]));
    if (kind[i] == 2) PutFile(name, "not audio");
  }
  const auto r = v.Run(FilePath("r.wav"), FilePath("d.wav"));
  if (!init) { vsx_assert(!r.ok() && g->calls.empty(), "an engine that is not initialised compares no files"); vsx_reach("refused"); return; }
  if (kind[0] > 1 || kind[1] > 1) {
    vsx_assert(!r.ok() && g->calls.empty(), "a file that cannot be read is an error");
    vsx_assert(r.status().code() != absl::StatusCode::kAborted, "which does not say that the engine is not initialised");
    vsx_reach("unreadable");
    return;
  }
  vsx_assert(r.ok(), "compared");
  vsx_assert(r.value().reference_filepath() == "r.wav" && r.value().degraded_filepath() == "d.wav", "the result names its files");
  const Calc& c = g->calls[0];
  const M& deg = noalign ? c.deg.data_matrix : g->aligned[0].deg;
  for (int i = 0; i < 2; i++) {
    const M& m = i ? deg : c.ref.data_matrix;
    int ok = m.NumRows() == x[i].size() && m.NumCols() == 1;
    for (size_t k = 0; ok && k < x[i].size(); k++) ok = vsx_and(ok, m(k) == x[i][k] / 32768.0);
    vsx_assert(ok, "the samples of the files are compared");
  }
  vsx_assert(c.ref.sample_rate == 16000 && c.deg.sample_rate == 16000, "at the files' sample rate");
  vsx_reach("compared");
}
// ---- C18: the message
ENTRY h_message() {
  Start();
  SimilarityResult& a = g->answer;
  const int n = vsx_choose("bands", 3), other = vsx_choose("others", 3);
  a.fvnsim = SymVec("fvnsim", n); a.fvnsim10 = SymVec("fvnsim10", other); a.fstdnsim = SymVec("fstdnsim", n); a.fvdegenergy = SymVec("fvdegenergy", other); a.center_freq_bands = SymVec("freq", n);
  const int patches = vsx_choose("patches", 4);
  for (int i = 0; i < patches; i++) {
    PatchSimilarityResult p{};
    p.similarity = vsx_f64("similarity");
    p.ref_patch_start_time = vsx_f64("ref_start"); p.ref_patch_end_time = vsx_f64("ref_end");
    p.deg_patch_start_time = vsx_f64("deg_start"); p.deg_patch_end_time = vsx_f64("deg_end");
    p.freq_band_means = M(SymVec("band_mean", 1 + i % 2)); p.freq_band_stddevs = M(SymVec("sd", 2)); p.freq_band_deg_energy = M(SymVec("energy", 2));
    a.debug_info.patch_sims.push_back(p);
  }
  VisqolManager v;
  vsx_assert(v.Init(FilePath("m"), true, false, 60, false).ok(), "initialised");
  const AudioSignal ref = Signal("ref", 1, 16000);
  // a result does not mix with the one before
  for (int k = 0; k < 2; k++) {
    AudioSignal deg = Signal("deg", 1, 16000);
    const auto r = v.Run(ref, deg);
    vsx_assert(r.ok(), "compared");
    const SimilarityResultMsg& m = r.value();
    vsx_assert(Same(m.moslqo(), a.moslqo), "score");
    vsx_assert(Same(m.vnsim(), a.vnsim), "overall similarity");
    vsx_assert(Eq(a.fvnsim, m.fvnsim()), "mean similarities");
    vsx_assert(Eq(a.fvnsim10, m.fvnsim10()), "decile similarities");
    vsx_assert(Eq(a.fstdnsim, m.fstdnsim()), "deviations");
    vsx_assert(Eq(a.fvdegenergy, m.fvdegenergy()), "degraded energies");
    vsx_assert(Eq(a.center_freq_bands, m.center_freq_bands()), "centre frequencies");
    vsx_assert(Same(m.alignment_lag_s(), g->lag), "alignment lag");
    vsx_assert(m.patch_sims_size() == patches, "one entry per patch");
    for (int i = 0; i < patches; i++) {
      const PatchSimilarityResult& p = a.debug_info.patch_sims[i];
      const auto& q = m.patch_sims(i);
      vsx_assert(Same(q.similarity(), p.similarity), "patch similarity");
      vsx_assert(vsx_and(Same(q.ref_patch_start_time(), p.ref_patch_start_time), Same(q.ref_patch_end_time(), p.ref_patch_end_time)), "reference times");
      vsx_assert(vsx_and(Same(q.deg_patch_start_time(), p.deg_patch_start_time), Same(q.deg_patch_end_time(), p.deg_patch_end_time)), "degraded times");
      vsx_assert(Eq(p.freq_band_means.ToVector(), q.freq_band_means()), "band means");
    }
    a.debug_info.patch_sims.resize(patches);
  }
  vsx_reach("complete");
}
// ---- C09: an engine that has compared before
ENTRY h_reuse() {
  Start();
  VisqolManager used, fresh;
  const bool speech = vsx_choose("speech", 2);
  vsx_assert(used.Init(FilePath("m"), speech, false, 60, false).ok() && fresh.Init(FilePath("m"), speech, false, 60, false).ok(), "initialised");
  const AudioSignal other = Signal("earlier", 2, 16000), ref = Signal("ref", 2, 48000);
  {
    AudioSignal d = Signal("earlier_deg", 1, vsx_choose("earlier_rates", 2) ? 8000 : 16000);
    if (vsx_choose("earlier_fails", 2)) g->error = absl::InternalError("x");
    used.Run(other, d).IgnoreError();
    g->error = absl::Status();
  }
  g->calls.clear(); g->aligned.clear();
  g->lag = vsx_f64("lag2"); g->shifted = Signal("shifted2", 2, 0); g->answer = Answer();
  AudioSignal d0 = Signal("deg", 2, 48000), d1 = d0;
  const auto a = used.Run(ref, d0), b = fresh.Run(ref, d1);
  vsx_assert(a.ok() && b.ok() && g->calls.size() == 2, "compared");
  vsx_assert(Eq(g->calls[0].ref.data_matrix, g->calls[1].ref.data_matrix) && Eq(g->calls[0].deg.data_matrix, g->calls[1].deg.data_matrix) && g->calls[0].size == g->calls[1].size && g->calls[0].window == g->calls[1].window, "the same comparison");
  vsx_assert(Same(a.value().moslqo(), b.value().moslqo()) && Same(a.value().alignment_lag_s(), b.value().alignment_lag_s()) && Eq(d0.data_matrix, d1.data_matrix), "the same result");
  vsx_reach("reused");
}
