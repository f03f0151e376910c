// C27 a signal compared with itself
#include "h.h"
#include <memory>
#include <tuple>
#include <vector>
#include "alignment.h"
#include "analysis_window.h"
#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "neurogram_similiarity_index_measure.h"
#include "similarity_to_quality_mapper.h"
#include "spectrogram_builder.h"
#include "visqol.h"
using namespace Visqol;
typedef AMatrix<double> M;
namespace {
bool Equal(const M& a, const M& b) {
  if (a.NumRows() != b.NumRows() || a.NumCols() != b.NumCols()) return false;
  bool same = true;
  for (size_t i = 0; i < a.NumElements(); i++) same = vsx_and(same, a(i) == b(i));
  return same;
}
const int kBands = 2;
// the spectrogram is a function of the samples
struct Builder : SpectrogramBuilder {
  std::vector<AudioSignal> seen;
  std::vector<M> made;
  int patch = 2, whole = 0, free = 0;
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow&) override {
    size_t i = 0;
    while (i < seen.size() && !Equal(seen[i].data_matrix, s.data_matrix)) i++;
    if (i == seen.size()) {
      seen.push_back(s);
      const int n = i ? patch : whole;
      M m(kBands, n);
      for (int j = 0; j < n; j++)
        for (int b = 0; b < kBands; b++) {
          const int k = j * kBands + b;
          m(b, j) = k < free ? vsx_range("level", 0, 1000) : 1.0 + (k * 7 + i) % 23 + 0.25 * k;
        }
      made.push_back(m);
    }
    Spectrogram r{M(made[i])};
    r.SetCenterFreqBands({50, 3000});
    return r;
  }
};
// 1 for equal patches, anything up to 1 for others
struct Index : PatchSimilarityComparator {
  struct Known { M a, b; PatchSimilarityResult r; };
  mutable std::vector<Known> known;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& a, const ImagePatch& b) const override {
    for (auto& k : known) if (Equal(k.a, a) && Equal(k.b, b)) return k.r;
    PatchSimilarityResult r{};
    const bool same = Equal(a, b);
    r.freq_band_means = M::Filled(kBands, 1, 1.0);
    r.freq_band_stddevs = M::Filled(kBands, 1, 0.0);
    r.freq_band_deg_energy = M::Filled(kBands, 1, 0.0);
    double sum = 0;
    for (int i = 0; i < kBands; i++) {
      if (!same) { r.freq_band_means(i) = vsx_range("mean", -1, 1); r.freq_band_stddevs(i) = vsx_range("sd", 0, 1) * (1 - r.freq_band_means(i)); }
      r.freq_band_deg_energy(i) = vsx_range("energy", 0, 100);
      sum += r.freq_band_means(i);
    }
    r.similarity = sum / kBands;
    known.push_back({a, b, r});
    return r;
  }
};
struct Mapper : SimilarityToQualityMapper {
  mutable std::vector<double> in[3];
  double answer;
  absl::Status Init() override { return absl::Status(); }
  double PredictQuality(const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& c, const std::vector<double>&) const override {
    in[0] = a; in[1] = b; in[2] = c;
    return answer;
  }
};
void Self(PatchSimilarityComparator* index, int patches, int radius, bool off, int free) {
  const int sr = 8, patch = 2, frames = patch * (patches + 1) + 1, len = 2 * (frames - 1) + 8;
  static const double v[] = {0.5, -0.25, 0.75, -1, 0.25, 0.5, -0.5, 1, 0.125, -0.75};
  M a(len, 1);
  for (int i = 0; i < len; i++) a(i) = v[(i * 3 + i / 7) % 10];
  const AudioSignal ref{a, (size_t)sr};
  AudioSignal deg{a, (size_t)sr};
  Builder b;
  b.whole = frames; b.free = free;
  const AnalysisWindow w(sr, 0.25, 1.0);
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(index)};
  const ImagePatchCreator mk(patch);
  Mapper map;
  map.answer = vsx_f64("quality");
  const class Visqol q;
  const auto rs = q.CalculateSimilarity(ref, deg, &b, w, &mk, &sel, &map, radius, off);
  vsx_assert(rs.ok(), "a signal can be compared with itself");
  vsx_assert(Equal(deg.data_matrix, a), "matching a signal's level to its own changes nothing");
  const SimilarityResult& r = rs.value();
  vsx_assert((int)r.debug_info.patch_sims.size() == patches, "every patch is matched");
  for (auto& p : r.debug_info.patch_sims) {
    vsx_close(p.similarity, 1, 1e-6, "every patch is perfectly similar");
    if (radius == 0) vsx_assert(std::fabs(p.ref_patch_start_time - p.deg_patch_start_time) < 1e-9 && std::fabs(p.ref_patch_end_time - p.deg_patch_end_time) < 1e-9, "matched in place");
  }
  for (int i = 0; i < kBands; i++) {
    vsx_close(r.fvnsim[i], 1, 1e-6, "every band is perfectly similar");
    vsx_close(r.fvnsim10[i], 1, 1e-6, "also where it is worst");
    vsx_assert(r.fstdnsim[i] <= 1e-3, "without deviation");
    for (int k = 0; k < 2; k++) vsx_close(map.in[k][i], 1, 1e-6, "the mapping is asked about perfect similarity");
  }
  vsx_close(r.vnsim, 1, 1e-6, "the overall similarity is 1");
  vsx_assert(Same(r.moslqo, map.answer), "the mapping's value is reported");
}
}  // namespace
ENTRY h_self_search() {
  const int radius = vsx_param("radius", 1);
  Self(new Index, vsx_param("patches", 2), radius, vsx_choose("disable realignment", 2), 0);
  vsx_reach("compared");
}
ENTRY h_self_nsim() {
  Self(new NeurogramSimiliarityIndexMeasure, 1, 0, vsx_choose("disable realignment", 2), vsx_param("free", 1));
  vsx_reach("compared");
}
// every part as it is, on fixed sounds; the level of one of them is free
ENTRY h_self_real() {
  const int sr = 200, size = 16, hop = 4, patch = 6, frames = 15, len = size + (frames - 1) * hop;
  M a(len, 1);
  const int kind = vsx_choose("sound", 4), radius = vsx_choose("radius", 3);
  const bool off = vsx_choose("disable realignment", 2);
  for (int i = 0; i < len; i++) a(i) = kind == 0 ? std::sin(i * 0.9) + 0.5 * std::sin(i * 2.1 + i * i * 0.01) : kind == 1 ? (i == len / 2) : kind == 2 ? 0.25 * ((i * 7) % 5) - 0.5 : 0.0;
  const AudioSignal ref{a, (size_t)sr};
  AudioSignal deg{a, (size_t)sr};
  GammatoneSpectrogramBuilder b(GammatoneFilterBank{3, 50}, false);
  const AnalysisWindow w(sr, 0.25, 0.08);
  vsx_assert((int)w.size == size, "windows of 16 samples");
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(new NeurogramSimiliarityIndexMeasure)};
  const ImagePatchCreator mk(patch);
  Mapper map;
  map.answer = vsx_f64("quality");
  const class Visqol q;
  const auto rs = q.CalculateSimilarity(ref, deg, &b, w, &mk, &sel, &map, radius, off);
  vsx_assert(rs.ok(), "a signal can be compared with itself");
  const SimilarityResult& r = rs.value();
  vsx_close(r.vnsim, 1, 1e-6, "the overall similarity is 1");
  for (int i = 0; i < 3; i++) {
    vsx_close(r.fvnsim[i], 1, 1e-6, "every band is perfectly similar");
    vsx_close(r.fvnsim10[i], 1, 1e-6, "also where it is worst");
    vsx_assert(r.fstdnsim[i] <= 1e-3, "without deviation");
  }
  vsx_assert(Same(r.moslqo, map.answer), "the mapping's value is reported");
  vsx_reach("compared");
}
// alignment of a sound with itself
ENTRY h_self_align() {
  const int n = vsx_param("n", 2), free = vsx_param("free", n);
  static const double v[8] = {0.5, -0.25, 0.75, -1, 0.25, 0.5, -0.5, 1};
  M a(n, 1);
  bool loud = n > free;
  for (int i = 0; i < n; i++) {
    a(i) = i < free ? vsx_range("v", -1, 1) : v[i % 8];
    if (i < free) loud = vsx_or(loud, vsx_or(a(i) >= 0.25, a(i) <= -0.25));
  }
  vsx_assume(loud);
  const AudioSignal s{a, 16000}, t{a, 16000};
  const auto out = vsx_choose("truncate", 2) ? Alignment::AlignAndTruncate(s, t) : [&] {
    const auto g = Alignment::GloballyAlign(s, t);
    return std::make_tuple(s, std::get<0>(g), std::get<1>(g));
  }();
  vsx_assert(std::get<2>(out) == 0, "a sound is not displaced against itself");
  vsx_assert(Equal(std::get<0>(out).data_matrix, a) && Equal(std::get<1>(out).data_matrix, a), "aligning a sound with itself changes nothing");
  vsx_reach("aligned");
}
