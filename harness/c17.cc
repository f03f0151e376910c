// C17 aggregation of matched patches into score features; the comparison as a whole
#include "h.h"
#include <algorithm>
#include <memory>
#include <tuple>
#include "alignment.h"
#include "analysis_window.h"
#include "comparison_patches_selector.h"
#include "image_patch_creator.h"
#include "similarity_to_quality_mapper.h"
#include "spectrogram_builder.h"
#include "visqol.h"
using namespace Visqol;
typedef AMatrix<double> M;
namespace {
PatchSimilarityResult Patch(int bands) {
  PatchSimilarityResult r{};
  r.freq_band_means = M::Filled(bands, 1, 0.0);
  r.freq_band_stddevs = M::Filled(bands, 1, 0.0);
  r.freq_band_deg_energy = M::Filled(bands, 1, 0.0);
  return r;
}
std::vector<PatchSimilarityResult> Patches(int n, int bands) {
  std::vector<PatchSimilarityResult> v;
  for (int i = 0; i < n; i++) {
    v.push_back(Patch(bands));
    for (int b = 0; b < bands; b++) {
      v[i].freq_band_means(b) = vsx_range("mean", -1, 1);
      v[i].freq_band_stddevs(b) = vsx_range("sd", 0, 10);
      v[i].freq_band_deg_energy(b) = vsx_range("energy", 0, 1000);
    }
  }
  return v;
}
std::vector<PatchSimilarityResult> Shuffled(const std::vector<PatchSimilarityResult>& v) {
  auto r = v;
  const int n = v.size();
  switch (vsx_choose("shuffle", 3)) {
    case 0: std::reverse(r.begin(), r.end()); break;
    case 1: std::rotate(r.begin(), r.begin() + n / 2, r.end()); break;
    default: std::swap(r[0], r[n - 1]);
  }
  return r;
}
double Min(double a, double b) { return vsx_ite_f64(a <= b, a, b); }
double Max(double a, double b) { return vsx_ite_f64(a <= b, b, a); }
const double kTol = 1e-9;
}  // namespace
// n patches of which up to `sym` have symbolic means, the others spread out
ENTRY h_decile() {
  const int n = vsx_param("n", 2), sym = std::min(n, vsx_param("sym", 3)), bands = 1;
  std::vector<PatchSimilarityResult> v;
  const int rot = vsx_param("rot", 0);
  double sum = 0;
  for (int i = 0; i < n; i++) {
    v.push_back(Patch(bands));
    const int k = (i + rot) % n;
    v[i].freq_band_means(0) = k < sym ? vsx_range("mean", -1, 1) : 0.01 * ((k * 7) % n) + 0.05;
    sum += v[i].freq_band_means(0);
  }
  const class Visqol q;
  const double got = q.CalcPerPatchFreqBandQuantile(v, 0.10)(0);
  // the k lowest, one after the other
  const int k = std::max(1, n / 10);
  std::vector<double> x;
  for (auto& p : v) x.push_back(p.freq_band_means(0));
  double low = 0;
  for (int j = 0; j < k; j++) {
    for (int i = n - 1; i > j; i--) { const double a = Min(x[i - 1], x[i]), b = Max(x[i - 1], x[i]); x[i - 1] = a; x[i] = b; }
    low += x[j];
  }
  vsx_close(got, low / k, kTol, "the mean of the lowest tenth of the band means");
  vsx_assert(got <= sum / n + kTol, "the decile feature never exceeds the mean");
  const double again = q.CalcPerPatchFreqBandQuantile(Shuffled(v), 0.10)(0);
  vsx_close(again, got, kTol, "the order of the patches does not matter");
  vsx_reach("decile");
}
// bands do not influence one another
ENTRY h_decile_bands() {
  const int n = 3;
  std::vector<PatchSimilarityResult> v = Patches(n, 2);
  const class Visqol q;
  const M d = q.CalcPerPatchFreqBandQuantile(v, 0.10);
  vsx_assert(d.NumRows() == 2 && d.NumCols() == 1, "one value per band");
  for (int b = 0; b < 2; b++) {
    double m = v[0].freq_band_means(b);
    for (int i = 1; i < n; i++) m = Min(m, v[i].freq_band_means(b));
    vsx_assert(d(b) == m, "the lowest of the band's own means");
  }
  vsx_reach("bands");
}
// ---- the whole comparison
namespace {
struct Builder : SpectrogramBuilder {
  int calls = 0, fail_at = -1, frames;
  std::vector<AudioSignal> sig;
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow& w) override {
    sig.push_back(s);
    const int k = calls++;
    if (k == fail_at) return absl::InvalidArgumentError("too short");
    const int n = k < 2 ? frames : 2;
    M m(2, n);
    for (int j = 0; j < n; j++) { m(0, j) = 1.0 + j + 100 * k; m(1, j) = 2.0; }
    Spectrogram r(std::move(m));
    r.SetCenterFreqBands(k == 0 ? std::vector<double>{50, 3000} : std::vector<double>{1, 2});
    return r;
  }
};
struct Sim : PatchSimilarityComparator {
  mutable int calls = 0;
  bool fixed = false;                       // any values, but no choice of frames
  double lo = -1;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& a, const ImagePatch& b) const override {
    calls++;
    PatchSimilarityResult r = Patch(2);
    r.similarity = fixed ? 0.5 : vsx_range("similarity", -1, 1);
    for (int i = 0; i < 2; i++) { r.freq_band_means(i) = vsx_range("mean", lo, 1); r.freq_band_stddevs(i) = vsx_range("sd", 0, 1); r.freq_band_deg_energy(i) = vsx_range("energy", 0, 100); }
    return r;
  }
};
struct Mapper : SimilarityToQualityMapper {
  mutable int calls = 0;
  mutable std::vector<double> in[4];
  double answer;
  absl::Status Init() override { return absl::Status(); }
  double PredictQuality(const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& c, const std::vector<double>& d) const override {
    calls++;
    in[0] = a; in[1] = b; in[2] = c; in[3] = d;
    return answer;
  }
};
int g_aligned, g_len[8];
}  // namespace
namespace Visqol {
std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(const AudioSignal& r, const AudioSignal& d) {
  const int n = g_len[g_aligned++];
  if (!n) return std::make_tuple(r, d, 0.0);
  const AudioSignal a{M::Filled(n, 1, 0.5), r.sample_rate}, b{M::Filled(n, 1, 0.25), d.sample_rate};
  return std::make_tuple(a, b, 0.0);
}
}  // namespace Visqol
// a comparison of `patches` patches; `lens` are the realigned durations in
// samples, none for no realignment
struct Run {
  SimilarityResult r;
  std::vector<PatchSimilarityResult> ps;
  Mapper map;
};
static Run Compare(int patches, const std::vector<int>& lens, double lo = -1) {
  const int patch = 2, sr = 8, frames = patch * (patches + 1) + 1, len = 2 * (frames - 1) + 8;
  g_aligned = 0;
  for (size_t i = 0; i < 8; i++) g_len[i] = i < lens.size() ? lens[i] : 0;
  M a(len, 1);
  for (int i = 0; i < len; i++) a(i) = i % 2 ? 2.0 : -2.0;
  const AudioSignal ref{a, (size_t)sr};
  AudioSignal deg{a, (size_t)sr};
  Builder bld;
  bld.frames = frames;
  const AnalysisWindow w(sr, 0.25, 1.0);
  Sim* sim = new Sim;
  sim->fixed = true;
  sim->lo = lo;
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(sim)};
  const ImagePatchCreator mk(patch);
  Run x;
  x.map.answer = vsx_f64("quality");
  const class Visqol q;
  const auto rs = q.CalculateSimilarity(ref, deg, &bld, w, &mk, &sel, &x.map, 0, lens.empty());
  vsx_assert(rs.ok(), "the comparison succeeds");
  x.r = rs.value();
  x.ps = x.r.debug_info.patch_sims;
  vsx_assert((int)x.ps.size() == patches, "one result per reference patch");
  return x;
}
ENTRY h_means() {
  const int n = vsx_param("n", 2);
  const Run x = Compare(n, {});
  vsx_assert(x.r.fvnsim.size() == 2 && x.r.fvdegenergy.size() == 2 && x.r.fvnsim10.size() == 2 && x.r.fstdnsim.size() == 2, "one value per band");
  // the patches in any order: the sum is the same
  const auto w = Shuffled(x.ps);
  for (int b = 0; b < 2; b++) {
    double s = 0, t = 0;
    for (auto& p : w) { s += p.freq_band_means(b); t += p.freq_band_deg_energy(b); }
    vsx_close(x.r.fvnsim[b], s / n, kTol, "the mean of the patches' band means");
    vsx_close(x.r.fvdegenergy[b], t / n, kTol, "the mean of the patches' band energies");
    vsx_assert(x.r.fvnsim10[b] <= x.r.fvnsim[b] + kTol, "the decile feature never exceeds the mean");
  }
  vsx_close(x.r.vnsim, (x.r.fvnsim[0] + x.r.fvnsim[1]) / 2, kTol, "the overall similarity is the mean over bands");
  vsx_reach("means");
}
ENTRY h_dev() {
  const int n = vsx_param("n", 2);
  std::vector<int> len;
  int total = 0;
  for (int i = 0; i < n; i++) { len.push_back(3 + vsx_choose("len", vsx_param("lens", 4))); total += (len[i] + 1) / 2; }
  const Run x = Compare(n, len);
  for (int b = 0; b < 2; b++) {
    double mean = 0, c = 0;
    for (auto& p : x.ps) mean += p.freq_band_means(b);
    mean = mean / n;
    for (int i = 0; i < n; i++) {
      const double s = x.ps[i].freq_band_stddevs(b), m = x.ps[i].freq_band_means(b);
      const int f = (len[i] + 1) / 2;
      c += (f - 1) * s * s + f * m * m;
    }
    const double var = (c - mean * mean * total) / (total - 1), d = x.r.fstdnsim[b];
    vsx_assert(d >= 0, "a deviation is never negative");
    if (vsx_decide(var <= 0)) { vsx_assert(d <= 1e-6, "a negative variance is reported as no deviation"); vsx_reach("none"); }
    else { vsx_close(d * d, var, kTol, "the square of the deviation is the pooled variance"); vsx_reach("some"); }
  }
}
// floating-point arithmetic as it is: rounding never makes a number of nothing
ENTRY h_dev_range() {
  const Run x = Compare(vsx_param("n", 2), {});
  for (int b = 0; b < 2; b++) vsx_assert(x.r.fstdnsim[b] >= 0, "a deviation is never negative or NaN");
  vsx_reach("range");
}
// C04: what the comparison reports of the mapping's value
ENTRY h_extremes() {
  const int n = vsx_param("n", 1);
  const Run x = Compare(n, {}, -0.25);
  double s = 0;
  for (auto& p : x.ps) s += p.freq_band_means(0) + p.freq_band_means(1);
  const double similarity = s / (2 * n);
  if (similarity < 0.15 - kTol) { vsx_assert(x.r.moslqo == 1.0, "an overall similarity below 0.15 scores 1"); vsx_reach("dissimilar"); }
  if (similarity >= 0.15 + kTol) { vsx_assert(Same(x.r.moslqo, x.map.answer), "the mapping's value is reported unchanged"); vsx_reach("scored"); }
}
ENTRY h_compare() {
  for (int& k : g_len) k = 0;
  g_aligned = 0;
  const int patches = vsx_param("patches", 1), radius = vsx_choose("radius", 2), patch = 2, sr = 8;
  const bool off = vsx_choose("disable realignment", 2);
  const int frames = patch * (patches + 1) + 1;
  const int len = 2 * (frames - 1) + 8 + 1;   // just enough for that many windows
  M a(len, 1), b(len, 1);
  for (int i = 0; i < len; i++) { a(i) = i % 2 ? 2.0 : -2.0; b(i) = i % 2 ? 4.0 : -4.0; }
  const AudioSignal ref{a, (size_t)sr};
  AudioSignal deg{b, (size_t)sr};
  Builder bld;
  bld.frames = frames;
  bld.fail_at = (int)vsx_choose("fail", off ? 3 : 4) - 1;
  const AnalysisWindow w(sr, 0.25, 1.0);     // a hop of 2 samples
  Sim* sim = new Sim;
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(sim)};
  const ImagePatchCreator mk(patch);
  Mapper map;
  map.answer = vsx_f64("quality");
  const class Visqol q;
  const auto rs = q.CalculateSimilarity(ref, deg, &bld, w, &mk, &sel, &map, radius, off);
  vsx_assert(ref.data_matrix == a && ref.sample_rate == (size_t)sr, "the reference is not modified");
  if (bld.fail_at >= 0 && bld.calls > bld.fail_at) { vsx_assert(!rs.ok() && map.calls == 0, "a spectrogram that cannot be built is an error"); vsx_reach("error"); return; }
  vsx_assert(rs.ok() && map.calls == 1, "one quality prediction");
  const SimilarityResult& r = rs.value();
  const auto& ps = r.debug_info.patch_sims;
  const int n = ps.size();
  vsx_assert(n == patches, "one result per reference patch");
  // the degraded spectrogram is the one of the level-matched signal
  vsx_assert(bld.sig[0].data_matrix == a, "the reference spectrogram");
  for (int i = 0; i < len; i++) vsx_close(bld.sig[1].data_matrix(i), a(i), 1e-9, "the degraded signal is brought to the reference's level");
  int matched = 0;
  for (int i = 0; i < n; i++) {
    const auto& p = ps[i];
    if (p.deg_patch_end_time == 0) continue;
    matched++;
    const double fd = 2.0 / sr;
    vsx_assert(p.ref_patch_start_time == (patch / 2 - 1 + i * patch) * fd, "reference times follow from the hop and the rate");
    const double dist = p.deg_patch_start_time / fd - (patch / 2 - 1 + i * patch);
    vsx_assert(std::fabs(dist) <= radius * patch, "the requested search radius is used");
    if (dist > 0) vsx_reach("moved");
  }
  vsx_assert(g_aligned == (off ? 0 : matched) && bld.calls == 2 + 2 * (off ? 0 : matched), "fine realignment exactly when it is not disabled");
  const std::vector<double>* f[4] = {&r.fvnsim, &r.fvnsim10, &r.fstdnsim, &r.fvdegenergy};
  for (int k = 0; k < 4; k++) {
    vsx_assert(f[k]->size() == 2 && map.in[k].size() == 2, "every feature has one value per band");
    for (int i = 0; i < 2; i++) vsx_assert(Same((*f[k])[i], map.in[k][i]), "the mapping sees the reported features");
  }
  for (int i = 0; i < 2; i++) {
    double m = 0, e = 0, low = ps[0].freq_band_means(i);
    for (auto& p : ps) { m += p.freq_band_means(i); e += p.freq_band_deg_energy(i); low = Min(low, p.freq_band_means(i)); }
    vsx_close(r.fvnsim[i], m / n, kTol, "the mean of the final patches' band means");
    vsx_close(r.fvdegenergy[i], e / n, kTol, "the mean of the final patches' band energies");
    vsx_close(r.fvnsim10[i], low, kTol, "the lowest tenth of the final patches");
    vsx_assert(r.fstdnsim[i] >= 0, "deviations are never negative");
  }
  if (n == 1) {
    for (int i = 0; i < 2; i++) vsx_close(r.fstdnsim[i] * r.fstdnsim[i], ps[0].freq_band_stddevs(i) * ps[0].freq_band_stddevs(i), kTol, "the deviation of the final patches");
  }
  vsx_close(r.vnsim, (r.fvnsim[0] + r.fvnsim[1]) / 2, kTol, "the overall similarity is the mean over bands");
  if (r.vnsim < 0.15) { vsx_assert(r.moslqo == 1.0, "a totally dissimilar signal scores 1"); vsx_reach("dissimilar"); }
  else { vsx_assert(Same(r.moslqo, map.answer), "the mapping's value is reported unchanged"); vsx_reach("scored"); }
  vsx_assert(r.center_freq_bands == std::vector<double>({50, 3000}), "the reference spectrogram's centre frequencies");
}
