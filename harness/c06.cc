// C06 patch matching, C07 cutting patches and segments, C24 fine realignment
#include "h.h"
#include <algorithm>
#include <memory>
#include "alignment.h"
#include "comparison_patches_selector.h"
#include "spectrogram_builder.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
const double kNone = -1e100;
// the similarity of reference patch i and the degraded patch that starts at
// frame j is any number; patches carry i and j in their elements
struct Table : PatchSimilarityComparator {
  std::vector<std::vector<double>> s;
  mutable std::vector<ImagePatch> seen;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& ref, const ImagePatch& deg) const override {
    PatchSimilarityResult r{};
    const int i = (int)ref(0, 0), j = (int)deg(0, 0) - 1;
    vsx_assert(i >= 0 && i < (int)s.size() && j >= 0 && j < (int)s[i].size(), "only patches of the spectrograms are compared");
    r.similarity = s[i][j];
    r.freq_band_means = M::Filled(2, 1, 0.5);
    r.freq_band_stddevs = M::Filled(2, 1, 0.25);
    r.freq_band_deg_energy = M::Filled(2, 1, 3.0);
    return r;
  }
};
}  // namespace
// patches of `pf` frames on an arbitrary increasing grid, symbolic similarities
ENTRY h_match() {
  const int pf = vsx_param("pf", 1), n = vsx_param("patches", 2), frames = vsx_param("frames", 3), radius = vsx_param("radius", 1);
  const double fd = 0.25;
  Table* t = new Table;
  std::vector<size_t> idx;
  std::vector<ImagePatch> refs;
  size_t pos = vsx_choose("first", pf + 1);
  for (int i = 0; i < n; i++) {
    idx.push_back(pos);
    refs.push_back(M::Filled(2, pf, (double)i));
    std::vector<double> row;
    for (int j = 0; j < frames; j++) { row.push_back(vsx_range("sim", -100, 100)); }
    t->s.push_back(row);
    pos += pf + (vsx_param("gaps", 0) ? vsx_choose("gap", vsx_param("gaps", 0) + 1) : 0);
  }
  const auto s = t->s;
  M deg(2, frames);
  for (int j = 0; j < frames; j++) { deg(0, j) = j + 1; deg(1, j) = 0.5; }
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(t)};
  const auto r = sel.FindMostOptimalDegPatches(refs, idx, deg, fd, radius);
  // which patches may be scored at all
  const int win = radius * pf;
  int keep = n;
  while (keep && ((double)idx[keep - 1] - pf / 2 > frames || (int)idx[keep - 1] - win >= frames)) keep--;
  if (!keep) {
    vsx_assert(!r.ok(), "an error when no reference patch is left");
    vsx_reach("none left");
    return;
  }
  vsx_assert(r.ok(), "the remaining patches are matched");
  const auto& v = r.value();
  vsx_assert((int)v.size() == keep, "patches too far past the end are dropped, the others kept");
  double total = 0;
  int last = -1;
  for (int i = 0; i < keep; i++) {
    vsx_assert(Same(v[i].ref_patch_start_time, idx[i] * fd) && Same(v[i].ref_patch_end_time, idx[i] * fd + fd * pf), "reference times");
    const double st = v[i].deg_patch_start_time, en = v[i].deg_patch_end_time;
    const bool none = st == 0 && en == 0;
    if (none) {
      vsx_assert(i > 0, "the first patch is matched");
      vsx_assert(v[i].similarity == 0 && v[i].freq_band_means(0) == 0 && v[i].freq_band_means(1) == 0 && v[i].freq_band_means.NumRows() == 2, "an unmatched patch has zero similarity and band means");
      vsx_reach("unmatched");
      continue;
    }
    const int j = (int)vsx_concretize((uint64_t)(st / fd));
    vsx_assert(Same(st, j * fd) && Same(en, j * fd + fd * pf), "degraded times are frame index times frame duration");
    vsx_assert(j >= 0 && j < frames && j >= (int)idx[i] - win && j <= (int)idx[i] + win, "matched inside the window and the spectrogram");
    vsx_assert(j > last, "matched frames increase with the reference order");
    vsx_assert(Same(v[i].similarity, s[i][j]), "the similarity is that of the matched frame");
    vsx_assert(v[i].freq_band_means(0) == 0.5 && v[i].freq_band_stddevs(1) == 0.25 && v[i].freq_band_deg_energy(1) == 3.0, "the comparison's other results are kept");
    last = j;
    total += v[i].similarity;
  }
  // best total over all assignments: best[j] = best with the last match at j
  std::vector<double> best(frames, kNone);
  for (int i = 0; i < keep; i++) {
    std::vector<double> nb = i ? best : std::vector<double>(frames, kNone);
    // a patch may stay unmatched while the previous match is still in its window
    for (int j = 0; j < frames; j++)
      if (j < (int)idx[i] - win || j > (int)idx[i] + win) nb[j] = kNone;
    for (int j = std::max(0, (int)idx[i] - win); j < frames && j <= (int)idx[i] + win; j++) {
      double p = i ? kNone : 0;
      if (i) for (int k = 0; k < j; k++) if (best[k] != kNone) p = p == kNone ? best[k] : vsx_ite_f64(best[k] > p, best[k], p);
      if (p == kNone) continue;
      const double c = p + s[i][j];
      nb[j] = nb[j] == kNone ? c : vsx_ite_f64(c > nb[j], c, nb[j]);
    }
    best = nb;
  }
  for (int j = 0; j < frames; j++)
    if (best[j] != kNone) vsx_assert(total >= best[j], "no other assignment has a higher total similarity");
  vsx_reach("matched");
}
// degenerate input: no patches, an empty window
ENTRY h_degenerate() {
  Table* t = new Table;
  const int n = vsx_choose("patches", 3), frames = 1 + vsx_choose("frames", 2), radius = (int)vsx_choose("radius", 3) - 1;
  std::vector<size_t> idx;
  std::vector<ImagePatch> refs;
  for (int i = 0; i < n; i++) { idx.push_back(i * 2 + vsx_choose("first", 8)); refs.push_back(M::Filled(1, 2, (double)i)); t->s.push_back(std::vector<double>(frames, 0.5)); }
  std::sort(idx.begin(), idx.end());
  M deg(1, frames);
  for (int j = 0; j < frames; j++) deg(0, j) = j + 1;
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(t)};
  const auto r = sel.FindMostOptimalDegPatches(refs, idx, deg, 1.0, radius);
  if (n == 0 || idx[0] - 1. > frames) vsx_assert(!r.ok(), "an error when no reference patch is left");
  vsx_reach("ended");
}
namespace {
template <class S> auto MaxPatches(const S& s, const std::vector<size_t>& idx, size_t frames, size_t pf, int) -> decltype((size_t)s.CalcMaxNumPatches(idx, frames, pf)) { return s.CalcMaxNumPatches(idx, frames, pf); }
template <class S> size_t MaxPatches(const S&, const std::vector<size_t>&, size_t, size_t, long) { Gone("counted"); return 0; }
template <class S> auto DegradedPatch(const S& s, const M& m, int a, int b, int rows, int pf, int) -> decltype(M(s.BuildDegradedPatch(m, a, b, rows, pf))) { return s.BuildDegradedPatch(m, a, b, rows, pf); }
template <class S> M DegradedPatch(const S&, const M&, int, int, int, int, long) { Gone("cut"); return M(); }
template <class S> auto Cut(const AudioSignal& x, double a, double b, int) -> decltype(AudioSignal(S::Slice(x, a, b))) { return S::Slice(x, a, b); }
template <class S> AudioSignal Cut(const AudioSignal& x, double, double, long) { Gone("leading silence", "trailing silence", "inside"); return x; }
}  // namespace
ENTRY h_max_patches() {
  const int n = vsx_choose("n", 4);
  std::vector<size_t> idx;
  size_t pos = 0;
  for (int i = 0; i < n; i++) { pos += vsx_u16("step"); idx.push_back(pos); }
  const size_t frames = vsx_u32("frames"), pf = vsx_u32("pf");
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(new Table)};
  const size_t k = MaxPatches(sel, idx, frames, pf, 0);
  vsx_assert(k <= (size_t)n, "at most all patches");
  for (size_t i = 0; i < (size_t)n; i++) {
    const bool far = (int64_t)idx[i] > (int64_t)frames + (int64_t)(pf / 2);
    if (i < k) { if (i + 1 == k) vsx_assert(!far, "the last kept patch starts at most half a patch past the end"); }
    else vsx_assert(far, "only patches that start more than half a patch past the end are dropped");
  }
  vsx_reach("counted");
}
// ---- C07
namespace {
struct Recorder : PatchSimilarityComparator {
  std::vector<ImagePatch>* seen;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch&, const ImagePatch& deg) const override {
    seen->push_back(deg);
    PatchSimilarityResult r{};
    r.similarity = 1;
    r.freq_band_means = M::Filled(1, 1, 0.5);
    return r;
  }
};
}  // namespace
ENTRY h_patches() {
  const int rows = 1 + vsx_choose("rows", 3), frames = 1 + vsx_choose("frames", vsx_param("frames", 4)), pf = 1 + vsx_choose("pf", vsx_param("pf", 4));
  std::vector<ImagePatch> seen;
  Recorder* rec = new Recorder;
  rec->seen = &seen;
  M deg(rows, frames);
  for (int c = 0; c < frames; c++) for (int r = 0; r < rows; r++) deg(r, c) = vsx_f64("d");
  const M copy = deg;
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(rec)};
  std::vector<ImagePatch> refs{M::Filled(rows, pf, 1.0)};
  const auto r = sel.FindMostOptimalDegPatches(refs, {0}, deg, 1.0, frames);
  vsx_assert(r.ok() && (int)seen.size() == frames + 1, "every frame in the window is compared once, then the best one");
  for (int f = 0; f < (int)seen.size(); f++) {
    const int at = f < frames ? f : (int)r.value()[0].deg_patch_start_time;
    const M& p = seen[f];
    vsx_assert((int)p.NumRows() == rows && (int)p.NumCols() == pf, "a patch has the requested size");
    for (int a = 0; a < rows; a++)
      for (int b = 0; b < pf; b++)
        vsx_assert(at + b < frames ? Same(p(a, b), copy(a, at + b)) : Same(p(a, b), 0.0), "existing frames in their position, zeros past the end");
  }
  vsx_reach("cut");
}
ENTRY h_build_patch() {
  const int rows = 1 + vsx_choose("rows", 2), frames = 1 + vsx_choose("frames", 3), pf = 1 + vsx_choose("pf", 4);
  M deg(rows, frames);
  for (int c = 0; c < frames; c++) for (int r = 0; r < rows; r++) deg(r, c) = vsx_f64("d");
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(new Table)};
  // any start for which at least one frame exists
  const int start = (int)vsx_choose("start", pf + frames - 1) - (pf - 1);
  const M p = DegradedPatch(sel, deg, start, start + pf - 1, rows, pf, 0);
  vsx_assert((int)p.NumRows() == rows && (int)p.NumCols() == pf, "a patch has the requested size");
  for (int a = 0; a < rows; a++)
    for (int b = 0; b < pf; b++) {
      const int c = start + b;
      vsx_assert(c >= 0 && c < frames ? Same(p(a, b), deg(a, c)) : Same(p(a, b), 0.0), "existing frames in their position, zeros elsewhere");
    }
  vsx_reach("cut");
}
ENTRY h_columns() {
  const int rows = 1 + vsx_choose("rows", 2), cols = 1 + vsx_choose("cols", 5), pf = 1 + vsx_choose("pf", 3);
  M m(rows, cols);
  for (int c = 0; c < cols; c++) for (int r = 0; r < rows; r++) m(r, c) = vsx_f64("d");
  if (pf > cols) return;
  std::vector<size_t> idx;
  const int n = vsx_choose("n", 3);
  for (int i = 0; i < n; i++) idx.push_back(vsx_choose("at", cols - pf + 1));
  const auto p = ImagePatchCreator(pf).CreatePatchesFromIndices(m, idx);
  vsx_assert((int)p.size() == n, "one patch per index");
  for (int i = 0; i < n; i++) {
    vsx_assert((int)p[i].NumRows() == rows && (int)p[i].NumCols() == pf, "a patch has the requested size");
    for (int a = 0; a < rows; a++) for (int b = 0; b < pf; b++) vsx_assert(Same(p[i](a, b), m(a, idx[i] + b)), "the spectrogram's values in their position");
  }
  vsx_reach("cut");
}
// times on the grid of a quarter of a sample
ENTRY h_slice() {
  const int n = 1 + vsx_choose("n", vsx_param("n", 5)), sr = 4;
  M m(n, 1);
  for (int i = 0; i < n; i++) m(i) = vsx_f64("s");
  const AudioSignal sig{m, (size_t)sr};
  const int neg = vsx_choose("lead", 3);                 // samples of leading silence
  const int a = neg ? -neg : (int)vsx_choose("start", n), b = 1 + (int)vsx_choose("end", n + vsx_param("past", 2));
  if (b <= a || b <= 0) return;
  const double off = vsx_choose("frac", 2) ? 0.0625 : 0;   // a quarter of a sample later
  const AudioSignal out = Cut<ComparisonPatchesSelector>(sig, neg ? a / (double)sr : a / (double)sr + off, b / (double)sr + (b < n ? off : 0), 0);
  vsx_assert(out.sample_rate == (size_t)sr, "the sample rate is kept");
  vsx_assert((int)out.data_matrix.NumRows() == b - a && out.data_matrix.NumCols() == 1, "the segment has the interval's length");
  for (int i = 0; i < b - a; i++) {
    const int k = a + i;
    vsx_assert(k < 0 || k >= n ? Same(out.data_matrix(i), 0.0) : Same(out.data_matrix(i), m(k)), "the interval's samples in order, silence outside the signal");
  }
  vsx_reach(neg ? "leading silence" : b > n ? "trailing silence" : "inside");
}
// ---- C24: the aligner, the spectrogram builder and the similarity give any result
namespace {
struct Stub { int n; double lag[4]; int len[4]; bool fail; int calls; std::vector<AudioSignal> r, d; } g;
struct Builder : SpectrogramBuilder {
  int calls = 0, fail_at = -1;
  absl::StatusOr<Spectrogram> Build(const AudioSignal& s, const AnalysisWindow& w) override {
    if (calls++ == fail_at) return absl::InvalidArgumentError("too short");
    return Spectrogram(M::Filled(1, 1, 1.0));
  }
};
struct Any : PatchSimilarityComparator {
  mutable std::vector<double> sims;
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch&, const ImagePatch&) const override {
    PatchSimilarityResult r{};
    r.similarity = vsx_f64("new_similarity");
    vsx_assume(r.similarity == r.similarity);
    sims.push_back(r.similarity);
    r.freq_band_means = M::Filled(1, 1, 7.0 + sims.size());
    r.freq_band_stddevs = M::Filled(1, 1, 8.0);
    r.freq_band_deg_energy = M::Filled(1, 1, 9.0);
    return r;
  }
};
}  // namespace
#ifdef FINE
namespace Visqol {
std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(const AudioSignal& r, const AudioSignal& d) {
  const int i = g.calls++;
  g.r.push_back(r); g.d.push_back(d);
  const AudioSignal a{M::Filled(g.len[i], 1, 0.0), r.sample_rate}, b{M::Filled(g.len[i], 1, 0.0), d.sample_rate};
  return std::make_tuple(a, b, g.lag[i]);
}
}  // namespace Visqol
ENTRY h_fine() {
  const int n = vsx_param("n", 2), sr = 4;
  std::vector<PatchSimilarityResult> in(n);
  g.calls = 0;
  std::vector<int> matched;
  for (int i = 0; i < n; i++) {
    PatchSimilarityResult& p = in[i];
    const int kind = vsx_choose("kind", 3);   // unmatched, matched at frame 0, matched later
    matched.push_back(kind != 0);
    p.similarity = kind ? vsx_f64("similarity") : 0;
    vsx_assume(p.similarity == p.similarity);
    p.freq_band_means = M::Filled(1, 1, kind ? vsx_f64("mean") : 0.0);
    p.freq_band_stddevs = M::Filled(1, 1, vsx_f64("sd"));
    p.freq_band_deg_energy = M::Filled(1, 1, vsx_f64("energy"));
    p.ref_patch_start_time = i * 0.5; p.ref_patch_end_time = i * 0.5 + 0.5;
    p.deg_patch_start_time = kind == 2 ? 0.25 + i * 0.5 : 0; p.deg_patch_end_time = kind == 2 ? 0.75 + i * 0.5 : kind ? 0.5 : 0;
  }
  // the k-th aligned patch
  const char* lags[] = {"lag0", "lag1", "lag2"};
  const int nl = n == 1 ? 5 : 2;
  for (int i = 0; i < n; i++) { g.lag[i] = ((int)vsx_choose(lags[i], nl) - nl / 2) * (i + 1) * 0.25; g.len[i] = 1 + (n == 1 ? vsx_choose("len", 2) : i); }
  M m(4 * n + 4, 1), q(4 * n + 4, 1);
  for (int i = 0; i < 4 * n + 4; i++) { m(i) = i + 1; q(i) = 100 + i; }
  const AudioSignal ref{m, (size_t)sr}, deg{q, (size_t)sr};
  Builder b;
  b.fail_at = (int)vsx_choose("fail", 2 * n + 1) - 1;
  const AnalysisWindow w(sr, 0.25, 0.5);
  Any* any = new Any;
  const ComparisonPatchesSelector sel{std::unique_ptr<PatchSimilarityComparator>(any)};
  const auto r = sel.FinelyAlignAndRecreatePatches(in, ref, deg, &b, w);
  int nm = 0;
  for (int k : matched) nm += k;
  if (b.fail_at >= 0 && b.fail_at < 2 * nm) {
    vsx_assert(!r.ok(), "an error while building a realigned spectrogram is returned");
    vsx_reach("error");
    return;
  }
  vsx_assert(r.ok() && (int)r.value().size() == n, "one result per patch");
  int k = 0;
  for (int i = 0; i < n; i++) {
    const PatchSimilarityResult &a = in[i], &z = r.value()[i];
    bool old = true;
    double lag = 0, len = 0;
    if (matched[i]) {
      lag = g.lag[k]; len = g.len[k] / (double)sr;
      vsx_assert(g.r[k].data_matrix(0) == 1 + 2 * i && g.d[k].data_matrix(0) == (a.deg_patch_start_time == 0 ? 100 : 101 + 2 * i), "the segments of the patch's own times are realigned");
      old = any->sims[k] < a.similarity;
      vsx_assert(z.similarity >= a.similarity, "no patch's similarity decreases");
    }
    if (old) {
      vsx_assert(vsx_and(Same(z.similarity, a.similarity), vsx_and(Same(z.freq_band_means(0), a.freq_band_means(0)), vsx_and(Same(z.freq_band_stddevs(0), a.freq_band_stddevs(0)), Same(z.freq_band_deg_energy(0), a.freq_band_deg_energy(0))))), "the previous result is kept as it was");
      vsx_assert(z.ref_patch_start_time == a.ref_patch_start_time && z.ref_patch_end_time == a.ref_patch_end_time && z.deg_patch_start_time == a.deg_patch_start_time && z.deg_patch_end_time == a.deg_patch_end_time, "with its times");
      vsx_reach(matched[i] ? "kept" : "unmatched");
    } else {
      vsx_assert(vsx_and(Same(z.similarity, any->sims[k]), z.freq_band_means(0) == 8.0 + k), "the better comparison is taken");
      vsx_assert(z.ref_patch_start_time == a.ref_patch_start_time + (lag > 0 ? lag : 0) && z.deg_patch_start_time == a.deg_patch_start_time - (lag > 0 ? 0 : lag), "its start is the previous one shifted by the lag");
      vsx_assert(z.ref_patch_end_time == z.ref_patch_start_time + len && z.deg_patch_end_time == z.deg_patch_start_time + len, "end minus start is the realigned duration");
      vsx_reach("taken");
    }
    if (matched[i]) k++;
  }
  vsx_assert(g.calls == nm, "only matched patches are realigned");
}
#endif
