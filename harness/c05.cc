// C05 the similarity index of two patches
#include "h.h"
#include "neurogram_similiarity_index_measure.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
const double kW[3][3] = {{0.0113033910173052, 0.0838251475442633, 0.0113033910173052}, {0.0838251475442633, 0.619485845753726, 0.0838251475442633}, {0.0113033910173052, 0.0838251475442633, 0.0113033910173052}};
const double kFill[] = {0.25, 3.0, 0.5, 7.5, 1.0, 0.0, 12.0, 2.25, 40.0, 5.5, 0.125, 21.0};
double Clamped(const M& m, int r, int c) {
  const int R = m.NumRows(), C = m.NumCols();
  return m(r < 0 ? 0 : r >= R ? R - 1 : r, c < 0 ? 0 : c >= C ? C - 1 : c);
}
// sum over the neighbourhood of m (or of a*b), borders replicated
M Blur(const M& m) {
  M o(m.NumRows(), m.NumCols());
  for (size_t r = 0; r < m.NumRows(); r++)
    for (size_t c = 0; c < m.NumCols(); c++) {
      double s = 0;
      for (int dc = -1; dc <= 1; dc++)
        for (int dr = -1; dr <= 1; dr++) s += Clamped(m, (int)r + dr, (int)c + dc) * kW[dr + 1][dc + 1];
      o(r, c) = s;
    }
  return o;
}
M Mul(const M& a, const M& b) {
  M o(a.NumRows(), a.NumCols());
  for (size_t r = 0; r < a.NumRows(); r++)
    for (size_t c = 0; c < a.NumCols(); c++) o(r, c) = a(r, c) * b(r, c);
  return o;
}
M Map(const M& ref, const M& deg) {
  const double c1 = 0.01 * 0.01, c3 = 0.03 * 0.03 / 2;
  const M mr = Blur(ref), md = Blur(deg), rr = Blur(Mul(ref, ref)), dd = Blur(Mul(deg, deg)), rd = Blur(Mul(ref, deg));
  M o(ref.NumRows(), ref.NumCols());
  for (size_t r = 0; r < ref.NumRows(); r++)
    for (size_t c = 0; c < ref.NumCols(); c++) {
      const double lum = (mr(r, c) * md(r, c) * 2.0 + c1) / (mr(r, c) * mr(r, c) + md(r, c) * md(r, c) + c1);
      const double v = (rr(r, c) - mr(r, c) * mr(r, c)) * (dd(r, c) - md(r, c) * md(r, c));
      const double den = vsx_ite_f64(v < 0, c3, std::sqrt(v) + c3);
      o(r, c) = lum * ((rd(r, c) - mr(r, c) * md(r, c) + c3) / den);
    }
  return o;
}
// unbiased, the squares corrected by the rounding error of the mean
double Deviation(const M& m, int row) {
  const int n = m.NumCols();
  if (n < 2) return 0;
  double even = 0, odd = 0, sq = 0, res = 0;
  for (int c = 0; c < n; c++) (c % 2 ? odd : even) += m(row, c);
  const double mean = (even + odd) / n;
  for (int c = 0; c < n; c += 2) {
    const double t = mean - m(row, c);
    if (c + 1 == n) { sq += t * t; res += t; break; }
    const double u = mean - m(row, c + 1);
    sq += t * t + u * u;
    res += t + u;
  }
  return std::sqrt((sq - res * res / n) / (n - 1));
}
// a patch whose elements are levels above a noise floor, some of them symbolic
M Patch(int R, int C, int sym, int at, const char* name) {
  M m(R, C);
  int k = 0;
  for (int c = 0; c < C; c++)
    for (int r = 0; r < R; r++, k++) m(r, c) = k >= at && k < at + sym ? vsx_range(name, 0, 100) : kFill[(k * 5 + at + (name[0] == 'd' ? 3 : 0)) % 12];
  return m;
}
struct In { M ref, deg; int R, C; };
In Patches() {
  In i;
  i.R = vsx_param("rows", 2); i.C = vsx_param("cols", 2);
  const int all = i.R * i.C;
  int sr = vsx_param("sr", all), sd = vsx_param("sd", all);
  if (vsx_param("real", 0)) { sr = vsx_param("rsr", 0); sd = vsx_param("rsd", 1); }
  const int at = vsx_param("at", 0);
  i.ref = Patch(i.R, i.C, sr, at, "ref");
  i.deg = Patch(i.R, i.C, sd, at, "deg");
  return i;
}
}  // namespace
ENTRY h_formula() {
  const In in = Patches();
  const auto r = NeurogramSimiliarityIndexMeasure().MeasurePatchSimilarity(in.ref, in.deg);
  const M want = Map(in.ref, in.deg);
  vsx_assert((int)r.freq_band_means.NumRows() == in.R && (int)r.freq_band_means.NumCols() == 1, "one mean per band");
  vsx_assert((int)r.freq_band_stddevs.NumRows() == in.R && (int)r.freq_band_deg_energy.NumRows() == in.R, "one deviation and energy per band");
  double total = 0;
  for (int b = 0; b < in.R; b++) {
    double sum = 0, e = 0;
    for (int c = 0; c < in.C; c++) { sum += want(b, c); e += in.deg(b, c); }
    const double mean = sum / in.C;
    vsx_close(r.freq_band_means(b), mean, 1e-9, "a band's similarity is the mean of its similarity map over time");
    vsx_close(r.freq_band_deg_energy(b), e / in.C, 1e-9, "a band's energy is the mean of the degraded patch");
    vsx_close(r.freq_band_stddevs(b), Deviation(want, b), 1e-6, "a band's deviation is the unbiased deviation over time");
    total += mean;
  }
  vsx_close(r.similarity, total / in.R, 1e-9, "the similarity is the mean of the band means");
  vsx_reach("compared");
}
ENTRY h_symmetric() {
  const In in = Patches();
  const NeurogramSimiliarityIndexMeasure nsim;
  const auto a = nsim.MeasurePatchSimilarity(in.ref, in.deg), b = nsim.MeasurePatchSimilarity(in.deg, in.ref);
  vsx_close(a.similarity, b.similarity, 1e-9, "swapping the patches keeps the similarity");
  for (int k = 0; k < in.R; k++) vsx_close(a.freq_band_means(k), b.freq_band_means(k), 1e-9, "swapping the patches keeps every band's similarity");
  vsx_reach("swapped");
}
ENTRY h_identical() {
  const In in = Patches();
  const auto r = NeurogramSimiliarityIndexMeasure().MeasurePatchSimilarity(in.deg, in.deg);
  for (int k = 0; k < in.R; k++) {
    vsx_assert(r.freq_band_means(k) >= 1 - 1e-9 && r.freq_band_means(k) <= 1 + 1e-9, "an identical pair scores 1 in every band");
    if (in.C > 1) vsx_assert(r.freq_band_stddevs(k) <= 1e-6, "an identical pair has no deviation");
  }
  double sum = 0;
  for (int k = 0; k < in.R; k++) sum += r.freq_band_means(k);
  vsx_close(r.similarity, sum / in.R, 1e-9, "the similarity is the mean of the band means");
  vsx_reach("identical");
}
ENTRY h_bound() {
  const In in = Patches();
  const auto r = NeurogramSimiliarityIndexMeasure().MeasurePatchSimilarity(in.ref, in.deg);
  for (int k = 0; k < in.R; k++) vsx_assert(r.freq_band_means(k) <= 1 + 1e-9, "no band exceeds 1");
  vsx_reach("bounded");
}
