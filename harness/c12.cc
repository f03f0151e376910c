// C26 the recursive filters, C12 the spectrogram, C09 reuse of builders and filter state.
// The filter coefficients are arbitrary: MakeFilters is replaced unless ERB is defined.
#include "h.h"
#include "audio_signal.h"
#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "signal_filter.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
typedef std::valarray<double> V;
// coefficients: free ones, or fixed ones where the encoding is over the reals
int g_fixed;
double Coef(const char* name, int k) { return g_fixed ? 0.5 - 0.375 * ((k * 5 + 3) % 7) / 4 : vsx_range(name, -2, 2); }
V Arr(const char* name, int n, bool coef = false) {
  V v(n);
  for (int i = 0; i < n; i++) v[i] = coef ? Coef(name, i + name[0]) : vsx_range(name, -1, 1);
  return v;
}
// one direct form II transposed section of order b.size() - 1; z is its state
V Section(const V& a, const V& b, const V& x, V& z) {
  V y(x.size());
  const size_t n = b.size();
  for (size_t m = 0; m < x.size(); m++) {
    y[m] = a[0] * x[m] + (n > 1 ? z[0] : 0.0);
    for (size_t i = 1; i < n; i++) z[i - 1] = a[i] * x[m] + (i + 1 < n ? z[i] : 0.0) - b[i] * y[m];
  }
  return y;
}
void SameArr(const V& a, const V& b, const char* msg) {
  vsx_assert(a.size() == b.size(), msg);
  for (size_t i = 0; i < b.size(); i++) vsx_close(a[i], b[i], 1e-9, msg);
}
// columns of the coefficient table
enum { A0, A11, A12, A13, A14, A2, B0, B1, B2, GAIN };
std::vector<V> Table(int bands) {
  std::vector<V> t;
  for (int c = 0; c < 10; c++) {
    V col(bands);
    for (int b = 0; b < bands; b++)
      col[b] = c == GAIN ? (g_fixed ? 2.0 + b : vsx_range("gain", 0.5, 4)) : c == B0 ? 1.0 : g_fixed ? 0.125 * ((c * 3 + b * 5) % 11 - 5) : vsx_range("coef", -1, 1);
    t.push_back(col);
  }
  return t;
}
M TableMatrix(const std::vector<V>& t) {
  M m(t[0].size(), 10);
  for (size_t b = 0; b < t[0].size(); b++) for (int c = 0; c < 10; c++) m(b, c) = t[c][b];
  return m;
}
V Cascade(const std::vector<V>& t, int b, const V& x, std::vector<V>& z) {
  const V den = {t[B0][b], t[B1][b], t[B2][b]};
  const V first = {t[A0][b] / t[GAIN][b], t[A11][b] / t[GAIN][b], t[A2][b] / t[GAIN][b]};
  V y = Section(first, den, x, z[0]);
  for (int s = 1; s < 4; s++) {
    const V num = {t[A0][b], t[A11 + s][b], t[A2][b]};
    y = Section(num, den, y, z[s]);
  }
  return y;
}
std::vector<V> Rest() { return std::vector<V>(4, V(0.0, 2)); }
}  // namespace
#ifndef ERB
namespace {
std::vector<V> g_table;  // the filters MakeFilters answers, highest band first
std::vector<double> g_freqs;
size_t g_rate, g_bands;
double g_low, g_high;
int g_made;
}  // namespace
namespace Visqol {
ErbFiltersResult EquivalentRectangularBandwidth::MakeFilters(size_t rate, size_t bands, double low, double high) {
  g_made++;
  g_rate = rate, g_bands = bands, g_low = low, g_high = high;
  vsx_assert(bands == g_table[0].size(), "the filters are made for the bank's number of bands");
  ErbFiltersResult r;
  for (auto& c : g_table) r.filterCoeffs.emplace_back(std::begin(c), std::end(c));
  r.centerFreqs = g_freqs;
  return r;
}
}  // namespace Visqol
namespace {
void Filters(int bands) {
  g_table = Table(bands);
  g_freqs.clear();
  for (int b = 0; b < bands; b++) g_freqs.push_back(vsx_range("freq", 50, 8000));
}
AnalysisWindow Window(int size, double overlap) {
  AnalysisWindow w(size * 100, overlap, 0.01);
  vsx_assert((int)w.size == size, "the window has its duration's number of samples");
  return w;
}
AudioSignal Sig(const char* name, int n, int rate, int sym = 99) {
  M m(n, 1);
  for (int i = 0; i < n; i++) m(i, 0) = i < sym ? vsx_range(name, -1, 1) : 0.25 * (i % 3) - 0.125;
  return {m, (size_t)rate};
}
// the spectrogram the property describes
M Expected(const M& x, int bands, int size, int hop) {
  const int n = x.NumRows(), cols = 1 + (n - size) / hop;
  M out(bands, cols);
  for (int c = 0; c < cols; c++) {
    V frame(size);
    for (int i = 0; i < size; i++) frame[i] = (0.5 - (0.5 * cos(2.0 * M_PI * i / (size - 1)))) * x(c * hop + i, 0);
    for (int b = 0; b < bands; b++) {
      std::vector<V> z = Rest();
      const V y = Cascade(g_table, bands - 1 - b, frame, z);
      double s = 0;
      for (int i = 0; i < size; i++) s += y[i] * y[i];
      out(b, c) = sqrt(s / size);
    }
  }
  return out;
}
void SameMatrix(const M& a, const M& b, const char* msg) {
  vsx_assert(a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(), msg);
  for (size_t i = 0; i < b.NumElements(); i++) {
    if (vsx_param("real", 0)) {  // squares are simpler than roots
      vsx_assert(a(i) >= 0, msg);
      vsx_close(a(i) * a(i), b(i) * b(i), 1e-9, msg);
    } else {
      vsx_close(a(i), b(i), 1e-9, msg);
    }
  }
}
void SameSignal(const M& a, const M& b) {
  vsx_assert(a.NumRows() == b.NumRows() && a.NumCols() == b.NumCols(), "the signal is not modified");
  for (size_t i = 0; i < b.NumElements(); i++) vsx_assert(Same(a(i), b(i)), "the signal is not modified");
}
}  // namespace

// --- C26
ENTRY h_filter() {
  g_fixed = vsx_param("fixed", 0);
  const int order = vsx_param("order", 2), n = vsx_param("n", 3);
  const V a = Arr("num", order + 1, true);
  V b = Arr("den", order + 1, true);
  b[0] = 1;
  const V x = Arr("x", n), z0 = Arr("z", order);
  const V a1 = a, b1 = b, x1 = x, z1 = z0;
  const FilterResults r = SignalFilter::Filter(a, b, x, z0);
  V z = z0;
  const V y = Section(a, b, x, z);
  SameArr(r.filteredSignal, y, "the output satisfies the difference equation");
  SameArr(r.finalConditions, z, "the final state continues the recursion");
  vsx_assert((int)r.filteredSignal.size() == n && (int)r.finalConditions.size() == order, "output and state have the lengths of input and state");
  SameArr(a, a1, "inputs are not modified"), SameArr(b, b1, "inputs are not modified"), SameArr(x, x1, "inputs are not modified"), SameArr(z0, z1, "inputs are not modified");
  vsx_reach("filtered");
}
ENTRY h_difference() {  // stated without a state: starting at rest
  g_fixed = vsx_param("fixed", 0);
  const int order = vsx_param("order", 2), n = vsx_param("n", 3);
  const V a = Arr("num", order + 1, true), x = Arr("x", n);
  V b = Arr("den", order + 1, true);
  b[0] = 1;
  const V y = SignalFilter::Filter(a, b, x, V(0.0, order)).filteredSignal;
  for (int m = 0; m < n; m++) {
    double e = 0;
    for (int k = 0; k <= order && k <= m; k++) e += a[k] * x[m - k] - (k ? b[k] * y[m - k] : 0.0);
    vsx_close(y[m], e, 1e-9, "the output satisfies the difference equation");
  }
  vsx_reach("at rest");
}
ENTRY h_pieces() {  // C09, C26: the returned state makes pieces equal to the whole
  const int order = vsx_param("order", 2), n = vsx_param("n", 4);
  const V a = Arr("num", order + 1, true), x = Arr("x", n), z0 = Arr("z", order);
  V b = Arr("den", order + 1, true);
  b[0] = 1;
  const FilterResults whole = SignalFilter::Filter(a, b, x, z0);
  const int cut = (int)vsx_choose("cut", n + 1);
  const V head = x[std::slice(0, cut, 1)], tail = x[std::slice(cut, n - cut, 1)];
  const FilterResults f = SignalFilter::Filter(a, b, head, z0), g = SignalFilter::Filter(a, b, tail, f.finalConditions);
  for (int i = 0; i < n; i++) vsx_assert(Same(i < cut ? f.filteredSignal[i] : g.filteredSignal[i - cut], whole.filteredSignal[i]), "filtering in pieces equals filtering the whole");
  for (int i = 0; i < order; i++) vsx_assert(Same(g.finalConditions[i], whole.finalConditions[i]), "the final state after the pieces is that of the whole");
  vsx_reach("pieces");
}
ENTRY h_bank() {
  g_fixed = vsx_param("fixed", 0);
  const int bands = vsx_param("bands", 2), n = vsx_param("n", 3);
  const std::vector<V> t = Table(bands);
  GammatoneFilterBank bank(bands, 50);
  vsx_assert((int)bank.GetNumBands() == bands && bank.GetMinFreq() == 50, "the bank keeps its configuration");
  bank.SetFilterCoefficients(TableMatrix(t));
  std::vector<std::vector<V>> z(bands, Rest());
  const int calls = vsx_param("calls", 2);
  for (int c = 0; c < calls; c++) {
    if (vsx_choose("reset", 2)) {
      bank.ResetFilterConditions();
      z.assign(bands, Rest());
    }
    const V x = Arr("x", n);
    const V x0 = x;
    const M out = bank.ApplyFilter(x);
    SameArr(x, x0, "the signal is not modified");
    vsx_assert((int)out.NumRows() == bands && (int)out.NumCols() == n, "one row per band, one column per sample");
    for (int b = 0; b < bands; b++) {
      const V y = Cascade(t, b, x, z[b]);
      for (int i = 0; i < n; i++) vsx_close(out(b, i), y[i], 1e-9, "a row is the input through the band's four sections");
    }
  }
  vsx_reach("bank");
}
// --- C12
ENTRY h_spectrogram() {
  g_fixed = vsx_param("fixed", vsx_param("real", 0));
  const int bands = vsx_param("bands", 2), size = vsx_param("size", 4), n = vsx_param("n", 7), speech = vsx_param("speech", 0);
  const double overlap = vsx_param("quarters", 1) / 4.0;
  const int hop = (int)(size * overlap);
  Filters(bands);
  const int rate = size * 100;
  const AudioSignal sig = Sig("x", n, rate, vsx_param("sym", 99));
  const AudioSignal sig0 = sig;
  GammatoneSpectrogramBuilder builder(GammatoneFilterBank(bands, 50), speech);
  const auto r = builder.Build(sig, Window(size, overlap));
  SameSignal(sig.data_matrix, sig0.data_matrix);
  if (n <= size || hop == 0) {
    vsx_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "a signal not longer than one window is rejected, and a hop of no samples");
    vsx_reach("too short");
    return;
  }
  vsx_assert(r.ok(), "a spectrogram is built");
  vsx_assert((int)g_rate == rate && g_low == 50 && g_high == (speech ? 8000.0 : rate / 2.0), "the filters span the minimum frequency to half the sample rate, or to 8000 Hz for speech");
  SameMatrix(r.value().Data(), Expected(sig0.data_matrix, bands, size, hop), "each entry is the root mean square of the band's output for its window");
  const auto f = r.value().GetCenterFreqBands();
  vsx_assert((int)f.size() == bands, "one centre frequency per band");
  for (int b = 0; b < bands; b++) vsx_assert(Same(f[b], g_freqs[bands - 1 - b]), "centre frequencies are reported low to high, in the order of the rows");
  vsx_reach("built");
}
ENTRY h_columns() {  // the number of columns for many lengths
  g_fixed = 1;
  const int size = vsx_param("size", 4), hop = size / 4 * vsx_param("quarters", 1);
  Filters(1);
  const int n = (int)vsx_choose("n", 4 * size + 2);
  M x = M::Filled(n ? n : 1, 1, 0.0);
  if (!n) x = M(0, 1);
  GammatoneSpectrogramBuilder builder(GammatoneFilterBank(1, 50), false);
  const auto r = builder.Build({x, (size_t)size * 100}, Window(size, vsx_param("quarters", 1) / 4.0));
  vsx_assert(r.ok() == (n > size), "a signal not longer than one window is rejected");
  if (r.ok()) vsx_assert((int)r.value().Data().NumCols() == 1 + (n - size) / hop && r.value().Data().NumRows() == 1, "one column for every hop whose window fits");
  else vsx_assert(r.status().code() == absl::StatusCode::kInvalidArgument, "the error is an invalid argument");
  vsx_reach(r.ok() ? "built" : "too short");
}
ENTRY h_any_rate() {  // sample rates at which a hop has no samples
  g_fixed = 1;
  Filters(1);
  const int rate = (int)vsx_choose("rate", 120);
  AnalysisWindow w(rate, 0.25, 0.08);
  const M x = M::Filled(12, 1, 0.5);
  GammatoneSpectrogramBuilder builder(GammatoneFilterBank(1, 50), false);
  const auto r = builder.Build({x, (size_t)rate}, w);
  vsx_assert(r.ok() == (12 > w.size && w.size >= 4), "built exactly when there are enough samples and the hop is at least one sample");
  vsx_reach(r.ok() ? "built" : "rejected");
}
ENTRY h_hann() {
  const int size = vsx_param("size", 4);
  const AnalysisWindow w = Window(size, 0.25);
  V x(size);
  for (int i = 0; i < size; i++) x[i] = vsx_f64("x");
  const V y = w.ApplyHannWindow(x);
  vsx_assert((int)y.size() == size, "the length is kept");
  for (int i = 0; i < size; i++) vsx_assert(Same(y[i], (0.5 - (0.5 * cos(2.0 * M_PI * i / (size - 1)))) * x[i]), "each sample is weighted by the Hann window");
  vsx_reach("windowed");
}
// --- C09
ENTRY h_reuse() {
  const int bands = vsx_param("bands", 2), size = 4, n1 = vsx_param("n1", 6), n2 = vsx_param("n2", 5), n0 = vsx_param("n0", 0);
  GammatoneSpectrogramBuilder used(GammatoneFilterBank(bands, 50), false), fresh(GammatoneFilterBank(bands, 50), false);
  if (n0) {
    Filters(bands);
    (void)used.Build(Sig("before", n0, 800), Window(8, 0.25));
  }
  Filters(bands);
  const auto first = used.Build(Sig("first", n1, 400), Window(size, 0.25));
  vsx_assert(first.ok() == (n1 > size), "too short exactly when not longer than one window");
  Filters(bands);  // another sample rate has other filters
  const AudioSignal sig = Sig("x", n2, 400);
  const auto a = used.Build(sig, Window(size, 0.25)), b = fresh.Build(sig, Window(size, 0.25));
  vsx_assert(a.ok() && b.ok(), "a spectrogram is built");
  const M &x = a.value().Data(), &y = b.value().Data();
  vsx_assert(x.NumRows() == y.NumRows() && x.NumCols() == y.NumCols(), "the size does not depend on earlier uses");
  for (size_t i = 0; i < y.NumElements(); i++) vsx_assert(Same(x(i), y(i)), "the result does not depend on earlier uses");
  for (int i = 0; i < bands; i++) vsx_assert(Same(a.value().GetCenterFreqBands()[i], b.value().GetCenterFreqBands()[i]), "the centre frequencies do not depend on earlier uses");
  vsx_reach(first.ok() ? "reused" : "reused after an error");
}
ENTRY h_bank_copy() {  // a builder keeps its own filter bank
  const int n = vsx_param("n", 3);
  GammatoneFilterBank bank(1, 50);
  bank.SetFilterCoefficients(TableMatrix(Table(1)));
  GammatoneFilterBank copy = bank;
  const V x = Arr("x", n), y = Arr("y", n);
  const M once = bank.ApplyFilter(x);
  const M other = copy.ApplyFilter(y);
  copy.ResetFilterConditions();
  const M again = copy.ApplyFilter(x);
  for (int i = 0; i < n; i++) vsx_assert(Same(again(0, i), once(0, i)), "filtering after a reset does not depend on earlier uses");
  vsx_reach("copied");
}
#endif
