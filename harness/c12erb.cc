// C12 centre frequencies, the real MakeFilters
#include "h.h"
#include "equivalent_rectangular_bandwidth.h"
using namespace Visqol;
namespace {
template <class S> auto Centres(double low, double high, int n, int) -> decltype(std::vector<double>(S::CalcUniformCenterFreqs(low, high, n))) { return S::CalcUniformCenterFreqs(low, high, n); }
template <class S> std::vector<double> Centres(double, double, int, long) { Gone("centres"); return {}; }
}  // namespace
ENTRY h_centres() {
  const int bands = vsx_param("bands", 3);
  const double low = vsx_range("low", 1, 20000), high = vsx_range("high", 2, 96000);
  vsx_assume(low + 1 <= high);
  const std::vector<double> f = Centres<EquivalentRectangularBandwidth>(low, high, bands, 0);
  vsx_assert((int)f.size() == bands, "one centre frequency per band");
  for (int i = 0; i < bands; i++) {
    if (i) vsx_assert(f[i] < f[i - 1], "centre frequencies are listed from high to low");
    vsx_assert(f[i] >= low - 1e-3 && f[i] <= high + 1e-3, "centre frequencies lie between the minimum and the maximum");
  }
  vsx_assert(std::fabs(f[bands - 1] - low) <= 1e-3, "the lowest band is at the minimum frequency");
  vsx_reach("centres");
}
// the filters of a concrete configuration: finite, stable, one row per band
ENTRY h_filters() {
  const int bands = vsx_param("bands", 2), rate = vsx_param("rate", 16000);
  const double max = vsx_choose("speech", 2) ? 8000 : rate / 2.0;
  const ErbFiltersResult r = EquivalentRectangularBandwidth::MakeFilters(rate, bands, 50, max);
  vsx_assert((int)r.centerFreqs.size() == bands && r.filterCoeffs.size() == 10, "one centre frequency per band, ten coefficient columns");
  for (auto& c : r.filterCoeffs) vsx_assert((int)c.size() == bands, "one coefficient per band");
  for (int b = 0; b < bands; b++) {
    vsx_assert(r.centerFreqs[b] <= std::min(max, rate / 2.0) + 1e-6 && r.centerFreqs[b] >= 50 - 1e-6, "the filters span the minimum frequency to the maximum or half the sample rate");
    // poles inside the unit circle: |b2| < 1 and |b1| < 1 + b2
    const double b1 = r.filterCoeffs[7][b], b2 = r.filterCoeffs[8][b];
    vsx_assert(r.filterCoeffs[6][b] == 1 && std::fabs(b2) < 1 && std::fabs(b1) < 1 + b2, "every section is stable");
    vsx_assert(r.filterCoeffs[9][b] > 0, "the gain is positive");
  }
  vsx_reach("filters");
}
// C28 the filters are Slaney's gammatone approximation: pole pairs at the centre frequency with the
// bandwidth of 1.019 ERB, four zeros, unit gain at the centre frequency
namespace {
void Design(const ErbFiltersResult& r, int b, double rate, double tol) {
  const double pi = 3.14159265358979323846, t = 1 / rate, cf = r.centerFreqs[b];
  const double width = 1.019 * 2 * pi * (cf / 9.26449 + 24.7), decay = std::exp(width * t);
  const double c = std::cos(2 * pi * cf * t), s = std::sin(2 * pi * cf * t);
  auto near = [&](int col, double want, const char* msg) { vsx_close(r.filterCoeffs[col][b], want, tol, msg); };
  near(0, t, "the first coefficient is the sample period");
  const double q[4] = {std::sqrt(3 + std::pow(2, 1.5)), -std::sqrt(3 + std::pow(2, 1.5)), std::sqrt(3 - std::pow(2, 1.5)), -std::sqrt(3 - std::pow(2, 1.5))};
  for (int k = 0; k < 4; k++) near(1 + k, -t * (c + q[k] * s) / decay, "the zeros follow the gammatone design");
  near(5, 0, "no third numerator coefficient");
  near(6, 1, "normalised denominator");
  near(7, -2 * c / decay, "the poles lie at the centre frequency");
  near(8, std::exp(width * t * -2), "the poles have the band's equivalent rectangular bandwidth");
}
}  // namespace
ENTRY h_design() {
  const int rate = vsx_param("rate", 16000);
  const double low = vsx_range("low", 20, 3000), high = 8000;
  const ErbFiltersResult r = EquivalentRectangularBandwidth::MakeFilters(rate, vsx_param("bands", 1), low, high);
  for (int b = 0; b < vsx_param("bands", 1); b++) Design(r, b, rate, 1e-9);
  vsx_reach("designed");
}
ENTRY h_response() {
  const int bands = vsx_param("bands", 2), rate = vsx_param("rate", 16000);
  const double max = vsx_choose("speech", 2) ? 8000 : rate / 2.0, top = std::min(max, rate / 2.0), low = vsx_choose("low", 2) ? 50 : 200;
  const ErbFiltersResult r = EquivalentRectangularBandwidth::MakeFilters(rate, bands, low, max);
  const double k = 9.26449 * 24.7;
  for (int b = 0; b < bands; b++) {
    const double cf = r.centerFreqs[b], want = (top + k) * std::pow((low + k) / (top + k), (b + 1.0) / bands) - k;
    vsx_assert(std::fabs(cf - want) <= 1e-6 * want, "the centre frequencies are equally spaced on the ERB scale");
    Design(r, b, rate, 1e-12);
    // |H| at the centre frequency
    const double w = 2 * 3.14159265358979323846 * cf / rate, x = std::cos(w), y = std::sin(w);
    const double db1 = r.filterCoeffs[7][b], db2 = r.filterCoeffs[8][b];
    const double dr = 1 + db1 * x + db2 * (x * x - y * y), di = -db1 * y - db2 * 2 * x * y, den = dr * dr + di * di;
    double h = 1;
    for (int s = 0; s < 4; s++) {
      const double a0 = r.filterCoeffs[0][b], a1 = r.filterCoeffs[1 + s][b];
      const double nr = a0 + a1 * x, ni = -a1 * y;
      h *= (nr * nr + ni * ni) / den;
    }
    vsx_assert(std::fabs(std::sqrt(h) / r.filterCoeffs[9][b] - 1) < 1e-6, "unit gain at the centre frequency");
  }
  vsx_reach("responds");
}
