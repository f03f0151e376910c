// C13 conditioning of the two spectrograms before they are compared
#include "h.h"
#include <algorithm>
#include "misc_audio.h"
#include "spectrogram.h"
using namespace Visqol;
namespace {
typedef AMatrix<double> M;
double Db(double x) {
  const double a = std::fabs(x);
  return 10 * std::log10(vsx_ite_f64(a == 0, 2.220446049250313e-16, a));
}
double Max(double a, double b) { return vsx_ite_f64(a < b, b, a); }
double Min(double a, double b) { return vsx_ite_f64(b < a, b, a); }
M Any(int rows, int cols, const char* name, int sym) {
  M m(rows, cols);
  int k = 0;
  for (int c = 0; c < cols; c++)
    for (int r = 0; r < rows; r++, k++) m(r, c) = k < sym ? vsx_range(name, -1e6, 1e6) : k % 3 == 2 ? 0.0 : 0.001 * (k + 1);
  return m;
}
struct Out { M ref, deg; };
Out Run(const M& a, const M& b) {
  Spectrogram x{M(a)}, y{M(b)};
  MiscAudio::PrepareSpectrogramsForComparison(x, y);
  return {x.Data(), y.Data()};
}
// levels with both floors applied, and the lowest of them
void Floors(M& a, M& b, double* low) {
  for (M* m : {&a, &b})
    for (size_t r = 0; r < m->NumRows(); r++)
      for (size_t c = 0; c < m->NumCols(); c++) (*m)(r, c) = Max(-45., Db((*m)(r, c)));
  for (size_t c = 0; c < std::min(a.NumCols(), b.NumCols()); c++) {
    double p = a(0, c), q = b(0, c);
    for (size_t r = 1; r < a.NumRows(); r++) p = Max(p, a(r, c));
    for (size_t r = 1; r < b.NumRows(); r++) q = Max(q, b(r, c));
    const double floor = Max(p, q) - 45.;
    for (size_t r = 0; r < a.NumRows(); r++) a(r, c) = Max(floor, a(r, c));
    for (size_t r = 0; r < b.NumRows(); r++) b(r, c) = Max(floor, b(r, c));
  }
  double x = a(0, 0), y = b(0, 0);
  for (size_t c = 0; c < a.NumCols(); c++) for (size_t r = 0; r < a.NumRows(); r++) x = Min(x, a(r, c));
  for (size_t c = 0; c < b.NumCols(); c++) for (size_t r = 0; r < b.NumRows(); r++) y = Min(y, b(r, c));
  *low = Min(x, y);
}
}  // namespace
ENTRY h_conditioned() {
  const int rows = vsx_param("rows", 1), ca = vsx_param("ca", 1), cb = vsx_param("cb", 1), sym = vsx_param("sym", 99);
  M a = Any(rows, ca, "ref", sym), b = Any(rows, cb, "deg", sym);
  const M a0 = a, b0 = b;
  const Out o = Run(a, b), s = Run(b, a);
  vsx_assert((int)o.ref.NumRows() == rows && (int)o.ref.NumCols() == ca && (int)o.deg.NumRows() == rows && (int)o.deg.NumCols() == cb, "the shapes are kept");
  double low;
  Floors(a, b, &low);
  bool zero = false;
  for (int k = 0; k < 2; k++) {
    const M &got = k ? o.deg : o.ref, &swapped = k ? s.ref : s.deg, &level = k ? b : a;
    for (size_t r = 0; r < got.NumRows(); r++)
      for (size_t c = 0; c < got.NumCols(); c++) {
        const double g = got(r, c);
        vsx_close(g, level(r, c) - low, 1e-9, "the level with both floors applied less the lowest level");
        vsx_assert(!(g < 0) && g == g, "levels are non-negative numbers");
        vsx_close(swapped(r, c), g, 0, "swapping the spectrograms swaps the results");
        zero = vsx_or(zero, g == 0);
      }
  }
  vsx_assert(zero, "the lowest level is 0");
  vsx_reach("conditioned");
}
// a louder entry of a frame never ends below a quieter one
ENTRY h_order() {
  const int rows = vsx_param("rows", 2), ca = vsx_param("ca", 1), cb = vsx_param("cb", 1);
  const M a = Any(rows, ca, "ref", 99), b = Any(rows, cb, "deg", 0);
  for (int c = 0; c < ca; c++)
    for (int r = 0; r < rows; r++) vsx_assume(std::fabs(a(r, c)) > 1e-12);
  // log10 does not decrease
  const size_t n = a.NumElements();
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++) {
      const double x = std::fabs(a(i)), y = std::fabs(a(j));
      vsx_assume(vsx_or(x > y, std::log10(x) <= std::log10(y)));
    }
  const Out o = Run(a, b);
  for (int c = 0; c < ca; c++)
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < rows; j++) vsx_assert(vsx_or(std::fabs(a(i, c)) > std::fabs(a(j, c)), o.ref(i, c) <= o.ref(j, c)), "the order of the levels of a frame is kept");
  vsx_reach("ordered");
}
