// C22: matrix operations
#include "h.h"
#include <algorithm>
#include "amatrix.h"
using Visqol::AMatrix;
using Visqol::kDimension;
namespace {
typedef AMatrix<double> M;
struct Ref {   // column-major mirror
  size_t r, c;
  std::vector<double> v;
  double operator()(size_t i, size_t j) const { return v[j * r + i]; }
};
// shapes around the 16-element threshold below which Armadillo stores in place
const int kShapes[][2] = {{1, 1}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {3, 3}, {5, 4}, {2, 9}, {17, 1}, {1, 17}, {4, 4}};
const int kNumShapes = 11;
Ref Sym(size_t r, size_t c, const char* n) { return Ref{r, c, SymVec(n, r * c)}; }
Ref AnyShape(const char* n, int shapes = kNumShapes) {
  int k = vsx_choose("shape", shapes);
  return Sym(kShapes[k][0], kShapes[k][1], n);
}
M Make(const Ref& a) { return M(a.r, a.c, a.v); }
void Is(const M& m, const Ref& a, const char* msg) {
  vsx_assert(m.NumRows() == a.r && m.NumCols() == a.c && m.NumElements() == a.r * a.c, msg);
  for (size_t i = 0; i < a.r; i++)
    for (size_t j = 0; j < a.c; j++) vsx_close(m(i, j), a(i, j), 1e-9, msg);
}
template <class F>
Ref Build(size_t r, size_t c, F f) {
  Ref x{r, c, {}};
  for (size_t j = 0; j < c; j++)
    for (size_t i = 0; i < r; i++) x.v.push_back(f(i, j));
  return x;
}
void Unchanged(const M& m, const Ref& a) { Is(m, a, "the operand is not altered"); }
}  // namespace
// equality is exactly equal shape and equal elements
ENTRY h_eq() {
  const int s1 = vsx_choose("shape_a", 7), s2 = vsx_choose("shape_b", 7);
  Ref a = Sym(kShapes[s1][0], kShapes[s1][1], "a"), b = Sym(kShapes[s2][0], kShapes[s2][1], "b");
  const M x = Make(a), y = Make(b);
  const bool got = x == y;
  bool want = a.r == b.r && a.c == b.c;
  if (want)
    for (size_t i = 0; i < a.v.size(); i++) want = vsx_and(want, a.v[i] == b.v[i]);
  vsx_assert(got == want, "equal exactly when shape and elements are equal");
  if (s1 == s2) vsx_reach("same shape"); else vsx_reach("different shape");
}
// construction and element access, copies are independent
ENTRY h_make() {
  Ref a = AnyShape("a");
  const int how = vsx_choose("how", 9);
  M m;
  if (how == 0) m = M(a.r, a.c, a.v);
  else if (how == 1) { std::vector<double> t = a.v; m = M(a.r, a.c, std::move(t)); }
  else if (how == 2) {
    if (a.c != 1) return;
    m = M(a.v);
  } else if (how == 3) {
    if (a.c != 1) return;
    std::valarray<double> va(a.v.data(), a.v.size());
    m = M(va);
  } else if (how == 4) {
    std::vector<std::vector<double>> cols;
    for (size_t j = 0; j < a.c; j++) cols.emplace_back(a.v.begin() + j * a.r, a.v.begin() + (j + 1) * a.r);
    m = M(cols);
  } else if (how == 5) { const M t = Make(a); M u(t); m = u; }
  else if (how == 6) { m = M(a.r, a.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) m(i, j) = a(i, j); }
  else if (how == 7) {
    if (a.c != 1) return;
    absl::Span<double> sp(a.v.data(), a.v.size());
    m = M(sp);
  } else { m = M(a.r, a.c); for (size_t k = 0; k < a.v.size(); k++) m(k) = a.v[k]; }
  Is(m, a, "a matrix holds the elements it was made from");
  const M& cm = m;
  for (size_t k = 0; k < a.v.size(); k++) {
    vsx_assert(Same(cm(k), a.v[k]), "linear access is column-major");
    vsx_assert(Same(cm.data()[k], a.v[k]) && Same(cm.MemPtr()[k], a.v[k]) && Same(cm.mutData()[k], a.v[k]), "raw access is column-major");
  }
  size_t k = 0;
  for (auto i = m.begin(); i != m.end(); ++i, ++k) vsx_assert(Same(*i, a.v[k]), "iteration is column-major");
  k = 0;
  for (auto i = cm.cbegin(); i != cm.cend(); ++i, ++k) vsx_assert(Same(*i, a.v[k]), "iteration is column-major");
  vsx_assert(k == a.v.size(), "iteration visits every element");
  vsx_assert(m.LongestDimensionLength() == std::max(a.r, a.c), "longest dimension");
  // a copy does not share memory
  M c(m);
  c(0) = 0.25;
  Is(m, a, "a copy does not share memory");
  vsx_reach("made");
}
// a matrix owns its elements: nothing changes when its source goes away or is written
ENTRY h_own() {
  Ref a = AnyShape("a");
  const int how = vsx_choose("how", 5);
  std::vector<double>* t = new std::vector<double>(a.v);
  M m;
  if (how == 0) m = M(a.r, a.c, std::move(*t));
  else if (how == 1) m = M(a.r, a.c, *t);
  else if (how == 2) { if (a.c != 1) { delete t; return; } m = M(*t); }
  else if (how == 3) { if (a.c != 1) { delete t; return; } absl::Span<double> sp(t->data(), t->size()); m = M(sp); }
  else {
    M n(a.r, a.c, std::move(*t));
    if (t->size() == a.v.size()) (*t)[0] = 42;
    Is(n, a, "a matrix does not change when its source is written");
    delete t;
    vsx_reach("written");
    return;
  }
  delete t;
  Is(m, a, "a matrix keeps its elements when its source is destroyed");
  vsx_reach("owned");
}
ENTRY h_select() {
  Ref a = AnyShape("a");
  const M m = Make(a);
  const size_t r0 = vsx_choose("r0", a.r), r1 = r0 + vsx_choose("rn", std::min<size_t>(a.r - r0, 3));
  const size_t c0 = vsx_choose("c0", a.c), c1 = c0 + vsx_choose("cn", std::min<size_t>(a.c - c0, 3));
  if (a.r > 5 && r0 > 2 && r0 < a.r - 2) return;
  if (a.c > 5 && c0 > 2 && c0 < a.c - 2) return;
  Is(m.GetSpan(r0, r1, c0, c1), Build(r1 - r0 + 1, c1 - c0 + 1, [&](size_t i, size_t j) { return a(r0 + i, c0 + j); }), "span");
  Is(m.GetRows(r0, r1), Build(r1 - r0 + 1, a.c, [&](size_t i, size_t j) { return a(r0 + i, j); }), "rows");
  Is(m.GetColumns(c0, c1), Build(a.r, c1 - c0 + 1, [&](size_t i, size_t j) { return a(i, c0 + j); }), "columns");
  Is(m.GetColumn(c0), Build(a.r, 1, [&](size_t i, size_t) { return a(i, c0); }), "column");
  std::vector<double> row = m.GetRow(r0);
  vsx_assert(row.size() == a.c, "row length");
  for (size_t j = 0; j < a.c; j++) vsx_assert(Same(row[j], a(r0, j)), "row");
  std::vector<double> sub = m.RowSubset(r0, c0, c1);
  vsx_assert(sub.size() == c1 - c0 + 1, "row subset length");
  for (size_t j = 0; j < sub.size(); j++) vsx_assert(Same(sub[j], a(r0, c0 + j)), "row subset");
  std::vector<double> tv = m.ToVector();
  std::valarray<double> ta = m.ToValArray();
  vsx_assert(tv.size() == a.r && ta.size() == a.r, "first column as a vector");
  for (size_t i = 0; i < a.r; i++) vsx_assert(Same(tv[i], a(i, 0)) && Same(ta[i], a(i, 0)), "first column as a vector");
  Unchanged(m, a);
  vsx_reach("selected");
}
ENTRY h_set() {
  Ref a = AnyShape("a");
  M m = Make(a);
  const int how = vsx_choose("how", 5);
  if (how < 2) {
    const size_t i0 = vsx_choose("row", std::min<size_t>(a.r, 5));
    std::vector<double> row = SymVec("b", a.c);
    if (how == 0) m.SetRow(i0, row);
    else { std::valarray<double> va(row.data(), row.size()); m.SetRow(i0, std::move(va)); }
    Is(m, Build(a.r, a.c, [&](size_t i, size_t j) { return i == i0 ? row[j] : a(i, j); }), "setting a row replaces exactly that row");
    vsx_reach("row");
  } else {
    const size_t j0 = vsx_choose("col", std::min<size_t>(a.c, 5));
    std::vector<double> col = SymVec("b", a.r);
    const std::vector<double> keep = col;
    if (how == 2) m.SetColumn(j0, std::move(col));
    else if (how == 3) { std::valarray<double> va(col.data(), col.size()); m.SetColumn(j0, std::move(va)); }
    else { M c(col); m.SetColumn(j0, std::move(c)); }
    Is(m, Build(a.r, a.c, [&](size_t i, size_t j) { return j == j0 ? keep[i] : a(i, j); }), "setting a column replaces exactly that column");
    vsx_reach("column");
  }
}
ENTRY h_shape() {
  Ref a = AnyShape("a");
  const M m = Make(a);
  Is(m.Transpose(), Build(a.c, a.r, [&](size_t i, size_t j) { return a(j, i); }), "transpose");
  Is(m.FlipUpDown(), Build(a.r, a.c, [&](size_t i, size_t j) { return a(a.r - 1 - i, j); }), "flip up-down");
  const size_t r2 = 1 + vsx_choose("joined", 2);
  Ref b = Sym(r2, a.c, "b");
  const M n = Make(b);
  Is(m.JoinVertically(n), Build(a.r + r2, a.c, [&](size_t i, size_t j) { return i < a.r ? a(i, j) : b(i - a.r, j); }), "join");
  Unchanged(m, a);
  Unchanged(n, b);
  const int k = vsx_choose("newshape", kNumShapes);
  M z(m);
  z.Resize(kShapes[k][0], kShapes[k][1]);
  Is(z, Build(kShapes[k][0], kShapes[k][1], [&](size_t i, size_t j) { return i < a.r && j < a.c ? a(i, j) : 0.0; }), "resize keeps the elements at their positions and adds zeros");
  const double v = vsx_f64("v");
  Is(M::Filled(a.r, a.c, v), Build(a.r, a.c, [&](size_t, size_t) { return v; }), "filled");
  vsx_reach("shaped");
}
ENTRY h_arith() {
  Ref a = AnyShape("a"), b = Sym(a.r, a.c, "b");
  const M m = Make(a), n = Make(b);
  const double v = vsx_f64("v");
#define EL(expr) Build(a.r, a.c, [&](size_t i, size_t j) { return expr; })
  Is(m + n, EL(a(i, j) + b(i, j)), "matrix sum");
  Is(m - n, EL(a(i, j) - b(i, j)), "matrix difference");
  Is(m + v, EL(a(i, j) + v), "adding a scalar");
  Is(m - v, EL(a(i, j) - v), "subtracting a scalar");
  Is(m * v, EL(a(i, j) * v), "multiplying by a scalar");
  Is(m.PointWiseProduct(n), EL(a(i, j) * b(i, j)), "element-wise product");
  Unchanged(m, a);
  Unchanged(n, b);
  vsx_reach("arith");
}
ENTRY h_div() {
  Ref a = AnyShape("a", 7), b = Sym(a.r, a.c, "b");
  const M m = Make(a), n = Make(b);
  const double v = vsx_f64("v");
  vsx_assume(v != 0);
  for (double d : b.v) vsx_assume(d != 0);
  Is(m / v, EL(a(i, j) / v), "dividing by a scalar");
  Is(m.PointWiseDivide(n), EL(a(i, j) / b(i, j)), "element-wise quotient");
  Unchanged(m, a);
  Unchanged(n, b);
  vsx_reach("div");
}
ENTRY h_stats() {
  Ref a = AnyShape("a", 7);
  const M m = Make(a);
  M mr = m.Mean(kDimension::ROW), mc = m.Mean(kDimension::COLUMN);
  M sr = m.StdDev(kDimension::ROW), sc = m.StdDev(kDimension::COLUMN);
  vsx_assert(mr.NumRows() == a.r && mr.NumCols() == 1 && sr.NumRows() == a.r && sr.NumCols() == 1, "one statistic per row");
  vsx_assert(mc.NumRows() == 1 && mc.NumCols() == a.c && sc.NumRows() == 1 && sc.NumCols() == a.c, "one statistic per column");
  auto one = [&](const std::vector<double>& x, double mean, double sd) {
    double s = 0, q = 0;
    for (double d : x) s += d;
    const double mu = s / x.size();
    for (double d : x) q += (d - mu) * (d - mu);
    vsx_close(mean, mu, 1e-9, "mean");
    vsx_close(sd, x.size() > 1 ? std::sqrt(q / (x.size() - 1)) : 0.0, 1e-6, "unbiased standard deviation");
  };
  for (size_t i = 0; i < a.r; i++) {
    std::vector<double> x;
    for (size_t j = 0; j < a.c; j++) x.push_back(a(i, j));
    one(x, mr(i, 0), sr(i, 0));
  }
  for (size_t j = 0; j < a.c; j++) {
    std::vector<double> x;
    for (size_t i = 0; i < a.r; i++) x.push_back(a(i, j));
    one(x, mc(0, j), sc(0, j));
  }
  Unchanged(m, a);
  vsx_reach("stats");
}
