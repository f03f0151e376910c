// C21 training data files
#include "h.h"
#include "files.h"
#include "absl/strings/numbers.h"
#include "training_data_file_reader.h"
using namespace Visqol;
#ifdef VSX_IR
// decimal numbers of at most a few digits: [spaces][sign]digits[.digits][spaces]
namespace absl {
ABSL_NAMESPACE_BEGIN
bool SimpleAtod(string_view s, double* out) {
  *out = 0.0;
  size_t i = 0, n = s.size();
  while (i < n && s[i] == ' ') i++;
  while (n > i && s[n - 1] == ' ') n--;
  bool neg = false;
  if (i < n && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; i++; }
  int digits = 0;
  int64_t v = 0, d = 1;
  bool dot = false;
  for (; i < n; i++) {
    if (s[i] == '.' && !dot) { dot = true; continue; }
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
    digits++;
    if (dot) d *= 10;
  }
  if (!digits) return false;
  const double r = dot ? (double)v / (double)d : (double)v;
  *out = neg ? -r : r;
  return true;
}
ABSL_NAMESPACE_END
}  // namespace absl
#endif
// a text of n characters: digits, sign, point, delimiter, letter, space, line ends
ENTRY h_text() {
  const int n = vsx_param("n", 4);
  const char delim = vsx_choose("delimiter", 2) ? ',' : ' ';
  std::string t;
  for (int i = 0; i < n; i++) {
    switch (vsx_choose("kind", 6)) {
      case 0: { const uint8_t d = vsx_u8("digit"); vsx_assume(vsx_and(d >= '0', d <= '9')); t += (char)d; break; }
      case 1: t += delim; break;
      case 2: t += '\n'; break;
      case 3: t += '-'; break;
      case 4: t += '.'; break;
      default: { const uint8_t c = vsx_u8("other"); vsx_assume(vsx_and(c >= 'f', c <= 'h')); t += (char)c; }
    }
  }
  PutFile("data.txt", t);
  const auto got = TrainingDataFileReader::Read(FilePath("data.txt"), delim);
  std::vector<std::vector<double>> want;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = p;
    while (e < t.size() && t[e] != '\n') e++;
    want.push_back({});
    for (size_t q = p; q < e;) {
      size_t f = q;
      while (f < e && t[f] != delim) f++;
      double v;
      if (absl::SimpleAtod(absl::string_view(t).substr(q, f - q), &v)) want.back().push_back(v);
      q = f + 1;
    }
    p = e + 1;
  }
  vsx_assert(got.size() == want.size(), "one row per line");
  for (size_t i = 0; i < want.size(); i++) {
    vsx_assert(got[i].size() == want[i].size(), "one value per number, other items are skipped");
    for (size_t j = 0; j < want[i].size(); j++) vsx_assert(Same(got[i][j], want[i][j]), "the values in order");
  }
  vsx_reach("read");
  // nothing carries over to the next file
  PutFile("two.txt", "3");
  const auto next = TrainingDataFileReader::Read(FilePath("two.txt"), delim);
  vsx_assert(next.size() == 1 && next[0].size() == 1 && next[0][0] == 3, "every file is read afresh");
  vsx_assert(TrainingDataFileReader::Read(FilePath("absent.txt"), delim).empty(), "a missing file has no rows");
}
// tables of numbers with symbolic digits
ENTRY h_table() {
  const int rows = 1 + vsx_choose("rows", 3), cols = 1 + vsx_choose("cols", 3);
  const bool last = vsx_choose("last newline", 2);
  std::string t;
  double want[3][3];
  for (int i = 0; i < rows; i++) {
    for (int j = 0; j < cols; j++) {
      const uint8_t a = vsx_u8("digit"), b = vsx_u8("digit");
      vsx_assume(vsx_and(vsx_and(a >= '0', a <= '9'), vsx_and(b >= '0', b <= '9')));
      if (j) t += ',';
      t += (char)a; t += (char)b;
      want[i][j] = (double)((a - '0') * 10 + (b - '0'));
    }
    if (i + 1 < rows || last) t += '\n';
  }
  PutFile("table.txt", t);
  const auto got = TrainingDataFileReader::Read(FilePath("table.txt"), ',');
  vsx_assert((int)got.size() == rows, "one row per line");
  for (int i = 0; i < rows; i++) {
    vsx_assert((int)got[i].size() == cols, "one value per number");
    for (int j = 0; j < cols; j++) vsx_assert(got[i][j] == want[i][j], "the values in order");
  }
  vsx_reach("table");
}
