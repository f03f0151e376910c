// A reader of comma separated files, and the numbers in them.
#pragma once
#include <cmath>
#include <string>
#include <vector>
namespace {
typedef std::vector<std::string> Row;
// the rows of a comma separated file (RFC 4180)
std::vector<Row> Csv(const std::string& t, bool* ok) {
  std::vector<Row> rows;
  *ok = true;
  for (size_t i = 0; i < t.size();) {
    Row r;
    for (bool more = true; more;) {
      std::string f;
      if (i < t.size() && t[i] == '"') {
        for (i++;; i++) {
          if (i >= t.size()) { *ok = false; return rows; }
          if (t[i] == '"') { if (i + 1 < t.size() && t[i + 1] == '"') i++; else break; }
          f += t[i];
        }
        i++;
        if (i >= t.size() || (t[i] != ',' && t[i] != '\n')) { *ok = false; return rows; }
      } else {
        while (i < t.size() && t[i] != ',' && t[i] != '\n') { if (t[i] == '"' || t[i] == '\r') *ok = false; f += t[i++]; }
      }
      if (i >= t.size()) *ok = false;   // every row ends with a line feed
      more = i < t.size() && t[i] == ',';
      i++;
      r.push_back(f);
    }
    rows.push_back(r);
  }
  return rows;
}
// nine digits of the number
bool Carries(const std::string& f, double want) {
  const double x = vsx_number(f.c_str());
  if (Same(x, want)) return true;
  if (std::isnan(want)) return std::isnan(x);
  if (std::isinf(want)) return x == want;
  return std::fabs(x - want) <= 1e-8 * std::fabs(want);
}
}  // namespace
