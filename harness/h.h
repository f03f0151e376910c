// helpers shared by the harnesses
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <valarray>
#include <vector>
#include "vsx.h"
#define ENTRY extern "C" void
// A step that is private in the code under test may be renamed or merged into
// its caller; the entries about it then end here, and others cover the caller.
template <class... L> inline void Gone(L... labels) { (vsx_reach(labels), ...); vsx_end(); }
inline bool Same(double a, double b) { return vsx_same(a, b) != 0; }
inline std::vector<double> SymVec(const char* n, size_t k) {
  std::vector<double> v;
  for (size_t i = 0; i < k; i++) v.push_back(vsx_f64(n));
  return v;
}
