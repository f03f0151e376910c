// C14: voice activity detector.
#include <cmath>
#include <vector>
#include "rms_vad.h"
#include "vsx.h"
using Visqol::RmsVad;
namespace {
// quiet <=> rms < 5000 <=> sum of squares < 25e6 * n (exact in integers)
bool IsQuiet(const std::vector<int16_t>& c) {
  int64_t s = 0;
  for (auto v : c) s += (int64_t)v * v;
  return s < (int64_t)25000000 * (int64_t)c.size();
}
}  // namespace
// Every quiet/loud pattern of up to n chunks of `size` samples, symbolic samples.
extern "C" void h_pattern() {
  const int n = vsx_choose("chunks", vsx_param("max", 6) + 1);
  const int size = vsx_param("size", 1);
  RmsVad vad;
  std::vector<int> quiet;
  for (int i = 0; i < n; i++) {
    std::vector<int16_t> chunk;
    for (int k = 0; k < size; k++) chunk.push_back((int16_t)vsx_u16("sample"));
    const std::vector<int16_t> before = chunk;
    vad.ProcessChunk(chunk);
    for (int k = 0; k < size; k++) vsx_assert(chunk[k] == before[k], "the chunk is not modified");
    quiet.push_back(IsQuiet(chunk));
  }
  std::vector<double> r = vad.GetVadResults();
  vsx_assert((int)r.size() == (n < 2 ? 2 : n), "one decision per chunk, at least two");
  for (size_t i = 0; i < r.size(); i++) {
    bool absent = (int)i >= 2 && (int)i < n && quiet[i] && quiet[i - 1] && quiet[i - 2];
    vsx_assert(r[i] == (absent ? 0.0 : 1.0), "inactive exactly after three consecutive quiet chunks");
    if (absent) vsx_reach("inactive"); else vsx_reach("active");
  }
}
// RMS value: rms^2 * n == sum of squares over the reals, and rms >= 0
extern "C" void h_rms() {
  const int size = vsx_param("size", 4);
  std::vector<int16_t> chunk;
  double s = 0;
  for (int k = 0; k < size; k++) {
    chunk.push_back((int16_t)vsx_u16("sample"));
    s += (double)chunk[k] * (double)chunk[k];
  }
  RmsVad vad;
  double rms = vad.ProcessChunk(chunk);
  vsx_assert(rms >= 0, "level is not negative");
  vsx_close(rms, std::sqrt(s / size), 1e-9, "the returned level is the root mean square");
  vsx_reach("rms");
}
