// C01 / C02: WAV decoding
#include "h.h"
#include <cstring>
#include <sstream>
#include "misc_audio.h"
#include "wav_reader.h"
using namespace Visqol;
namespace {
uint32_t U32(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
uint16_t U16(const uint8_t* p) { return (uint16_t)(p[0] | p[1] << 8); }
bool Is(const uint8_t* p, const char* id) { return vsx_and(vsx_and(p[0] == id[0], p[1] == id[1]), vsx_and(p[2] == id[2], p[3] == id[3])); }
AudioSignal Load(const std::vector<uint8_t>& b) {
  std::string s((const char*)b.data(), b.size());
  std::stringstream ss(s);
  return MiscAudio::LoadAsMono(&ss);
}
void P32(std::vector<uint8_t>& v, uint32_t x) { for (int i = 0; i < 4; i++) v.push_back(x >> (8 * i)); }
void P16(std::vector<uint8_t>& v, uint32_t x) { for (int i = 0; i < 2; i++) v.push_back(x >> (8 * i)); }
void Pid(std::vector<uint8_t>& v, const char* s) { v.insert(v.end(), s, s + 4); }
}  // namespace
// what any byte string must give
static void CheckAny(const std::vector<uint8_t>& b) {
  const int n = (int)b.size();
  const AudioSignal s = Load(b);
  const size_t rows = s.data_matrix.NumRows(), cols = s.data_matrix.NumCols();
  bool valid = n >= 46;
  if (valid) {
    valid = vsx_and(vsx_and(Is(&b[0], "RIFF"), Is(&b[8], "WAVE")), Is(&b[12], "fmt "));
    valid = vsx_and(valid, vsx_and(U16(&b[34]) == 16, U16(&b[22]) != 0));
    valid = vsx_and(valid, vsx_or(U16(&b[20]) == 1, U16(&b[20]) == 0xfffe));
    valid = vsx_and(valid, U32(&b[16]) >= 16);
  }
  if (rows * cols != 0) {
    vsx_assert(valid, "a stream that is not 16-bit PCM RIFF/WAVE yields an empty signal");
    vsx_assert(cols == 1, "a loaded signal has one column");
    vsx_assert(s.sample_rate == (size_t)(int)U32(&b[24]), "the sample rate is the one in the header");
    std::string t((const char*)b.data(), b.size());
    std::stringstream ss(t);
    WavReader r(&ss);
    vsx_assert(r.IsHeaderValid() && r.GetNumChannels() == U16(&b[22]), "the channel count is the one in the header");
    vsx_assert(rows == r.GetNumTotalSamples() / r.GetNumChannels(), "one row per declared whole sample frame");
    // plain header: the declared size is at a fixed place
    if (vsx_and(U32(&b[16]) == 16, vsx_and(U16(&b[20]) == 1, Is(&b[36], "data"))))
      vsx_assert(rows == U32(&b[40]) / 2 / U16(&b[22]), "one row per declared whole sample frame");
    vsx_reach("loaded");
  } else {
    vsx_reach("empty");
  }
}
// any byte string of n bytes
ENTRY h_any() {
  const int n = vsx_param("n", 44);
  std::vector<uint8_t> b(n);
  if (n) vsx_bytes("b", b.data(), n);
  CheckAny(b);
}
// a usable format chunk of each kind followed by n arbitrary bytes
ENTRY h_tail() {
  const int n = vsx_param("n", 10), form = vsx_choose("format", 3);
  std::vector<uint8_t> b;
  Pid(b, "RIFF"); P32(b, vsx_u32("riff_size")); Pid(b, "WAVE"); Pid(b, "fmt ");
  P32(b, form == 0 ? 16 : 18); P16(b, form == 2 ? 0xfffe : 1); P16(b, 1 + vsx_choose("channels", 2)); P32(b, 48000); P32(b, 96000); P16(b, 2); P16(b, 16);
  if (form) P16(b, vsx_param("ext", 0));
  std::vector<uint8_t> t(n);
  if (n) vsx_bytes("b", t.data(), n);
  b.insert(b.end(), t.begin(), t.end());
  CheckAny(b);
}
// the reader never delivers more samples than declared, nor writes past them
ENTRY h_reader() {
  const int declared = 1 + vsx_choose("declared", 3), present = vsx_choose("present", 6);
  std::vector<uint8_t> b;
  Pid(b, "RIFF"); P32(b, 36 + 2 * declared); Pid(b, "WAVE"); Pid(b, "fmt "); P32(b, 16); P16(b, 1); P16(b, 1); P32(b, 48000); P32(b, 96000); P16(b, 2); P16(b, 16); Pid(b, "data"); P32(b, 2 * declared);
  std::vector<uint16_t> smp;
  for (int i = 0; i < present; i++) { smp.push_back(vsx_u16("sample")); P16(b, smp.back()); }
  std::string s((const char*)b.data(), b.size());
  std::stringstream ss(s);
  WavReader r(&ss);
  vsx_assert(r.IsHeaderValid() && (int)r.GetNumTotalSamples() == declared, "declared number of samples");
  int got = 0;
  for (int call = 0; call < 3; call++) {
    const int ask = vsx_choose("ask", 4);
    int16_t* buf = new int16_t[ask ? ask : 1];
    const int k = (int)r.ReadSamples(ask, buf);
    vsx_assert(k <= ask && got + k <= declared, "never more samples than asked for or declared");
    for (int i = 0; i < k; i++) vsx_assert((uint16_t)buf[i] == smp[got + i], "samples come in stream order");
    if (got + ask <= declared && got + ask <= present) vsx_assert(k == ask, "all samples that are there are delivered");
    got += k;
    delete[] buf;
  }
  vsx_reach("read");
}
// a header that declares far more than the stream holds
ENTRY h_huge() {
  std::vector<uint8_t> b;
  const uint32_t size = vsx_u32("data_size");
  vsx_assume(size % 2 == 0);
  vsx_assume(size > 0x20000000u);
  Pid(b, "RIFF"); P32(b, 36); Pid(b, "WAVE"); Pid(b, "fmt "); P32(b, 16); P16(b, 1); P16(b, 1); P32(b, 48000); P32(b, 96000); P16(b, 2); P16(b, 16); Pid(b, "data"); P32(b, size);
  P16(b, 1);
  Load(b);
}
// every well-formed file
ENTRY h_wellformed() {
  const int ch = 1 + vsx_choose("channels", vsx_param("maxch", 3)), frames = 1 + vsx_choose("frames", vsx_param("maxfr", 2));
  const int form = vsx_choose("format", 4);   // plain, empty extension, extension bytes, extensible
  const int extra = vsx_choose("chunks", 3);
  const uint32_t rate = vsx_u32("rate");
  vsx_assume(rate < 0x80000000u);
  std::vector<uint8_t> b;
  auto junk = [&](int n) { for (int i = 0; i < n; i++) b.push_back(vsx_u8("junk")); };
  Pid(b, "RIFF"); P32(b, vsx_u32("riff_size")); Pid(b, "WAVE"); Pid(b, "fmt ");
  const int ext = form == 2 ? 2 + 2 * (int)vsx_choose("ext", 2) : form == 3 ? 22 : 0;
  P32(b, form == 0 ? 16 : 18 + ext);
  P16(b, form == 3 ? 0xfffe : 1); P16(b, ch); P32(b, rate); P32(b, vsx_u32("bytes_per_second")); P16(b, vsx_u16("block_align")); P16(b, 16);
  if (form) { P16(b, ext); junk(ext); }
  if (form == 3) { Pid(b, "fact"); P32(b, 4); junk(4); }
  for (int i = 0; i < extra; i++) {
    const char* ids[] = {"LIST", "fact", "dat ", "junk"};
    const int sz = vsx_choose("chunk_size", vsx_param("maxchunk", 4));
    Pid(b, ids[(i + sz) % 4]); P32(b, sz); junk(sz);
    if (sz % 2) b.push_back(0);   // RIFF chunks are padded to an even length
  }
  Pid(b, "data"); P32(b, ch * frames * 2);
  std::vector<int16_t> smp;
  for (int i = 0; i < ch * frames; i++) { smp.push_back((int16_t)vsx_u16("sample")); P16(b, (uint16_t)smp.back()); }
  if (vsx_choose("trailer", 2)) { Pid(b, "LIST"); P32(b, 2); junk(2); }
  const AudioSignal s = Load(b);
  vsx_assert((int)s.data_matrix.NumRows() == frames && s.data_matrix.NumCols() == 1, "one row per frame, one column");
  vsx_assert(s.sample_rate == rate, "the file's sample rate");
  for (int f = 0; f < frames; f++) {
    double v = 0;
    for (int c = 0; c < ch; c++) v += smp[f * ch + c] / 32768.0;
    v /= ch;
    const double got = s.data_matrix(f, 0);
    vsx_close(got, v, 1e-9, "a value is the mean over the channels of sample/32768");
    if (ch <= 2) vsx_assert(vsx_and(got >= -1.0, got < 1.0), "values lie in [-1, 1)");
  }
  vsx_reach(extra ? "chunks skipped" : "plain");
  if (form == 3) vsx_reach("extensible");
}
