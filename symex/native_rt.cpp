// Native implementation of the harness interface: replays one solver
// assignment against the real code.
//   argv[1] entry point, argv[2] file with one "name<TAB>kind hex" per line
// exit status: 0 entry finished, 99 assertion failed, 77 assumption not met
// (the assignment does not fit), otherwise what the sanitizer or the runtime
// ended with.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
#include "vsx.h"
namespace {
struct In { std::string name; char kind; uint64_t v; };
std::vector<In> g_in;
size_t g_pos = 0;
std::map<std::string, long long> g_par;
bool g_diverged = false;
uint64_t g_seed = 0;
uint64_t rnd() { g_seed ^= g_seed << 13; g_seed ^= g_seed >> 7; g_seed ^= g_seed << 17; return g_seed; }
double urnd() { return (double)(rnd() >> 11) / 9007199254740992.0; }
uint64_t next(const char* name, char kind) {
  if (g_pos >= g_in.size()) { g_diverged = true; g_pos++; return 0; }
  In& i = g_in[g_pos++];
  if (i.name != name || i.kind != kind) g_diverged = true;
  return i.v;
}
// FP inputs may be varied around the solver's value when the encoding treats
// library functions as uninterpreted
double vary(double v) {
  if (!g_seed) return v;
  double r = urnd();
  if (r < 0.3) return v;
  double m = std::fabs(v) + (std::isfinite(v) ? 1 : 0);
  if (r < 0.5) return v * (0.5 + urnd());
  if (r < 0.7) return std::floor((2 * urnd() - 1) * 8);
  return (2 * urnd() - 1) * (std::isfinite(m) ? m : 1e3);
}
}  // namespace
extern "C" {
double vsx_f64(const char* n) { uint64_t u = next(n, 'd'); double d; memcpy(&d, &u, 8); return vary(d); }
double vsx_range(const char* n, double lo, double hi) { double d = vsx_f64(n); if (!(d >= lo && d <= hi)) { if (!g_seed) vsx_assume(false); d = lo + (hi - lo) * urnd(); } return d; }
float vsx_f32(const char* n) { uint32_t u = (uint32_t)next(n, 'f'); float d; memcpy(&d, &u, 4); return (float)vary(d); }
uint64_t vsx_u64(const char* n) { return next(n, 'u'); }
uint32_t vsx_u32(const char* n) { return (uint32_t)next(n, 'u'); }
uint16_t vsx_u16(const char* n) { return (uint16_t)next(n, 'u'); }
uint8_t vsx_u8(const char* n) { return (uint8_t)next(n, 'u'); }
void vsx_bytes(const char* n, void* p, size_t k) {
  for (size_t i = 0; i < k; i++) ((uint8_t*)p)[i] = (uint8_t)next((std::string(n) + "[" + std::to_string(i) + "]").c_str(), 'u');
}
uint32_t vsx_choose(const char* n, uint32_t) { return (uint32_t)next(n, 'u'); }
void vsx_assume(bool c) { if (!c) { printf("VSX-ASSUME\n"); fflush(stdout); _Exit(77); } }
void vsx_assert(bool c, const char* m) {
  if (!c) { printf("VSX-FAIL %s%s\n", m, g_diverged ? " (inputs diverged)" : ""); fflush(stdout); _Exit(g_diverged && !g_seed ? 98 : 99); }
}
void vsx_close(double a, double b, double tol, const char* m) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return;
  double t = tol > 0 ? tol * (1 + std::fmax(std::fabs(a), std::fabs(b))) : 0;
  if (!(std::fabs(a - b) <= t)) { printf("VSX-VALUES %.17g %.17g\n", a, b); vsx_assert(false, m); }
}
void vsx_reach(const char* l) { printf("VSX-REACH %s\n", l); }
uint64_t vsx_concretize(uint64_t v) { return v; }
double vsx_ite_f64(bool c, double a, double b) { return c ? a : b; }
uint64_t vsx_ite_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int vsx_and(bool a, bool b) { return a && b; }
int vsx_or(bool a, bool b) { return a || b; }
int vsx_param(const char* n, int d) { auto i = g_par.find(n); return i == g_par.end() ? d : (int)i->second; }
int vsx_same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool vsx_decide(bool c) { return c; }
void vsx_end() { printf("VSX-END\n"); fflush(stdout); _Exit(0); }
uint64_t vsx_live() { return 0; }
double vsx_number(const char* t) { return strtod(t, nullptr); }
void vsx_print_f64(const char* n, double d) { printf("[vsx] %s %.17g\n", n, d); }
void vsx_print_u64(const char* n, uint64_t d) { printf("[vsx] %s %llu\n", n, (unsigned long long)d); }
double vsx_uf1(const char* n, double x) { double h = 0; for (; *n; n++) h = h * 0.71 + *n * 0.013; return std::cos(x * 1.37 + h) * 3 + x * h; }
int vsx_native() { return 1; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  if (FILE* f = fopen(argv[2], "r")) {
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
      std::string s(line, n);
      auto t = s.find('\t');
      if (t == std::string::npos) continue;
      if (s.compare(0, 6, "param:") == 0) { g_par[s.substr(6, t - 6)] = atoll(s.c_str() + t + 1); continue; }
      g_in.push_back({s.substr(0, t), s[t + 1], strtoull(s.c_str() + t + 3, nullptr, 16)});
    }
    free(line);
    fclose(f);
  }
  if (const char* s = getenv("VSX_PERTURB")) { g_seed = strtoull(s, nullptr, 10) * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 8 && g_seed; i++) rnd(); }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  fn();
  if (g_diverged) printf("VSX-DIVERGED\n");
  printf("VSX-OK\n");
  fflush(stdout);
  _Exit(0);
}
