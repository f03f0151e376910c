// Stand-in for the PFFFT library, which is not installed: a plain discrete
// Fourier transform with PFFFT's interface, argument requirements and ordered
// format (DC, Nyquist, re 1, im 1, ...). The internal order is the ordered one
// reversed, so that leaving out pffft_zreorder is visible.
#ifndef VERIF_PFFFT_H
#define VERIF_PFFFT_H
#include <stddef.h>
#include <stdint.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include "vsx.h"
typedef enum { PFFFT_FORWARD, PFFFT_BACKWARD } pffft_direction_t;
typedef enum { PFFFT_REAL, PFFFT_COMPLEX } pffft_transform_t;
struct PFFFT_Setup {
  int n;
  std::vector<double> c;  // cos(2 pi k / n)
};
namespace pffft_shim {
inline int setups = 0, blocks = 0;
inline bool only_touch = false;  // touch the first and last element of every buffer, compute nothing
inline double Cos(int n, int k) {
  k %= n;
  if (k > n - k) k = n - k;                   // cos(2 pi - a) = cos(a)
  if (4 * k == n) return 0;
  if (4 * k > n) return -Cos(n, n / 2 - k);   // cos(pi - a) = -cos(a)
  if (k == 0) return 1;
  return cos(2 * 3.14159265358979323846 * k / n);
}
inline void Touch(const float* in, float* out, float* work, int n) {
  float a = in[0] + in[n - 1];
  out[0] = out[n - 1] = a;
  if (work) work[0] = work[n - 1] = a;  // a real transform needs n floats
}
}  // namespace pffft_shim
inline void* pffft_aligned_malloc(size_t n) {
  pffft_shim::blocks++;
#ifdef VSX_IR
  return malloc(n);
#else
  void* p = nullptr;
  return posix_memalign(&p, 64, n) ? nullptr : p;
#endif
}
inline void pffft_aligned_free(void* p) {
  pffft_shim::blocks--;
  free(p);
}
inline PFFFT_Setup* pffft_new_setup(int n, pffft_transform_t t) {
  vsx_assert(t == PFFFT_REAL && n >= 32 && (n & (n - 1)) == 0, "a real transform of a power of two, at least 32");
  pffft_shim::setups++;
  PFFFT_Setup* s = new PFFFT_Setup{n, {}};
  if (!pffft_shim::only_touch) for (int k = 0; k < n; k++) s->c.push_back(pffft_shim::Cos(n, k));
  return s;
}
inline void pffft_destroy_setup(PFFFT_Setup* s) {
  pffft_shim::setups--;
  delete s;
}
inline void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out, float* work, pffft_direction_t d) {
  const int n = s->n;
  if (work) memset(work, 0x55, n * sizeof(float));
  if (pffft_shim::only_touch) return pffft_shim::Touch(in, out, work, n);
  std::vector<double> x(n), y(n);
  for (int i = 0; i < n; i++) x[i] = in[i];
  if (d == PFFFT_FORWARD) {
    for (int k = 0; k <= n / 2; k++) {
      double re = 0, im = 0;
      for (int i = 0; i < n; i++) {
        re += x[i] * s->c[i * k % n];
        im -= x[i] * s->c[(i * k + 3 * n / 4) % n];  // sin(a) = cos(a + 3 pi / 2)
      }
      if (k == 0) y[0] = re;
      else if (k == n / 2) y[1] = re;
      else y[2 * k] = re, y[2 * k + 1] = im;
    }
  } else {
    for (int i = 0; i < n; i++) {
      double v = x[0] + (i % 2 ? -x[1] : x[1]);
      for (int k = 1; k < n / 2; k++) v += 2 * (x[2 * k] * s->c[i * k % n] - x[2 * k + 1] * s->c[(i * k + 3 * n / 4) % n]);
      y[i] = v;
    }
  }
  for (int i = 0; i < n; i++) out[i] = (float)y[i];
}
inline void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out, pffft_direction_t d) {
  (void)d;
  if (pffft_shim::only_touch) return pffft_shim::Touch(in, out, nullptr, s->n);
  for (int i = 0; i < s->n; i++) out[i] = in[s->n - 1 - i];
}
inline void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float* work, pffft_direction_t d) {
  if (pffft_shim::only_touch) return pffft_transform_ordered(s, in, out, work, d);
  std::vector<float> t(s->n);
  if (d == PFFFT_BACKWARD) {
    pffft_zreorder(s, in, t.data(), PFFFT_FORWARD);
    pffft_transform_ordered(s, t.data(), out, work, d);
  } else {
    pffft_transform_ordered(s, in, t.data(), work, d);
    pffft_zreorder(s, t.data(), out, PFFFT_BACKWARD);
  }
}
#endif
