#include "pffft.h"

#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

struct PFFFT_Setup {
  int n;        // real length
  int h;        // n / 2 complex points
  double* tw;   // twiddles of the half-length transform: h/2 pairs
  double* rtw;  // twiddles of the real post-pass: h pairs
};

extern "C" {

void* pffft_aligned_malloc(size_t nb) {
  // As the original: over-allocate with malloc, remember the base in front.
  void* p0 = malloc(nb + 64);
  if (!p0) return nullptr;
  void* p = (void*)(((uintptr_t)p0 + 64) & ~(uintptr_t)63);
  *((void**)p - 1) = p0;
  return p;
}
void pffft_aligned_free(void* p) {
  if (p) free(*((void**)p - 1));
}

PFFFT_Setup* pffft_new_setup(int n, pffft_transform_t t) {
  if (t != PFFFT_REAL || n < 32 || (n & (n - 1))) return nullptr;
  PFFFT_Setup* s = (PFFFT_Setup*)calloc(1, sizeof(PFFFT_Setup));
  s->n = n;
  s->h = n / 2;
  s->tw = (double*)calloc(s->h, sizeof(double));
  s->rtw = (double*)calloc(n, sizeof(double));
  for (int i = 0; i < s->h / 2; i++) {
    double a = -2 * M_PI * i / s->h;
    s->tw[2 * i] = cos(a);
    s->tw[2 * i + 1] = sin(a);
  }
  for (int i = 0; i < s->h; i++) {
    double a = -2 * M_PI * i / n;
    s->rtw[2 * i] = cos(a);
    s->rtw[2 * i + 1] = sin(a);
  }
  return s;
}
void pffft_destroy_setup(PFFFT_Setup* s) {
  if (!s) return;
  free(s->tw);
  free(s->rtw);
  free(s);
}

// In-place complex transform of h points; sign -1 forward, +1 backward.
static void cfft(const PFFFT_Setup* s, double* d, bool fwd) {
  int h = s->h;
  for (int i = 1, j = 0; i < h; i++) {
    int bit = h >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) {
      double a = d[2 * i], b = d[2 * i + 1];
      d[2 * i] = d[2 * j];
      d[2 * i + 1] = d[2 * j + 1];
      d[2 * j] = a;
      d[2 * j + 1] = b;
    }
  }
  for (int len = 2; len <= h; len <<= 1) {
    int step = h / len;
    for (int i = 0; i < h; i += len) {
      for (int k = 0; k < len / 2; k++) {
        double wr = s->tw[2 * k * step];
        double wi = fwd ? s->tw[2 * k * step + 1] : -s->tw[2 * k * step + 1];
        double* p = d + 2 * (i + k);
        double* q = d + 2 * (i + k + len / 2);
        double xr = q[0] * wr - q[1] * wi, xi = q[0] * wi + q[1] * wr;
        q[0] = p[0] - xr;
        q[1] = p[1] - xi;
        p[0] += xr;
        p[1] += xi;
      }
    }
  }
}

// The private order: blocks of 8 floats, reals first.
static inline int perm(int i) {
  int b = i & ~7, k = i & 7;
  return b + ((k & 1) ? 4 + k / 2 : k / 2);
}
void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out,
                    pffft_direction_t dir) {
  for (int i = 0; i < s->n; i++) {
    if (dir == PFFFT_FORWARD)
      out[i] = in[perm(i)];  // private -> canonical
    else
      out[perm(i)] = in[i];  // canonical -> private
  }
}

static void forward(PFFFT_Setup* s, const float* in, float* out) {
  int h = s->h;
  double* d = (double*)calloc(s->n, sizeof(double));
  for (int i = 0; i < s->n; i++) d[i] = in[i];
  cfft(s, d, true);
  for (int k = 0; k <= h / 2; k++) {
    int j = (h - k) % h;
    double ar = d[2 * k], ai = d[2 * k + 1], br = d[2 * j], bi = -d[2 * j + 1];
    double er = (ar + br) / 2, ei = (ai + bi) / 2;
    double orr = (ai - bi) / 2, oi = -(ar - br) / 2;
    double wr = s->rtw[2 * k], wi = s->rtw[2 * k + 1];
    double tr = orr * wr - oi * wi, ti = orr * wi + oi * wr;
    if (k == 0) {
      out[0] = (float)(er + tr);
      out[1] = (float)(er - tr);
    } else {
      out[2 * k] = (float)(er + tr);
      out[2 * k + 1] = (float)(ei + ti);
      // X[h-k] = conj(E[k]) + w^{h-k} conj(O[k]) = conj(E - wO)
      out[2 * j] = (float)(er - tr);
      out[2 * j + 1] = (float)(-(ei - ti));
    }
  }
  free(d);
}

static void backward(PFFFT_Setup* s, const float* in, float* out) {
  int h = s->h;
  double* d = (double*)calloc(s->n, sizeof(double));
  for (int k = 0; k < h; k++) {
    double xr, xi, yr, yi;
    if (k == 0) {
      xr = in[0];
      xi = 0;
      yr = in[1];
      yi = 0;
    } else {
      xr = in[2 * k];
      xi = in[2 * k + 1];
      yr = in[2 * (h - k)];
      yi = -in[2 * (h - k) + 1];
    }
    double er = xr + yr, ei = xi + yi;
    double dr = xr - yr, di = xi - yi;
    double wr = s->rtw[2 * k], wi = -s->rtw[2 * k + 1];
    double orr = dr * wr - di * wi, oi = dr * wi + di * wr;
    d[2 * k] = er - oi;
    d[2 * k + 1] = ei + orr;
  }
  cfft(s, d, false);
  for (int i = 0; i < s->n; i++) out[i] = (float)d[i];
  free(d);
}

static void run(PFFFT_Setup* s, const float* in, float* out, float* work,
                pffft_direction_t dir, bool ordered) {
  if (((uintptr_t)in | (uintptr_t)out | (uintptr_t)work) & 15) abort();
  size_t nb = sizeof(float) * s->n;
  float* tmp = work ? work : (float*)calloc(1, nb);
  if (dir == PFFFT_FORWARD) {
    forward(s, in, tmp);
    if (ordered)
      memcpy(out, tmp, nb);
    else
      pffft_zreorder(s, tmp, out, PFFFT_BACKWARD);
  } else {
    if (ordered)
      memcpy(tmp, in, nb);
    else
      pffft_zreorder(s, in, tmp, PFFFT_FORWARD);
    backward(s, tmp, out);
  }
  if (!work) free(tmp);
}
void pffft_zconvolve_accumulate(PFFFT_Setup* s, const float* a, const float* b, float* ab, float k) {
  // Element 0 of the canonical order holds DC and Nyquist, two reals.
  float* t[3];
  for (auto& x : t) x = (float*)calloc(s->n, sizeof(float));
  pffft_zreorder(s, a, t[0], PFFFT_FORWARD);
  pffft_zreorder(s, b, t[1], PFFFT_FORWARD);
  pffft_zreorder(s, ab, t[2], PFFFT_FORWARD);
  t[2][0] += k * t[0][0] * t[1][0];
  t[2][1] += k * t[0][1] * t[1][1];
  for (int i = 2; i + 1 < s->n; i += 2) {
    t[2][i] += k * (t[0][i] * t[1][i] - t[0][i + 1] * t[1][i + 1]);
    t[2][i + 1] += k * (t[0][i] * t[1][i + 1] + t[0][i + 1] * t[1][i]);
  }
  pffft_zreorder(s, t[2], ab, PFFFT_BACKWARD);
  for (auto& x : t) free(x);
}
int pffft_simd_size(void) { return 4; }
void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float* work,
                     pffft_direction_t dir) {
  run(s, in, out, work, dir, false);
}
void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out,
                             float* work, pffft_direction_t dir) {
  run(s, in, out, work, dir, true);
}
}
