// fft.c - stand-in for libfftw3 (only the entry points the fftw crate links).
// FFTW with FFTW_MEASURE picks an algorithm by timing; different algorithms
// round differently.  Here the plan number decides which algorithm, summation
// order and twiddle accuracy are used, all correct to normal double rounding.
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
extern int vsim_fft_plan;
typedef struct { double re, im; } c64;
typedef struct { int n, kind, algo; c64 *tw; } plan; // kind 0 r2c, 1 c2r
#define NALGO 8
static int smallest(int n) { for (int p = 2; p * p <= n; p++) if (n % p == 0) return p; return n; }
static int largest(int n) { int l = n; while (smallest(l) != l) l /= smallest(l); return l; }
static plan *mk(int rank, const int *n, int kind) {
  if (rank != 1 || n[0] < 1) return NULL;
  plan *p = malloc(sizeof *p);
  p->n = n[0]; p->kind = kind; p->algo = ((vsim_fft_plan % NALGO) + NALGO) % NALGO;
  p->tw = malloc(sizeof(c64) * p->n);
  for (int j = 0; j < p->n; j++) {
    if (p->algo == 5) { // repeated-rotation style twiddles, as recurrence-based code has
      double a = 2 * M_PI / p->n * j;
      p->tw[j] = (c64){cos(a), -sin(a)};
    } else {
      long double a = 2 * 3.14159265358979323846264338327950288L * j / p->n;
      p->tw[j] = (c64){(double)cosl(a), (double)-sinl(a)};
    }
  }
  return p;
}
static void rec(const c64 *in, c64 *out, int n, int stride, const c64 *tw, int tn, int small) {
  if (n == 1) { out[0] = in[0]; return; }
  int p = small ? smallest(n) : largest(n), m = n / p;
  c64 tmp[n];
  for (int r = 0; r < p; r++) rec(in + r * stride, tmp + r * m, m, stride * p, tw, tn, small);
  for (int k = 0; k < n; k++) {
    double re = 0, im = 0;
    for (int r = 0; r < p; r++) {
      c64 t = tmp[r * m + k % m], w = tw[(long)r * k * (tn / n) % tn];
      re += t.re * w.re - t.im * w.im;
      im += t.re * w.im + t.im * w.re;
    }
    out[k] = (c64){re, im};
  }
}
static void fwd(const plan *p, const c64 *x, c64 *X, int kmax) { // sum x[j] w^{jk}, k < kmax
  int n = p->n;
  if (p->algo == 3 || p->algo == 4) {
    c64 out[n];
    rec(x, out, n, 1, p->tw, n, p->algo == 3);
    memcpy(X, out, sizeof(c64) * kmax);
    return;
  }
  for (int k = 0; k < kmax; k++) {
    if (p->algo == 2) {
      long double re = 0, im = 0;
      for (int j = 0; j < n; j++) { c64 w = p->tw[(long)j * k % n]; re += (long double)x[j].re * w.re - (long double)x[j].im * w.im; im += (long double)x[j].re * w.im + (long double)x[j].im * w.re; }
      X[k] = (c64){(double)re, (double)im};
    } else {
      double re = 0, im = 0;
      for (int i = 0; i < n; i++) {
        int j = p->algo == 1 ? n - 1 - i : p->algo == 6 ? (i + n / 2) % n : p->algo == 7 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i;
        c64 w = p->tw[(int)((long)j * k % n)];
        re += x[j].re * w.re - x[j].im * w.im;
        im += x[j].re * w.im + x[j].im * w.re;
      }
      X[k] = (c64){re, im};
    }
  }
}
static void fwd_real(const plan *p, const double *x, c64 *X) {
  int n = p->n, kmax = n / 2 + 1;
  if (p->algo == 3 || p->algo == 4 || p->algo == 2) {
    c64 in[n];
    for (int i = 0; i < n; i++) in[i] = (c64){x[i], 0};
    fwd(p, in, X, kmax);
  } else {
    for (int k = 0; k < kmax; k++) {
      double re = 0, im = 0;
      int idx = 0;
      for (int i = 0; i < n; i++) {
        int j = p->algo == 1 ? n - 1 - i : p->algo == 6 ? (i + n / 2) % n : p->algo == 7 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i;
        idx = (j * k) % n;
        re += x[j] * p->tw[idx].re;
        im += x[j] * p->tw[idx].im;
      }
      X[k] = (c64){re, im};
    }
  }
  X[0].im = 0;
  if (n % 2 == 0) X[n / 2].im = 0;
}
void *fftw_plan_dft_r2c(int rank, const int *n, double *in, void *out, unsigned fl) { (void)in; (void)out; (void)fl; return mk(rank, n, 0); }
void *fftw_plan_dft_c2r(int rank, const int *n, void *in, double *out, unsigned fl) { (void)in; (void)out; (void)fl; return mk(rank, n, 1); }
void fftw_execute_dft_r2c(void *pl, double *in, c64 *out) { fwd_real(pl, in, out); }
void fftw_execute_dft_c2r(void *pl, c64 *in, double *out) {
  plan *p = pl;
  int n = p->n;
  c64 full[n], res[n];
  for (int k = 0; k <= n / 2; k++) full[k] = in[k];
  full[0].im = 0;
  if (n % 2 == 0) full[n / 2].im = 0;
  for (int k = n / 2 + 1; k < n; k++) full[k] = (c64){full[n - k].re, -full[n - k].im};
  for (int k = 0; k < n; k++) full[k].im = -full[k].im; // conj, forward, conj = backward
  fwd(p, full, res, n);
  for (int k = 0; k < n; k++) out[k] = res[k].re;
  for (int k = 0; k <= n / 2; k++) in[k] = (c64){(double)NAN, (double)NAN}; // c2r destroys its input
}
void fftw_destroy_plan(void *pl) { plan *p = pl; if (p) { free(p->tw); free(p); } }
void fftw_print_plan(void *p) { (void)p; }
void *fftw_malloc(size_t n) { void *p = NULL; return posix_memalign(&p, 64, n ? n : 64) ? NULL : p; }
double *fftw_alloc_real(size_t n) { return fftw_malloc(n * 8); }
void *fftw_alloc_complex(size_t n) { return fftw_malloc(n * 16); }
void fftw_free(void *p) { free(p); }
int fftw_alignment_of(double *p) { return (int)((uintptr_t)p % 16); }
static void none(const char *s) { fprintf(stderr, "vsim: %s is not simulated\n", s); _Exit(98); }
#define NONE(x) void *x() { none(#x); return NULL; }
NONE(fftw_plan_r2r) NONE(fftw_execute_r2r) NONE(fftwf_plan_r2r) NONE(fftwf_execute_r2r)
// complex transforms: kind 2 forward, 3 backward
void *fftw_plan_dft(int rank, const int *n, void *in, void *out, int sign, unsigned fl) { (void)in; (void)out; (void)fl; return mk(rank, n, sign < 0 ? 2 : 3); }
void fftw_execute_dft(void *pl, c64 *in, c64 *out) {
  plan *p = pl;
  c64 x[p->n], X[p->n];
  for (int i = 0; i < p->n; i++) x[i] = (c64){in[i].re, p->kind == 3 ? -in[i].im : in[i].im};
  fwd(p, x, X, p->n);
  for (int i = 0; i < p->n; i++) out[i] = (c64){X[i].re, p->kind == 3 ? -X[i].im : X[i].im};
}
// single precision: the same, rounded to float
typedef struct { float re, im; } c32;
void *fftwf_plan_dft(int rank, const int *n, void *in, void *out, int sign, unsigned fl) { return fftw_plan_dft(rank, n, in, out, sign, fl); }
void fftwf_execute_dft(void *pl, c32 *in, c32 *out) {
  plan *p = pl;
  c64 x[p->n];
  for (int i = 0; i < p->n; i++) x[i] = (c64){in[i].re, in[i].im};
  fftw_execute_dft(pl, x, x);
  for (int i = 0; i < p->n; i++) out[i] = (c32){(float)x[i].re, (float)x[i].im};
}
void *fftwf_plan_dft_r2c(int rank, const int *n, float *in, void *out, unsigned fl) { (void)in; (void)out; (void)fl; return mk(rank, n, 0); }
void fftwf_execute_dft_r2c(void *pl, float *in, c32 *out) {
  plan *p = pl;
  double x[p->n];
  c64 X[p->n / 2 + 1];
  for (int i = 0; i < p->n; i++) x[i] = in[i];
  fftw_execute_dft_r2c(pl, x, X);
  for (int i = 0; i <= p->n / 2; i++) out[i] = (c32){(float)X[i].re, (float)X[i].im};
}
void *fftwf_plan_dft_c2r(int rank, const int *n, void *in, float *out, unsigned fl) { (void)in; (void)out; (void)fl; return mk(rank, n, 1); }
void fftwf_execute_dft_c2r(void *pl, c32 *in, float *out) {
  plan *p = pl;
  c64 x[p->n / 2 + 1];
  double r[p->n];
  for (int i = 0; i <= p->n / 2; i++) x[i] = (c64){in[i].re, in[i].im};
  fftw_execute_dft_c2r(pl, x, r);
  for (int i = 0; i < p->n; i++) out[i] = (float)r[i];
  for (int i = 0; i <= p->n / 2; i++) in[i] = (c32){(float)NAN, (float)NAN};
}
void fftwf_destroy_plan(void *pl) { fftw_destroy_plan(pl); }
void fftwf_print_plan(void *p) { (void)p; }
float *fftwf_alloc_real(size_t n) { return fftw_malloc(n * 4); }
void *fftwf_alloc_complex(size_t n) { return fftw_malloc(n * 8); }
int fftwf_alignment_of(float *p) { return (int)((uintptr_t)p % 16); }
void fftwf_free(void *p) { free(p); }
void fftw_cleanup(void) {}
void fftwf_cleanup(void) {}
