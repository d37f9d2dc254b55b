/* lcg.c -- linear conjugate gradients (C22) and their trust-region version (C23). */
#include "common.h"
#include "optimpack.h"
#include "optimpack-linalg.h"
typedef long double LD;
#define PROP(p) (strcmp(h_prop, p) == 0)

static void lq_orth(LD* q, long n) { /* random orthogonal matrix by Gram-Schmidt (twice) */
  long i, j, k, pass;
  for (i = 0; i < n*n; ++i) q[i] = r_norm();
  if (r_p(0.1)) { for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) q[i*n+j] = i == j; return; }
  for (j = 0; j < n; ++j) {
    LD s = 0;
    for (pass = 0; pass < 2; ++pass)
      for (k = 0; k < j; ++k) { s = 0; for (i = 0; i < n; ++i) s += q[i*n+j]*q[i*n+k]; for (i = 0; i < n; ++i) q[i*n+j] -= s*q[i*n+k]; }
    s = 0; for (i = 0; i < n; ++i) s += q[i*n+j]*q[i*n+j];
    s = sqrtl(s); for (i = 0; i < n; ++i) q[i*n+j] /= s;
  }
}
static void lq_solve(const LD* a, const LD* b, LD* x, long n) { /* Gauss with pivoting */
  LD m[40*41]; long i, j, k, p;
  for (i = 0; i < n; ++i) { for (j = 0; j < n; ++j) m[i*(n+1)+j] = a[i*n+j]; m[i*(n+1)+n] = b[i]; }
  for (k = 0; k < n; ++k) {
    p = k; for (i = k + 1; i < n; ++i) if (fabsl(m[i*(n+1)+k]) > fabsl(m[p*(n+1)+k])) p = i;
    for (j = 0; j <= n; ++j) { LD t = m[k*(n+1)+j]; m[k*(n+1)+j] = m[p*(n+1)+j]; m[p*(n+1)+j] = t; }
    for (i = k + 1; i < n; ++i) { LD f = m[i*(n+1)+k]/m[k*(n+1)+k]; for (j = k; j <= n; ++j) m[i*(n+1)+j] -= f*m[k*(n+1)+j]; }
  }
  for (i = n - 1; i >= 0; --i) { LD s = m[i*(n+1)+n]; for (j = i + 1; j < n; ++j) s -= m[i*(n+1)+j]*x[j]; x[i] = s/m[i*(n+1)+i]; }
}
static void lq_eig(LD* a, LD* w, long n) { /* Jacobi eigenvalues */
  long i, p, q, sweep;
  for (sweep = 0; sweep < 60; ++sweep) {
    LD off = 0, dg = 0;
    for (p = 0; p < n; ++p) for (q = 0; q < n; ++q) { if (p != q) off += a[p*n+q]*a[p*n+q]; else dg += a[p*n+q]*a[p*n+q]; }
    if (off <= 1e-36L*dg) break;
    for (p = 0; p < n; ++p) for (q = p + 1; q < n; ++q) {
      LD apq = a[p*n+q], th, t, c, s;
      if (apq == 0) continue;
      th = (a[q*n+q] - a[p*n+p])/(2*apq); t = (th >= 0 ? 1 : -1)/(fabsl(th) + sqrtl(th*th + 1)); c = 1/sqrtl(t*t + 1); s = t*c;
      for (i = 0; i < n; ++i) { LD u = a[i*n+p], v = a[i*n+q]; a[i*n+p] = c*u - s*v; a[i*n+q] = s*u + c*v; }
      for (i = 0; i < n; ++i) { LD u = a[p*n+i], v = a[q*n+i]; a[p*n+i] = c*u - s*v; a[q*n+i] = s*u + c*v; }
    }
  }
  for (i = 0; i < n; ++i) w[i] = a[i*n+i];
}
static LD lq_cond(const LD* a, const LD* m, long n) { /* condition number of M.A (M = I if NULL) via A = L.L' and L'.M.L */
  LD c[1600], l[1600], w[40], lo, hi; long i, j, k;
  if (m == NULL) { memcpy(c, a, n*n*sizeof(LD)); }
  else {
    memset(l, 0, sizeof(l));
    for (j = 0; j < n; ++j) { LD s = a[j*n+j]; for (k = 0; k < j; ++k) s -= l[j*n+k]*l[j*n+k]; l[j*n+j] = sqrtl(s);
      for (i = j + 1; i < n; ++i) { s = a[i*n+j]; for (k = 0; k < j; ++k) s -= l[i*n+k]*l[j*n+k]; l[i*n+j] = s/l[j*n+j]; } }
    { LD t[1600]; for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += m[i*n+k]*l[k*n+j]; t[i*n+j] = s; }
      for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += l[k*n+i]*t[k*n+j]; c[i*n+j] = s; } }
  }
  lq_eig(c, w, n);
  lo = hi = w[0]; for (i = 1; i < n; ++i) { if (w[i] < lo) lo = w[i]; if (w[i] > hi) hi = w[i]; }
  return lo > 0 ? hi/lo : 1e6L;
}

#define T float
#define FN(x) opk_s ## x
#define TAG(x) s_ ## x
#define EPS FLT_EPSILON
#define TINY FLT_MIN
#define TNAME "s"
#include "lcg_t.h"
#define T double
#define FN(x) opk_d ## x
#define TAG(x) d_ ## x
#define EPS DBL_EPSILON
#define TINY DBL_MIN
#define TNAME "d"
#include "lcg_t.h"

void run_case(uint64_t c) {
  int tr = PROP("C23");
  (void)c;
  if (r_bool()) s_run(tr); else d_run(tr);
}
