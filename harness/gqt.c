/* gqt.c -- trust-region step (C18) and smallest singular value (C19). */
#include "common.h"
#include "optimpack.h"
#include "optimpack-linalg.h"
typedef long double LD;
#define PROP(p) (strcmp(h_prop, p) == 0)
#define NMAX 40

/*---------------------------------------------------------------- reference linear algebra */
/* Eigen-decomposition of a symmetric matrix by Jacobi's method. */
static void jacobi(int n, LD* A, LD* V, LD* w) {
  int i, j, k, sweep;
  for (i = 0; i < n*n; ++i) V[i] = 0;
  for (i = 0; i < n; ++i) V[i*n+i] = 1;
  for (sweep = 0; sweep < 60; ++sweep) {
    LD off = 0, tot = 0;
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { tot += A[i*n+j]*A[i*n+j]; if (i != j) off += A[i*n+j]*A[i*n+j]; }
    if (off <= 1e-40L*tot) break;
    for (i = 0; i < n; ++i) for (j = i + 1; j < n; ++j) {
      LD th, t, c, s, a = A[i*n+j];
      if (a == 0) continue;
      th = (A[j*n+j] - A[i*n+i])/(2*a);
      t = (th >= 0 ? 1 : -1)/(fabsl(th) + sqrtl(th*th + 1));
      c = 1/sqrtl(t*t + 1); s = t*c;
      for (k = 0; k < n; ++k) { LD p = A[k*n+i], q = A[k*n+j]; A[k*n+i] = c*p - s*q; A[k*n+j] = s*p + c*q; }
      for (k = 0; k < n; ++k) { LD p = A[i*n+k], q = A[j*n+k]; A[i*n+k] = c*p - s*q; A[j*n+k] = s*p + c*q; }
      for (k = 0; k < n; ++k) { LD p = V[k*n+i], q = V[k*n+j]; V[k*n+i] = c*p - s*q; V[k*n+j] = s*p + c*q; }
    }
  }
  for (i = 0; i < n; ++i) w[i] = A[i*n+i];
}
/* Smallest singular value by one-sided Jacobi. U is destroyed (column k is U[.*n+k]). */
static LD svmin_ref(int n, LD* U) {
  int i, j, k, sweep; LD best = INFINITY;
  for (sweep = 0; sweep < 80; ++sweep) {
    LD mx = 0;
    for (i = 0; i < n; ++i) for (j = i + 1; j < n; ++j) {
      LD a = 0, b = 0, g = 0, th, t, c, s;
      for (k = 0; k < n; ++k) { a += U[k*n+i]*U[k*n+i]; b += U[k*n+j]*U[k*n+j]; g += U[k*n+i]*U[k*n+j]; }
      if (g == 0 || fabsl(g) <= 1e-19L*sqrtl(a*b)) continue;
      mx = 1; th = (b - a)/(2*g);
      t = (th >= 0 ? 1 : -1)/(fabsl(th) + sqrtl(th*th + 1));
      c = 1/sqrtl(t*t + 1); s = t*c;
      for (k = 0; k < n; ++k) { LD p = U[k*n+i], q = U[k*n+j]; U[k*n+i] = c*p - s*q; U[k*n+j] = s*p + c*q; }
    }
    if (mx == 0) break;
  }
  for (i = 0; i < n; ++i) { LD a = 0; for (k = 0; k < n; ++k) a += U[k*n+i]*U[k*n+i]; a = sqrtl(a); if (a < best) best = a; }
  return best;
}
/* Optimal value of the trust region problem, from eigenvalues w and c = V'b. */
static LD optimum(int n, const LD* w, const LD* c, LD delta, int* kind) {
  LD lmin = w[0], lo, hi, nb = 0, scale = 0, f; int i, it;
  for (i = 0; i < n; ++i) { if (w[i] < lmin) lmin = w[i]; nb += c[i]*c[i]; if (fabsl(w[i]) > scale) scale = fabsl(w[i]); }
  nb = sqrtl(nb);
#define NORM2(l, r) do { (r) = 0; for (i = 0; i < n; ++i) { LD d_ = w[i] + (l); if (c[i] != 0) (r) += d_ > 0 ? (c[i]/d_)*(c[i]/d_) : INFINITY; } } while (0)
  lo = lmin > 0 ? 0 : -lmin;
  { LD r; NORM2(lo, r);
    if (r <= delta*delta) { /* interior, or hard case: complete along the eigenvector */
      *kind = lo == 0 ? (lmin > 0 ? 0 : 1) : 2; f = 0;
      for (i = 0; i < n; ++i) if (c[i] != 0) f -= 0.5L*c[i]*c[i]/(w[i] + lo);
      f -= 0.5L*lo*delta*delta;
      return f;
    } }
  *kind = 3;
  hi = nb/delta + fabsl(lmin) + scale; 
  for (it = 0; it < 400; ++it) { LD mid = 0.5L*(lo + hi), r; if (mid == lo || mid == hi) break; NORM2(mid, r); if (r > delta*delta) lo = mid; else hi = mid; }
  /* lower bound on the value: the dual function at lo and hi */
  { LD fa = 0, fb = 0;
    for (i = 0; i < n; ++i) if (c[i] != 0) { fa -= w[i] + lo > 0 ? 0.5L*c[i]*c[i]/(w[i] + lo) : INFINITY; fb -= 0.5L*c[i]*c[i]/(w[i] + hi); }
    fa -= 0.5L*lo*delta*delta; fb -= 0.5L*hi*delta*delta;
    return fa > fb ? fa : fb; }
}
/* Random orthogonal matrix as a product of reflections. */
static void random_orth(int n, LD* Q) {
  int i, j, k; LD v[NMAX];
  for (i = 0; i < n*n; ++i) Q[i] = 0;
  for (i = 0; i < n; ++i) Q[i*n+i] = 1;
  for (k = 0; k < n; ++k) {
    LD s = 0; for (i = 0; i < n; ++i) { v[i] = r_norm(); s += v[i]*v[i]; }
    if (s == 0) continue;
    for (j = 0; j < n; ++j) { LD d = 0; for (i = 0; i < n; ++i) d += v[i]*Q[i*n+j]; d *= 2/s; for (i = 0; i < n; ++i) Q[i*n+j] -= d*v[i]; }
  }
}

/*---------------------------------------------------------------- C18 */
static int iters_hist_max;
static void gqt_case(void) {
  int single = r_bool(), n = (int)(r_p(0.15) ? 1 : r_p(0.02) ? r_int(11, 30) : r_int(1, 10)), lda = n + (int)(r_bool() ? 0 : r_int(1, 5)), i, j, kind, mk, bk, ret, ret2;
  LD w0[NMAX], Q[NMAX*NMAX], AA[NMAX*NMAX], V[NMAX*NMAX], w[NMAX], c[NMAX], As[NMAX*NMAX], fopt, fx, nx, lmin, wmax, tol, bn;
  double eps = single ? FLT_EPSILON : DBL_EPSILON, scale, delta, rtol, atol, par0, par, f, x[NMAX]; opk_index itmax, iter;
  double bb[NMAX]; char txt[300]; size_t es = single ? 4 : 8;
  void *a, *b, *a0, *b0, *xx, *z, *w1, *w2, *x2;
  static const char* mname[] = { "definite", "indefinite", "singular", "negative", "diagonal", "zero", "clustered", "random", "ill" };
  static const char* bname[] = { "random", "zero", "hard", "near-hard", "eigenvector", "small" };
  mk = (int)r_int(0, 8); bk = (int)r_int(0, 5);
  scale = r_p(0.5) ? 1 : single ? r_logu(1e-5, 1e5) : r_logu(1e-40, 1e40);
  for (i = 0; i < n; ++i) {
    switch (mk) {
    case 0: w0[i] = r_logu(0.1, 10); break;
    case 1: w0[i] = r_norm(); break;
    case 2: w0[i] = i == 0 || r_p(0.3) ? 0 : r_logu(0.1, 10); break;
    case 3: w0[i] = -r_logu(0.1, 10); break;
    case 4: w0[i] = r_int(-3, 3); break;
    case 5: w0[i] = 0; break;
    case 6: w0[i] = r_int(0, 1) ? 2 : -1; break;
    case 7: w0[i] = r_norm()*r_logu(0.1, 10); break;
    default: w0[i] = r_logu(1e-5, 1)*(r_p(0.2) ? -1 : 1); break;
    }
  }
  random_orth(n, Q);
  if (mk == 4) { for (i = 0; i < n*n; ++i) Q[i] = 0; for (i = 0; i < n; ++i) Q[i*n+i] = 1; }
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; int k; for (k = 0; k < n; ++k) s += Q[i*n+k]*w0[k]*Q[j*n+k]; AA[i*n+j] = s*scale; }
  { int im = 0; LD g[NMAX]; double bs = scale*(r_p(0.5) ? 1 : r_logu(1e-3, 1e3));
    for (i = 1; i < n; ++i) if (w0[i] < w0[im]) im = i;
    for (i = 0; i < n; ++i) g[i] = r_norm();
    if (bk == 1) for (i = 0; i < n; ++i) g[i] = 0;
    if (bk == 2) for (i = 0; i < n; ++i) if (w0[i] == w0[im]) g[i] = 0;
    if (bk == 3) for (i = 0; i < n; ++i) if (w0[i] == w0[im]) g[i] *= r_logu(eps, 1e-3);
    if (bk == 4) for (i = 0; i < n; ++i) if (i != im) g[i] = 0;
    if (bk == 5) for (i = 0; i < n; ++i) g[i] *= 1e-6;
    for (i = 0; i < n; ++i) { LD s = 0; int k; for (k = 0; k < n; ++k) s += Q[i*n+k]*g[k]; bb[i] = (double)(s*bs); }
  }
  delta = r_p(0.3) ? 1 : r_logu(1e-3, 1e3);
  rtol = r_p(0.3) ? 0.1 : r_logu(single ? 1e-4 : 1e-9, 0.5); atol = r_p(0.5) ? 0 : r_logu(1e-8, 1)*scale*delta*delta*0.1;
  itmax = r_p(0.6) ? 100 : r_int(1, 10);
  par0 = r_p(0.4) ? 0 : r_p(0.1) ? -1*scale : scale*r_logu(1e-3, 1e3);
  a = ar(es*lda*n); b = ar(es*n); a0 = ar(es*lda*n); b0 = ar(es*n); xx = ar(es*n); z = ar(es*n); w1 = ar(es*n); w2 = ar(es*n); x2 = ar(es*n);
#define SET(p, i, v) do { if (single) ((float*)(p))[i] = (float)(v); else ((double*)(p))[i] = (double)(v); } while (0)
#define GET(p, i) (single ? (double)((float*)(p))[i] : ((double*)(p))[i])
  { int garbage = (int)r_int(0, 2);
    for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) /* a(i,j) = a[i + lda*j] */
      SET(a, i + lda*j, i >= n ? 1e3 + i : i <= j ? AA[i*n+j] : garbage == 0 ? 12345.0*scale : garbage == 1 ? NAN : AA[i*n+j]);
    for (i = 0; i < n; ++i) { SET(b, i, bb[i]); SET(xx, i, garbage ? NAN : 1); SET(z, i, garbage ? NAN : 2); SET(w1, i, garbage ? NAN : 3); SET(w2, i, garbage ? NAN : 3); }
  }
  memcpy(a0, a, es*lda*n); memcpy(b0, b, es*n);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) As[i*n+j] = i <= j ? GET(a, i + lda*j) : GET(a, j + lda*i);
  if (single) { delta = (float)delta; rtol = (float)rtol; atol = (float)atol; par0 = (float)par0; }
  snprintf(txt, sizeof(txt), "%s n=%d lda=%d matrix %s b %s scale=%g delta=%g rtol=%g atol=%g itmax=%ld par0=%g", single ? "float" : "double", n, lda,
           mname[mk], bname[bk], scale, delta, rtol, atol, (long)itmax, par0);
  iter = -1;
#define CALL(A_, X_, PP, FP, IP) (single ? opk_sgqt(n, (float*)(A_), lda, (float*)b, (float)delta, (float)rtol, (float)atol, itmax, (float*)(PP), (float*)(FP), (float*)(X_), IP, (float*)z, (float*)w1, (float*)w2) \
    : opk_dgqt(n, (double*)(A_), lda, (double*)b, delta, rtol, atol, itmax, (double*)(PP), (double*)(FP), (double*)(X_), IP, (double*)z, (double*)w1, (double*)w2))
  { float pf = (float)par0, ff = NAN; double pd = par0, fd = NAN;
    ret = CALL(a, xx, single ? (void*)&pf : (void*)&pd, single ? (void*)&ff : (void*)&fd, &iter);
    par = single ? pf : pd; f = single ? ff : fd; }
  hash_bytes(a0, es*lda*n); hash_bytes(b0, es*n); hash_d(delta); hash_d(rtol); hash_d(par0); hash_l(itmax); nontrivial();
  obsf("status-%d", ret); obsf("matrix-%s", mname[mk]); obsf("b-%s", bname[bk]); obs(single ? "single" : "double"); if (n == 1) obs("n-1");
  if (ret < 1 || ret > 4) { viol("status", "status %d: %s", ret, txt); return; }
  if (iter < 1 || iter > itmax) viol("iterations", "%ld iterations: %s", (long)iter, txt);
  if (ret == 4 && iter != itmax) viol("iterations", "status 4 after %ld iterations: %s", (long)iter, txt);
  if (memcmp(b, b0, es*n)) viol("b-changed", "b is modified: %s", txt);
  for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) {
    double v = GET(a, i + lda*j), e = i >= n ? GET(a0, i + lda*j) : (double)As[i*n+j];
    if (!(v == e)) { viol(i >= n ? "padding" : "matrix", "a(%d,%d)=%.17g on return instead of %.17g: %s", i + 1, j + 1, v, e, txt); i = lda; j = n; }
  }
  /* Reference: */
  for (i = 0; i < n*n; ++i) AA[i] = As[i];
  jacobi(n, AA, V, w);
  bn = 0;
  for (i = 0; i < n; ++i) { c[i] = 0; for (j = 0; j < n; ++j) c[i] += V[j*n+i]*GET(b, j); bn += c[i]*c[i]; }
  bn = sqrtl(bn);
  lmin = w[0]; wmax = 0; for (i = 0; i < n; ++i) { if (w[i] < lmin) lmin = w[i]; if (fabsl(w[i]) > wmax) wmax = fabsl(w[i]); }
  fopt = optimum(n, w, c, delta, &kind);
  obsf("solution-kind-%d", kind);
  fx = 0; nx = 0;
  for (i = 0; i < n; ++i) { x[i] = GET(xx, i); if (!isfinite(x[i])) { viol("not-finite", "x[%d]=%g, status %d: %s", i, x[i], ret, txt); return; } }
  for (i = 0; i < n; ++i) { LD s = 0; for (j = 0; j < n; ++j) s += As[i*n+j]*x[j]; fx += x[i]*(0.5L*s + GET(b, i)); nx += (LD)x[i]*x[i]; }
  nx = sqrtl(nx);
  tol = 60*n*eps*((wmax + fabs(par))*(nx > delta ? nx*nx : (LD)delta*delta) + bn*nx) + 1e-300L;
  sample("%s -> status %d, %ld iterations, par=%g f=%g |x|=%g (optimum %g)", txt, ret, (long)iter, par, f, (double)nx, (double)fopt);
  if (!(fabsl(f - fx) <= tol)) viol("value", "f=%.17g but f(x)=%.17Lg (status %d): %s", f, fx, ret, txt);
  if (!(par >= 0)) viol("multiplier", "par=%g: %s", par, txt);
  if (nx > 0 && !(par + lmin >= -60*n*eps*(wmax + par))) viol("multiplier", "par=%g while the smallest eigenvalue is %Lg: %s", par, lmin, txt);
  if (ret <= 2) {
    if (!(nx <= delta*(1 + rtol)*(1 + 20*n*eps))) viol("norm", "|x|=%.17Lg (status %d): %s", nx, ret, txt);
  }
  if (ret == 1) {
    LD lim = (1 - (LD)rtol)*(1 - (LD)rtol)*fopt;
    obs("accuracy-checks");
    if (bn == 0) obs("accuracy-checks-null-b");
    /* With b = 0 the accuracy promised is not reached (known finding): report it once only. */
    static int told = 0;
    if (bn == 0 && fopt < 0 && -fopt > 10*tol) obs_max("null-b-ratio", (double)(fopt/fx));
    if (!(fx <= lim + tol) && !(bn == 0 && told++)) viol(bn == 0 ? "accuracy-null-b" : "accuracy", "status 1 with f(x)=%.17Lg while optimum is %.17Lg (|x|=%Lg, par=%g): %s", fx, fopt, nx, par, txt);
  } else if (ret == 2) {
    obs("absolute-checks");
    if (!(-fx <= atol + tol && -fopt <= atol + tol)) viol("absolute", "status 2 with f(x)=%.17Lg, optimum %.17Lg, atol=%g: %s", fx, fopt, atol, txt);
  } else {
    /* A failure is only acceptable in a few iterations, near the limits of the precision
       or near the hard case. */
    LD cm = 0; for (i = 0; i < n; ++i) if (w[i] - lmin <= 0.01L*wmax) cm += c[i]*c[i];
    if (ret == 3) obs("rounding");
    if (itmax >= 100 && rtol >= 1e3*eps*n && fabsl(lmin) >= 0.01L*wmax && bn > 0 && (kind == 0 || (kind == 3 && cm >= 1e-4L*bn*bn && sqrtl(cm)/delta >= wmax*(rtol + 1e3*n*eps/rtol))))
      viol("no-convergence", "status %d after %ld iterations: %s", ret, (long)iter, txt);
  }
  if (ret <= 2 && itmax >= 100) obs("converged");
  obs_max("iterations", iter);
  if (ret <= 2) {
    /* The point is in accordance with the multiplier: (A + par I)x + b = 0, or the step was
       completed up to the boundary along a direction of small curvature. */
    LD rs = 0; for (i = 0; i < n; ++i) { LD s = GET(b, i) + par*(LD)x[i]; for (j = 0; j < n; ++j) s += As[i*n+j]*x[j]; rs += s*s; }
    rs = sqrtl(rs);
    if (rs > 100*n*eps*((wmax + par)*nx + bn)) {
      obs("completed-steps");
      if (!(fabsl(nx - delta) <= 1e3*n*eps*delta)) viol("stationarity", "|(A+par.I)x+b|=%Lg with |x|=%.17Lg inside (status %d, par=%g): %s", rs, nx, ret, par, txt);
    }
  }
  /* Outputs are optional and the answer is reproducible. */
  if (r_p(0.3)) {
    void* an = ar(es*lda*n); memcpy(an, a0, es*lda*n);
    if (par0 == 0) {
      ret2 = CALL(an, x2, NULL, NULL, NULL); obs("null-outputs");
      if (ret2 != ret || memcmp(x2, xx, es*n)) viol("null-outputs", "without optional outputs: status %d/%d or x differ: %s", ret2, ret, txt);
    }
  }
}

/*---------------------------------------------------------------- C19 */
static int nest, npoor;
static void estsv_case(void) {
  int single = r_bool(), n = (int)(r_p(0.1) ? 1 : r_p(0.02) ? r_int(13, 30) : r_int(1, 12)), ld = n + (int)(r_bool() ? 0 : r_int(1, 5)), i, j, kind = (int)r_int(0, 6), zeros = 0, alln = 0;
  size_t es = single ? 4 : 8; double eps = single ? FLT_EPSILON : DBL_EPSILON, scale, sv; void *r, *r0, *z;
  LD U[NMAX*NMAX], ref, rz = 0, zn = 0, rn = 0; char txt[200];
  static const char* kn[] = { "uniform", "graded", "near-singular", "zero-diagonal", "diagonal", "kahan", "cholesky" };
  scale = r_p(0.5) ? 1 : single ? r_logu(1e-8, 1e8) : r_logu(1e-60, 1e60);
  r = ar(es*ld*n); r0 = ar(es*ld*n); z = ar(es*n);
  { LD S[NMAX*NMAX]; double th = r_range(0.3, 1.5), nanlow = r_bool();
    for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) {
      LD v = r_norm();
      if (kind == 1) v *= pow(single ? 0.4 : 0.2, i);
      if (kind == 2 && i == j && r_p(0.4)) v *= r_logu(single ? 1e-4 : 1e-10, 1);
      if (kind == 3 && i == j && r_p(0.3)) { v = 0; }
      if (kind == 4 && i != j) v = 0;
      if (kind == 5) v = (i == j ? 1 : -cos(th))*pow(sin(th), i);
      S[i*n+j] = v;
    }
    if (kind == 6) { LD M[NMAX*NMAX], Q[NMAX*NMAX], wv[NMAX]; int k; random_orth(n, Q);
      for (i = 0; i < n; ++i) wv[i] = r_logu(single ? 1e-3 : 1e-8, 1);
      for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += Q[i*n+k]*wv[k]*Q[j*n+k]; M[i*n+j] = s; }
      for (j = 0; j < n; ++j) for (i = 0; i <= j; ++i) { LD s = M[i*n+j]; for (k = 0; k < i; ++k) s -= S[k*n+i]*S[k*n+j]; S[i*n+j] = i == j ? sqrtl(s > 0 ? s : 1e-30L) : s/S[i*n+i]; } }
    for (j = 0; j < n; ++j) for (i = 0; i < ld; ++i) {
      SET(r, i + ld*j, i <= j ? S[i*n+j]*scale : i < n ? (nanlow ? NAN : 7) : 1e3);
      if (i <= j) { LD v = GET(r, i + ld*j); U[i*n+j] = v; rn += v*v; if (i == j && v == 0) ++zeros; }
      else if (i < n) U[i*n+j] = 0;
    }
    for (i = 0; i < n; ++i) SET(z, i, nanlow ? NAN : 5); }
  rn = sqrtl(rn); (void)alln;
  memcpy(r0, r, es*ld*n);
  sv = single ? opk_sestsv(n, (float*)r, ld, (float*)z) : opk_destsv(n, (double*)r, ld, (double*)z);
  snprintf(txt, sizeof(txt), "%s n=%d ldr=%d %s scale=%g -> %.9g", single ? "float" : "double", n, ld, kn[kind], scale, sv);
  hash_bytes(r0, es*ld*n); nontrivial(); obsf("kind-%s", kn[kind]); if (zeros) obs("zero-on-diagonal"); if (n == 1) obs("n-1"); obs(single ? "single" : "double");
  if (memcmp(r, r0, es*ld*n)) viol("matrix-changed", "%s", txt);
  if (!isfinite(sv) || sv < 0) { viol("estimate", "%s", txt); return; }
  for (i = 0; i < n; ++i) { LD s = 0; double zi = GET(z, i); if (!isfinite(zi)) { viol("vector", "z[%d]=%g: %s", i, zi, txt); return; }
    for (j = i; j < n; ++j) s += U[i*n+j]*GET(z, j); rz += s*s; zn += (LD)zi*zi; }
  rz = sqrtl(rz); zn = sqrtl(zn);
  if (!(fabsl(zn - 1) <= 4*n*eps)) viol("unit-vector", "|z|=%.17Lg: %s", zn, txt);
  if (!(fabsl(rz - sv) <= 8*n*eps*rn)) viol("attained", "|R.z|=%.17Lg: %s", rz, txt);
  if (zeros) { if (sv != 0) viol("singular", "zero on the diagonal but estimate %g: %s", sv, txt); return; }
  ref = svmin_ref(n, U);
  if (!(sv >= ref*(1 - 1e-9) - 8*n*eps*rn)) viol("underestimate", "smallest singular value %.17Lg: %s", ref, txt);
  if (ref > 1e3*n*eps*rn) {
    obs("factor-checks"); obs_max("overestimation-factor", (double)(sv/ref)); obsf("factor-below-%d", sv/ref < 1.5 ? 1 : sv/ref < 3 ? 3 : sv/ref < 6 ? 6 : sv/ref < 10 ? 10 : 100);
 ++nest; if (!(sv <= 3*ref)) ++npoor;
    if (!(sv <= 100*ref)) viol("overestimate", "smallest singular value %.17Lg: %s", ref, txt);
  }
  sample("%s, smallest singular value %.9Lg", txt, ref);
}
void run_case(uint64_t c) { (void)c; if (PROP("C19")) {
    int k; nest = npoor = 0;
    for (k = 0; k < 20; ++k) { estsv_case(); ar_release(); }
    obs("batches");
    if (npoor >= 4) viol("poor-estimates", "%d estimates out of %d are larger than 3 times the smallest singular value", npoor, nest);
  } else gqt_case(); }
