/* huge_t.h -- template of the precision T for huge.c. */

/* Level 1 kernels and matrix kernels on arrays whose elements are more than
   2^31 elements apart: the result must be the one of the same elements stored
   close together.  Everything is an exactly representable integer, hence the
   order of the operations does not matter. */
#undef MX
#define MX 10
static T TAG(ri)(long k) { return (T)r_int(-k, k); }
static void TAG(level1)(void) {
  static const char* nm[] = { "amax", "asum", "axpy", "copy", "dot", "nrm2", "scal", "swap", "sum", "zero", "iamax" };
  int op = (int)r_int(0, 10), sgn = r_bool(), two = op == 2 || op == 3 || op == 4 || op == 7; long n = r_int(2, MX), k, incx = r_int(1L << 28, 1L << 31), incy = r_p(0.3) ? 1 : r_int(1L << 27, 1L << 31);
  T *x, *y, xs[MX], ys[MX], a = TAG(ri)(3), r1 = 0, r2 = 0; long i1 = 0, i2 = 0; size_t bx, by; char txt[160];
  if (r_p(0.2)) incx = (1L << 31)/(n - 1) + 1; /* the last element just after the limit of 32-bit integers */
  if (r_p(0.2)) incy = incx; else if (r_p(0.2)) { incx = 1; if (incy == 1) incy = (1L << 31)/(n - 1) + 1; }
  if (two && sgn) incx = -incx; if (two && r_p(0.3)) incy = -incy;
  bx = sparse_bytes((size_t)(labs(incx)*(n - 1) + 1)*sizeof(T)); by = sparse_bytes((size_t)(labs(incy)*(n - 1) + 1)*sizeof(T));
  x = (T*)sparse(bx); y = (T*)sparse(by); if (x == NULL || y == NULL) { if (x) munmap(x, bx); if (y) munmap(y, by); obs("no-address-space"); return; }
#define PX(k) x[IX(k, n, incx)]
#define PY(k) y[IX(k, n, incy)]
  for (k = 0; k < n; ++k) { xs[k] = PX(k) = TAG(ri)(9); ys[k] = PY(k) = TAG(ri)(9); }
  if (op == 10) { long at = r_int(0, n - 1); xs[at] = PX(at) = 12; }
  snprintf(txt, sizeof(txt), "huge strides: %s%s n=%ld incx=%ld incy=%ld", TNAME, nm[op], n, incx, incy); sample("%s", txt); hash_bytes(nm[op], 4); hash_l(n); hash_l(incx); hash_l(incy); hash_bytes(xs, n*sizeof(T)); nontrivial();
  obsf("stride-%s", nm[op]);
  switch (op) {
  case 0: r1 = FN(amax)(n, x, incx); r2 = FN(amax)(n, xs, 1); break;
  case 1: r1 = FN(asum)(n, x, incx); r2 = FN(asum)(n, xs, 1); break;
  case 2: FN(axpy)(n, a, x, incx, y, incy); FN(axpy)(n, a, xs, 1, ys, 1); break;
  case 3: FN(copy)(n, x, incx, y, incy); FN(copy)(n, xs, 1, ys, 1); break;
  case 4: r1 = FN(dot)(n, x, incx, y, incy); r2 = FN(dot)(n, xs, 1, ys, 1); break;
  case 5: r1 = FN(nrm2)(n, x, incx); r2 = FN(nrm2)(n, xs, 1); if (fabs((double)r1 - (double)r2) <= 16*EPS*fabs((double)r2)) r1 = r2; break;
  case 6: FN(scal)(n, a, x, incx); FN(scal)(n, a, xs, 1); break;
  case 7: FN(swap)(n, x, incx, y, incy); FN(swap)(n, xs, 1, ys, 1); break;
  case 8: r1 = FN(sum)(n, x, incx); r2 = FN(sum)(n, xs, 1); break;
  case 9: FN(zero)(n, x, incx); FN(zero)(n, xs, 1); break;
  default: i1 = FN(iamax)(n, x, incx); i2 = FN(iamax)(n, xs, 1);
  }
  if (r1 != r2) viol("huge-stride-value", "%s: %g instead of %g", txt, (double)r1, (double)r2);
  if (i1 != i2) viol("huge-stride-index", "%s: %ld instead of %ld", txt, i1, i2);
  for (k = 0; k < n; ++k) { if (PX(k) != xs[k]) { viol("huge-stride-x", "%s: x[%ld]=%g instead of %g", txt, k, (double)PX(k), (double)xs[k]); break; } if (PY(k) != ys[k]) { viol("huge-stride-y", "%s: y[%ld]=%g instead of %g", txt, k, (double)PY(k), (double)ys[k]); break; } }
  munmap(x, bx); munmap(y, by);
#undef PX
#undef PY
}

/* A matrix of R rows and C columns with a leading dimension L in sparse memory and with leading dimension R in S. */
typedef struct { T* p; long r, c, ld; size_t bytes; T s[MX*MX]; } TAG(mat);
static int TAG(mk)(TAG(mat)* m, long r, long c) {
  long i, j; m->r = r; m->c = c; m->ld = r_p(0.2) ? r : r_int(1L << 28, 1L << 31); m->bytes = sparse_bytes((size_t)(m->ld*(c - 1) + r)*sizeof(T)); m->p = (T*)sparse(m->bytes); if (m->p == NULL) return 0;
  for (j = 0; j < c; ++j) for (i = 0; i < r; ++i) m->s[i + j*r] = m->p[i + j*m->ld] = TAG(ri)(4);
  return 1;
}
static void TAG(put)(TAG(mat)* m, long i, long j, T v) { m->s[i + j*m->r] = m->p[i + j*m->ld] = v; }
static int TAG(same)(const TAG(mat)* m, const char* name, const char* txt) {
  long i, j; for (j = 0; j < m->c; ++j) for (i = 0; i < m->r; ++i) if (m->s[i + j*m->r] != m->p[i + j*m->ld] && !(m->s[i + j*m->r] != m->s[i + j*m->r])) {
    viol("huge-matrix", "%s: %s(%ld,%ld)=%g instead of %g", txt, name, i, j, (double)m->p[i + j*m->ld], (double)m->s[i + j*m->r]); return 0; }
  return 1;
}
static void TAG(level23)(void) {
  static const char* nm[] = { "gemv", "trmv", "trsv", "gemm", "syrk", "potf2" };
  int op = (int)r_int(0, 5), s1 = 0, s2 = 0, ta = r_bool(), tb = r_bool(), up = r_bool(), dg = r_bool(); long m = r_int(1, MX - 2), n = r_int(1, MX - 2), k = r_int(1, MX - 2), i, j, l;
  opk_blas_trans TA = ta ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS, TB = tb ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS; opk_blas_uplo U = up ? OPK_BLAS_UPPER : OPK_BLAS_LOWER; opk_blas_diag D = dg ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT; T al = TAG(ri)(3), be = TAG(ri)(2); char txt[160];
  TAG(mat) A, B, C; memset(&A, 0, sizeof(A)); memset(&B, 0, sizeof(B)); memset(&C, 0, sizeof(C)); A.p = B.p = C.p = NULL;
  snprintf(txt, sizeof(txt), "huge leading dimension: %s%s m=%ld n=%ld k=%ld ta=%d tb=%d up=%d", TNAME, nm[op], m, n, k, ta, tb, up); sample("%s", txt); hash_bytes(nm[op], 5); hash_l(m*1000 + n*100 + k*10 + ta + 2*tb + 4*up + 8*dg); hash_d(al); hash_d(be); nontrivial(); obsf("leading-%s", nm[op]);
  switch (op) {
  case 0: { /* vectors are 1 row matrices: the leading dimension is their stride */
    if (! TAG(mk)(&A, m, n) || ! TAG(mk)(&B, 1, ta ? m : n) || ! TAG(mk)(&C, 1, ta ? n : m)) goto none;
    s1 = FN(gemv)(TA, m, n, al, A.p, A.ld, B.p, B.ld, be, C.p, C.ld); s2 = FN(gemv)(TA, m, n, al, A.s, A.r, B.s, 1, be, C.s, 1); break; }
  case 1: case 2:
    if (! TAG(mk)(&A, n, n) || ! TAG(mk)(&B, 1, n)) goto none;
    for (i = 0; i < n; ++i) { TAG(put)(&A, i, i, (T)(r_bool() ? 1 : r_bool() ? -1 : 2)); if (op == 2) { for (j = 0; j < n; ++j) if (j != i) TAG(put)(&A, i, j, TAG(ri)(1)); TAG(put)(&B, 0, i, (T)(1024*r_int(-2, 2))); } }
    if (op == 1) { s1 = FN(trmv)(U, TA, D, n, A.p, A.ld, B.p, B.ld); s2 = FN(trmv)(U, TA, D, n, A.s, A.r, B.s, 1); }
    else { s1 = FN(trsv)(U, TA, D, n, A.p, A.ld, B.p, B.ld); s2 = FN(trsv)(U, TA, D, n, A.s, A.r, B.s, 1); }
    break;
  case 3:
    if (! (ta ? TAG(mk)(&A, k, m) : TAG(mk)(&A, m, k)) || ! (tb ? TAG(mk)(&B, n, k) : TAG(mk)(&B, k, n)) || ! TAG(mk)(&C, m, n)) goto none;
    s1 = FN(gemm)(TA, TB, m, n, k, al, A.p, A.ld, B.p, B.ld, be, C.p, C.ld); s2 = FN(gemm)(TA, TB, m, n, k, al, A.s, A.r, B.s, B.r, be, C.s, C.r); break;
  case 4:
    if (! (ta ? TAG(mk)(&A, k, n) : TAG(mk)(&A, n, k)) || ! TAG(mk)(&C, n, n)) goto none;
    s1 = FN(syrk)(U, TA, n, k, al, A.p, A.ld, be, C.p, C.ld); s2 = FN(syrk)(U, TA, n, k, al, A.s, A.r, be, C.s, C.r); break;
  default: { double L[MX][MX]; /* A = L.L' for a small integer matrix L of unit diagonal: exact */
    if (! TAG(mk)(&A, n, n)) goto none;
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) L[i][j] = j == i ? 1 << r_int(0, 1) : j < i ? (double)(2*r_int(-1, 1)) : 0;
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { double s = 0; for (l = 0; l < n; ++l) s += L[i][l]*L[j][l]; TAG(put)(&A, i, j, (T)s); }
    if (r_p(0.2)) { i = r_int(0, n - 1); TAG(put)(&A, i, i, (T)-1); }
    s1 = (int)FN(potf2)(U, n, A.p, A.ld); s2 = (int)FN(potf2)(U, n, A.s, A.r); }
  }
  if (s1 != s2) viol("huge-matrix-status", "%s: returned %d instead of %d", txt, s1, s2);
  else if (TAG(same)(&A, "A", txt) && (B.p == NULL || TAG(same)(&B, "B", txt)) && C.p != NULL) TAG(same)(&C, "C", txt);
  obs("huge-matrices");
  goto done;
none: obs("no-address-space");
done:
  if (A.p) munmap(A.p, A.bytes); if (B.p) munmap(B.p, B.bytes); if (C.p) munmap(C.p, C.bytes);
}

/* Trust-region step and smallest singular value with a huge leading dimension. */
static void TAG(trust)(int which) {
  long n = r_int(1, MX - 2), i, j; TAG(mat) A; T b[MX], x1[MX], x2[MX], z[MX], w1[MX], w2[MX]; char txt[120]; double d = r_logu(0.01, 10);
  memset(&A, 0, sizeof(A)); A.p = NULL; if (! TAG(mk)(&A, n, n)) { obs("no-address-space"); return; }
  for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) { T v = (T)r_norm(); if (i == j) v += (T)(r_bool() ? 3 : 0); TAG(put)(&A, j, i, v); if (which == 18) TAG(put)(&A, i, j, v); } 
  for (i = 0; i < n; ++i) { b[i] = (T)r_norm(); x1[i] = x2[i] = 0; }
  snprintf(txt, sizeof(txt), "huge leading dimension: %s%s n=%ld ld=%ld delta=%g", TNAME, which == 18 ? "gqt" : "estsv", n, A.ld, d); sample("%s", txt); hash_bytes(A.s, n*n*sizeof(T)); hash_l(A.ld); nontrivial(); obs("huge-leading-dimension");
  if (which == 18) { T par1 = 0, par2 = 0, f1 = 0, f2 = 0; opk_index it1 = 0, it2 = 0; int s1, s2; double m = 0, e = 0;
    s1 = (int)FN(gqt)(n, A.p, A.ld, b, (T)d, (T)0.1, (T)0, 60, &par1, &f1, x1, &it1, z, w1, w2);
    s2 = (int)FN(gqt)(n, A.s, n, b, (T)d, (T)0.1, (T)0, 60, &par2, &f2, x2, &it2, z, w1, w2);
    for (i = 0; i < n; ++i) { m += fabs((double)x2[i]); e += fabs((double)x1[i] - (double)x2[i]); }
    if (s1 != s2 || fabs((double)f1 - (double)f2) > 1e3*EPS*fabs((double)f2) || e > 1e4*EPS*m) viol("huge-trust", "%s: status %d and f=%g instead of %d and %g (solutions differ by %g out of %g)", txt, s1, (double)f1, s2, (double)f2, e, m);
  } else { T z2[MX]; double v1 = (double)FN(estsv)(n, A.p, A.ld, z), v2 = (double)FN(estsv)(n, A.s, n, z2);
    if (fabs(v1 - v2) > 1e3*EPS*fabs(v2)) viol("huge-estsv", "%s: %g instead of %g", txt, v1, v2);
    for (i = 0; i < n; ++i) if (fabs((double)z[i] - (double)z2[i]) > 1e4*EPS) { viol("huge-estsv-z", "%s: z[%ld]=%g instead of %g", txt, i, (double)z[i], (double)z2[i]); break; } }
  munmap(A.p, A.bytes);
}

/* Vectors of more than 2^31 elements: every period of P elements shares the same memory,
   except the elements of the last page, from n0, which are alone: slots P and following. */
#define LASTN (4096/(long)sizeof(T))
typedef struct { T* p; size_t bytes; T old[ALIAS/sizeof(T) + 4096/sizeof(T)]; long n0, n; opk_vector* v; } TAG(vec);
#define AT(v, i) (*((i) < P ? (v)->p + (i) : (v)->p + (v)->n0 + ((i) - P)))
#define P ((long)(ALIAS/sizeof(T)))
static int TAG(vmk)(TAG(vec)* v, opk_vspace* space, long n) {
  v->bytes = alias_bytes((size_t)n*sizeof(T)); v->n = n; v->n0 = (n - 1)/LASTN*LASTN; v->p = (T*)alias_map(v->bytes); if (v->p == NULL) return 0;
  if (mmap(v->p + v->n0, 4096, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0) == MAP_FAILED) { munmap(v->p, v->bytes); v->p = NULL; return 0; }
  v->v = WRAPV(space, v->p, NULL, NULL); return v->v != NULL;
}
static void TAG(vfree)(TAG(vec)* v) { OPK_DROP(v->v); if (v->p != NULL) munmap(v->p, v->bytes); free(v); }
static long TAG(vget)(const TAG(vec)* v, T* dst) { long Q = v->n - v->n0; memcpy(dst, v->p, P*sizeof(T)); memcpy(dst + P, v->p + v->n0, Q*sizeof(T)); return (P + Q)*sizeof(T); }
/* Values: a few non-zero elements (sums remain exact), or random integers everywhere. */
static void TAG(vset)(TAG(vec)* v, int sparse_, const long* at) {
  long i, PQ = P + v->n - v->n0; for (i = 0; i < PQ; ++i) AT(v, i) = sparse_ ? 0 : TAG(ri)(5);
  if (sparse_) for (i = 0; i < 3; ++i) { do AT(v, at[i]) = TAG(ri)(3); while (AT(v, at[i]) == 0); }
  TAG(vget)(v, v->old);
}
static void TAG(huge)(int what) {
  static const char* nm[] = { "zero", "fill", "copy", "swap", "scale", "product", "dot", "dot3", "norm2", "norm1", "norminf", "axpby", "axpbypcz", "peek", "poke", "import", "export", "project-variables", "project-direction", "free-variables", "step-limits" };
  int op = what == 1 ? (int)((h_case/2)%17) : what == 5 ? 17 : what == 6 ? 18 + (int)((h_case/2)%2) : 20, big = r_p(sizeof(T) == 4 ? (what == 1 ? 0.7 : 0.2) : 0.1), red, sparse_, k, orient = r_bool() ? 1 : -1, useL = r_p(0.7), useU = r_p(0.7), vecs = r_bool();
  long tail = r_int(1, 1500), n = (big ? 1L << 32 : 1L << 31) + tail, i, at[3], n0 = (n - 1)/LASTN*LASTN, Q = n - n0, PQ = P + Q, R = n0/P, tl = n0%P; opk_vspace* space; TAG(vec)* v[4]; char txt[160]; double a = (double)r_int(-3, 3), b = (double)r_int(-3, 3), g = (double)r_int(1, 3), want = 0, got = 0; int scalar = 0; T *e, e0 = 0; opk_convexset* set = NULL; opk_status st = OPK_SUCCESS; double lo = -2, hi = 3;
  if (what == 1) orient = 1;
#define CNT(i) ((double)((i) < P ? R + ((i) < tl) : 1))
  space = NEWSPACE(n); if (space == NULL) { viol("huge-space", "no vector space of %ld elements (errno=%d)", n, errno); return; }
  for (k = 0; k < 4; ++k) v[k] = (TAG(vec)*)calloc(1, sizeof(TAG(vec)));
  for (k = 0; k < 4; ++k) if (v[k] == NULL || ! TAG(vmk)(v[k], space, n)) { obs("no-address-space"); goto done; }
  for (i = 0; i < 3; ++i) at[i] = r_int(4000, P - 1);
  if (r_bool()) at[2] = P + r_int(0, Q - 1);
  red = op >= 6 && op <= 10; sparse_ = red;
  for (k = 0; k < 4; ++k) TAG(vset)(v[k], sparse_, at);
  snprintf(txt, sizeof(txt), "huge vectors: %s%s n=%ld", TNAME, nm[op], n); sample("%s", txt); hash_bytes(txt, strlen(txt)); hash_d(a); hash_d(b); nontrivial(); obsf("huge-%s", nm[op]); obs_max("longest-huge-vector", (double)n);
  e = (T*)malloc(PQ*sizeof(T));
  memcpy(e, v[0]->old, PQ*sizeof(T));
  if (what != 1) { if (! vecs) lo = (double)r_int(-4, 0), hi = (double)r_int(0, 4); for (i = 0; i < PQ; ++i) { if (vecs) { T t; AT(v[2], i) = -(T)r_int(0, 5); AT(v[3], i) = (T)r_int(0, 5); if (r_p(0.05)) { t = AT(v[3], i); AT(v[2], i) = t; } } 
#define LOW(i) (! useL ? -HUGE_VAL : vecs ? (double)AT(v[2], i) : lo)
#define UPP(i) (! useU ? HUGE_VAL : vecs ? (double)AT(v[3], i) : hi)
      if (op != 17) { T t = AT(v[1], i); if (t < LOW(i)) t = (T)LOW(i); if (t > UPP(i)) t = (T)UPP(i); AT(v[1], i) = t; } }
    for (k = 1; k < 4; ++k) TAG(vget)(v[k], v[k]->old);
    float fl = (float)lo, fu = (float)hi;
    int as = r_bool();
    set = opk_new_boxset(space, ! useL ? OPK_BOUND_NONE : vecs ? OPK_BOUND_VECTOR : as ? OPK_BOUND_SCALAR_FLOAT : OPK_BOUND_SCALAR_DOUBLE, ! useL ? NULL : vecs ? (void*)v[2]->v : as ? (void*)&fl : (void*)&lo,
                         ! useU ? OPK_BOUND_NONE : vecs ? OPK_BOUND_VECTOR : as ? OPK_BOUND_SCALAR_FLOAT : OPK_BOUND_SCALAR_DOUBLE, ! useU ? NULL : vecs ? (void*)v[3]->v : as ? (void*)&fu : (void*)&hi);
    if (set == NULL) { viol("huge-box", "%s: no box", txt); free(e); goto done; } }
#define FLIP(i) ((i) < P ? ((R + ((i) < tl)) & 1) != 0 : 1)
#define SLOT(j) ((j) < n0 ? (j)%P : P + (j) - n0)
  switch (op) {
  case 0: opk_vzero(v[0]->v); for (i = 0; i < PQ; ++i) e[i] = 0; break;
  case 1: opk_vfill(v[0]->v, a); for (i = 0; i < PQ; ++i) e[i] = (T)a; break;
  case 2: opk_vcopy(v[0]->v, v[1]->v); memcpy(e, v[1]->old, PQ*sizeof(T)); break;
  case 3: opk_vswap(v[0]->v, v[1]->v); for (i = 0; i < PQ; ++i) if (FLIP(i)) { T t = e[i]; e[i] = v[1]->old[i]; v[1]->old[i] = t; } break;
  case 4: opk_vscale(v[0]->v, a, v[1]->v); for (i = 0; i < PQ; ++i) e[i] = (T)(a*v[1]->old[i]); break;
  case 5: opk_vproduct(v[0]->v, v[1]->v, v[2]->v); for (i = 0; i < PQ; ++i) e[i] = (T)(v[1]->old[i]*v[2]->old[i]); break;
  case 6: scalar = 1; got = opk_vdot(v[0]->v, v[1]->v); for (i = 0; i < PQ; ++i) want += CNT(i)*v[0]->old[i]*v[1]->old[i]; break;
  case 7: scalar = 1; got = opk_vdot3(v[0]->v, v[1]->v, v[2]->v); for (i = 0; i < PQ; ++i) want += CNT(i)*v[0]->old[i]*v[1]->old[i]*v[2]->old[i]; break;
  case 8: scalar = 1; got = opk_vnorm2(v[0]->v); for (i = 0; i < PQ; ++i) want += CNT(i)*v[0]->old[i]*v[0]->old[i]; want = sqrt(want); if (fabs(got - want) <= 8*EPS*want) got = want; break;
  case 9: scalar = 1; got = opk_vnorm1(v[0]->v); for (i = 0; i < PQ; ++i) want += CNT(i)*fabs((double)v[0]->old[i]); break;
  case 10: scalar = 1; got = opk_vnorminf(v[0]->v); for (i = 0; i < PQ; ++i) if (fabs((double)v[0]->old[i]) > want) want = fabs((double)v[0]->old[i]); break;
  case 11: opk_vaxpby(v[0]->v, a, v[1]->v, b, v[2]->v); for (i = 0; i < PQ; ++i) e[i] = (T)(a*v[1]->old[i] + b*v[2]->old[i]); break;
  case 12: opk_vaxpbypcz(v[0]->v, a, v[1]->v, b, v[2]->v, g, v[3]->v); for (i = 0; i < PQ; ++i) e[i] = (T)(a*v[1]->old[i] + b*v[2]->old[i] + g*v[3]->old[i]); break;
  case 13: case 14: for (k = 0; k < 40; ++k) { long j = k < 4 ? n - 1 - k : k < 8 ? (1L << 31) + k - 6 : (k < 12 && big) ? (1L << 32) + k - 10 : r_int(0, n - 1); double val = NAN; if (j >= n) j = n - 1;
      if (op == 13) { st = opk_vpeek(v[0]->v, j, &val); if (st != OPK_SUCCESS || val != (double)v[0]->old[SLOT(j)]) { viol("huge-peek", "%s: element %ld is %g instead of %g (status %d)", txt, j, val, (double)v[0]->old[SLOT(j)], (int)st); break; } }
      else { val = (double)r_int(-100, 100); st = opk_vpoke(v[0]->v, j, val); e[SLOT(j)] = (T)val; if (st != OPK_SUCCESS) { viol("huge-poke", "%s: status %d for element %ld", txt, (int)st, j); break; } } }
    { double val; if (opk_vpeek(v[0]->v, n, &val) == OPK_SUCCESS || opk_vpoke(v[0]->v, n + (1L << 32), 0) == OPK_SUCCESS || opk_vpeek(v[0]->v, -(1L << 32), &val) == OPK_SUCCESS) viol("huge-out-of-range", "%s: an index out of range is accepted", txt); } st = OPK_SUCCESS; break;
  case 15: st = opk_vimport(v[0]->v, v[1]->p, ELTYPE, n); memcpy(e, v[1]->old, PQ*sizeof(T)); break;
  case 16: st = opk_vexport(v[1]->p, ELTYPE, n, v[0]->v); memcpy(v[1]->old, v[0]->old, PQ*sizeof(T)); break;
  case 17: st = opk_project_variables(v[0]->v, v[1]->v, set); for (i = 0; i < PQ; ++i) { double t = v[1]->old[i]; if (t < LOW(i)) t = LOW(i); if (t > UPP(i)) t = UPP(i); e[i] = (T)t; } break;
  default: { double s1 = -1, s2 = -1, s3 = -1, w1 = HUGE_VAL, w2 = HUGE_VAL, w3 = 0; /* v0 = direction; result in e (mask or direction) */
    if (op == 20) { /* one variable may move far, others do not move or a bit more */
      for (i = 0; i < PQ; ++i) AT(v[0], i) = v[0]->old[i] = e[i] = 0;
      for (k = 0; k < 3; ++k) AT(v[0], at[k]) = v[0]->old[at[k]] = e[at[k]] = (T)(r_bool() ? 1 : r_bool() ? -1 : r_int(2, 3));
      for (k = 0; k < 3; ++k) { double d = orient*(double)e[at[k]], x = v[1]->old[at[k]], s = d > 0 ? (UPP(at[k]) - x)/d : (LOW(at[k]) - x)/d; if (s < w1) w1 = s; if (s > 0 && s < w2) w2 = s; if (s > w3) w3 = s; }
      st = opk_get_step_limits(&s1, &s2, &s3, v[1]->v, set, v[0]->v, orient > 0 ? OPK_DESCENT : OPK_ASCENT);
#define INFW(w) ((w) > REALMAX ? REALMAX : (w))
#define CLOSE(s, w) (INFW(s) == INFW(w) || fabs((s) - (w)) <= 8*EPS*fabs(w))
      if (! CLOSE(s1, w1)) viol("huge-smin1", "%s: first bound at %g instead of %g", txt, s1, w1);
      if (w2 < HUGE_VAL && ! CLOSE(s2, w2)) viol("huge-smin2", "%s: first non-zero step %g instead of %g", txt, s2, w2);
      if (! CLOSE(s3, w3)) viol("huge-smax", "%s: last bound at %g instead of %g", txt, s3, w3);
      break; }
    { int inplace = op == 18 && r_p(0.3); TAG(vec)* dst = inplace ? v[0] : vecs ? NULL : v[2]; TAG(vec)* extra = NULL; T* src = v[0]->old;
      if (dst == NULL) { extra = (TAG(vec)*)calloc(1, sizeof(TAG(vec))); if (! TAG(vmk)(extra, space, n)) { obs("no-address-space"); TAG(vfree)(extra); free(e); goto done; } TAG(vset)(extra, 0, at); dst = extra; }
      st = op == 18 ? opk_project_direction(dst->v, v[1]->v, set, v[0]->v, orient > 0 ? OPK_DESCENT : OPK_ASCENT) : opk_get_free_variables(dst->v, v[1]->v, set, v[0]->v, orient > 0 ? OPK_DESCENT : OPK_ASCENT);
      for (i = 0; i < PQ; ++i) { double d = orient*(double)src[i], x = v[1]->old[i]; int blocked = (d > 0 && x >= UPP(i)) || (d < 0 && x <= LOW(i)); T w = op == 18 ? (T)(blocked ? 0 : src[i]) : (T)(! blocked && d != 0);
        if (AT(dst, i) != w) { viol("huge-box-result", "%s: element %ld (mod %ld) is %g instead of %g", txt, i, P, (double)AT(dst, i), (double)w); break; } }
      TAG(vget)(dst, dst->old); if (inplace) TAG(vget)(v[0], e);
      if (extra != NULL) TAG(vfree)(extra); } }
  }
  (void)e0;
  if (st != OPK_SUCCESS) viol("huge-status", "%s: status %d", txt, (int)st);
  if (scalar && got != want) viol("huge-value", "%s: %.15g instead of %.15g", txt, got, want);
  for (i = 0; i < PQ; ++i) if (AT(v[0], i) != e[i]) { viol("huge-result", "%s: element %ld (mod %ld) is %g instead of %g", txt, i, P, (double)AT(v[0], i), (double)e[i]); break; }
  for (k = 1; k < 4; ++k) if (memcmp(v[k]->p, v[k]->old, P*sizeof(T)) != 0 || memcmp(v[k]->p + n0, v[k]->old + P, Q*sizeof(T)) != 0) { viol("huge-operand", "%s: operand %d modified", txt, k); break; }
  for (k = 0; k < 4; ++k) for (i = n; i < n0 + LASTN; ++i) if (v[k]->p[i] != 0) { viol("huge-beyond", "%s: vector %d: element %ld, beyond the end, was written", txt, k, i); break; }
  free(e);
done:
  OPK_DROP(set); for (k = 0; k < 4; ++k) if (v[k] != NULL) TAG(vfree)(v[k]);
  OPK_DROP(space);
#undef CNT
#undef FLIP
#undef SLOT
#undef LOW
#undef UPP
#undef INFW
#undef CLOSE
}
#undef P
#undef AT
#undef LASTN
#undef T
#undef FN
#undef TAG
#undef EPS
#undef TNAME
#undef WRAPV
#undef NEWSPACE
#undef ELTYPE
#undef REALMAX

