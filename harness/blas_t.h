/* blas_t.h -- template: T (type), FN(x) (name of function), EPS, TINY, HUGE_T, TAG. */
#define MK(n) ((T*)ar(sizeof(T)*((n) > 0 ? (n) : 0)))
static T TAG(rnd)(void) {
  switch (r_int(0, 11)) {
  case 0: return 0; case 1: return 1; case 2: return -1;
  case 3: return (T)(r_norm()*r_logu(1e-3, 1e3));
  default: return (T)r_norm(); }
}
static T TAG(scalar)(void) {
  switch (r_int(0, 5)) { case 0: return 0; case 1: return 1; case 2: return -1; default: return (T)r_norm(); }
}
static long TAG(diff)(const T* a, const T* b, long n) { /* index of first differing value or -1 */
  long i; for (i = 0; i < n; ++i) if (memcmp(a + i, b + i, sizeof(T))) return i;
  return -1;
}
#define IX(i, n, inc) ((inc) >= 0 ? (i)*(inc) : ((i) - ((n) - 1))*(inc))

/*---------------------------------------------------------------- level 1 */
static void TAG(level1)(void) {
  static const char* nm[] = { "amax", "asum", "axpy", "copy", "dot", "nrm2", "scal", "sum", "swap", "zero", "iamax" };
  int op = (int)r_int(0, 10), i; long n = r_p(0.1) ? r_int(-2, 0) : r_p(0.7) ? r_int(1, 20) : r_p(0.93) ? r_int(1, 100) : r_p(0.98) ? r_int(100, 1500) : r_int(1501, 40000), incx, incy, nx, ny, k, m; T a, *x, *y, *x0, *y0;
  int two = op == 2 || op == 3 || op == 4 || op == 8, same = 0, style = 0; LD want = 0, mag = 0; char txt[200];
  incx = r_p(0.4) ? 1 : r_p(0.7) ? r_int(2, 6) : two ? -r_int(1, 6) : -r_int(0, 6);
  incy = r_p(0.4) ? 1 : r_p(0.5) ? r_int(2, 6) : -r_int(1, 6);
  if (two && r_p(0.15)) incy = incx;
  if ((op == 2 || op == 4) && r_p(0.08)) incx = 0;
  if (op == 4 && r_p(0.08)) incy = 0;
  if (op == 2 && r_p(0.05)) incy = 0;
  m = n > 0 ? n : 0;
  nx = 1 + (m > 0 ? m - 1 : 0)*labs(incx) + r_int(0, 3)*(incx != 1); ny = 1 + (m > 0 ? m - 1 : 0)*labs(incy) + r_int(0, 3)*(incy != 1);
  if (m == 0) { nx = r_int(0, 3); ny = r_int(0, 3); }
  x = MK(nx); y = MK(ny); x0 = MK(nx); y0 = MK(ny);
  /* everything between the strides is NaN */
  for (k = 0; k < nx; ++k) x[k] = NAN;
  for (k = 0; k < ny; ++k) y[k] = NAN;
  style = op == 5 ? (int)r_int(0, 8) : op <= 1 || op == 10 ? (r_p(0.2) ? 7 : (int)r_int(0, 2)) : 0;
  { double sc = 1;
    if (style == 1) sc = (double)HUGE_T/1000; /* squares overflow */
    if (style == 2) sc = (double)TINY*1000;  /* squares underflow */
    if (style == 3) sc = (double)TINY*EPS*r_logu(1, 1e4);  /* subnormal values */
    if (style == 4) sc = sqrt((double)TINY)*r_logu(1e-3, 1e3);
    if (style == 5) sc = sqrt((double)HUGE_T)*r_logu(1e-3, 1e3);
    if (style == 6) sc = 0;
    for (k = 0; k < m; ++k) { x[IX(k, m, incx)] = (T)((double)TAG(rnd)()*(style == 1 ? 1e-3 : 1)*sc); y[IX(k, m, incy)] = TAG(rnd)(); }
    if (style >= 7 && m > 0) { /* a few elements of another magnitude anywhere, the others ordinary, null or tiny */
      double others = r_p(0.4) ? 1 : r_p(0.5) ? 0 : (double)TINY*r_logu(1, 1e6);
      for (k = 0; k < m; ++k) x[IX(k, m, incx)] = (T)(x[IX(k, m, incx)]*others);
      for (k = (int)r_int(1, 2); k > 0; --k) {
        long at = r_p(0.3) ? 0 : r_p(0.3) ? m - 1 : r_int(0, m - 1);
        x[IX(at, m, incx)] = (T)((r_bool() ? 1 : -1)*r_range(0.5, 2)*(style == 7 ? (double)HUGE_T/1000 : r_p(0.5) ? sqrt((double)TINY) : (double)TINY));
      }
    }
    if (op == 10 && style == 0 && r_p(0.5)) { obs("tied-elements"); for (k = 0; k < m; ++k) x[IX(k, m, incx)] = (T)r_int(-2, 2); }
    if (style == 0 && op == 5 && r_p(0.2)) for (k = 0; k < m; ++k) if (r_bool()) x[IX(k, m, incx)] *= (T)1e-20;
  }
  if (two && r_p(0.08) && incx == incy && incx != 0 && op != 8) { y = x; ny = nx; y0 = MK(ny); same = 1; }
  if (nx) memcpy(x0, x, nx*sizeof(T));
  if (ny) memcpy(y0, y, ny*sizeof(T));
  a = TAG(scalar)();
  snprintf(txt, sizeof(txt), "%s%s n=%ld incx=%ld incy=%ld a=%g style=%d same=%d", TNAME, nm[op], n, incx, incy, (double)a, style, same);
  hash_bytes(nm[op], 4); hash_l(n); hash_l(incx); hash_l(incy); hash_d(a); hash_l(style); hash_bytes(x0, nx*sizeof(T)); hash_bytes(y0, ny*sizeof(T)); if (n > 0) nontrivial();
  obsf("%s", nm[op]); if (incx < 0 || (two && incy < 0)) obs("negative-stride"); if (incx == 0 || (two && incy == 0)) obs("null-stride"); if (n <= 0) obs("empty");
  obs(sizeof(T) == 4 ? "single" : "double"); if (style) obsf("magnitude-%d", style);
#define X0(k) ((LD)x0[IX(k, m, incx)])
#define Y0(k) ((LD)y0[IX(k, m, incy)])
  { long mm = !two && incx < 1 ? 0 : m; T r = 0; int scalar = 0; LD tol = 0;
    switch (op) {
    case 0: r = FN(amax)(n, x, incx); scalar = 1; for (k = 0; k < mm; ++k) if (fabsl(X0(k)) > want) want = fabsl(X0(k)); tol = 0; break;
    case 1: r = FN(asum)(n, x, incx); scalar = 1; for (k = 0; k < mm; ++k) want += fabsl(X0(k)); tol = n*EPS*want; break;
    case 7: r = FN(sum)(n, x, incx); scalar = 1; for (k = 0; k < mm; ++k) { want += X0(k); mag += fabsl(X0(k)); } tol = n*EPS*mag; break;
    case 4: r = FN(dot)(n, x, incx, y, incy); scalar = 1; for (k = 0; k < mm; ++k) { want += X0(k)*Y0(k); mag += fabsl(X0(k)*Y0(k)); } tol = (n + 1)*EPS*mag; break;
    case 5: r = FN(nrm2)(n, x, incx); scalar = 1; for (k = 0; k < mm; ++k) want += X0(k)*X0(k); want = sqrtl(want); tol = (n + 8)*EPS*want + (want > 0 ? 2*(LD)TINY*EPS : 0);
      if (want > 0.5*HUGE_T) return;
      if (want > 0) obsf("norm-2e%d", (int)(log10l(want) >= 0 ? 1 : -1)*(int)(fabsl(log10l(want))/10)*10); break;
    case 10: { opk_index ii = FN(iamax)(n, x, incx); LD mx = -1; for (k = 0; k < mm; ++k) if (fabsl(X0(k)) > mx) mx = fabsl(X0(k));
        if (mm == 0 ? ii != 0 : (ii < 1 || ii > mm || fabsl(X0(ii - 1)) != mx)) viol("iamax", "%s: index %ld", txt, (long)ii);
        else if (mm > 0 && incx > 1) { /* the same elements without stride: the same one of those which have the largest absolute value */
          T* xc = MK(mm); opk_index ic; for (k = 0; k < mm; ++k) xc[k] = X0(k);
          ic = FN(iamax)(n, xc, 1); obs("index-without-stride"); if (ic != ii) viol("iamax-stride", "%s: index %ld, %ld for the same elements without stride", txt, (long)ii, (long)ic); }
        break; }
    case 2: FN(axpy)(n, a, x, incx, y, incy); break;
    case 3: FN(copy)(n, x, incx, y, incy); break;
    case 6: FN(scal)(n, a, x, incx); break;
    case 8: FN(swap)(n, x, incx, y, incy); break;
    case 9: FN(zero)(n, x, incx); break;
    }
    if (scalar && !(fabsl((LD)r - want) <= tol)) viol("value", "%s: %.17g instead of %.17Lg (tolerance %Lg)", txt, (double)r, want, tol);
    /* Expected contents */
    { T *ex = MK(nx), *ey = MK(ny); LD* tx = (LD*)ar(sizeof(LD)*(nx + 1)); LD* ty = (LD*)ar(sizeof(LD)*(ny + 1)); 
      if (nx) memcpy(ex, x0, nx*sizeof(T));
      if (ny) memcpy(ey, y0, ny*sizeof(T));
      for (k = 0; k < nx; ++k) tx[k] = 0;
      for (k = 0; k < ny; ++k) ty[k] = 0;
      for (k = 0; k < mm; ++k) { long ix = IX(k, m, incx), iy = IX(k, m, incy);
        switch (op) {
        case 2: if (incy != 0) { ey[iy] = (T)((LD)y0[iy] + (LD)a*x0[ix]); ty[iy] = EPS*(fabsl((LD)y0[iy]) + fabsl((LD)a*x0[ix])) + TINY*EPS; if (same) { ex[ix] = ey[iy]; tx[ix] = ty[iy]; } }
          else if (k == 0) { LD s = y0[0], g = fabsl(s); long q; for (q = 0; q < mm; ++q) { s += (LD)a*X0(q); g += fabsl((LD)a*X0(q)); } ey[0] = (T)s; ty[0] = (n + 2)*EPS*g; } break;
        case 3: ey[iy] = x0[ix]; if (same) ex[ix] = x0[ix]; break;
        case 6: ex[ix] = (T)((LD)a*x0[ix]); tx[ix] = EPS*fabsl((LD)a*x0[ix]); break;
        case 8: ey[iy] = x0[ix]; ex[ix] = y0[iy]; break;
        case 9: ex[ix] = 0; break;
        } }
      if (op == 2 && a == 0) { memcpy(ex, x0, nx*sizeof(T)); memcpy(ey, y0, ny*sizeof(T)); }
      for (i = 0; i < 2; ++i) { T *g = i ? y : x, *e = i ? ey : ex; LD* t = i ? ty : tx; long nn = i ? ny : nx;
        if (i && ! two) break;
        for (k = 0; k < nn; ++k)
          if (!(g[k] == e[k] || (isnan(g[k]) && isnan(e[k])) || fabsl((LD)g[k] - e[k]) <= t[k])) {
            viol("contents", "%s: %c[%ld]=%.17g instead of %.17g", txt, i ? 'y' : 'x', k, (double)g[k], (double)e[k]); break; } }
    }
  }
  sample("%s", txt);
}

/*---------------------------------------------------------------- matrices */
static T* TAG(matrix)(long m, long n, long ld) { /* random m x n, padding is NaN */
  T* a = MK(ld*n); long i, j;
  for (j = 0; j < n; ++j) for (i = 0; i < ld; ++i) a[i + j*ld] = i < m ? TAG(rnd)() : (T)NAN;
  return a;
}
static T* TAG(dup)(const T* a, long n) { T* b = MK(n); if (n > 0) memcpy(b, a, n*sizeof(T)); return b; }
static void TAG(cmp)(const char* what, const char* txt, const T* got, const T* before, const LD* want, const LD* tol, const char* mask, long n) {
  long k; /* mask[k]: 1 = result, else must be intact */
  for (k = 0; k < n; ++k) {
    if (! mask[k]) { if (memcmp(got + k, before + k, sizeof(T))) { viol("outside", "%s: element %ld of %s, out of the documented part, changed from %g to %g", txt, k, what, (double)before[k], (double)got[k]); return; } }
    else if (!(fabsl((LD)got[k] - want[k]) <= tol[k])) { viol("result", "%s: element %ld of %s is %.17g instead of %.17Lg (tolerance %Lg)", txt, k, what, (double)got[k], want[k], tol[k]); return; }
  }
}
static long TAG(dim)(double pzero, long max) { return r_p(pzero) ? 0 : r_p(0.03) ? r_int(max + 1, 45) : r_int(1, max); } /* now and then well beyond the size of a block or of an unrolled loop */
static int TAG(pick_trans)(void) { static const int t[] = { OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, OPK_BLAS_CONJ_TRANS }; return t[r_int(0, 2)]; }

static void TAG(gemv)(int bad) {
  long m = TAG(dim)(0.1, 9), n = TAG(dim)(0.1, 9), lda = (m > 1 ? m : 1) + (r_bool() ? 0 : r_int(1, 4)), incx = r_p(0.4) ? 1 : r_p(0.5) ? r_int(2, 4) : -r_int(1, 4),
    incy = r_p(0.4) ? 1 : r_p(0.5) ? r_int(2, 4) : -r_int(1, 4), lx, ly, nx, ny, k, i, j; int tr = TAG(pick_trans)(), ret, want = 0; T al = TAG(scalar)(), be = TAG(scalar)(), *a, *x, *y, *y0, *a0, *x0; char txt[200];
  LD *w, *tol; char* mask; int nt = tr == OPK_BLAS_NO_TRANS;
  lx = nt ? n : m; ly = nt ? m : n; nx = 1 + (lx > 0 ? lx - 1 : 0)*labs(incx); ny = 1 + (ly > 0 ? ly - 1 : 0)*labs(incy);
  a = TAG(matrix)(m, n, lda); x = MK(nx); y = MK(ny); w = (LD*)ar(ny*sizeof(LD)); tol = (LD*)ar(ny*sizeof(LD)); mask = (char*)ar(ny);
  for (k = 0; k < nx; ++k) x[k] = NAN; for (k = 0; k < ny; ++k) y[k] = NAN;
  for (k = 0; k < lx; ++k) x[IX(k, lx, incx)] = TAG(rnd)();
  for (k = 0; k < ly; ++k) y[IX(k, ly, incy)] = be == 0 && r_bool() ? (T)NAN : TAG(rnd)();
  y0 = TAG(dup)(y, ny); a0 = TAG(dup)(a, lda*n); x0 = TAG(dup)(x, nx);
  if (bad) switch (r_int(0, 5)) { case 0: tr = 100; want = 1; break; case 1: m = -1; want = 2; break; case 2: n = -1; want = 3; break; case 3: lda = m - 1; if (lda < 0) lda = 0; want = 6; break;
    case 4: incx = 0; want = 8; break; default: incy = 0; want = 11; }
  snprintf(txt, sizeof(txt), "%sgemv trans=%d m=%ld n=%ld alpha=%g lda=%ld incx=%ld beta=%g incy=%ld", TNAME, tr, m, n, (double)al, lda, incx, (double)be, incy);
  ret = FN(gemv)(tr, m, n, al, a, lda, x, incx, be, y, incy);
  obs(bad ? "gemv-invalid" : "gemv");
  if (ret != want) viol("info", "%s: returns %d instead of %d", txt, ret, want);
  if (! bad && m > 0 && n > 0) {
    for (k = 0; k < ly; ++k) { long iy = IX(k, ly, incy); LD s = 0, g = 0;
      for (j = 0; j < lx; ++j) { LD aa = nt ? a[k + j*lda] : a[j + k*lda], xx = x0[IX(j, lx, incx)]; s += aa*xx; g += fabsl(aa*xx); }
      w[iy] = (al == 0 ? 0 : al*s) + (be == 0 ? 0 : be*(LD)y0[iy]); tol[iy] = (lx + 4)*EPS*(fabsl((LD)al)*g + (be == 0 ? 0 : fabsl(be*(LD)y0[iy]))); mask[iy] = 1; }
    nontrivial();
  } else if (! bad && ly > 0) return; /* empty product: BLAS leaves y unchanged */
  TAG(cmp)("y", txt, y, y0, w, tol, mask, ny);
  if ((n > 0 && TAG(diff)(a, a0, (bad ? 0 : lda*n)) >= 0) || TAG(diff)(x, x0, nx) >= 0) viol("operand", "%s: an operand is modified", txt);
  hash_bytes(txt, strlen(txt)); hash_bytes(y, ny*sizeof(T)); sample("%s", txt);
}
/* triangular matrix-vector product and solve */
static void TAG(trxv)(int bad) {
  long n = TAG(dim)(0.05, 9), lda = (n > 1 ? n : 1) + (r_bool() ? 0 : r_int(1, 4)), incx = r_p(0.4) ? 1 : r_p(0.5) ? r_int(2, 4) : -r_int(1, 4), nx, i, j, k; int solve = r_bool();
  int up = r_bool() ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, tr = TAG(pick_trans)(), dg = r_bool() ? OPK_BLAS_UNIT : OPK_BLAS_NON_UNIT, ret, want = 0; T *a, *x, *a0, *x0; char txt[200], *mask; LD *w, *tol;
  nx = 1 + (n > 0 ? n - 1 : 0)*labs(incx); a = MK(lda*n); x = MK(nx); w = (LD*)ar(nx*sizeof(LD)); tol = (LD*)ar(nx*sizeof(LD)); mask = (char*)ar(nx);
  for (k = 0; k < lda*n; ++k) a[k] = NAN;
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) {
    if (i == j) { if (dg == OPK_BLAS_NON_UNIT) a[i + j*lda] = (T)((r_bool() ? 1 : -1)*r_logu(0.3, 3)); }
    else if ((up == OPK_BLAS_UPPER) == (i < j)) a[i + j*lda] = (T)(r_p(0.1) ? 0 : r_norm()); }
  for (k = 0; k < nx; ++k) x[k] = NAN;
  for (k = 0; k < n; ++k) x[IX(k, n, incx)] = TAG(rnd)();
  a0 = TAG(dup)(a, lda*n); x0 = TAG(dup)(x, nx);
  if (bad) switch (r_int(0, 5)) { case 0: up = 7; want = 1; break; case 1: tr = 110; want = 2; break; case 2: dg = 133; want = 3; break; case 3: n = -1; want = 4; break; case 4: lda = n - 1 < 0 ? 0 : n - 1; want = 6; break; default: incx = 0; want = 8; }
  snprintf(txt, sizeof(txt), "%str%cv uplo=%d trans=%d diag=%d n=%ld lda=%ld incx=%ld", TNAME, solve ? 's' : 'm', up, tr, dg, n, lda, incx);
  ret = solve ? FN(trsv)(up, tr, dg, n, a, lda, x, incx) : FN(trmv)(up, tr, dg, n, a, lda, x, incx);
  obs(bad ? "triangular-invalid" : solve ? "trsv" : "trmv"); if (! bad) obsf("%s-%s-%s-%s", solve ? "trsv" : "trmv", up == OPK_BLAS_UPPER ? "upper" : "lower", tr == OPK_BLAS_NO_TRANS ? "notrans" : "trans", dg == OPK_BLAS_UNIT ? "unit" : "nonunit");
  if (ret != want) viol("info", "%s: returns %d instead of %d", txt, ret, want);
  if (! bad) {
    /* product: x = op(A) x0; solve: op(A) x = x0, judged by the residual */
    T *src = solve ? x : x0, *chk = solve ? x0 : x;
    for (i = 0; i < n; ++i) { LD s = 0, g = 0; long ii = IX(i, n, incx);
      for (j = 0; j < n; ++j) { long r = tr == OPK_BLAS_NO_TRANS ? i : j, c = tr == OPK_BLAS_NO_TRANS ? j : i; LD aa; 
        if (r == c) aa = dg == OPK_BLAS_UNIT ? 1 : a0[r + c*lda]; else if ((up == OPK_BLAS_UPPER) == (r < c)) aa = a0[r + c*lda]; else continue;
        s += aa*src[IX(j, n, incx)]; g += fabsl(aa*src[IX(j, n, incx)]); }
      w[ii] = s; tol[ii] = (n + 4)*EPS*(g + (solve ? fabsl((LD)x0[ii]) : 0)); mask[ii] = 1;
      if (!(fabsl((LD)chk[ii] - s) <= tol[ii])) { viol("result", "%s: element %ld: %.17g instead of %.17Lg (tolerance %Lg)", txt, i, (double)chk[ii], s, tol[ii]); break; } }
    for (k = 0; k < nx; ++k) if (! mask[k] && memcmp(x + k, x0 + k, sizeof(T))) { viol("outside", "%s: x[%ld] modified", txt, k); break; }
    nontrivial();
  } else if (TAG(diff)(x, x0, nx) >= 0) viol("outside", "%s: modified in spite of an invalid argument", txt);
  if (n > 0 && ! bad && TAG(diff)(a, a0, lda*n) >= 0) viol("operand", "%s: the matrix is modified", txt);
  hash_bytes(txt, strlen(txt)); hash_bytes(x0, nx*sizeof(T)); sample("%s", txt);
}
static void TAG(gemm)(int bad) {
  long m = TAG(dim)(0.05, 7), n = TAG(dim)(0.05, 7), k = TAG(dim)(0.15, 7), ra, ca, rb, cb, lda, ldb, ldc, i, j, l, nc; int ta = TAG(pick_trans)(), tb = TAG(pick_trans)(), ret, want = 0;
  T al = TAG(scalar)(), be = TAG(scalar)(), *a, *b, *c, *a0, *b0, *c0; LD *w, *tol; char *mask, txt[240];
  int na = ta == OPK_BLAS_NO_TRANS, nb = tb == OPK_BLAS_NO_TRANS, nan;
  ra = na ? m : k; ca = na ? k : m; rb = nb ? k : n; cb = nb ? n : k;
  lda = (ra > 1 ? ra : 1) + (r_bool() ? 0 : r_int(1, 3)); ldb = (rb > 1 ? rb : 1) + (r_bool() ? 0 : r_int(1, 3)); ldc = (m > 1 ? m : 1) + (r_bool() ? 0 : r_int(1, 3));
  a = TAG(matrix)(ra, ca, lda); b = TAG(matrix)(rb, cb, ldb); c = TAG(matrix)(m, n, ldc); nc = ldc*n;
  nan = be == 0 && r_bool(); if (nan) for (i = 0; i < nc; ++i) c[i] = NAN;
  a0 = TAG(dup)(a, lda*ca); b0 = TAG(dup)(b, ldb*cb); c0 = TAG(dup)(c, nc); w = (LD*)ar((nc + 1)*sizeof(LD)); tol = (LD*)ar((nc + 1)*sizeof(LD)); mask = (char*)ar(nc + 1);
  if (bad) switch (r_int(0, 7)) { case 0: ta = 114; want = 1; break; case 1: tb = 110; want = 2; break; case 2: m = -1; want = 3; break; case 3: n = -2; want = 4; break; case 4: k = -1; want = 5; break;
    case 5: lda = ra - 1 < 0 ? 0 : ra - 1; want = 8; break; case 6: ldb = rb - 1 < 0 ? 0 : rb - 1; want = 10; break; default: ldc = m - 1 < 0 ? 0 : m - 1; want = 13; }
  snprintf(txt, sizeof(txt), "%sgemm transa=%d transb=%d m=%ld n=%ld k=%ld alpha=%g lda=%ld ldb=%ld beta=%g ldc=%ld", TNAME, ta, tb, m, n, k, (double)al, lda, ldb, (double)be, ldc);
  ret = FN(gemm)(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);
  obs(bad ? "gemm-invalid" : "gemm"); if (! bad) obsf("gemm-%s-%s", na ? "n" : "t", nb ? "n" : "t");
  if (ret != want) viol("info", "%s: returns %d instead of %d", txt, ret, want);
  if (! bad) { 
    for (j = 0; j < n; ++j) for (i = 0; i < m; ++i) { LD s = 0, g = 0;
      for (l = 0; l < k; ++l) { LD p = (LD)(na ? a[i + l*lda] : a[l + i*lda])*(nb ? b[l + j*ldb] : b[j + l*ldb]); s += p; g += fabsl(p); }
      w[i + j*ldc] = (al == 0 ? 0 : al*s) + (be == 0 ? 0 : be*(LD)c0[i + j*ldc]); tol[i + j*ldc] = (k + 4)*EPS*(fabsl((LD)al)*g + (be == 0 ? 0 : fabsl(be*(LD)c0[i + j*ldc]))); mask[i + j*ldc] = 1; }
    nontrivial(); }
  TAG(cmp)("C", txt, c, c0, w, tol, mask, nc);
  if (TAG(diff)(a, a0, ((ra > 0) ? 1 : 0)*(bad ? 0 : lda*ca)) >= 0 || TAG(diff)(b, b0, bad ? 0 : ldb*cb) >= 0) viol("operand", "%s: an operand is modified", txt);
  hash_bytes(txt, strlen(txt)); hash_bytes(c, nc*sizeof(T)); sample("%s", txt);
}
static void TAG(syrk)(int bad) {
  long n = TAG(dim)(0.05, 8), k = TAG(dim)(0.15, 8), ra, ca, lda, ldc, i, j, l, nc; int up = r_bool() ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, tr = TAG(pick_trans)(), ret, want = 0, nt = tr == OPK_BLAS_NO_TRANS;
  T al = TAG(scalar)(), be = TAG(scalar)(), *a, *a0, *c, *c0; LD *w, *tol; char *mask, txt[200];
  ra = nt ? n : k; ca = nt ? k : n; lda = (ra > 1 ? ra : 1) + (r_bool() ? 0 : r_int(1, 3)); ldc = (n > 1 ? n : 1) + (r_bool() ? 0 : r_int(1, 3));
  a = TAG(matrix)(ra, ca, lda); c = TAG(matrix)(n, n, ldc); nc = ldc*n;
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) if ((up == OPK_BLAS_UPPER ? i > j : i < j) || (be == 0 && r_bool())) c[i + j*ldc] = NAN;
  a0 = TAG(dup)(a, lda*ca); c0 = TAG(dup)(c, nc); w = (LD*)ar((nc + 1)*sizeof(LD)); tol = (LD*)ar((nc + 1)*sizeof(LD)); mask = (char*)ar(nc + 1);
  if (bad) switch (r_int(0, 5)) { case 0: up = 123; want = 1; break; case 1: tr = 114; want = 2; break; case 2: n = -1; want = 3; break; case 3: k = -1; want = 4; break; case 4: lda = ra - 1 < 0 ? 0 : ra - 1; want = 7; break; default: ldc = n - 1 < 0 ? 0 : n - 1; want = 10; }
  snprintf(txt, sizeof(txt), "%ssyrk uplo=%d trans=%d n=%ld k=%ld alpha=%g lda=%ld beta=%g ldc=%ld", TNAME, up, tr, n, k, (double)al, lda, (double)be, ldc);
  ret = FN(syrk)(up, tr, n, k, al, a, lda, be, c, ldc);
  obs(bad ? "syrk-invalid" : "syrk"); if (! bad) obsf("syrk-%s-%s", up == OPK_BLAS_UPPER ? "upper" : "lower", nt ? "n" : "t"); if (! bad && lda != ldc) obs("syrk-different-strides");
  if (ret != want) viol("info", "%s: returns %d instead of %d", txt, ret, want);
  if (! bad) {
    for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) { LD s = 0, g = 0;
      if (up == OPK_BLAS_UPPER ? i > j : i < j) continue;
      for (l = 0; l < k; ++l) { LD p = (LD)(nt ? a[i + l*lda] : a[l + i*lda])*(nt ? a[j + l*lda] : a[l + j*lda]); s += p; g += fabsl(p); }
      w[i + j*ldc] = (al == 0 ? 0 : al*s) + (be == 0 ? 0 : be*(LD)c0[i + j*ldc]); tol[i + j*ldc] = (k + 4)*EPS*(fabsl((LD)al)*g + (be == 0 ? 0 : fabsl(be*(LD)c0[i + j*ldc]))); mask[i + j*ldc] = 1; }
    nontrivial(); }
  TAG(cmp)("C", txt, c, c0, w, tol, mask, nc);
  if (TAG(diff)(a, a0, bad ? 0 : lda*ca) >= 0) viol("operand", "%s: the operand is modified", txt);
  hash_bytes(txt, strlen(txt)); hash_bytes(c, nc*sizeof(T)); sample("%s", txt);
}
static void TAG(potf2)(int bad) {
  long n = TAG(dim)(0.05, 9), lda = (n > 1 ? n : 1) + (r_bool() ? 0 : r_int(1, 4)), i, j, l, na = lda*n, kbad = 0; int up = r_bool() ? OPK_BLAS_UPPER : OPK_BLAS_LOWER, u; long ret, want = 0; T *a, *a0; char txt[160]; LD *L, *D, *M, off;
  L = (LD*)ar((n*n + 1)*sizeof(LD)); M = (LD*)ar((n*n + 1)*sizeof(LD)); D = (LD*)ar((n + 1)*sizeof(LD)); off = n > 9 ? 1.5/sqrt((double)n) : 0.7;
  if (n > 0 && r_p(0.3)) kbad = r_int(1, n);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) L[i*n+j] = i == j ? 1 : i > j ? r_norm()*(n > 9 ? off*0.5 : off) : 0;
  for (i = 0; i < n; ++i) D[i] = r_logu(0.3, 3);
  if (kbad) { D[kbad - 1] = -r_logu(0.3, 3); for (i = kbad; i < n; ++i) D[i] *= r_bool() ? 1 : -1; }
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (l = 0; l < n; ++l) s += L[i*n+l]*D[l]*L[j*n+l]; M[i*n+j] = s; }
  if (r_p(0.1) && ! kbad && n > 0) { kbad = r_int(1, n); for (i = 0; i < n; ++i) M[i*n+kbad-1] = M[(kbad-1)*n+i] = 0; } /* exactly singular minor */
  a = MK(na); for (i = 0; i < na; ++i) a[i] = NAN;
  for (j = 0; j < n; ++j) for (i = 0; i < n; ++i) if (up == OPK_BLAS_UPPER ? i <= j : i >= j) a[i + j*lda] = (T)M[i*n+j];
  a0 = TAG(dup)(a, na); want = kbad; u = up;
  if (bad) switch (r_int(0, 2)) { case 0: if (n == 0) { n = 1; lda = 1; a = MK(1); a0 = MK(1); na = 1; } up = 3; want = -1; break; case 1: n = -1; want = -2; break; default: lda = n - 1 < 0 ? 0 : n - 1; want = -4; }
  snprintf(txt, sizeof(txt), "%spotf2 uplo=%d n=%ld lda=%ld (non-positive minor %ld)", TNAME, up, n, lda, kbad);
  ret = FN(potf2)(up, n, a, lda);
  obs(bad ? "potf2-invalid" : kbad ? "potf2-indefinite" : u == OPK_BLAS_UPPER ? "potf2-upper" : "potf2-lower");
  if (ret != want) viol("info", "%s: returns %ld instead of %ld", txt, ret, want);
  if (bad) { if (TAG(diff)(a, a0, na) >= 0) viol("outside", "%s: modified in spite of an invalid argument", txt); return; }
  nontrivial();
  for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) {
    int in = i < n && (up == OPK_BLAS_UPPER ? i <= j : i >= j); LD s = 0, g = 0;
    if (! in) { if (memcmp(a + i + j*lda, a0 + i + j*lda, sizeof(T))) { viol("outside", "%s: element (%ld,%ld) out of the triangle modified", txt, i, j); return; } continue; }
    if (kbad) continue;
    for (l = 0; l < n; ++l) { LD p, q; if (up == OPK_BLAS_UPPER) { p = l <= i ? a[l + i*lda] : 0; q = l <= j ? a[l + j*lda] : 0; } else { p = l <= i ? a[i + l*lda] : 0; q = l <= j ? a[j + l*lda] : 0; }
      s += p*q; g += fabsl(p*q); }
    if (!(fabsl(s - a0[i + j*lda]) <= (2*n + 6)*EPS*g)) { viol("result", "%s: element (%ld,%ld) of the product of factors is %.17Lg instead of %.17g", txt, i, j, s, (double)a0[i + j*lda]); return; }
    if (i == j && !(a[i + j*lda] > 0)) viol("result", "%s: diagonal element %g", txt, (double)a[i + j*lda]);
  }
  hash_bytes(txt, strlen(txt)); hash_bytes(a0, na*sizeof(T)); sample("%s", txt);
}
static void TAG(level23)(uint64_t c) {
  int bad = r_p(0.12);
  switch (c % 6) {
  case 0: TAG(gemv)(bad); break;
  case 1: case 2: TAG(trxv)(bad); break;
  case 3: TAG(gemm)(bad); break;
  case 4: TAG(syrk)(bad); break;
  default: TAG(potf2)(bad); break;
  }
}
#undef T
#undef FN
#undef EPS
#undef TINY
#undef HUGE_T
#undef TAG
#undef TNAME
#undef MK
#undef IX
#undef X0
#undef Y0
