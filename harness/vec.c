/* vec.c -- C01: vector operations against a long double reference. */
#include "vutil.h"

static double rnd_value(int mode) {
  double x;
  switch (mode) {
  case 0: x = r_norm(); break;
  case 1: x = r_norm()*r_logu(1e-6, 1e6); break;
  case 2: x = (double)r_int(-3, 3); break;
  default: x = r_norm()*r_logu(1e-15, 1e15); break;
  }
  if (r_p(0.05)) x = 0;
  if (r_p(0.01)) x = -0.0;
  return x;
}
static double rnd_coef(void) {
  switch (r_int(0, 7)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return -1;
  case 3: return -0.0;
  case 4: return (double)r_int(-4, 4);
  default: return r_norm()*r_logu(1e-3, 1e3);
  }
}
#define NV 4
enum { OP_ZERO, OP_FILL, OP_COPY, OP_SWAP, OP_SCALE, OP_PRODUCT, OP_DOT, OP_DOT3,
       OP_N2, OP_N1, OP_NINF, OP_AXPBY, OP_AXPBYPCZ, OP_PEEK, OP_POKE, OP_IMPORT,
       OP_EXPORT, OP_PRINT, NOPS };
static const char* opname[NOPS] = {
  "vzero", "vfill", "vcopy", "vswap", "vscale", "vproduct", "vdot", "vdot3",
  "vnorm2", "vnorm1", "vnorminf", "vaxpby", "vaxpbypcz", "vpeek", "vpoke",
  "vimport", "vexport", "vprint" };

void run_case(uint64_t c) {
  int single = c & 1, op, k, mode, special = 0;
  long n, i;
  opk_vspace* space;
  hvec v[NV], bystander;
  double *old[NV], *oldby;
  long double* ref[NV];
  long double* scale_[NV];
  double eps, tiny;
  int d, x, y, z;
  double a = 0, b = 0, g = 0;
  (void)rnd_coef;
  switch (r_int(0, 9)) {
  case 0: n = 1; break;
  case 1: n = r_int(2, 5); break;
  case 2: n = r_p(0.02) ? r_int(2001, 140000) : r_int(500, 2000); obs_max("longest-vector", n); break;
  default: n = r_int(1, 70); break;
  }
  mode = (int)r_int(0, 3);
  op = (int)((c >> 1) % NOPS);
  eps = hv_eps(single); tiny = hv_tiny(single);
  a_fill = (int)r_int(0, 255);
  space = hv_space(single, n);
  for (k = 0; k < NV; ++k) {
    v[k] = hv_new(space, single, n, r_bool());
    for (i = 0; i < n; ++i) hv_set(&v[k], i, rnd_value(mode));
  }
  bystander = hv_new(space, single, n, 0);
  for (i = 0; i < n; ++i) hv_set(&bystander, i, rnd_value(mode));
  if (r_p(0.15)) {
    /* two vectors wrapping the same memory */
    int p = (int)r_int(0, NV - 1), q = (int)r_int(0, NV - 1);
    if (p != q) {
      OPK_DROP(v[p].v); if (v[p].own) h_free(v[p].own);
      v[p].own = NULL; v[p].data = v[q].data;
      v[p].v = single ? opk_wrap_simple_float_vector(space, (float*)v[q].data, NULL, NULL)
        : opk_wrap_simple_double_vector(space, (double*)v[q].data, NULL, NULL);
      obs("aliased-memory");
    }
  }
  d = (int)r_int(0, NV - 1); x = (int)r_int(0, NV - 1);
  y = (int)r_int(0, NV - 1); z = (int)r_int(0, NV - 1);
  a = rnd_coef(); b = rnd_coef(); g = rnd_coef();
  if (r_p(0.08)) { double near = 1 + (r_bool() ? 1 : -1)*r_logu(1e-15, 1e-6); if (r_bool()) a = (float)a; switch (r_int(0, 3)) { case 0: b = a*near; break; case 1: g = b*near; break; case 2: a = r_bool() ? near : -near; break; default: b = r_bool() ? near : -near; } }
  if (op == OP_AXPBYPCZ && (c/(2*NOPS))%3 != 0) {
    /* enumerate special combinations in turn */
    static const double sp[5] = { 0, 1, -1, 2.5, -0.375 };
    uint64_t q = c/(2*NOPS);
    a = sp[q%5]; b = sp[(q/5)%5]; g = sp[(q/25)%5];
    obsf("coef-combo-%g,%g,%g", a, b, g);
  }
  if (op == OP_AXPBY && (c/(2*NOPS))%3 != 0) {
    static const double sp[5] = { 0, 1, -1, 2.5, -0.375 };
    uint64_t q = c/(2*NOPS);
    a = sp[q%5]; b = sp[(q/5)%5];
  }
  if (r_p(0.3) && (op == OP_AXPBY || op == OP_AXPBYPCZ || op == OP_SCALE || op == OP_ZERO)) {
    /* operand multiplied by zero holds NaN or infinities */
    double bad[3] = { NAN, INFINITY, -INFINITY };
    int target = -1;
    if (op == OP_SCALE) { a = 0; target = x; }
    else if (op == OP_ZERO) target = d;
    else {
      int w = (int)r_int(0, op == OP_AXPBY ? 1 : 2);
      if (w == 0) { a = 0; target = x; }
      else if (w == 1) { b = 0; target = y; }
      else { g = 0; target = z; }
      /* the same vector must not be used with a non zero coefficient */
      if ((x == target || v[x].data == v[target].data)) a = 0;
      if ((y == target || v[y].data == v[target].data)) b = 0;
      if ((z == target || v[z].data == v[target].data)) g = 0;
    }
    for (i = 0; i < n; ++i) if (r_p(0.5)) hv_set(&v[target], i, bad[r_int(0, 2)]);
    special = 1;
    obs("nonfinite-times-zero");
  }
  for (k = 0; k < NV; ++k) {
    old[k] = hv_dup(&v[k]);
    ref[k] = (long double*)ar(n*sizeof(long double));
    scale_[k] = (long double*)ar(n*sizeof(long double));
    for (i = 0; i < n; ++i) { ref[k][i] = old[k][i]; scale_[k][i] = -1; }
  }
  oldby = hv_dup(&bystander);
  hash_l(op); hash_l(single); hash_l(n); hash_l(d + 4*x + 16*y + 64*z);
  hash_d(a); hash_d(b); hash_d(g); hash_d(old[x][0]); hash_d(old[y][n-1]);
  nontrivial();
  obs(opname[op]);
  obs(single ? "single" : "double");

#define SETREF(kk, val, scl) do { ref[kk][i] = (val); scale_[kk][i] = (scl); } while (0)
  switch (op) {
  case OP_ZERO:
    for (i = 0; i < n; ++i) SETREF(d, 0, 0);
    opk_vzero(v[d].v);
    break;
  case OP_FILL:
    a = r_p(0.2) ? 0 : rnd_value(mode);
    for (i = 0; i < n; ++i) SETREF(d, single ? (float)a : a, 0);
    opk_vfill(v[d].v, a);
    break;
  case OP_COPY:
    for (i = 0; i < n; ++i) SETREF(d, old[x][i], 0);
    opk_vcopy(v[d].v, v[x].v);
    break;
  case OP_SWAP:
    for (i = 0; i < n; ++i) { SETREF(x, old[y][i], 0); }
    for (i = 0; i < n; ++i) { SETREF(y, old[x][i], 0); }
    d = x;
    opk_vswap(v[x].v, v[y].v);
    break;
  case OP_SCALE:
    for (i = 0; i < n; ++i) {
      if (a == 0) SETREF(d, 0, 0);
      else SETREF(d, (long double)a*old[x][i], a == 1 ? 0 : fabsl((long double)a*old[x][i]));
    }
    opk_vscale(v[d].v, a, v[x].v);
    break;
  case OP_PRODUCT:
    for (i = 0; i < n; ++i) {
      long double t = (long double)old[x][i]*old[y][i];
      SETREF(d, t, fabsl(t));
    }
    opk_vproduct(v[d].v, v[x].v, v[y].v);
    break;
  case OP_AXPBY: case OP_AXPBYPCZ:
    for (i = 0; i < n; ++i) {
      long double tx = a == 0 ? 0 : (long double)a*old[x][i];
      long double ty = b == 0 ? 0 : (long double)b*old[y][i];
      long double tz = (op == OP_AXPBY || g == 0) ? 0 : (long double)g*old[z][i];
      SETREF(d, tx + ty + tz, fabsl(tx) + fabsl(ty) + fabsl(tz));
    }
    if (op == OP_AXPBY) opk_vaxpby(v[d].v, a, v[x].v, b, v[y].v);
    else opk_vaxpbypcz(v[d].v, a, v[x].v, b, v[y].v, g, v[z].v);
    break;
  case OP_DOT: case OP_DOT3: case OP_N1: case OP_N2: case OP_NINF: {
    long double s = 0, t = 0; double res; double tol;
    for (i = 0; i < n; ++i) {
      long double q;
      if (op == OP_DOT) q = (long double)old[x][i]*old[y][i];
      else if (op == OP_DOT3) q = (long double)old[x][i]*old[y][i]*old[z][i];
      else if (op == OP_N1) q = fabsl(old[x][i]);
      else if (op == OP_N2) q = (long double)old[x][i]*old[x][i];
      else { q = 0; if (fabs(old[x][i]) > s) s = fabs(old[x][i]); }
      s += q; t += fabsl(q);
    }
    if (op == OP_DOT) res = opk_vdot(v[x].v, v[y].v);
    else if (op == OP_DOT3) res = opk_vdot3(v[x].v, v[y].v, v[z].v);
    else if (op == OP_N1) res = opk_vnorm1(v[x].v);
    else if (op == OP_N2) res = opk_vnorm2(v[x].v);
    else res = opk_vnorminf(v[x].v);
    /* avoid the cases where single precision over- or underflows */
    tol = (n + 4)*eps*(double)t + n*tiny;
    if (op == OP_N2) { s = sqrtl(s); tol = (n + 4)*eps*(double)s + n*sqrt(tiny); }
    if (op == OP_NINF) tol = 0;
    if (single && t > 1e38) { obs("skipped-overflow"); break; }
    if (single && mode == 3 && op == OP_DOT3) { obs("skipped-overflow"); break; }
    if (! (fabsl((long double)res - s) <= tol)) {
      viol("reduction-value", "%s single=%d n=%ld got %.17g expected %.17Lg tol %.3g",
           opname[op], single, n, res, s, tol);
    }
    if (tol > 0 && t > 0) obs_max("relative-error-of-reductions/eps",
                                  (double)(fabsl((long double)res - s)/(op == OP_N2 ? s : t))/eps);
    break; }
  case OP_PEEK: {
    double val = 12345; opk_index j = r_int(0, n - 1);
    opk_status st = opk_vpeek(v[x].v, j, &val);
    if (st != OPK_SUCCESS || ! same_bits(val, old[x][j]))
      viol("peek", "n=%ld j=%ld status=%d got %g expected %g", n, (long)j, st, val, old[x][j]);
    break; }
  case OP_POKE: {
    double val = rnd_value(mode); opk_index j = r_int(0, n - 1);
    opk_status st = opk_vpoke(v[d].v, j, val);
    i = j; SETREF(d, single ? (float)val : val, 0);
    if (st != OPK_SUCCESS) viol("poke", "n=%ld j=%ld status=%d", n, (long)j, st);
    break; }
  case OP_IMPORT: {
    int t = r_bool(); opk_status st;
    float* fp = arf(n); double* dp = ard(n);
    for (i = 0; i < n; ++i) {
      double val = rnd_value(mode);
      fp[i] = (float)val; dp[i] = val;
      SETREF(d, (single || t) ? (float)val : val, 0);
    }
    st = opk_vimport(v[d].v, t ? (void*)fp : (void*)dp, t ? OPK_FLOAT : OPK_DOUBLE, n);
    if (st != OPK_SUCCESS) viol("import-status", "n=%ld status=%d", n, st);
    break; }
  case OP_EXPORT: {
    int t = r_bool(); opk_status st;
    float* fp = arf(n); double* dp = ard(n);
    st = opk_vexport(t ? (void*)fp : (void*)dp, t ? OPK_FLOAT : OPK_DOUBLE, n, v[x].v);
    if (st != OPK_SUCCESS) viol("export-status", "n=%ld status=%d", n, st);
    for (i = 0; i < n; ++i) {
      double got = t ? (double)fp[i] : dp[i];
      double exp_ = t ? (double)(float)old[x][i] : old[x][i];
      if (! same_bits(got, exp_)) {
        viol("export-value", "single=%d t=%d n=%ld i=%ld got %g expected %g", single, t, n, i, got, exp_);
        break;
      }
    }
    break; }
  case OP_PRINT: {
    char *buf = NULL, *p; size_t len = 0; long nmax = r_p(0.3) ? r_int(-1, 0) : r_int(1, n + 3);
    FILE* f = open_memstream(&buf, &len);
    long m = (nmax > 0 && nmax < n) ? nmax : n, ok = 1;
    opk_vprint(f, r_bool() ? "name" : NULL, v[x].v, nmax);
    fclose(f);
    p = strchr(buf, '{');
    if (p == NULL) ok = 0;
    else for (++p, i = 0; i < m && ok; ++i) {
      char tmp[64]; size_t l;
      l = snprintf(tmp, sizeof(tmp), "%g", old[x][i]);
      while (*p == ' ' || *p == ',' || *p == '\n') ++p;
      if (strncmp(p, tmp, l) != 0) ok = 0;
      p += l;
    }
    if (ok && (m < n) != (strstr(p, "...") != NULL)) ok = 0;
    if (! ok) viol("print", "n=%ld nmax=%ld got %.200s", n, nmax, buf);
    h_free(buf);
    break; }
  }

  /* Destinations hold the expected values; everything else is unchanged. */
  for (k = 0; k < NV; ++k) {
    /* vectors sharing memory with a destination follow it */
    int q, dest = -1;
    for (q = 0; q < NV; ++q) {
      if (scale_[q][0] >= 0 || scale_[q][n-1] >= 0) {
        if (v[q].data == v[k].data) { dest = q; if (q == d) break; }
      }
    }
    if (op == OP_POKE && v[k].data == v[d].data) dest = d;
    if (op == OP_SWAP && v[x].data == v[y].data) dest = -1; /* no change */
    for (i = 0; i < n; ++i) {
      double got = hv_get(&v[k], i);
      if (dest < 0 || scale_[dest][i] < 0) {
        if (! same_bits(got, old[k][i])) {
          viol("operand-modified", "%s single=%d n=%ld i=%ld vec=%d (d=%d x=%d y=%d z=%d) %.17g -> %.17g",
               opname[op], single, n, i, k, d, x, y, z, old[k][i], got);
          break;
        }
      } else {
        long double r = ref[dest][i];
        double tol = (double)(4*eps*scale_[dest][i]);
        int ok;
        if (scale_[dest][i] > 0) tol += 4*tiny;
        if (isnan((double)r) || isinf((double)r)) ok = same_val(got, (double)r);
        else if (single && fabsl(r) > 3e38L) ok = 1;
        else if (scale_[dest][i] == 0) ok = (got == (double)r); /* zero sign is free */
        else ok = fabsl((long double)got - r) <= tol;
        if (! ok) {
          viol("wrong-value", "%s single=%d n=%ld i=%ld d=%d x=%d y=%d z=%d a=%g b=%g g=%g special=%d got %.17g expected %.17Lg",
               opname[op], single, n, i, d, x, y, z, a, b, g, special, got, r);
          break;
        }
        obs("elements-compared");
      }
    }
  }
  if (! hv_same(&bystander, oldby)) viol("bystander-modified", "%s n=%ld", opname[op], n);
  if (c < 3) sample("%s single=%d n=%ld d=%d x=%d y=%d z=%d coefficients %g %g %g", opname[op], single, n, d, x, y, z, a, b, g);
  for (k = 0; k < NV; ++k) hv_free(&v[k]);
  hv_free(&bystander);
  OPK_DROP(space);
  if (a_live != 0) { viol("leak", "%ld blocks left", a_live); }
}
