/* wild.c -- valid calls with data of any magnitude, at the smallest sizes (C30).
 *
 * The monitors are the sanitizers (addresses, undefined behaviour, conversions
 * out of range, uninitialized values) and the count of live blocks: nothing is
 * asked about the results except that they are set.  A call which does not come
 * back (the methods have no protection against values that are not numbers) is
 * abandoned and counted. */
#ifdef MSAN_BUILD
# include <sanitizer/msan_interface.h>
#endif
#include <setjmp.h>
#include "actors.h"

static sigjmp_buf wj; static volatile int w_armed; static long w_calls, w_max;
static void w_alarm(int sig) { (void)sig; if (w_armed) { w_armed = 0; siglongjmp(wj, 1); } }
static void w_timer(int usec) { struct itimerval it; memset(&it, 0, sizeof(it)); it.it_value.tv_usec = usec; setitimer(ITIMER_VIRTUAL, &it, NULL); }
/* Run a statement which may have no end; not used for what allocates memory. */
#define GUARD(stmt) do { if (sigsetjmp(wj, 1) == 0) { w_armed = 1; w_timer(300000); stmt; w_armed = 0; w_timer(0); } else { w_timer(0); obs("abandoned"); gone = 1; } } while (0)
static void set_d(const double* x, long n) { volatile int s = 0; long i; for (i = 0; i < n; ++i) if (x[i] > 0) ++s; }
static void set_f(const float* x, long n) { volatile int s = 0; long i; for (i = 0; i < n; ++i) if (x[i] > 0) ++s; }
static void set_l(long x) { volatile int s = 0; if (x > 0) ++s; }

static int mode; /* of the magnitudes of the case */
static double wild(void) {
  double s = r_bool() ? 1 : -1;
  if (r_p(0.1)) return 0*s;
  switch (mode) {
  case 0: return r_norm();
  case 1: return s*r_logu(1e-3, 1e3);
  case 2: return s*r_logu(1e-300, 1e300);
  case 3: return s*r_logu(1e100, 1e308);
  case 4: return s*r_logu(1e-308, 1e-100);
  case 5: return s*ldexp(r_unif(), -1022 - (int)r_int(0, 52));
  case 6: return s*r_logu(1e30, 1e45);
  case 7: return s*r_logu(1e-46, 1e-30);
  default: switch (r_int(0, 6)) { case 0: return s*DBL_MAX; case 1: return s*DBL_MIN; case 2: return s*4.9e-324; case 3: return s*FLT_MAX; case 4: return s*FLT_MIN; case 5: return s; default: return s*r_logu(1e-10, 1e10); }
  }
}
static double wildpos(double lo, double hi) { double w; int k; for (k = 0; k < 20; ++k) { w = fabs(wild()); if (w >= lo && w <= hi) return w; } return r_logu(lo > 0 ? lo : 1e-300, hi); }
static double wildf(void) { return r_p(0.03) ? INFINITY : r_p(0.01) ? -INFINITY : r_p(0.01) ? NAN : wild(); }

/* A function of moderate or wild values. */
static int fkind;
static double wfun(long n, const double* x, double* g) {
  double f = 0; long i;
  switch (fkind) {
  case 0: for (i = 0; i < n; ++i) { f += x[i]*x[i]; if (g) g[i] = 2*x[i]; } return f;
  case 1: for (i = 0; i < n; ++i) { f += exp(x[i]); if (g) g[i] = exp(x[i]); } return f;
  case 2: for (i = 0; i < n; ++i) { double u = x[i]*x[i]; f += u*u - 3*u; if (g) g[i] = 4*u*x[i] - 6*x[i]; } return f;
  case 3: for (i = 0; i < n; ++i) if (g) g[i] = wild(); return wild();
  case 4: for (i = 0; i < n; ++i) if (g) g[i] = wildf(); return wildf();
  case 5: for (i = 0; i < n; ++i) if (g) g[i] = 0; return 0;
  default: for (i = 0; i < n; ++i) { f -= fabs(x[i])*(1 + i); if (g) g[i] = x[i] > 0 ? -1 - i : 1 + i; } return f;
  }
}
static void w_optimizer(void) {
  config C; long i, k, maxev = r_int(5, 60); opk_task t; double xd[PMAXN], gd[PMAXN], f; char b[300];
  cfg_random(&C, 0); obs("area-optimizer");
  if (r_p(0.3)) { C.n = 1; if (C.vo.mem > 1 && r_bool()) C.vo.mem = 1; }
  for (i = 0; i < C.n; ++i) C.x0[i] = cfg_round(&C, wild());
  if (C.use_opts && r_p(0.5)) {
    double a = fabs(wild()), c = fabs(wild());
    C.vo.gatol = C.no.gatol = fabs(wild()); C.vo.grtol = C.no.grtol = r_p(0.5) ? 0 : fabs(wild());
    if (isfinite(a) && isfinite(c) && a < c) { C.vo.stpmin = C.no.stpmin = a; C.vo.stpmax = C.no.stpmax = c; }
    C.vo.delta = C.no.delta = wildpos(1e-300, 1e300); C.no.fmin_given = r_bool(); C.no.fmin = wild();
  }
  if (cfg_bounded(&C)) for (i = 0; i < C.n; ++i) { /* bounds of any magnitude */
    double l = cfg_round(&C, wild()), u = cfg_round(&C, wild()); if (l > u) { double z = l; l = u; u = z; }
    l = (float)l; u = (float)u; if (C.lk == 1 || C.lk == 2 || C.uk == 1 || C.uk == 2) break;
    C.dl[i] = l; C.du[i] = u; C.fl[i] = (float)l; C.fu[i] = (float)u; }
  if (r_bool()) {
    lowopt O; hvec x, g;
    if (! low_new(&O, &C)) { obs("refused"); low_free(&O); return; }
    x = hv_new(O.space, C.single, C.n, r_bool()); g = hv_new(O.space, C.single, C.n, r_bool());
    for (i = 0; i < C.n; ++i) hv_set(&x, i, C.x0[i]);
    t = low_start(&O, x.v);
    for (k = 0; k < maxev; ++k) {
      for (i = 0; i < C.n; ++i) xd[i] = hv_get(&x, i);
      set_d(xd, C.n);
      if (t != OPK_TASK_COMPUTE_FG && t != OPK_TASK_NEW_X && r_p(0.7)) break;
      if (r_p(0.01)) t = low_start(&O, x.v);
      f = wfun(C.n, xd, gd); for (i = 0; i < C.n; ++i) hv_set(&g, i, gd[i]);
      t = low_iterate(&O, x.v, f, g.v); obs("calls"); set_l(t); set_l(low_status(&O)); gd[0] = low_step(&O); gd[C.n > 1] = low_gnorm(&O); set_d(gd, 1);
    }
    if (O.v) opk_get_vmlmb_description(b, sizeof(b), O.v); else opk_get_nlcg_description(b, sizeof(b), O.c);
    hv_free(&x); hv_free(&g); low_free(&O);
  } else {
    opk_lnsrch* ls = cfg_lnsrch(&C); opk_optimizer* d; void* x = h_alloc(C.n*8); void* g = h_alloc(C.n*8);
    if (C.lk == OPK_BOUND_VECTOR) C.lk = OPK_BOUND_STATIC_DOUBLE; if (C.uk == OPK_BOUND_VECTOR) C.uk = OPK_BOUND_VOLATILE_FLOAT;
    d = opk_new_optimizer(C.vmlmb ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, C.use_opts ? (C.vmlmb ? (void*)&C.vo : (void*)&C.no) : NULL, C.single ? OPK_FLOAT : OPK_DOUBLE, C.n,
      (opk_bound_type)C.lk, cfg_bound_addr(&C, 0, NULL, NULL), (opk_bound_type)C.uk, cfg_bound_addr(&C, 1, NULL, NULL), ls);
    OPK_DROP(ls);
    if (d) {
      for (i = 0; i < C.n; ++i) if (C.single) ((float*)x)[i] = (float)C.x0[i]; else ((double*)x)[i] = C.x0[i];
      t = opk_start(d, x);
      for (k = 0; k < maxev; ++k) {
        for (i = 0; i < C.n; ++i) xd[i] = C.single ? ((float*)x)[i] : ((double*)x)[i];
        set_d(xd, C.n);
        if (t != OPK_TASK_COMPUTE_FG && t != OPK_TASK_NEW_X && r_p(0.7)) break;
        f = wfun(C.n, xd, gd); for (i = 0; i < C.n; ++i) if (C.single) ((float*)g)[i] = (float)gd[i]; else ((double*)g)[i] = gd[i];
        t = opk_iterate(d, x, f, g); obs("calls"); set_l(t); set_l(opk_get_status(d));
      }
      opk_get_description(b, sizeof(b), d); opk_destroy_optimizer(d);
    } else obs("refused");
    h_free(x); h_free(g);
  }
}
static void w_lnsrch(void) {
  config C; opk_lnsrch* ls; int k, n, t; double stp, d[2]; obs("area-lnsrch");
  do cfg_random(&C, 0); while (C.ls == LS_DEFAULT);
  ls = cfg_lnsrch(&C);
  for (n = 0; n < 6; ++n) {
    stp = fabs(wild()); t = opk_lnsrch_start(ls, wildf(), r_p(0.9) ? -fabs(wild()) : wildf(), stp, r_p(0.7) ? 0 : fabs(wild()), fabs(wild()) + (r_bool() ? stp : 0));
    for (k = 0; k < 25; ++k) { stp = opk_lnsrch_get_step(ls); d[0] = stp; set_d(d, 1); t = opk_lnsrch_iterate(ls, &stp, wildf(), wildf()); obs("calls"); set_l(t); d[0] = stp; set_d(d, 1); if (t != OPK_LNSRCH_SEARCH && r_bool()) break; }
  }
  OPK_DROP(ls);
  { double s[9]; opk_bool b = r_bool(); for (k = 0; k < 9; ++k) s[k] = wildf(); for (k = 0; k < 4; ++k) { t = opk_cstep(s, s+1, s+2, s+3, s+4, s+5, s+6, wildf(), wildf(), &b, s[7], s[8]); set_l(t + b); set_d(s, 7); } }
}
static double wf1(void* p, double x) { double v = x; (void)p; if (++w_calls > w_max) { w_armed = 0; siglongjmp(wj, 2); } set_d(&x, 1); return fkind == 4 ? (r_p(0.1) ? INFINITY : wild()) : wfun(1, &v, NULL); }
static void w_fmin(void) {
  double a = wild(), b = wild(), o[7]; int st = 0, gone = 0, i; obs("area-fmin"); w_calls = 0; w_max = 2000; for (i = 0; i < 7; ++i) o[i] = 0;
  GUARD(st = opk_fmin_with_context(wf1, a, b, (unsigned)r_int(0, 7), r_p(0.2) ? 0 : r_int(1, 100), r_p(0.5) ? -1 : fabs(wild()), o, NULL)); obs("calls");
  if (! gone) { set_l(st); if (st >= 0) set_d(o, 7); }
}
static double wfn(const opk_index n, const double* x, void* p) { (void)p; if (++w_calls > w_max) { w_armed = 0; siglongjmp(wj, 2); } set_d(x, n); if (fkind == 4) return wild(); return wfun(n, x, NULL); }
static double wfc(opk_index n, opk_index m, const double* x, double* c, void* p) { long i; for (i = 0; i < m; ++i) c[i] = (fkind & 1) ? 1e-3*x[i % n] + 1 : fmin(fmax(wild(), -1e100), 1e100); return fmin(fmax(wfn(n, x, p), -1e200), 1e200); }
static void w_powell(void) {
  long n = r_int(1, 4), m = r_int(0, 3), npt, wl, i, maxfun; double *x = ard(n), *xl = ard(n), *xu = ard(n), *scl = NULL, *w, rb, re; int which = (int)r_int(0, 2), st = 0, gone = 0, maxi = r_p(0.3); opk_index* ia;
  if (which != 2 && n < 2) n = 2;
  x = ard(n); xl = ard(n); xu = ard(n); npt = r_int(n + 2, (n + 1)*(n + 2)/2); obsf("area-%s", which == 0 ? "bobyqa" : which == 1 ? "newuoa" : "cobyla");
  rb = r_p(0.5) ? r_logu(1e-3, 10) : wildpos(1e-300, 1e100); re = rb*(r_p(0.1) ? 1 : r_logu(1e-8, 1)); maxfun = npt + r_int(1, 150); w_max = maxfun + 5; w_calls = 0;
  for (i = 0; i < n; ++i) { x[i] = r_bool() ? r_norm() : fmin(fmax(wild(), -1e150), 1e150); xl[i] = r_p(0.3) ? -DBL_MAX : x[i] - rb*r_range(0, 5); xu[i] = r_p(0.3) ? DBL_MAX : dmax(xl[i] + 2.0001*rb, x[i] + rb*r_range(0, 5)); }
  if (r_p(0.3)) { scl = ard(n); for (i = 0; i < n; ++i) scl[i] = r_bool() ? r_logu(0.1, 10) : wildpos(1e-100, 1e100); }
  if (which == 0) wl = (npt + 5)*(npt + n) + 3*n*(n + 5)/2 + (scl ? 3*n : 0); else if (which == 1) wl = (npt + 13)*(npt + n) + 3*n*(n + 3)/2 + (scl ? n : 0); else wl = n*(3*n + 2*m + 11) + 4*m + 6;
  w = ard(wl); ia = (opk_index*)ar((m + 1)*sizeof(opk_index)); for (i = 0; i < wl; ++i) w[i] = NAN;
#ifdef MSAN_BUILD
  __msan_poison(w, wl*sizeof(double)); __msan_poison(ia, (m + 1)*sizeof(opk_index));
#endif
  GUARD(st = which == 0 ? (int)bobyqa_optimize(n, npt, maxi, wfn, NULL, x, xl, xu, scl, rb, re, 0, maxfun, w) : which == 1 ? (int)newuoa_optimize(n, npt, maxi, wfn, NULL, x, scl, rb, re, 0, maxfun, w)
    : (int)cobyla_optimize(n, m, maxi, wfc, NULL, x, scl, rb, re, 0, maxfun, w, ia)); obs("calls");
  if (! gone) { set_l(st); set_d(x, n); obsf("status-%d", st); }
}
static void w_cg(void) {
  long n = r_int(1, 4), i, j, k; int form = (int)r_int(0, 2), single = r_bool(), pre = form > 0 && r_bool(); double A[4][4], M[4], rho[5], delta = wildpos(1e-300, 1e300); float frho[5]; opk_cg_state st = r_bool() ? OPK_CG_START : OPK_CG_RESTART;
  double *p = ard(n), *q = ard(n), *r = ard(n), *x = ard(n), *z = ard(n); float *fp = arf(n), *fq = arf(n), *fr = arf(n), *fx = arf(n), *fz = arf(n); obs("area-cg");
  for (i = 0; i < n; ++i) { for (j = 0; j <= i; ++j) A[i][j] = A[j][i] = r_p(0.5) ? (i == j)*wild() : wild(); M[i] = wild(); r[i] = wild(); fr[i] = (float)r[i]; x[i] = wild(); fx[i] = (float)x[i]; }
  if ((float)delta <= 0 || ! isfinite((float)delta)) delta = 1;
#ifdef MSAN_BUILD
  __msan_poison(p, n*8); __msan_poison(q, n*8); __msan_poison(z, n*8); __msan_poison(fp, n*4); __msan_poison(fq, n*4); __msan_poison(fz, n*4); if (st == OPK_CG_START) { __msan_poison(x, n*8); __msan_poison(fx, n*4); }
#endif
  for (k = 0; k < 30; ++k) {
    if (form == 0) { if (single) opk_slcg(n, fp, fq, fr, fx, frho, &st); else opk_dlcg(n, p, q, r, x, rho, &st); }
    else if (form == 1) { if (single) opk_splcg(n, fp, fq, fr, fx, pre ? fz : NULL, frho, &st); else opk_dplcg(n, p, q, r, x, pre ? z : NULL, rho, &st); }
    else { if (single) opk_strcg(n, fp, fq, fr, fx, pre ? fz : NULL, (float)delta, frho, &st); else opk_dtrcg(n, p, q, r, x, pre ? z : NULL, delta, rho, &st); }
    obs("calls"); set_l(st); if (single) { set_f(fx, n); set_f(fr, n); } else { set_d(x, n); set_d(r, n); }
    if (st == OPK_CG_AP) for (i = 0; i < n; ++i) { double s = 0; for (j = 0; j < n; ++j) s += A[i][j]*(single ? fp[j] : p[j]); q[i] = s; fq[i] = (float)s; }
    else if (st == OPK_CG_PRECOND) for (i = 0; i < n; ++i) { double s = M[i]*(single ? fr[i] : r[i]); z[i] = s; fz[i] = (float)s; }
    else if (st != OPK_CG_NEWX) { if (r_bool()) break; if (r_p(0.3)) st = (opk_cg_state)(r_bool() ? r_int(0, 1) : r_bool() ? r_int(8, 12) : -r_int(1, 3)); }
  }
}
static void w_gqt(void) {
  opk_index n = r_int(1, 4), lda = n + r_int(0, 1), i, j, it = 0, info; int gone = 0; obs("area-gqt");
  if (r_bool()) {
    double *A = ard(lda*n), *b = ard(n), *x = ard(n), *z = ard(n), *w1 = ard(n), *w2 = ard(n), par = r_bool() ? 0 : fabs(wild()), f = 0, delta = wildpos(1e-300, 1e300);
    for (j = 0; j < n; ++j) { for (i = 0; i <= j; ++i) A[i + j*lda] = wild(); b[j] = wild(); }
#ifdef MSAN_BUILD
    for (j = 0; j < n; ++j) for (i = j + 1; i < lda; ++i) __msan_poison(&A[i + j*lda], 8); __msan_poison(x, n*8); __msan_poison(z, n*8); __msan_poison(w1, n*8); __msan_poison(w2, n*8); __msan_poison(&f, 8); __msan_poison(&it, sizeof(it));
#endif
    GUARD(info = opk_dgqt(n, A, lda, b, delta, r_logu(1e-10, 0.9), fabs(wild()), r_int(0, 60), &par, &f, x, &it, z, w1, w2)); obs("calls");
    if (! gone) { set_l(info); set_d(x, n); set_d(&par, 1); set_d(&f, 1); set_l(it); }
    { double *R = ard(lda*n), s; for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) R[i + j*lda] = wild();
#ifdef MSAN_BUILD
      for (j = 0; j < n; ++j) for (i = j + 1; i < lda; ++i) __msan_poison(&R[i + j*lda], 8); __msan_poison(z, n*8);
#endif
      s = opk_destsv(n, R, lda, z); set_d(&s, 1); set_d(z, n); }
  } else {
    float *A = arf(lda*n), *b = arf(n), *x = arf(n), *z = arf(n), *w1 = arf(n), *w2 = arf(n), par = 0, f = 0, delta = (float)wildpos(1e-37, 1e37);
    for (j = 0; j < n; ++j) { for (i = 0; i <= j; ++i) A[i + j*lda] = (float)wild(); b[j] = (float)wild(); }
#ifdef MSAN_BUILD
    for (j = 0; j < n; ++j) for (i = j + 1; i < lda; ++i) __msan_poison(&A[i + j*lda], 4); __msan_poison(x, n*4); __msan_poison(z, n*4); __msan_poison(w1, n*4); __msan_poison(w2, n*4); __msan_poison(&f, 4); __msan_poison(&it, sizeof(it));
#endif
    GUARD(info = opk_sgqt(n, A, lda, b, delta, 0.01f, (float)fabs(wild()), r_int(0, 60), &par, &f, x, &it, z, w1, w2)); obs("calls");
    if (! gone) { set_l(info); set_f(x, n); set_f(&par, 1); set_f(&f, 1); set_l(it); }
    { float *R = arf(lda*n), s; for (j = 0; j < n; ++j) for (i = 0; i < lda; ++i) R[i + j*lda] = (float)wild();
      s = opk_sestsv(n, R, lda, z); set_f(&s, 1); set_f(z, n); }
  }
}
static void w_actor(void) { /* any actor, at its usual magnitudes */
  actor* a = actor_new((int)r_int(0, AK_COUNT - 1), r_u64(), (int)r_int(0, 3)); int lim = (int)r_int(1, 60); obsf("area-actor-%s", ak_name[a->kind]);
  opk_set_error_handler(act_handler); act_capture(1);
  while (a->nstep < lim && actor_step(a)) obs("calls");
  actor_finish(a); h_free(a); act_capture(0);
}
static void w_print(void) { /* printing functions and errors */
  static FILE* f; opk_vspace* s; hvec v; long n = r_int(1, 12), i; int single = r_bool(); char name[12]; obs("area-print");
  if (! f) f = fopen("/dev/null", "w");
  s = hv_space(single, n); v = hv_new(s, single, n, r_bool()); for (i = 0; i < n; ++i) hv_set(&v, i, wildf());
  snprintf(name, sizeof(name), "v%d", (int)r_int(0, 99));
  opk_vprint(f, r_bool() ? name : NULL, r_p(0.9) ? v.v : NULL, r_int(-2, n + 3)); obs("calls");
  hv_free(&v); OPK_DROP(s);
}
void run_case(uint64_t c) {
  static int init; if (! init++) { struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = w_alarm; sigaction(SIGVTALRM, &sa, NULL); }
  mode = (int)r_int(0, 8); fkind = (int)r_int(0, 6); obsf("magnitudes-%d", mode); hash_l(mode*8 + fkind); hash_l(c);
#ifndef MSAN_BUILD
  a_fill = (int)r_int(0, 255);
#endif
  switch (c % 10) { case 0: case 1: case 2: w_optimizer(); break; case 3: w_lnsrch(); break; case 4: w_fmin(); break; case 5: case 6: w_powell(); break; case 7: w_cg(); break; case 8: w_gqt(); break;
    default: if (r_p(0.8)) w_actor(); else w_print(); }
  nontrivial();
#ifndef NO_ALLOC_WRAP
  if (a_live != 0) viol("leak", "%ld blocks not released (area %d)", a_live, (int)(c % 10));
  if (a_unknown_free) { viol("free", "release of an unknown block (area %d)", (int)(c % 10)); a_unknown_free = 0; }
#endif
  a_fill = -1;
}
