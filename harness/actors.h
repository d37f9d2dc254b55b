/* actors.h -- independent users of the library (C10, C31).
 *
 * An actor performs, step by step, a sequence of calls on objects and arrays of
 * its own; everything it observes goes in a trace with one hash per step.  All
 * its choices come from its own random generator and from what the library
 * returns, so that its trace must only depend on its seed, whatever the others
 * do between two steps, or during the callbacks (actor_hook). */
#ifndef ACTORS_H
#define ACTORS_H 1
#include "optcommon.h"
#include "optimpack-linalg.h"
#include "bobyqa.h"
#include "newuoa.h"
#include "cobyla.h"

enum { AK_LOW, AK_DRIVER, AK_LNSRCH, AK_FMIN_DRIVEN, AK_FMIN_CALLBACK, AK_POWELL_DRIVEN, AK_POWELL_CALLBACK, AK_CG, AK_GQT, AK_CSTEP,
       AK_VECTOR, AK_BOX, AK_BLAS, AK_TEXT, AK_REFUSED, AK_KERNELS, AK_MISUSE, AK_OPERATOR, AK_VARIED, AK_COUNT };
static UNUSED const char* ak_name[AK_COUNT] = { "low-level", "driver", "line-search", "fmin-driven", "fmin-callback", "powell-driven",
  "powell-callback", "cg", "gqt", "cstep", "vector", "box", "blas", "text", "refused", "all-kernels", "misuse", "operator", "varied" };

#define ACT_MAXSTEP 160
typedef struct actor actor;
struct actor {
  int kind, id, ended, busy, nstep, wpat; long ncalls, nhooks, printed, errs;
  uint64_t rs[4], h, trace[ACT_MAXSTEP];
  void* mem[200]; int nmem;
  char what[200];
  int state; void* s;
};
static void (*actor_hook)(actor*) = NULL; /* called in the callbacks */
static __thread actor* act_cur; /* the actor whose step is being run by this thread */
static int act_spaces_shared = 0;

static void* amem(actor* a, size_t n) {
  if (a->nmem >= 200) HARNESS_BUG("too many blocks for an actor");
  return a->mem[a->nmem++] = h_alloc(n);
}
/* workspace or output array: contents which must not matter */
static void* awork(actor* a, size_t n) {
  unsigned char* p = (unsigned char*)amem(a, n); size_t i;
  for (i = 0; i < n; ++i) p[i] = a->wpat == 0 ? 0 : a->wpat == 1 ? 0xff : a->wpat == 2 ? (unsigned char)(37*i + 11) : 0x7f;
#ifdef MSAN_BUILD
  __msan_poison(p, n);
#endif
  return p;
}
static void ah_u(actor* a, uint64_t x) { a->h = (a->h ^ x)*0x9E3779B97F4A7C15ULL; a->h ^= a->h >> 31; }
static void ah_d(actor* a, double x) { uint64_t b; if (x != x) b = 0x7ff8000000000001ULL; else memcpy(&b, &x, 8); ah_u(a, b); }
static void ah_s(actor* a, const char* s) { for (; *s; ++s) ah_u(a, (unsigned char)*s); ah_u(a, 999); }
static void ah_v(actor* a, const double* x, long n) { long i; for (i = 0; i < n; ++i) ah_d(a, x[i]); }
static void hook(actor* a) {
  ++a->nhooks;
  if (actor_hook) { uint64_t s[4]; actor* c = act_cur; memcpy(s, r_s, sizeof(s)); actor_hook(a); memcpy(r_s, s, sizeof(s)); act_cur = c; }
}
/* What the library prints is part of the trace of the actor. */
static FILE *act_sink, *act_err;
static ssize_t act_write(void* cookie, const char* b, size_t n) { size_t i; (void)cookie;
#ifdef MSAN_BUILD
  __msan_unpoison((void*)b, n);
#endif
  if (act_cur) { for (i = 0; i < n; ++i) ah_u(act_cur, (unsigned char)b[i]); act_cur->printed += (long)n; }
  return (ssize_t)n; }
static void act_capture(int on) {
  if (act_sink == NULL) { cookie_io_functions_t f = { NULL, act_write, NULL, NULL }; act_sink = fopencookie(NULL, "w", f); setvbuf(act_sink, NULL, _IONBF, 0); }
  if (on) { fflush(stdout); if (! act_err) act_err = stderr; stdout = stderr = act_sink; } else { stdout = h_out; stderr = act_err; }
}

/*---------------------------------------------------------------- optimizers */
typedef struct { config C; problem P; lowopt O; hvec x, g; opk_optimizer* d; void *dx, *dg; opk_task task; int starts, left; double off; int shift; } act_opt;
static void ao_x0(actor* a, act_opt* S) {
  long i; config* C = &S->C; double v;
  for (i = 0; i < C->n; ++i) {
    v = S->starts == 0 ? C->x0[i] : cfg_round(C, r_norm()*2);
    if (S->d) { if (C->single) ((float*)S->dx)[i] = (float)v; else ((double*)S->dx)[i] = v; } else hv_set(&S->x, i, v);
  }
  S->task = S->d ? opk_start(S->d, S->dx) : low_start(&S->O, S->x.v);
  ++S->starts; (void)a;
}
static void ao_text(actor* a, act_opt* S) {
  char b[300];
  if (S->d) { opk_get_name(b, sizeof(b), S->d); ah_s(a, b); opk_get_description(b, sizeof(b), S->d); ah_s(a, b); }
  else if (S->O.v) { ah_s(a, opk_get_vmlmb_method_name(S->O.v)); opk_get_vmlmb_description(b, sizeof(b), S->O.v); ah_s(a, b); }
  else { opk_get_nlcg_name(b, sizeof(b), S->O.c); ah_s(a, b); opk_get_nlcg_description(b, sizeof(b), S->O.c); ah_s(a, b); }
}
static void ao_obs(actor* a, act_opt* S) {
  long i; config* C = &S->C;
  ah_u(a, S->task);
  for (i = 0; i < C->n; ++i) ah_d(a, S->d ? (C->single ? ((float*)S->dx)[i] : ((double*)S->dx)[i]) : hv_get(&S->x, i));
  if (S->d) { ah_u(a, opk_get_task(S->d)); ah_u(a, opk_get_status(S->d)); ah_u(a, opk_get_evaluations(S->d)); ah_u(a, opk_get_iterations(S->d)); ah_u(a, opk_get_restarts(S->d));
    ah_d(a, opk_get_step(S->d)); ah_d(a, opk_get_gnorm(S->d)); }
  else { ah_u(a, low_task(&S->O)); ah_u(a, low_status(&S->O)); ah_u(a, low_evals(&S->O)); ah_u(a, low_iters(&S->O)); ah_u(a, low_restarts(&S->O)); ah_d(a, low_step(&S->O)); ah_d(a, low_gnorm(&S->O));
    if (S->O.c) ah_d(a, opk_get_nlcg_beta(S->O.c));
    else { long j, mp = opk_get_vmlmb_mp(S->O.v); ah_u(a, mp);
      for (j = 1; j <= mp; ++j) { opk_vector* s = opk_get_vmlmb_s(S->O.v, j); opk_vector* y = opk_get_vmlmb_y(S->O.v, j); if (s) ah_d(a, opk_vnorm2(s)); if (y) ah_d(a, opk_vnorm2(y)); } } }
}
/* The objective function may be zero at the first point, or not finite somewhere. */
static double ao_shift(act_opt* S, double f) {
  if (S->shift == 1) { S->off = f; S->shift = 2; }
  if (S->shift == 2) f -= S->off;
  else if (S->shift == 3 && r_p(0.2)) f = r_bool() ? NAN : INFINITY;
  return f;
}
static void ao_step(actor* a) {
  act_opt* S = (act_opt*)a->s; config* C;
  if (a->state == 0) {
    S = (act_opt*)(a->s = amem(a, sizeof(*S))); C = &S->C; a->state = 1;
    cfg_random(C, 0); prob_make(&S->P, (int)r_int(0, PK_COUNT - 1), C->n, r_logu(1, 1e4), 1);
    cfg_describe(C, a->what, sizeof(a->what));
    if (a->kind == AK_LOW) { if (! low_new(&S->O, C)) HARNESS_BUG("no optimizer"); S->x = hv_new(S->O.space, C->single, C->n, r_bool()); S->g = hv_new(S->O.space, C->single, C->n, r_bool()); }
    else {
      opk_lnsrch* ls = cfg_lnsrch(C);
      if (C->lk == OPK_BOUND_VECTOR) C->lk = OPK_BOUND_STATIC_DOUBLE; if (C->uk == OPK_BOUND_VECTOR) C->uk = OPK_BOUND_VOLATILE_FLOAT;
      S->d = opk_new_optimizer(C->vmlmb ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, C->use_opts ? (C->vmlmb ? (void*)&C->vo : (void*)&C->no) : NULL,
        C->single ? OPK_FLOAT : OPK_DOUBLE, C->n, (opk_bound_type)C->lk, cfg_bound_addr(C, 0, NULL, NULL), (opk_bound_type)C->uk, cfg_bound_addr(C, 1, NULL, NULL), ls);
      OPK_DROP(ls);
      if (! S->d) HARNESS_BUG("no optimizer (%s)", a->what);
      S->dx = awork(a, C->n*sizeof(double)); S->dg = awork(a, C->n*sizeof(double));
    }
    ao_text(a, S); ao_x0(a, S); ao_obs(a, S); S->left = (int)r_int(0, 2); S->shift = r_p(0.15) ? 1 : r_p(0.05) ? 3 : 0; return;
  }
  C = &S->C;
  if ((S->task != OPK_TASK_COMPUTE_FG && S->task != OPK_TASK_NEW_X) || r_p(0.01)) {
    ao_text(a, S);
    if (S->left-- <= 0) { a->ended = 1; return; }
    ao_x0(a, S);
  } else {
    double xd[PMAXN], gd[PMAXN], f = 0; long i;
    if (S->d) {
      for (i = 0; i < C->n; ++i) xd[i] = C->single ? ((float*)S->dx)[i] : ((double*)S->dx)[i];
      f = ao_shift(S, prob_eval(&S->P, xd, gd));
      for (i = 0; i < C->n; ++i) if (C->single) ((float*)S->dg)[i] = (float)gd[i]; else ((double*)S->dg)[i] = gd[i];
      S->task = opk_iterate(S->d, S->dx, f, S->dg);
    } else { f = ao_shift(S, eval_at(&S->P, &S->x, &S->g)); S->task = low_iterate(&S->O, S->x.v, f, S->g.v); }
  }
  ao_obs(a, S);
}
static void ao_fin(actor* a) { act_opt* S = (act_opt*)a->s;
  if (S->d) opk_destroy_optimizer(S->d);
  else { hv_free(&S->x); hv_free(&S->g); low_free(&S->O); } }

/*---------------------------------------------------------------- line searches */
typedef struct { config C; opk_lnsrch* ls; int n, k; double c[5], stp, f, df, smin, smax; int dir; } act_ls;
static double als_f(act_ls* S, double t, double* d) { double u = t*S->c[4];
  *d = S->c[4]*(-S->c[0] + 2*S->c[1]*u + 4*S->c[2]*u*u*u + 3*S->c[3]*cos(3*u)); return -S->c[0]*u + S->c[1]*u*u + S->c[2]*u*u*u*u + S->c[3]*sin(3*u); }
static void als_step(actor* a) {
  act_ls* S = (act_ls*)a->s; double f, d; int t;
  if (a->state == 0) {
    S = (act_ls*)(a->s = amem(a, sizeof(*S))); a->state = 1;
    do cfg_random(&S->C, 0); while (S->C.ls == LS_DEFAULT);
    S->ls = cfg_lnsrch(&S->C); S->n = (int)r_int(1, 8); S->k = 0; snprintf(a->what, sizeof(a->what), "line search %s", ls_name[S->C.ls]);
    ah_u(a, opk_lnsrch_use_deriv(S->ls)); return;
  }
  if (S->k == 0) {
    if (S->n-- <= 0) { a->ended = 1; return; }
    S->c[0] = r_range(0.5, 3); S->c[1] = r_norm(); S->c[2] = r_range(0, 1); S->c[3] = r_p(0.5) ? 0 : r_range(0, 0.15); S->c[4] = r_logu(0.1, 10);
    S->stp = r_logu(0.01, 10); S->smin = 0; S->smax = r_logu(10, 1e6);
    f = als_f(S, 0, &d); t = opk_lnsrch_start(S->ls, f, d, S->stp, S->smin, S->smax); S->k = 1;
  } else { f = als_f(S, S->stp, &d); t = opk_lnsrch_iterate(S->ls, &S->stp, f, d); if (++S->k > 40) S->k = 0; }
  if (t != OPK_LNSRCH_SEARCH) S->k = 0;
  ah_u(a, t); ah_d(a, S->stp); ah_d(a, opk_lnsrch_get_step(S->ls)); ah_u(a, opk_lnsrch_get_task(S->ls)); ah_u(a, opk_lnsrch_get_status(S->ls));
  ah_u(a, opk_lnsrch_finished(S->ls)*8 + opk_lnsrch_converged(S->ls)*4 + opk_lnsrch_has_errors(S->ls)*2 + opk_lnsrch_has_warnings(S->ls));
}
static void als_fin(actor* a) { OPK_DROP(((act_ls*)a->s)->ls); }

/*---------------------------------------------------------------- one-dimensional minimization */
typedef struct fmin_ctx fmin_ctx;
extern fmin_ctx* opk_fmin_new(int method) __attribute__((weak));
extern void opk_fmin_destroy(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_start(fmin_ctx*, double, double, unsigned int) __attribute__((weak));
extern opk_fmin_task opk_fmin_next(fmin_ctx*, double*, double) __attribute__((weak));
extern opk_status opk_fmin_get_final(fmin_ctx*, double*, double*, double*, double*, double*, double*, long*) __attribute__((weak));
typedef struct { fmin_ctx* ctx; double x, f, c[3], a, b; int k, n; unsigned flags; actor* self; } act_fmin;
static double af_f(act_fmin* S, double x) { double u = x - S->c[0]; return u*u*S->c[1] + S->c[2]*sin(5*x); }
static void af_new(act_fmin* S) { S->c[0] = r_norm(); S->c[1] = r_logu(0.1, 10); S->c[2] = r_bool() ? 0 : r_norm(); S->a = r_norm()*3; S->b = S->a + r_norm()*3; S->flags = (unsigned)r_int(0, 3); }
static void afd_step(actor* a) {
  act_fmin* S = (act_fmin*)a->s; int t;
  if (a->state == 0) {
    S = (act_fmin*)(a->s = amem(a, sizeof(*S))); a->state = 1; snprintf(a->what, sizeof(a->what), "fmin driven");
    if (! (opk_fmin_new && opk_fmin_start && opk_fmin_next && opk_fmin_get_final && opk_fmin_destroy)) { a->ended = 1; return; }
    S->ctx = opk_fmin_new(0); S->n = (int)r_int(1, 4); S->k = 0; return; }
  if (S->k == 0) { if (S->n-- <= 0) { a->ended = 1; return; } af_new(S); t = opk_fmin_start(S->ctx, S->a, S->b, S->flags); S->x = 0.5; S->f = 0; S->k = 1; ah_u(a, t); return; }
  t = opk_fmin_next(S->ctx, &S->x, S->f); ah_u(a, t); ah_d(a, S->x);
  if (t == OPK_FMIN_FX && ++S->k < 60) S->f = af_f(S, S->x);
  else { double q[6]; long ne; ah_u(a, opk_fmin_get_final(S->ctx, q, q+1, q+2, q+3, q+4, q+5, &ne)); ah_v(a, q, 6); ah_u(a, ne); S->k = 0; }
}
static void afd_fin(actor* a) { act_fmin* S = (act_fmin*)a->s; if (S->ctx) opk_fmin_destroy(S->ctx); }
static double afc_ctx(void* p, double x) { act_fmin* S = (act_fmin*)p; double f; hook(S->self); f = af_f(S, x); ah_d(S->self, x); ah_d(S->self, f); return f; }
static __thread act_fmin* afc_cur;
static double afc_plain(double x) { act_fmin* S = afc_cur; double f; hook(S->self); afc_cur = S; f = af_f(S, x); ah_d(S->self, x); ah_d(S->self, f); return f; }
static void afc_step(actor* a) {
  act_fmin* S = (act_fmin*)a->s; double o[7]; int st, i; long me;
  if (a->state == 0) { S = (act_fmin*)(a->s = amem(a, sizeof(*S))); a->state = 1; S->self = a; S->n = (int)r_int(1, 6); snprintf(a->what, sizeof(a->what), "fmin callback"); return; }
  if (S->n-- <= 0) { a->ended = 1; return; }
  af_new(S); me = r_bool() ? 60 : r_int(1, 15); for (i = 0; i < 7; ++i) o[i] = 0;
  if (r_bool()) st = opk_fmin_with_context(afc_ctx, S->a, S->b, S->flags, me, -1, o, S); else { afc_cur = S; st = opk_fmin(afc_plain, S->a, S->b, S->flags, me, -1, o); }
  ah_u(a, st); ah_v(a, o, 7);
}

/*---------------------------------------------------------------- derivative-free solvers */
typedef struct { actor* self; int solver; long n, m, npt; double xs[6], w[6], ca[6][6], cb[6], x[6], c[7], rb, re; long maxfun, iprint; double quant; int rough; void* ctx; int st, left; } act_pw;
static double ap_f(act_pw* S, const double* x, double* c) {
  double f = 0; long i, j;
  for (i = 0; i < S->n; ++i) { double d = x[i] - S->xs[i]; f += S->w[i]*d*d + 0.1*S->w[0]*sin(3*d) + (i > 0 ? 0.3*d*(x[i-1] - S->xs[i-1]) : 0); }
  if (S->quant > 0) switch (S->rough) { /* flat, noisy, etc.: the rarely used parts of the solvers */
    case 0: f = rint(f/S->quant)*S->quant; break;
    case 1: { uint64_t h = 1469598103934665603ULL; for (i = 0; i < S->n; ++i) { uint64_t b; memcpy(&b, &x[i], 8); h = (h ^ b)*0x9E3779B97F4A7C15ULL; h ^= h >> 29; } f += S->quant*((double)(h >> 11)*0x1p-53 - 0.5); break; }
    case 2: f = 0; for (i = 0; i < S->n; ++i) f += (1 + i)*fabs(x[i] - S->xs[i]); break;
    default: f = 0; for (i = 0; i + 1 < S->n; ++i) { double u = x[i] - S->xs[i], v = x[i+1] - S->xs[i+1] - u*u; f += 10*v*v + (1 - u)*(1 - u); } }
  if (c) for (j = 0; j < S->m; ++j) { c[j] = S->cb[j]; for (i = 0; i < S->n; ++i) c[j] += S->ca[j][i]*(x[i] - S->xs[i]); }
  return f;
}
static void ap_new(actor* a, int driven) {
  act_pw* S; long i, j;
  S = (act_pw*)(a->s = amem(a, sizeof(*S))); S->self = a; a->state = 1;
  S->solver = driven ? (int)r_int(1, 2) : (int)r_int(0, 2); S->n = r_int(S->solver == 2 ? 1 : 2, 5); S->m = S->solver == 2 ? r_int(0, 5) : 0;
  S->npt = r_bool() ? 2*S->n + 1 : r_int(S->n + 2, (S->n + 1)*(S->n + 2)/2);
  for (i = 0; i < S->n; ++i) { S->xs[i] = r_norm(); S->w[i] = r_range(0.5, 5); S->x[i] = r_norm(); }
  for (j = 0; j < S->m; ++j) { S->cb[j] = r_range(0, 1); for (i = 0; i < S->n; ++i) S->ca[j][i] = r_norm(); }
  S->rb = r_range(0.05, 0.5); S->re = S->rb*r_logu(1e-5, 0.1); S->maxfun = S->npt + r_int(5, driven ? 120 : 60); S->left = (int)r_int(0, 2);
  S->iprint = r_p(0.85) ? 0 : r_int(1, 3); S->quant = r_p(0.65) ? 0 : r_logu(1e-9, 1); S->rough = (int)r_int(0, 3); if (S->quant > 0 && r_bool()) { S->maxfun = r_int(100, 400); S->re = S->rb*1e-7; }
  snprintf(a->what, sizeof(a->what), "%s %s n=%ld m=%ld npt=%ld maxfun=%ld", S->solver == 0 ? "bobyqa" : S->solver == 1 ? "newuoa" : "cobyla", driven ? "driven" : "callback", S->n, S->m, S->npt, S->maxfun);
}
static void apd_step(actor* a) {
  act_pw* S = (act_pw*)a->s; double f; long i, k;
#define PQ(x, y) (S->solver == 1 ? (x) : (y))
  if (a->state == 0) {
    ap_new(a, 1); S = (act_pw*)a->s;
    S->ctx = PQ((void*)newuoa_create(S->n, S->npt, S->rb, S->re, S->iprint, S->maxfun), (void*)cobyla_create(S->n, S->m, S->rb, S->re, S->iprint, S->maxfun));
    if (! S->ctx) HARNESS_BUG("no context %s", a->what);
    S->st = PQ((int)newuoa_get_status(S->ctx), (int)cobyla_get_status(S->ctx)); ah_u(a, S->st); return;
  }
  for (k = 0; k < 4; ++k) { /* several iterations per step */
    if (S->st != 1 || r_p(0.005)) {
      if (S->solver == 2) ah_d(a, cobyla_get_last_f(S->ctx));
      if (S->left-- <= 0) { a->ended = 1; return; }
      for (i = 0; i < S->n; ++i) S->x[i] = r_norm();
      S->st = PQ((int)newuoa_restart(S->ctx), (int)cobyla_restart(S->ctx));
    } else { f = ap_f(S, S->x, S->c); S->st = PQ((int)newuoa_iterate(S->ctx, f, S->x), (int)cobyla_iterate(S->ctx, f, S->x, S->c)); }
    ah_u(a, S->st); ah_v(a, S->x, S->n); ah_u(a, PQ(newuoa_get_nevals(S->ctx), cobyla_get_nevals(S->ctx))); ah_d(a, PQ(newuoa_get_rho(S->ctx), cobyla_get_rho(S->ctx)));
    ah_s(a, PQ(newuoa_reason((newuoa_status)S->st), cobyla_reason((cobyla_status)S->st)));
  }
}
static void apd_fin(actor* a) { act_pw* S = (act_pw*)a->s; if (S->solver == 1) newuoa_delete(S->ctx); else cobyla_delete(S->ctx); }
static double apc_f(const opk_index n, const double* x, void* p) { act_pw* S = (act_pw*)p; double f; hook(S->self); f = ap_f(S, x, NULL); ah_v(S->self, x, n); ah_d(S->self, f); return f; }
static double apc_fc(opk_index n, opk_index m, const double* x, double* c, void* p) { act_pw* S = (act_pw*)p; double f; (void)m; hook(S->self); f = ap_f(S, x, c); ah_v(S->self, x, n); ah_d(S->self, f); return f; }
static void apc_step(actor* a) {
  act_pw* S = (act_pw*)a->s; long i, n, m, npt, wl; int maxi; double *w, *scl = NULL, xl[6], xu[6]; opk_index* ia;
  if (a->state == 0) { ap_new(a, 0); return; }
  n = S->n; m = S->m; npt = S->npt; maxi = r_p(0.2);
  if (r_p(0.3)) { scl = (double*)amem(a, n*sizeof(double)); for (i = 0; i < n; ++i) scl[i] = r_logu(0.5, 2); }
  if (S->solver == 0) {
    { int tight = r_p(0.5); double wd = 0; /* just wide enough boxes, solution on the bounds */
      for (i = 0; i < n; ++i) { double d = S->rb*(scl ? scl[i] : 1); wd = 2*d*(tight ? r_logu(1.000001, 5) : r_range(2, 8)); xl[i] = tight && r_bool() ? S->xs[i] : S->xs[i] - r_range(0.05, 0.95)*wd; xu[i] = xl[i] + wd; }
      if (tight) { S->maxfun = r_int(100, 500); S->re = S->rb*1e-7; if (r_p(0.3)) { S->quant = 0; S->maxfun = r_int(300, 1200); for (i = 0; i < n; ++i) { S->w[i] = r_logu(1e-4, 1e6); S->x[i] = xl[i] + r_range(0, 1)*wd; } } } }
    wl = (npt + 5)*(npt + n) + 3*n*(n + 5)/2 + (scl ? 3*n : 0); w = (double*)awork(a, wl*sizeof(double)); w[0] = 0;
    S->st = bobyqa_optimize(n, npt, maxi, apc_f, S, S->x, xl, xu, scl, S->rb, S->re, S->iprint, S->maxfun, w);
  } else if (S->solver == 1) {
    wl = (npt + 13)*(npt + n) + 3*n*(n + 3)/2 + (scl ? n : 0); w = (double*)awork(a, wl*sizeof(double));
    S->st = newuoa_optimize(n, npt, maxi, apc_f, S, S->x, scl, S->rb, S->re, S->iprint, S->maxfun, w);
  } else {
    wl = n*(3*n + 2*m + 11) + 4*m + 6; w = (double*)awork(a, wl*sizeof(double)); ia = (opk_index*)awork(a, (m + 1)*sizeof(opk_index));
    S->st = cobyla_optimize(n, m, maxi, apc_fc, S, S->x, scl, S->rb, S->re, S->iprint, S->maxfun, w, ia);
  }
  ah_u(a, S->st); ah_v(a, S->x, n); if (S->st == 0) ah_d(a, w[0]);
  if (S->left-- <= 0) { a->ended = 1; return; }
  for (i = 0; i < n; ++i) S->x[i] = r_norm();
}

/*---------------------------------------------------------------- linear conjugate gradients */
typedef struct { int form, single; long n; double A[8][8], M[8]; double *p, *q, *r, *x, *z; float *fp, *fq, *fr, *fx, *fz; double rho[5], delta; float frho[5]; opk_cg_state st; int k, precond; } act_cg;
static void acg_step(actor* a) {
  act_cg* S = (act_cg*)a->s; long i, j, n; opk_cg_state prev;
  if (a->state == 0) {
    S = (act_cg*)(a->s = amem(a, sizeof(*S))); a->state = 1; S->form = (int)r_int(0, 2); S->single = r_bool(); n = S->n = r_int(1, 8); S->precond = S->form > 0 && r_bool();
    for (i = 0; i < n; ++i) { for (j = 0; j <= i; ++j) S->A[i][j] = S->A[j][i] = 0.4*r_norm()*(i != j); S->A[i][i] = r_p(0.05) ? -1 : r_range(1, 8); S->M[i] = r_range(0.3, 2); }
#define AL(v) S->v = (double*)awork(a, n*sizeof(double)); S->f##v = (float*)awork(a, n*sizeof(float));
    AL(p) AL(q) AL(r) AL(x)
    AL(z)
    for (i = 0; i < n; ++i) { double b = r_norm(), x0 = r_norm(); S->r[i] = b; S->fr[i] = (float)b; S->st = OPK_CG_START; S->x[i] = x0; S->fx[i] = (float)x0; }
    if (r_bool()) S->st = OPK_CG_RESTART;
    S->delta = r_logu(0.05, 50); S->k = 0; snprintf(a->what, sizeof(a->what), "%s%s n=%ld precond=%d", S->single ? "s" : "d", S->form == 0 ? "lcg" : S->form == 1 ? "plcg" : "trcg", n, S->precond);
    return;
  }
  n = S->n; prev = S->st;
  if (S->form == 0) { if (S->single) opk_slcg(n, S->fp, S->fq, S->fr, S->fx, S->frho, &S->st); else opk_dlcg(n, S->p, S->q, S->r, S->x, S->rho, &S->st); }
  else if (S->form == 1) { if (S->single) opk_splcg(n, S->fp, S->fq, S->fr, S->fx, S->precond ? S->fz : NULL, S->frho, &S->st); else opk_dplcg(n, S->p, S->q, S->r, S->x, S->precond ? S->z : NULL, S->rho, &S->st); }
  else { if (S->single) opk_strcg(n, S->fp, S->fq, S->fr, S->fx, S->precond ? S->fz : NULL, (float)S->delta, S->frho, &S->st); else opk_dtrcg(n, S->p, S->q, S->r, S->x, S->precond ? S->z : NULL, S->delta, S->rho, &S->st); }
  ah_u(a, S->st);
#define CV(v, i) (S->single ? (double)S->f##v[i] : S->v[i])
  for (i = 0; i < n; ++i) { ah_d(a, CV(x, i)); ah_d(a, CV(r, i)); }
  if (S->st == OPK_CG_AP) {
    for (i = 0; i < n; ++i) { double s = 0; for (j = 0; j < n; ++j) s += S->A[i][j]*CV(p, j); if (S->single) S->fq[i] = (float)s; else S->q[i] = s; ah_d(a, s); }
  } else if (S->st == OPK_CG_PRECOND) { for (i = 0; i < n; ++i) { double s = S->M[i]*CV(r, i); if (S->single) S->fz[i] = (float)s; else S->z[i] = s; } }
  else if (S->st != OPK_CG_NEWX) { a->ended = 1; }
  if (S->st == OPK_CG_NEWX && prev != OPK_CG_START && prev != OPK_CG_RESTART) ah_d(a, CV(rho, 2));
  if (++S->k > 100) a->ended = 1;
}

/*---------------------------------------------------------------- trust-region step */
static void agq_step(actor* a) {
  opk_index n = r_int(1, 7), lda = n + r_int(0, 2), i, j, it = -1; int single = r_bool(), info;
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "gqt"); }
  if (single) {
    float* A = (float*)awork(a, lda*n*sizeof(float)), *b = (float*)awork(a, n*sizeof(float)), *x = (float*)awork(a, n*sizeof(float)), *z = (float*)awork(a, n*sizeof(float)), *w1 = (float*)awork(a, n*sizeof(float)), *w2 = (float*)awork(a, n*sizeof(float)), par = 0, f = 0;
    for (j = 0; j < n; ++j) { for (i = 0; i <= j; ++i) A[i + j*lda] = (float)(r_norm() + (i == j)*r_range(-1, 4)); b[j] = (float)r_norm(); }
    info = opk_sgqt(n, A, lda, b, (float)r_logu(0.1, 10), 0.01f, 1e-6f, 50, &par, &f, x, &it, z, w1, w2);
    for (i = 0; i < n; ++i) ah_d(a, x[i]); ah_d(a, par); ah_d(a, f);
  } else {
    double* A = (double*)awork(a, lda*n*sizeof(double)), *b = (double*)awork(a, n*sizeof(double)), *x = (double*)awork(a, n*sizeof(double)), *z = (double*)awork(a, n*sizeof(double)), *w1 = (double*)awork(a, n*sizeof(double)), *w2 = (double*)awork(a, n*sizeof(double)), par = 0, f = 0;
    for (j = 0; j < n; ++j) { for (i = 0; i <= j; ++i) A[i + j*lda] = r_norm() + (i == j)*r_range(-1, 4); b[j] = r_norm(); }
    info = opk_dgqt(n, A, lda, b, r_logu(0.1, 10), 0.01, 1e-6, 50, &par, &f, x, &it, z, w1, w2);
    ah_v(a, x, n); ah_d(a, par); ah_d(a, f);
  }
  ah_u(a, info); ah_u(a, it);
  if (a->nmem > 180 || r_p(0.05)) a->ended = 1;
}
static void acs_step(actor* a) {
  double stx = 0, fx = r_norm(), dx = -r_range(0.1, 2), sty = 0, fy = fx, dy = dx, stp = r_range(0.1, 4), smin = 0, smax = 10; opk_bool br = FALSE; int k;
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "cstep"); }
  for (k = 0; k < 4; ++k) {
    double fp = fx + r_norm(), dp = r_norm(); int st = opk_cstep(&stx, &fx, &dx, &sty, &fy, &dy, &stp, fp, dp, &br, smin, smax);
    ah_u(a, st*2 + br); ah_d(a, stx); ah_d(a, fx); ah_d(a, dx); ah_d(a, sty); ah_d(a, fy); ah_d(a, dy); ah_d(a, stp);
    if (st < 0) break; if (br) { smin = dmin(stx, sty); smax = dmax(stx, sty); } else { smin = stp; smax = stp + 4*(stp - stx); if (smax < smin) break; }
  }
  if (r_p(0.02)) a->ended = 1;
}

/*---------------------------------------------------------------- vectors, sets, kernels, texts */
typedef struct { int single; long n; opk_vspace* sp; hvec v[4]; opk_convexset* box; double lo[40], hi[40]; float flo[40], fhi[40]; } act_vec;
static void av_step(actor* a) {
  act_vec* S = (act_vec*)a->s; long i, k, n; int x, y, z;
  if (a->state == 0) {
    S = (act_vec*)(a->s = amem(a, sizeof(*S))); a->state = 1; S->single = r_bool(); n = S->n = r_int(1, 40); S->sp = low_space_hook ? low_space_hook(S->single, n) : hv_space(S->single, n);
    for (k = 0; k < 4; ++k) { S->v[k] = hv_new(S->sp, S->single, n, r_bool()); opk_vfill(S->v[k].v, r_norm()); for (i = 0; i < n; ++i) if (r_bool()) hv_set(&S->v[k], i, r_norm()); }
    if (a->kind == AK_BOX) {
      for (i = 0; i < n; ++i) { S->lo[i] = r_p(0.1) ? -INFINITY : r_norm(); S->hi[i] = r_p(0.1) ? INFINITY : dmax(S->lo[i], r_norm()); }
      { static const opk_bound_type bt[] = { OPK_BOUND_NONE, OPK_BOUND_SCALAR_FLOAT, OPK_BOUND_SCALAR_DOUBLE, OPK_BOUND_STATIC_FLOAT, OPK_BOUND_STATIC_DOUBLE, OPK_BOUND_VOLATILE_FLOAT, OPK_BOUND_VOLATILE_DOUBLE };
        int bl = (int)r_int(0, 6), bh = (int)r_int(0, 6); double slo = -r_range(0, 2), shi = r_range(0, 2); float fslo = (float)slo, fshi = (float)shi;
        if ((bl == 1 || bl == 2) != (bh == 1 || bh == 2)) { if (bl == 1 || bl == 2) bl = 0; else if (bh == 1 || bh == 2) bh = 0; }
        for (i = 0; i < n; ++i) { S->flo[i] = (float)S->lo[i]; S->fhi[i] = (float)S->hi[i]; if (S->single || bl == 3 || bl == 5 || bh == 3 || bh == 5) { S->lo[i] = S->flo[i]; S->hi[i] = S->fhi[i]; } }
        S->box = opk_new_boxset(S->sp, bt[bl], bl == 0 ? NULL : bl == 1 ? (void*)&fslo : bl == 2 ? (void*)&slo : bl == 3 || bl == 5 ? (void*)S->flo : (void*)S->lo,
          bt[bh], bh == 0 ? NULL : bh == 1 ? (void*)&fshi : bh == 2 ? (void*)&shi : bh == 3 || bh == 5 ? (void*)S->fhi : (void*)S->hi); }
      if (! S->box) HARNESS_BUG("no box"); }
    snprintf(a->what, sizeof(a->what), "%s n=%ld single=%d", ak_name[a->kind], n, S->single); return;
  }
  n = S->n;
  for (k = 0; k < 3; ++k) {
    opk_vector* v[4]; double c1 = r_p(0.2) ? r_int(-1, 1) : r_norm(), c2 = r_p(0.2) ? r_int(-1, 1) : r_norm(), s1 = 0, s2 = 0, s3 = 0; for (i = 0; i < 4; ++i) v[i] = S->v[i].v;
    x = (int)r_int(0, 3); y = (int)r_int(0, 3); z = (int)r_int(0, 3);
    if (a->kind == AK_BOX && r_p(0.6)) {
      opk_orientation o = r_bool() ? OPK_ASCENT : OPK_DESCENT;
      switch (r_int(0, 3)) {
      case 0: ah_u(a, opk_project_variables(v[x], v[y], S->box)); break;
      case 1: opk_project_variables(v[y], v[y], S->box); ah_u(a, opk_project_direction(v[z == y ? (y + 1)%4 : z], v[y], S->box, v[(y + 2)%4], o)); break;
      case 2: opk_project_variables(v[y], v[y], S->box); ah_u(a, opk_get_free_variables(v[(y + 1)%4], v[y], S->box, v[(y + 2)%4], o)); break;
      default: opk_project_variables(v[y], v[y], S->box); ah_u(a, opk_get_step_limits(&s1, &s2, &s3, v[y], S->box, v[(y + 2)%4], o)); ah_d(a, s1); ah_d(a, s2); ah_d(a, s3);
      }
    } else switch (r_int(0, 14)) {
      case 0: opk_vzero(v[x]); break; case 1: opk_vfill(v[x], c1); break; case 2: opk_vcopy(v[x], v[y]); break; case 3: opk_vscale(v[x], c1, v[y]); break;
      case 4: opk_vswap(v[x], v[y]); break; case 5: ah_d(a, opk_vdot(v[x], v[y])); break; case 6: ah_d(a, opk_vdot3(v[x], v[y], v[z])); break;
      case 7: ah_d(a, opk_vnorm2(v[x])); ah_d(a, opk_vnorm1(v[x])); ah_d(a, opk_vnorminf(v[x])); break; case 8: opk_vproduct(v[x], v[y], v[z]); break;
      case 9: opk_vaxpby(v[x], c1, v[y], c2, v[z]); break; case 10: opk_vaxpbypcz(v[x], c1, v[y], c2, v[z], r_p(0.3) ? (double)r_int(-1, 1) : c1, v[r_int(0, 3)]); break;
      case 11: i = r_int(0, n - 1); ah_u(a, opk_vpoke(v[x], i, c1)); ah_u(a, opk_vpeek(v[x], i, &s1)); ah_d(a, s1); break;
      case 12: { double d[40]; float f[40]; int dbl = r_bool(); ah_u(a, opk_vexport(dbl ? (void*)d : (void*)f, dbl ? OPK_DOUBLE : OPK_FLOAT, n, v[x])); for (i = 0; i < n; ++i) ah_d(a, dbl ? d[i] : (double)f[i]);
        ah_u(a, opk_vimport(v[y], dbl ? (void*)d : (void*)f, dbl ? OPK_DOUBLE : OPK_FLOAT, n)); break; }
      case 13: opk_vprint(r_bool() ? NULL : stdout, r_bool() ? "v" : NULL, v[x], r_int(0, 5)); break;
      default: for (i = 0; i < n; ++i) hv_set(&S->v[x], i, r_norm()); }
    for (x = 0; x < 4; ++x) for (i = 0; i < n; ++i) { double d = hv_get(&S->v[x], i); ah_d(a, d); if (! (fabs(d) < 1e15)) hv_set(&S->v[x], i, 1); }
  }
}
static void av_fin(actor* a) { act_vec* S = (act_vec*)a->s; int k; for (k = 0; k < 4; ++k) hv_free(&S->v[k]); OPK_DROP(S->box); OPK_DROP(S->sp); }
static void ab_step(actor* a) {
  double A[25], B[25], C[25], x[5], y[5]; float fx[5], fy[5]; long i, n = r_int(1, 5);
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "kernels"); }
  for (i = 0; i < 25; ++i) { A[i] = r_norm(); B[i] = r_norm(); C[i] = r_norm(); } for (i = 0; i < 5; ++i) { x[i] = r_norm(); y[i] = r_norm(); A[6*i] += 3; fx[i] = (float)x[i]; fy[i] = (float)y[i]; }
  ah_d(a, opk_dnrm2(n, x, 1)); ah_d(a, opk_dasum(n, x, 1)); ah_d(a, opk_ddot(n, x, 1, y, -1)); ah_d(a, opk_snrm2(n, fx, 1)); ah_d(a, opk_sdot(n, fx, 1, fy, 1)); ah_u(a, opk_idamax(n, x, 1));
  opk_dgemv(r_bool() ? OPK_BLAS_TRANS : OPK_BLAS_NO_TRANS, n, n, r_norm(), A, 5, x, 1, r_bool() ? 0 : 1, y, 1); ah_v(a, y, n);
  opk_dtrsv(OPK_BLAS_UPPER, OPK_BLAS_NO_TRANS, OPK_BLAS_NON_UNIT, n, A, 5, x, 1); ah_v(a, x, n);
  opk_dgemm(OPK_BLAS_NO_TRANS, OPK_BLAS_TRANS, n, n, n, 1.5, A, 5, B, 5, 0.5, C, 5); ah_v(a, C, 25);
  opk_dsyrk(OPK_BLAS_LOWER, OPK_BLAS_NO_TRANS, n, n, 1, A, 5, 0, B, 5); ah_v(a, B, 25); ah_u(a, opk_dpotf2(OPK_BLAS_LOWER, n, B, 5)); ah_v(a, B, 25);
  ah_d(a, opk_destsv(n, A, 5, y)); ah_v(a, y, n);
  if (r_p(0.02)) a->ended = 1;
}
#define KN(op) opk_d##op
#define KT double
#define KF ak_double
#define KIAMAX opk_idamax
#include "actkern.h"
#define KN(op) opk_s##op
#define KT float
#define KF ak_float
#define KIAMAX opk_isamax
#include "actkern.h"
static void ak2_step(actor* a) {
  int k;
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "all kernels"); }
  for (k = 0; k < 4; ++k) if (r_bool()) ak_double(a); else ak_float(a);
  if (r_p(0.02)) a->ended = 1;
}
static void at_step(actor* a) {
  static const char* names[] = { "OPK_SUCCESS", "OPK_TASK_NEW_X", "OPK_NLCG_HAGER_ZHANG", "OPK_FLOAT", "NOTHING", "OPK_BOUND_VECTOR" }; long v = -5; char b[40]; int e = errno, c = (int)r_int(-12, 40);
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "texts"); }
  ah_s(a, opk_get_reason((opk_status)c)); ah_s(a, bobyqa_reason((bobyqa_status)-(c % 12))); ah_s(a, newuoa_reason((newuoa_status)-(c % 12))); ah_s(a, cobyla_reason((cobyla_status)-(c % 12)));
  ah_u(a, opk_get_integer_constant(names[r_int(0, 5)], &v)); ah_u(a, v); ah_u(a, opk_copy_string(b, r_int(1, 40), opk_get_reason((opk_status)c))); ah_s(a, b); ah_u(a, opk_guess_status(c)); errno = e;
  if (r_p(0.02)) a->ended = 1;
}

static void ae_step(actor* a) { /* creations which are refused, with their error codes */
  int w = (int)r_int(0, 9), bad = r_bool(); void* p = NULL; opk_vspace* sp = hv_space(r_bool(), r_int(1, 5)); opk_vmlmb_options vo; opk_nlcg_options no; double lo[5] = { 1, 1, 1, 1, 1 };
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "refused creations"); }
  opk_get_vmlmb_default_options(&vo); opk_get_nlcg_default_options(&no); if (bad) { vo.mem = -1; no.delta = -1; }
  errno = 0;
  switch (w) {
  case 0: p = opk_new_simple_double_vector_space(bad ? -3 : 4); break;
  case 1: p = opk_new_simple_float_vector_space(bad ? 0 : 4); break;
  case 2: p = opk_lnsrch_new_csrch(bad ? -1 : 1e-4, 0.1, 1e-10); break;
  case 3: p = opk_lnsrch_new_backtrack(1e-4, bad ? 2 : 0.1); break;
  case 4: p = opk_lnsrch_new_nonmonotone(bad ? 0 : 3, 1e-4, 0.1, 0.9); break;
  case 5: p = opk_new_vmlmb_optimizer(&vo, sp, NULL, NULL); break;
  case 6: p = opk_new_nlcg_optimizer(&no, sp, NULL); break;
  case 7: p = opk_new_boxset(sp, bad ? (opk_bound_type)77 : OPK_BOUND_SCALAR_DOUBLE, lo, OPK_BOUND_NONE, NULL); break;
  case 8: p = opk_vcreate(bad ? NULL : sp); break;
  default: { opk_optimizer* d = opk_new_optimizer(bad ? (opk_algorithm)9 : OPK_ALGORITHM_NLCG, NULL, OPK_DOUBLE, 3, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL); ah_u(a, d == NULL); if (! d) ah_u(a, errno); opk_destroy_optimizer(d); } }
  ah_u(a, p == NULL); if (p == NULL && bad) ah_u(a, errno);
  opk_drop_object((opk_object*)p); OPK_DROP(sp); ah_u(a, opk_check_vmlmb_options(&vo)); ah_u(a, opk_check_nlcg_options(&no));
}

/*---------------------------------------------------------------- incorrect use, error handler */
static void act_handler(const char* reason) { if (act_cur) { ah_s(act_cur, reason); ++act_cur->errs; } }
typedef struct { opk_vspace* sp[2]; opk_vector* v[2]; opk_vmlmb* vm; opk_nlcg* cg; opk_optimizer* d; opk_lnsrch* ls; opk_convexset* box; double dx[6], dg[6]; } act_mis;
static void am_step(actor* a) {
  act_mis* S = (act_mis*)a->s; int k; double s1 = 7, s2 = 7; opk_vspace* other; opk_vmlmb_options vo; opk_nlcg_options no;
  if (a->state == 0) {
    double lo = -1, hi = 1; S = (act_mis*)(a->s = amem(a, sizeof(*S))); a->state = 1; snprintf(a->what, sizeof(a->what), "incorrect use");
    S->sp[0] = hv_space(1, 4); S->sp[1] = hv_space(0, 4); for (k = 0; k < 2; ++k) { S->v[k] = opk_vcreate(S->sp[k]); opk_vfill(S->v[k], k + 1); }
    S->box = opk_new_boxset(S->sp[1], OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi); S->vm = opk_new_vmlmb_optimizer(NULL, S->sp[1], NULL, S->box); S->cg = opk_new_nlcg_optimizer(NULL, S->sp[1], NULL);
    S->ls = opk_lnsrch_new_csrch(1e-4, 0.5, 1e-10); S->d = opk_new_optimizer(r_bool() ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, NULL, OPK_DOUBLE, 4, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
    if (! S->box || ! S->vm || ! S->cg || ! S->ls || ! S->d) HARNESS_BUG("no object"); return; }
  for (k = 0; k < 5; ++k) {
    opk_vector *p = S->v[1], *q = S->v[0]; int w = (int)r_int(0, 35);
    ah_u(a, w); errno = 0;
    switch (w) {
    case 0: opk_vcopy(p, q); break; case 1: opk_vswap(p, q); break; case 2: opk_vscale(p, 2, q); break; case 3: ah_d(a, opk_vdot(p, q)); break; case 4: ah_d(a, opk_vdot3(p, q, p)); break;
    case 5: opk_vproduct(p, q, p); break; case 6: opk_vaxpby(p, 2, p, 3, q); break; case 7: opk_vaxpbypcz(p, 2, p, 3, q, 4, p); break;
    case 8: ah_u(a, opk_vpeek(p, r_bool() ? -1 : 4, &s1)); break; case 9: ah_u(a, opk_vpoke(p, 4, 1)); break; case 10: ah_u(a, opk_vimport(p, S->dx, OPK_DOUBLE, 5)); ah_u(a, opk_vexport(NULL, OPK_DOUBLE, 4, p)); break;
    case 11: ah_u(a, opk_project_variables(p, q, S->box)); break; case 12: ah_u(a, opk_project_direction(p, p, S->box, q, OPK_ASCENT)); break; case 13: ah_u(a, opk_get_free_variables(q, p, S->box, p, OPK_DESCENT)); break;
    case 14: ah_u(a, opk_get_step_limits(&s1, &s2, NULL, p, S->box, q, OPK_ASCENT)); break;
    case 15: ah_u(a, opk_start_vmlmb(S->vm, r_bool() ? NULL : q)); break; case 16: ah_u(a, opk_start_nlcg(S->cg, r_bool() ? NULL : q)); break; case 17: ah_u(a, opk_start(S->d, r_bool() ? NULL : S->dx)); break;
    case 18: ah_u(a, opk_iterate_vmlmb(S->vm, p, 1, q)); break; case 19: ah_u(a, opk_iterate_nlcg(S->cg, q, 1, p)); break; case 20: ah_u(a, opk_iterate(S->d, S->dx, 1, r_bool() ? NULL : S->dg)); break;
    case 21: ah_u(a, opk_lnsrch_start(S->ls, 1, r_bool() ? 1 : -1, 1, 0, 2)); break; case 22: s1 = 1; ah_u(a, opk_lnsrch_iterate(S->ls, r_bool() ? NULL : &s1, 1, -1)); break;
    case 23: ah_u(a, opk_rewrap_simple_double_vector(q, S->dx, NULL, NULL)); ah_u(a, errno); ah_u(a, opk_get_simple_double_vector_data(p) != NULL); ah_u(a, opk_get_simple_float_vector_data(p) != NULL); break;
    case 24: opk_get_vmlmb_default_options(&vo); vo.delta = -1; ah_u(a, opk_check_vmlmb_options(&vo)); ah_u(a, opk_new_vmlmb_optimizer(&vo, S->sp[1], NULL, NULL) != NULL); ah_u(a, errno); break;
    case 25: opk_get_nlcg_default_options(&no); no.flags = 99; ah_u(a, opk_check_nlcg_options(&no)); ah_u(a, opk_new_nlcg_optimizer(&no, S->sp[1], NULL) != NULL); ah_u(a, errno); break;
    case 26: ah_u(a, opk_new_vmlmb_optimizer(NULL, S->sp[0], NULL, S->box) != NULL); ah_u(a, errno); break;
    case 27: ah_u(a, opk_new_optimizer(OPK_ALGORITHM_NLCG, NULL, OPK_DOUBLE, 3, OPK_BOUND_SCALAR_DOUBLE, &s1, OPK_BOUND_NONE, NULL, NULL) != NULL); ah_u(a, errno); break;
    case 28: ah_d(a, opk_get_step(NULL)); ah_d(a, opk_get_gnorm(NULL)); ah_u(a, opk_get_task(NULL)); ah_u(a, opk_get_status(NULL)); ah_u(a, opk_get_evaluations(NULL)); ah_u(a, opk_get_iterations(NULL)); ah_u(a, opk_get_restarts(NULL)); break;
    case 29: ah_u(a, newuoa_create(1, 3, 1, 0.1, 0, 10) != NULL); ah_u(a, errno); break; case 30: ah_u(a, cobyla_create(0, 3, 1, 0.1, 0, 10) != NULL); ah_u(a, errno); break;
    case 31: ah_u(a, newuoa_get_nevals(NULL)); ah_u(a, cobyla_get_nevals(NULL)); ah_d(a, cobyla_get_rho(NULL)); ah_u(a, errno); break;
    case 32: other = hv_space(0, 4); ah_u(a, opk_new_boxset(other, OPK_BOUND_VECTOR, p, OPK_BOUND_NONE, NULL) != NULL); ah_u(a, errno); OPK_DROP(other); break;
    case 33: ah_u(a, opk_start_vmlmb(S->vm, p)); ah_u(a, opk_get_vmlmb_status(S->vm)); break; case 34: ah_u(a, opk_start_nlcg(S->cg, p)); break;
    default: ah_u(a, opk_start(S->d, S->dx)); }
    { long i; for (i = 0; i < 4; ++i) { opk_vpeek(p, i, &s2); ah_d(a, s2); opk_vpeek(q, i, &s2); ah_d(a, s2); } }
    ah_u(a, opk_get_vmlmb_task(S->vm)*64 + opk_get_vmlmb_status(S->vm)); ah_u(a, opk_get_nlcg_task(S->cg)*64 + opk_get_nlcg_status(S->cg)); ah_u(a, opk_get_task(S->d)*64 + opk_get_status(S->d));
  }
  if (r_p(0.02)) a->ended = 1;
}
static void am_fin(actor* a) { act_mis* S = (act_mis*)a->s; int k; OPK_DROP(S->vm); OPK_DROP(S->cg); OPK_DROP(S->ls); OPK_DROP(S->box); opk_destroy_optimizer(S->d); for (k = 0; k < 2; ++k) { OPK_DROP(S->v[k]); OPK_DROP(S->sp[k]); } }

/*---------------------------------------------------------------- small things of all kinds */
extern double opk_fmin_get_precision(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_set_precision(fmin_ctx*, double) __attribute__((weak));
extern unsigned int opk_fmin_get_flags(fmin_ctx*) __attribute__((weak));
extern int opk_fmin_get_status(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_get_initial(fmin_ctx*, double*, double*, unsigned int*) __attribute__((weak));
static void avar_free(void* p) { ++*(long*)p; }
static void avar_step(actor* a) {
  int w = (int)r_int(0, 7); long i;
  if (a->state == 0) { a->state = 1; a->s = amem(a, 8); snprintf(a->what, sizeof(a->what), "varied"); }
  ah_u(a, w); errno = 0;
  switch (w) {
  case 0: { double lo = -r_range(0, 1), hi = r_range(0, 1); opk_vspace* sp = hv_space(r_bool(), r_int(1, 5)); opk_convexset* b = r_p(0.2) ? NULL : opk_new_boxset(sp, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &hi);
    ah_u(a, opk_can_project_variables(b)); ah_u(a, opk_can_project_directions(b)); ah_u(a, opk_can_get_free_variables(b)); ah_u(a, opk_can_get_step_limits(b)); OPK_DROP(b); OPK_DROP(sp); break; }
  case 1: case 2: { long n = r_int(1, 6), freed[2] = { 0, 0 }; double d[2][6]; float f[2][6]; opk_vspace* sp = hv_space(w == 1, n); opk_vector* v; for (i = 0; i < 6; ++i) { d[0][i] = f[0][i] = (float)r_norm(); d[1][i] = f[1][i] = (float)r_norm(); }
    v = w == 1 ? opk_wrap_simple_float_vector(sp, f[0], avar_free, &freed[0]) : opk_wrap_simple_double_vector(sp, d[0], avar_free, &freed[0]); if (! v) HARNESS_BUG("no vector");
    ah_d(a, opk_vnorm2(v)); if (w == 1) { ah_u(a, opk_get_simple_float_vector_client_data(v) == &freed[0]); ah_u(a, opk_get_simple_float_vector_free_client_data(v) == avar_free); ah_u(a, opk_get_simple_float_vector_data(v) == f[0]); }
    else { ah_u(a, opk_get_simple_double_vector_client_data(v) == &freed[0]); ah_u(a, opk_get_simple_double_vector_free_client_data(v) == avar_free); ah_u(a, opk_get_simple_double_vector_data(v) == d[0]); }
    if (r_bool()) { ah_u(a, w == 1 ? opk_rewrap_simple_float_vector(v, f[1], avar_free, &freed[1]) : opk_rewrap_simple_double_vector(v, d[1], avar_free, &freed[1])); ah_d(a, opk_vnorm2(v)); }
    opk_vprint(r_bool() ? NULL : stdout, r_bool() ? "w" : NULL, r_p(0.2) ? NULL : v, r_int(-1, 8)); OPK_DROP(v); ah_u(a, freed[0]); ah_u(a, freed[1]); OPK_DROP(sp); break; }
  case 3: if (opk_fmin_new && opk_fmin_get_precision && opk_fmin_set_precision && opk_fmin_get_flags && opk_fmin_get_status && opk_fmin_get_initial) { fmin_ctx* c = r_p(0.1) ? NULL : opk_fmin_new(0); double q[2] = { 0, 0 }; unsigned fl = 0;
      ah_d(a, opk_fmin_get_precision(c)); if (c) { ah_u(a, opk_fmin_set_precision(c, r_range(-0.2, 1)*1e-4)); ah_u(a, opk_fmin_start(c, 3, r_p(0.1) ? NAN : 1, (unsigned)r_int(0, 3))); }
      ah_u(a, opk_fmin_get_flags(c)); ah_u(a, opk_fmin_get_status(c)); ah_u(a, opk_fmin_get_initial(c, &q[0], &q[1], &fl)); ah_d(a, q[0]); ah_d(a, q[1]); ah_u(a, fl); ah_u(a, opk_fmin_next(c, r_p(0.2) ? NULL : &q[0], 1)); if (c) opk_fmin_destroy(c); } break;
  case 4: { opk_vmlmb_options vo; opk_nlcg_options no; opk_get_vmlmb_default_options(&vo); opk_get_nlcg_default_options(&no); ah_d(a, vo.delta); ah_d(a, vo.gatol); ah_u(a, vo.mem); ah_d(a, no.delta); ah_u(a, no.flags); ah_u(a, opk_check_vmlmb_options(NULL)); ah_u(a, opk_check_nlcg_options(NULL)); break; }
  case 5: { double o[7]; int k = (int)r_int(0, 5), st; for (i = 0; i < 7; ++i) o[i] = 0; act_fmin S; memset(&S, 0, sizeof(S)); af_new(&S); S.self = a;
      st = opk_fmin_with_context(afc_ctx, S.a, k == 1 ? NAN : S.b, S.flags, k == 2 ? -1 : 30, k == 3 ? 0.01 : k == 4 ? NAN : -1, o, &S); ah_u(a, st); ah_v(a, o, 7); break; }
  case 6: { opk_lnsrch* l = r_bool() ? opk_lnsrch_new_csrch(1e-4, 0.5, 1e-10) : r_bool() ? opk_lnsrch_new_backtrack(1e-4, 0.2) : opk_lnsrch_new_nonmonotone(3, 1e-4, 0.1, 0.9); double s = 1; if (! l) HARNESS_BUG("no line search");
      ah_u(a, opk_lnsrch_start(l, r_p(0.2) ? NAN : 1, r_p(0.3) ? 1 : -1, r_p(0.2) ? -1 : 1, r_p(0.2) ? 3 : 0, 2)); ah_u(a, opk_lnsrch_get_status(l)); ah_u(a, opk_lnsrch_has_errors(l)); ah_u(a, opk_lnsrch_iterate(l, &s, r_p(0.2) ? NAN : 3, -1)); ah_d(a, s); ah_u(a, opk_lnsrch_get_status(l)); ah_s(a, opk_get_reason(opk_lnsrch_get_status(l))); OPK_DROP(l); break; }
  default: { char b[12]; opk_vmlmb* o; opk_vspace* sp = hv_space(r_bool(), 2); o = opk_new_vmlmb_optimizer(NULL, sp, NULL, NULL); if (! o) HARNESS_BUG("no optimizer");
      ah_u(a, opk_get_vmlmb_method(o)); memset(b, 0, sizeof(b)); ah_u(a, opk_get_vmlmb_description(b, r_int(1, 12), o)); ah_s(a, b); ah_u(a, opk_get_vmlmb_s(o, r_int(-1, 9)) == NULL); ah_u(a, opk_get_vmlmb_y(o, r_int(-1, 9)) == NULL); OPK_DROP(o); OPK_DROP(sp); }
  }
  if (r_p(0.02)) a->ended = 1;
}

/*---------------------------------------------------------------- operators */
static opk_status aop_apply(opk_operator* op, opk_vector* dst, const opk_vector* src) { (void)op; if (act_cur) hook(act_cur); opk_vscale(dst, 2, src); return OPK_SUCCESS; }
static opk_status aop_adj(opk_operator* op, opk_vector* dst, const opk_vector* src) { (void)op; if (act_cur) hook(act_cur); opk_vscale(dst, 3, src); return OPK_SUCCESS; }
static opk_status aop_inv(opk_operator* op, opk_vector* dst, const opk_vector* src) { (void)op; (void)dst; (void)src; if (act_cur) hook(act_cur); return OPK_WOULD_BLOCK; }
static void aop_final(opk_operator* op) { (void)op; if (act_cur) ++act_cur->errs; }
static opk_operator_operations aop_ops[2] = { { aop_final, aop_apply, aop_adj, aop_inv }, { NULL, aop_apply, NULL, NULL } };
typedef struct { opk_vspace* sp; opk_vector *x, *y; opk_operator* op; } act_op;
static void aop_step(actor* a) {
  act_op* S = (act_op*)a->s; double v; int k = a->state == 0 ? r_bool() : 0;
  if (a->state == 0) { S = (act_op*)(a->s = amem(a, sizeof(*S))); a->state = 1; snprintf(a->what, sizeof(a->what), "operator %d", k); S->sp = hv_space(r_bool(), 3);
    S->x = opk_vcreate(S->sp); S->y = opk_vcreate(S->sp); opk_vfill(S->x, r_norm()); opk_vzero(S->y); S->op = opk_allocate_operator(&aop_ops[k], S->sp, S->sp, 0); if (! S->op) HARNESS_BUG("no operator"); return; }
  switch (r_int(0, 4)) { case 0: ah_u(a, opk_apply_direct(S->op, S->y, S->x)); break; case 1: ah_u(a, opk_apply_adjoint(S->op, S->y, S->x)); break; case 2: ah_u(a, opk_apply_inverse(S->op, S->y, S->x)); break;
  case 3: { opk_operator* o = S->op; S->op = (opk_operator*)opk_hold_object((opk_object*)o); ah_u(a, opk_get_object_references((opk_object*)o)); opk_drop_object((opk_object*)o); break; }
  default: opk_vfill(S->x, r_norm()); }
  opk_vpeek(S->y, 1, &v); ah_d(a, v);
  if (r_p(0.03)) a->ended = 1;
}
static void aop_fin(actor* a) { act_op* S = (act_op*)a->s; OPK_DROP(S->op); OPK_DROP(S->x); OPK_DROP(S->y); OPK_DROP(S->sp); }
static void (*act_steps[AK_COUNT])(actor*) = { ao_step, ao_step, als_step, afd_step, afc_step, apd_step, apc_step, acg_step, agq_step, acs_step, av_step, av_step, ab_step, at_step, ae_step, ak2_step, am_step, aop_step, avar_step };
static void (*act_fins[AK_COUNT])(actor*) = { ao_fin, ao_fin, als_fin, afd_fin, NULL, apd_fin, NULL, NULL, NULL, NULL, av_fin, av_fin, NULL, NULL, NULL, NULL, am_fin, aop_fin, NULL };

/*---------------------------------------------------------------- life of an actor */
static UNUSED actor* actor_new(int kind, uint64_t seed, int wpat) {
  actor* a = (actor*)h_alloc(sizeof(actor)); uint64_t s[4];
  a->kind = kind; a->wpat = wpat;
  memcpy(s, r_s, sizeof(s)); r_init(seed, 4242); memcpy(a->rs, r_s, sizeof(s)); memcpy(r_s, s, sizeof(s));
  return a;
}
/* One step; FALSE if there is none any more. */
static UNUSED int actor_step(actor* a) {
  uint64_t s[4]; actor* cur = act_cur;
  if (a->ended || a->nstep >= ACT_MAXSTEP) { a->ended = 1; return 0; }
  if (a->busy) HARNESS_BUG("busy actor");
  a->busy = 1; memcpy(s, r_s, sizeof(s)); memcpy(r_s, a->rs, sizeof(s));
  a->h = 14695981039346656037ULL;
  act_cur = a; act_steps[a->kind](a); act_cur = cur;
  memcpy(a->rs, r_s, sizeof(s)); memcpy(r_s, s, sizeof(s)); a->busy = 0;
  a->trace[a->nstep++] = a->h;
  return ! a->ended;
}
static UNUSED void actor_finish(actor* a) { /* release its objects, keep its trace */
  if (a->s && act_fins[a->kind]) act_fins[a->kind](a);
  while (a->nmem > 0) h_free(a->mem[--a->nmem]);
  a->s = NULL; a->ended = 1;
}
#endif
