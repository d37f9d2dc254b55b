/* optcommon.h -- problems and configurations for the optimizers. */
#ifndef OPTCOMMON_H
#define OPTCOMMON_H 1
#include "vutil.h"

#define PMAXN 160
enum { PK_QUAD, PK_LOGCOSH, PK_ROSEN, PK_COS, PK_QUARTIC, PK_LINEAR, PK_FLAT, PK_EXP,
       PK_ABS, PK_INDEF, PK_WELL, PK_COUNT };
static UNUSED const char* pk_name[PK_COUNT] = { "quadratic", "quadratic+logcosh", "rosenbrock",
  "cosine", "quartic", "linear", "flat", "exponential", "absolute", "indefinite", "wells" };

typedef struct {
  int kind; long n;
  double A[PMAXN][PMAXN];
  double xs[PMAXN];   /* center (minimizer without bounds for the convex kinds) */
  double c[PMAXN];    /* linear term */
  double off;         /* constant */
  double mu, L;       /* extreme eigenvalues of A */
  double w;           /* weight of the additional term */
  long nevals;
} problem;

/* Random symmetric matrix with given eigenvalues (product of reflections). */
static UNUSED void rnd_spd(double A[PMAXN][PMAXN], long n, const double* ev) {
  long i, j, k, r;
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) A[i][j] = (i == j ? ev[i] : 0);
  for (r = 0; r < (n < 2 ? 0 : 3); ++r) {
    double u[PMAXN], s = 0, v[PMAXN], t;
    for (i = 0; i < n; ++i) { u[i] = r_norm(); s += u[i]*u[i]; }
    s = 2/s;
    /* A <- (I - s u u') A (I - s u u') */
    for (i = 0; i < n; ++i) { t = 0; for (k = 0; k < n; ++k) t += A[i][k]*u[k]; v[i] = t; }
    t = 0; for (i = 0; i < n; ++i) t += u[i]*v[i];
    for (i = 0; i < n; ++i) for (j = 0; j < n; ++j)
      A[i][j] += -s*u[i]*v[j] - s*v[i]*u[j] + s*s*t*u[i]*u[j];
  }
  for (i = 0; i < n; ++i) for (j = 0; j < i; ++j) A[i][j] = A[j][i] = 0.5*(A[i][j] + A[j][i]);
}
static UNUSED void prob_make(problem* P, int kind, long n, double cond, double scale) {
  long i; double ev[PMAXN];
  memset(P, 0, sizeof(*P));
  P->kind = kind; P->n = n;
  for (i = 0; i < n; ++i) ev[i] = (n == 1 ? 1 : exp(log(cond)*i/(n - 1.0)));
  if (r_bool()) for (i = 0; i < n; ++i) ev[i] = exp(log(cond)*r_unif());
  P->mu = ev[0]; P->L = ev[0];
  for (i = 0; i < n; ++i) {
    ev[i] *= scale;
    if (kind == PK_INDEF && (i == n - 1 || r_p(0.3))) ev[i] = -ev[i];
  }
  P->mu = P->L = ev[0];
  for (i = 0; i < n; ++i) { P->mu = dmin(P->mu, ev[i]); P->L = dmax(P->L, ev[i]); }
  rnd_spd(P->A, n, ev);
  for (i = 0; i < n; ++i) { P->xs[i] = r_norm()*2; P->c[i] = r_norm(); }
  P->off = r_p(0.3) ? 0 : r_norm()*3;
  P->w = r_logu(0.1, 10);
}
/* x: variables; g: gradient; both as double. */
static UNUSED double prob_eval(problem* P, const double* x, double* g) {
  long n = P->n, i, j; double f = 0, z[PMAXN];
  ++P->nevals;
  for (i = 0; i < n; ++i) { z[i] = x[i] - P->xs[i]; g[i] = 0; }
  switch (P->kind) {
  case PK_QUAD: case PK_LOGCOSH: case PK_INDEF: case PK_COS:
    for (i = 0; i < n; ++i) {
      double t = 0;
      for (j = 0; j < n; ++j) t += P->A[i][j]*z[j];
      g[i] = t; f += 0.5*t*z[i];
    }
    if (P->kind == PK_LOGCOSH) {
      for (i = 0; i < n; ++i) {
        double a = fabs(z[i]);
        f += P->w*(a + log1p(exp(-2*a)) - M_LN2);
        g[i] += P->w*tanh(z[i]);
      }
    } else if (P->kind == PK_COS) {
      for (i = 0; i < n; ++i) {
        f += P->w*3*(1 - cos(2*z[i]));
        g[i] += P->w*6*sin(2*z[i]);
      }
    }
    break;
  case PK_ROSEN:
    if (n == 1) { f = z[0]*z[0]; g[0] = 2*z[0]; break; }
    for (i = 0; i + 1 < n; ++i) {
      double a = x[i+1] - x[i]*x[i], b = 1 - x[i];
      f += 10*P->w*a*a + b*b;
      g[i] += -40*P->w*a*x[i] - 2*b;
      g[i+1] += 20*P->w*a;
    }
    break;
  case PK_QUARTIC:
    for (i = 0; i < n; ++i) {
      double z2 = z[i]*z[i];
      f += P->w*z2*z2 + 0.1*z2; g[i] = 4*P->w*z2*z[i] + 0.2*z[i];
    }
    break;
  case PK_LINEAR:
    for (i = 0; i < n; ++i) { f += P->c[i]*x[i]; g[i] = P->c[i]; }
    break;
  case PK_WELL: /* xs is a maximum */
    for (i = 0; i < n; ++i) {
      double a = P->w*(1 + i%3), z2 = z[i]*z[i];
      f += a*(0.25*z2 - 0.5)*z2; g[i] = a*(z2 - 1)*z[i];
    }
    break;
  case PK_FLAT: break;
  case PK_EXP:
    for (i = 0; i < n; ++i) {
      double a = 3*P->w, e1 = exp(a*z[i]), e2 = exp(-a*z[i]);
      f += e1 + e2 - 2; g[i] = a*(e1 - e2);
    }
    break;
  case PK_ABS:
    for (i = 0; i < n; ++i) {
      f += (1 + i)*fabs(z[i]); g[i] = (1 + i)*(z[i] > 0 ? 1 : z[i] < 0 ? -1 : 0);
    }
    break;
  }
  return f + P->off;
}

/* Additional linear term: P must be PK_QUAD/PK_LOGCOSH/PK_QUARTIC. */
static UNUSED double prob_eval_lin(problem* P, const double* lin, const double* x, double* g) {
  double f = prob_eval(P, x, g); long i;
  for (i = 0; i < P->n; ++i) { f += lin[i]*(x[i] - P->xs[i]); g[i] += lin[i]; }
  return f;
}

/*---------------------------------------------------------------- configurations */
enum { LS_DEFAULT, LS_CSRCH, LS_BACKTRACK, LS_NONMONOTONE };
static UNUSED const char* ls_name[4] = { "default", "csrch", "backtrack", "nonmonotone" };
typedef struct {
  int vmlmb;            /* else nlcg */
  int single;
  long n;
  int use_opts;         /* else NULL options */
  opk_vmlmb_options vo;
  opk_nlcg_options no;
  int ls; double ftol, gtol, xtol, amin, s1, s2; long lm;
  int lk, uk;           /* kinds of bounds (low level or driver) */
  double lo[PMAXN], hi[PMAXN]; /* bounds, in the precision of the variables */
  double x0[PMAXN];
  /* storage for bounds */
  double dl[PMAXN], du[PMAXN]; float fl[PMAXN], fu[PMAXN];
} config;

static UNUSED opk_lnsrch* cfg_lnsrch(const config* C) {
  opk_lnsrch* ls = NULL;
  switch (C->ls) {
  case LS_DEFAULT: return NULL;
  case LS_CSRCH: ls = opk_lnsrch_new_csrch(C->ftol, C->gtol, C->xtol); break;
  case LS_BACKTRACK: ls = opk_lnsrch_new_backtrack(C->ftol, C->amin); break;
  case LS_NONMONOTONE: ls = opk_lnsrch_new_nonmonotone(C->lm, C->ftol, C->s1, C->s2); break;
  }
  if (ls == NULL && a_failed == 0) HARNESS_BUG("no line search");
  return ls;
}
static UNUSED double cfg_ftol(const config* C) {
  return C->ls == LS_DEFAULT ? 1e-4 : C->ftol;
}
static UNUSED int cfg_ls_effective(const config* C) {
  if (C->ls != LS_DEFAULT) return C->ls;
  return (C->vmlmb && (C->lk || C->uk)) ? LS_BACKTRACK : LS_CSRCH;
}
static UNUSED double cfg_round(const config* C, double x) { return C->single ? (double)(float)x : x; }
static UNUSED int cfg_bounded(const config* C) { return C->lk || C->uk; }

/* Choose bounds kinds and values. pkinds: allow which kinds. */
static UNUSED void cfg_bounds(config* C, int lk, int uk, double width) {
  long i, n = C->n; double l0 = r_norm()*width, u0 = l0 + fabs(r_norm())*2*width + 0.01*width;
  int slk = lk == OPK_BOUND_SCALAR_FLOAT || lk == OPK_BOUND_SCALAR_DOUBLE;
  int suk = uk == OPK_BOUND_SCALAR_FLOAT || uk == OPK_BOUND_SCALAR_DOUBLE;
  int anyf = C->single || (lk & 1) || (uk & 1);
  if (lk == OPK_BOUND_VECTOR && uk == OPK_BOUND_VECTOR) anyf = C->single;
  C->lk = lk; C->uk = uk;
  for (i = 0; i < n; ++i) {
    double l, u;
    if (slk && suk) { l = l0; u = u0; }
    else if (slk) { l = l0; u = r_p(0.08) ? l0 : l0 + fabs(r_norm())*2*width; }
    else if (suk) { u = u0; l = r_p(0.08) ? u0 : u0 - fabs(r_norm())*2*width; }
    else { l = r_norm()*width; u = r_p(0.08) ? l : l + fabs(r_norm())*2*width; }
    if (lk && ! slk && r_p(0.1)) l = -INFINITY;
    if (uk && ! suk && r_p(0.1)) u = INFINITY;
    if (anyf) { l = (float)l; u = (float)u; }
    C->dl[i] = l; C->du[i] = u; C->fl[i] = (float)l; C->fu[i] = (float)u;
    C->lo[i] = lk ? l : -INFINITY; C->hi[i] = uk ? u : INFINITY;
  }
}
static UNUSED void* cfg_bound_addr(config* C, int upper, hvec* hv, opk_vspace* space) {
  int k = upper ? C->uk : C->lk; long i;
  if (k == OPK_BOUND_NONE) return NULL;
  if (k == OPK_BOUND_VECTOR) {
    *hv = hv_new(space, C->single, C->n, r_bool());
    for (i = 0; i < C->n; ++i) hv_set(hv, i, upper ? C->du[i] : C->dl[i]);
    return hv->v;
  }
  if (k & 1) return upper ? C->fu : C->fl;
  return upper ? C->du : C->dl;
}

#define CF_VMLMB   1
#define CF_NLCG    2
#define CF_BOUND   4    /* force bounds */
#define CF_NOBOUND 8
#define CF_NICE    16   /* only settings with which convergence is expected */
static UNUSED void cfg_random(config* C, int flags) {
  long n;
  memset(C, 0, sizeof(*C));
  if ((flags & (CF_VMLMB|CF_NLCG)) == (CF_VMLMB|CF_NLCG) || (flags & (CF_VMLMB|CF_NLCG)) == 0)
    C->vmlmb = r_bool();
  else C->vmlmb = (flags & CF_VMLMB) != 0;
  if (flags & CF_BOUND) C->vmlmb = 1;
  C->single = r_p(0.35);
  n = r_p(0.12) ? 1 : r_p(0.2) ? 2 : r_int(2, 12);
  if (r_p(0.05)) n = r_p(0.1) ? r_int(41, PMAXN) : r_int(20, 40);
  C->n = n;
  C->use_opts = r_p(0.85);
  opk_get_vmlmb_default_options(&C->vo);
  opk_get_nlcg_default_options(&C->no);
  if (C->use_opts) {
    double delta = r_bool() ? 5e-2 : r_logu(1e-4, 1);
    double epsilon = r_p(0.6) ? 0 : r_logu(1e-4, (flags & CF_NICE) ? 1e-2 : 0.9);
    double grtol = r_p(0.3) ? 0 : C->single ? r_logu(1e-4, 0.5) : r_logu(1e-9, 0.5);
    double gatol = r_p(0.6) ? 0 : r_logu(1e-6, 1);
    double stpmin = r_p(0.7) ? 1e-20 : r_p(0.5) ? 0 : r_logu(1e-8, 1e-2);
    double stpmax = r_p(0.7) ? 1e20 : r_logu(1.0, 1e6);
    if (flags & CF_NICE) {
      grtol = C->single ? r_logu(1e-3, 1e-2) : r_logu(1e-7, 1e-3);
      gatol = 0; stpmin = 1e-20; stpmax = 1e20; delta = 5e-2;
    }
    C->vo.delta = C->no.delta = delta; C->vo.epsilon = C->no.epsilon = epsilon;
    C->vo.grtol = C->no.grtol = grtol; C->vo.gatol = C->no.gatol = gatol;
    C->vo.stpmin = C->no.stpmin = stpmin; C->vo.stpmax = C->no.stpmax = stpmax;
    C->vo.mem = r_p(0.3) ? 1 : r_int(1, n > 50 ? 60 : n + 3);
    C->vo.blmvm = r_bool(); C->vo.save_memory = r_bool();
    C->no.flags = r_p(0.05) ? 0 : (unsigned)r_int(1, 8) | (r_bool() ? OPK_NLCG_POWELL : 0)
      | (r_bool() ? OPK_NLCG_SHANNO_PHUA : 0);
    if (! (flags & CF_NICE) && r_p(0.2)) { C->no.fmin_given = 1; C->no.fmin = r_norm()*5; }
  } else if ((flags & CF_NICE) && C->single) {
    C->use_opts = 1; C->vo.grtol = C->no.grtol = 1e-3;
  }
  switch (r_int(0, 4)) {
  case 0: case 1: C->ls = LS_DEFAULT; break;
  case 2: C->ls = LS_CSRCH; break;
  case 3: C->ls = LS_BACKTRACK; break;
  default: C->ls = LS_NONMONOTONE; break;
  }
  if ((flags & CF_NICE) && ! C->vmlmb && C->ls >= LS_BACKTRACK) C->ls = LS_CSRCH;
  if (C->ls == LS_CSRCH) {
    C->ftol = r_bool() ? 1e-4 : r_logu(1e-5, 0.1);
    C->gtol = r_bool() ? 0.1 : r_range(C->ftol, 0.95);
    if (C->vmlmb && r_bool()) C->gtol = 0.9;
    if ((flags & CF_NICE) && ! C->vmlmb) C->gtol = r_range(0.02, 0.2);
    C->xtol = r_bool() ? DBL_EPSILON : r_logu(1e-15, 1e-6);
  } else {
    C->ftol = r_bool() ? 1e-4 : r_logu(1e-5, 0.2);
    C->amin = r_bool() ? 0.1 : r_range(0.01, 0.9);
    C->s1 = 0.1; C->s2 = 0.9; C->lm = r_int(1, 8);
    if (r_p(0.3)) { C->s1 = r_range(0.01, 0.4); C->s2 = r_range(0.5, 0.99); }
  }
  if (C->vmlmb && ! (flags & CF_NOBOUND) && ((flags & CF_BOUND) || r_p(0.6))) {
    int lk, uk;
    do { lk = (int)r_int(0, 7); uk = (int)r_int(0, 7); } while (lk == 0 && uk == 0);
    cfg_bounds(C, lk, uk, r_p(0.3) ? r_logu(1e-3, 1e3) : 1);
  } else {
    long i; for (i = 0; i < n; ++i) { C->lo[i] = -INFINITY; C->hi[i] = INFINITY; }
  }
  { long i; double sc = r_p(0.2) ? r_logu(1e-3, 1e3) : 2;
    for (i = 0; i < n; ++i) {
      double v = r_p(0.05) ? 0 : r_norm()*sc;
      if (cfg_bounded(C) && r_p(0.3)) { /* on a bound */
        if (r_bool() && ! isinf(C->lo[i])) v = C->lo[i];
        else if (! isinf(C->hi[i])) v = C->hi[i];
      }
      C->x0[i] = cfg_round(C, v);
    }
    if (r_p(0.05)) for (i = 0; i < n; ++i) C->x0[i] = 0;
  }
}
static UNUSED void cfg_describe(const config* C, char* buf, size_t size) {
  if (C->vmlmb)
    snprintf(buf, size, "vmlmb single=%d n=%ld mem=%ld blmvm=%d save=%d eps=%g grtol=%g gatol=%g delta=%g stpmin=%g stpmax=%g opts=%d ls=%s bounds=%d,%d",
             C->single, C->n, (long)C->vo.mem, C->vo.blmvm, C->vo.save_memory, C->vo.epsilon, C->vo.grtol, C->vo.gatol,
             C->vo.delta, C->vo.stpmin, C->vo.stpmax, C->use_opts, ls_name[C->ls], C->lk, C->uk);
  else
    snprintf(buf, size, "nlcg single=%d n=%ld flags=0x%x eps=%g grtol=%g gatol=%g delta=%g stpmin=%g stpmax=%g fmin=%d,%g opts=%d ls=%s",
             C->single, C->n, C->no.flags, C->no.epsilon, C->no.grtol, C->no.gatol, C->no.delta, C->no.stpmin, C->no.stpmax,
             C->no.fmin_given, C->no.fmin, C->use_opts, ls_name[C->ls]);
}

/*---------------------------------------------------------------- low level optimizer */
typedef struct {
  int vmlmb;
  opk_vmlmb* v; opk_nlcg* c;
  opk_vspace* space; opk_lnsrch* ls; opk_convexset* box;
  hvec bl, bu;
} lowopt;
static opk_vspace* (*low_space_hook)(int single, long n) = NULL;
static UNUSED int low_new(lowopt* O, config* C) {
  memset(O, 0, sizeof(*O));
  O->vmlmb = C->vmlmb;
  O->space = low_space_hook ? low_space_hook(C->single, C->n) : hv_space(C->single, C->n);
  O->ls = cfg_lnsrch(C);
  if (cfg_bounded(C)) {
    void* l = cfg_bound_addr(C, 0, &O->bl, O->space);
    void* u = cfg_bound_addr(C, 1, &O->bu, O->space);
    O->box = opk_new_boxset(O->space, (opk_bound_type)C->lk, l, (opk_bound_type)C->uk, u);
    if (O->box == NULL) HARNESS_BUG("no box");
  }
  if (C->vmlmb) O->v = opk_new_vmlmb_optimizer(C->use_opts ? &C->vo : NULL, O->space, O->ls, O->box);
  else O->c = opk_new_nlcg_optimizer(C->use_opts ? &C->no : NULL, O->space, O->ls);
  return O->v != NULL || O->c != NULL;
}
static UNUSED void low_free(lowopt* O) {
  if (O->v) OPK_DROP(O->v);
  if (O->c) OPK_DROP(O->c);
  if (O->ls) OPK_DROP(O->ls);
  if (O->box) OPK_DROP(O->box);
  if (O->bl.v) hv_free(&O->bl);
  if (O->bu.v) hv_free(&O->bu);
  OPK_DROP(O->space);
  memset(O, 0, sizeof(*O));
}
static UNUSED opk_task low_start(lowopt* O, opk_vector* x) {
  return O->v ? opk_start_vmlmb(O->v, x) : opk_start_nlcg(O->c, x); }
static UNUSED opk_task low_iterate(lowopt* O, opk_vector* x, double f, opk_vector* g) {
  return O->v ? opk_iterate_vmlmb(O->v, x, f, g) : opk_iterate_nlcg(O->c, x, f, g); }
static UNUSED opk_task low_task(lowopt* O) { return O->v ? opk_get_vmlmb_task(O->v) : opk_get_nlcg_task(O->c); }
static UNUSED opk_status low_status(lowopt* O) { return O->v ? opk_get_vmlmb_status(O->v) : opk_get_nlcg_status(O->c); }
static UNUSED long low_evals(lowopt* O) { return O->v ? opk_get_vmlmb_evaluations(O->v) : opk_get_nlcg_evaluations(O->c); }
static UNUSED long low_iters(lowopt* O) { return O->v ? opk_get_vmlmb_iterations(O->v) : opk_get_nlcg_iterations(O->c); }
static UNUSED long low_restarts(lowopt* O) { return O->v ? opk_get_vmlmb_restarts(O->v) : opk_get_nlcg_restarts(O->c); }
static UNUSED double low_step(lowopt* O) { return O->v ? opk_get_vmlmb_step(O->v) : opk_get_nlcg_step(O->c); }
static UNUSED double low_gnorm(lowopt* O) { return O->v ? opk_get_vmlmb_gnorm(O->v) : opk_get_nlcg_gnorm(O->c); }

/* Evaluate the problem at x (vector) and store g (vector). */
static UNUSED double eval_at(problem* P, hvec* x, hvec* g) {
  double xd[PMAXN], gd[PMAXN], f; long i;
  for (i = 0; i < P->n; ++i) xd[i] = hv_get(x, i);
  f = prob_eval(P, xd, gd);
  for (i = 0; i < P->n; ++i) hv_set(g, i, gd[i]);
  return f;
}
#endif
