/* fmin.c -- one-dimensional minimization without derivatives (C17). */
#include "common.h"
#include "optimpack.h"

/* The caller-driven form is exported but not declared in the header. */
typedef struct fmin_ctx fmin_ctx;
extern fmin_ctx* opk_fmin_new(int method) __attribute__((weak));
extern void opk_fmin_destroy(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_set_precision(fmin_ctx*, double) __attribute__((weak));
extern double opk_fmin_get_precision(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_start(fmin_ctx*, double, double, unsigned int) __attribute__((weak));
extern double opk_fmin_get_precision(fmin_ctx*) __attribute__((weak));
extern unsigned int opk_fmin_get_flags(fmin_ctx*) __attribute__((weak));
extern opk_fmin_task opk_fmin_get_status(fmin_ctx*) __attribute__((weak));
extern opk_status opk_fmin_get_initial(fmin_ctx*, double*, double*, unsigned int*) __attribute__((weak));
extern opk_fmin_task opk_fmin_next(fmin_ctx*, double*, double) __attribute__((weak));
extern opk_status opk_fmin_get_final(fmin_ctx*, double*, double*, double*, double*, double*, double*, long*) __attribute__((weak));

enum { K_ABS, K_SQ, K_QUART, K_COSH, K_ASYM, K_STEP, K_MULTI, K_COS, K_FLAT, K_BARRIER, K_LINEAR, K_NOISE, K_COUNT };
static const char* kname[K_COUNT] = { "abs", "square", "quartic", "log-cosh", "asymmetric", "step", "multimodal", "cosine",
                                      "flat", "barrier", "linear", "noise" };
static struct { int kind; double m, s, off; uint64_t salt; } F;
static double fval(double x) {
  double u = x - F.m;
  switch (F.kind) {
  case K_ABS: return F.off + F.s*fabs(u);
  case K_SQ: return u*u;
  case K_QUART: return u*u*u*u;
  case K_COSH: u = fabs(u)*F.s; return u > 20 ? u - M_LN2 : log(cosh(u));
  case K_ASYM: return u > 0 ? F.s*u : -u;
  case K_STEP: return floor(fabs(u)*F.s);
  case K_MULTI: return fabs(x - 12.7)*(x + 5.2)*(x - 4.8);
  case K_COS: return cos(F.s*x);
  case K_FLAT: return F.off;
  case K_BARRIER: return fabs(u) > F.s ? INFINITY : u*u;
  case K_LINEAR: return F.s*x;
  default: { uint64_t b; memcpy(&b, &x, 8); b = (b ^ F.salt)*0x9E3779B97F4A7C15ULL; b ^= b >> 29; b *= 0xbf58476d1ce4e5b9ULL;
      return (double)(b >> 40)*0x1p-24; }
  }
}
#define MAXREC 20000
static struct { double x, f; } R[MAXREC]; static long nr;
static double A, B; static unsigned FL; static long ME; static double PR; static char txt[400];
static double rec(double x) {
  double f;
  if (nr >= MAXREC) { viol("endless", "more than %d evaluations: %s", MAXREC, txt); _exit(10); }
  f = fval(x); R[nr].x = x; R[nr].f = f; ++nr;
  /* Admissible point: */
  if (isnan(x)) viol("nan-point", "function evaluated at NaN: %s", txt);
  if ((FL & OPK_FMIN_BOUNDED_BY_A) && !(A < B ? x > A : x < A))
    viol("bound-a", "evaluation %ld at %.17g, not on the proper side of excluded bound a: %s", nr, x, txt);
  if ((FL & OPK_FMIN_BOUNDED_BY_B) && !(A < B ? x < B : x > B))
    viol("bound-b", "evaluation %ld at %.17g, not on the proper side of excluded bound b: %s", nr, x, txt);
  return f;
}
static int magic;
static double recctx(void* data, double x) {
  if (data != &magic) viol("context", "context not passed: %s", txt);
  return rec(x);
}
static int evaluated(double x, double f) {
  long i; for (i = 0; i < nr; ++i) if (R[i].x == x && R[i].f == f) return 1;
  return 0;
}
static int end_ok(double x, double f) {
  if (evaluated(x, f)) return 1;
  if (f != INFINITY) return 0;
  return ((FL & 1) && x == A) || ((FL & 2) && x == B);
}
static void judge(int st, const double* o, const char* form) {
  double best = INFINITY, m, tol; long i, minev = 3 - ((FL & 1) != 0) - ((FL & 2) != 0);
  obsf("status-%d", st);
  for (i = 0; i < nr; ++i) if (R[i].f < best) best = R[i].f;
  if (st < 0 || st > 2) { viol("status", "%s: status %d: %s", form, st, txt); return; }
  if (o[6] != (double)nr) viol("nevals", "%s: %g evaluations reported, %ld made: %s", form, o[6], nr, txt);
  if (ME >= 0 && nr > (ME > minev ? ME : minev)) viol("maxeval", "%s: %ld evaluations: %s", form, nr, txt);
  if (ME < 0 && st != 0) viol("unlimited", "%s: status %d without limit: %s", form, st, txt);
  if (st != 0 && nr < ME) viol("early-stop", "%s: status %d after %ld evaluations only: %s", form, st, nr, txt);
  if (! evaluated(o[0], o[3]) || ! end_ok(o[1], o[4]) || ! end_ok(o[2], o[5]))
    viol("not-evaluated", "%s: status %d, result (%.17g,%.17g,%.17g) values (%.17g,%.17g,%.17g) is not made of evaluated points: %s",
         form, st, o[0], o[1], o[2], o[3], o[4], o[5], txt);
  if (st == 2) {
    obs("not-bracketed");
    if (dmin(o[3], dmin(o[4], o[5])) != best) viol("lost-best", "%s: lowest value %.17g is not among the returned ones: %s", form, best, txt);
    return;
  }
  if (o[3] != best) viol("not-best", "%s: status %d, returned value %.17g, lowest value evaluated %.17g: %s", form, st, o[3], best, txt);
  if (!(o[1] <= o[0] && o[0] <= o[2])) viol("order", "%s: not ordered %.17g <= %.17g <= %.17g: %s", form, o[1], o[0], o[2], txt);
  if (!(o[4] >= o[3] && o[5] >= o[3])) viol("bracket", "%s: end values %.17g %.17g below %.17g: %s", form, o[4], o[5], o[3], txt);
  if (st == 1) { /* an interval of the requested precision is a success, even with the last evaluation allowed */
    double p = PR < 0 ? sqrt(DBL_EPSILON) : PR, r = dmax(fabs(o[0]), dmax(fabs(o[1]), fabs(o[2])));
    obs("bracketed-only");
    if (p > 0 && dmax(fabs(o[1] - o[0]), fabs(o[2] - o[0])) <= p*r*0.999) viol("success-denied", "%s: status 1 although the interval has the requested precision: %s", form, txt);
  }
  if (F.kind <= K_ASYM && st <= 1) {
    /* The minimizer over the admissible points. */
    double lo = (FL & 1) && A < B ? A : (FL & 2) && B < A ? B : -INFINITY;
    double hi = (FL & 1) && A > B ? A : (FL & 2) && B > A ? B : INFINITY;
    double p = PR < 0 ? sqrt(DBL_EPSILON) : PR;
    m = dmin(dmax(F.m, lo), hi);
    /* what comparisons of rounded values can tell */
    switch (F.kind) {
    case K_ABS: tol = fabs(F.m) + (F.s > 0 ? fabs(F.off)/F.s : 0); tol *= 4*DBL_EPSILON; break;
    case K_COSH: tol = 8*sqrt(DBL_EPSILON)/F.s + 1e-7*fabs(F.m - m) + 4*DBL_EPSILON*fabs(F.m); break;
    default: tol = 4*DBL_EPSILON*fabs(F.m) + 1e-160; break;
    }
    tol += 8*DBL_EPSILON*dmax(fabs(A), fabs(B))*(FL != 0);
    obs("unimodal-brackets");
    if (!(m >= o[1] - tol && m <= o[2] + tol))
      viol("bracket-lost", "%s: minimizer %.17g not in [%.17g,%.17g]: %s", form, m, o[1], o[2], txt);
    if (st == 0) {
      double r = dmax(fabs(o[0]), dmax(fabs(o[1]), fabs(o[2])));
      obs("unimodal-converged");
      if (!(fabs(o[0] - m) <= p*r*1.0001 + tol))
        viol("precision", "%s: success at %.17g while minimizer is %.17g (precision %g): %s", form, o[0], m, p, txt);
    }
  }
}
void run_case(uint64_t c) {
  double o[9], o2[9], w, spread; int st, st2, err, i; long n1; static struct { double x, f; } R1[MAXREC];
  F.kind = (int)(c % K_COUNT);
  F.m = r_p(0.15) ? 0 : r_norm()*r_logu(1e-6, 1e6);
  F.s = r_logu(1e-3, 1e3); F.off = r_p(0.5) ? 0 : r_norm(); F.salt = r_u64();
  if (F.kind == K_ABS && r_p(0.5)) F.off = 0;
  /* The initial interval: */
  spread = F.kind == K_MULTI ? 20 : F.kind == K_COS ? 10/F.s : F.kind == K_STEP ? 10/F.s : dmax(fabs(F.m), r_logu(1e-6, 1e6))*r_logu(0.1, 10);
  if (F.kind == K_MULTI) F.m = 3;
  A = F.m + spread*r_range(-1, 1); w = spread*r_logu(0.01, 3); B = r_bool() ? A + w : A - w;
  if (F.kind == K_COSH) { F.s = r_logu(0.1, 10)/spread; }
  if (r_p(0.1)) A = 0;
  if (r_p(0.1)) B = 0;
  if (r_p(0.03)) A = F.m;
  if (r_p(0.03)) B = F.m;
  if (fabs(A - B) < 1e-4*(spread + fabs(A))) B = A + spread*(r_bool() ? 1 : -1);
  if (r_p(0.04)) B = A;
  FL = (unsigned)r_int(0, 7); 
  ME = r_p(0.4) ? -r_int(1, 3) : r_p(0.6) ? r_int(1, 12) : r_int(1, 200);
  if (r_p(0.04)) ME = 0;
  PR = r_p(0.3) ? -1 : r_p(0.1) ? 0 : r_logu(1e-14, 0.1);
  if (F.kind == K_LINEAR || PR == 0) { if (ME < 0) ME = r_int(1, 200); }
  { /* A relative precision cannot be reached around zero. */
    double lo = (FL & 1) && A < B ? A : (FL & 2) && B < A ? B : -INFINITY, hi = (FL & 1) && A > B ? A : (FL & 2) && B > A ? B : INFINITY;
    if (F.kind == K_STEP || F.kind == K_COS || F.kind == K_NOISE || A == 0 || B == 0
        || fabs(dmin(dmax(F.m, lo), hi)) < 1e-3*spread) { if (ME < 0) ME = r_int(1, 200); }
  }
  snprintf(txt, sizeof(txt), "%s m=%.17g s=%.17g off=%g a=%.17g b=%.17g flags=%u maxeval=%ld prec=%g", kname[F.kind], F.m, F.s, F.off, A, B, FL, ME, PR);
  if (h_verbose) printf("%s\n", txt);
  for (i = 0; i < 9; ++i) o[i] = o2[i] = -12345.5;
  nr = 0; errno = 0;
  st = opk_fmin(rec, A, B, FL, ME, PR, o + 1); err = errno;
  hash_d(A); hash_d(B); hash_d(PR); hash_l(ME*8 + FL); hash_l(F.kind);
  if (o[0] != -12345.5 || o[8] != -12345.5) viol("out-overrun", "written around the 7 results: %s", txt);
  if (A == B) {
    obs("empty-interval");
    if (st != -1 || nr != 0 || err != EINVAL || o[1] != -12345.5) viol("a-equals-b", "status %d, errno %d, %ld evaluations: %s", st, err, nr, txt);
    st2 = opk_fmin_with_context(recctx, A, B, FL, ME, PR, o2 + 1, &magic);
    if (st2 != -1 || nr != 0) viol("a-equals-b", "(context) status %d, %ld evaluations: %s", st2, nr, txt);
    return;
  }
  obsf("flags-%u", FL & 3); obsf("fn-%s", kname[F.kind]); if (ME == 0) obs("maxeval-zero");
  nontrivial(); obs_n("evaluations", nr);
  if (o[7] != 0) sample("%s -> status %d after %g evaluations, x=%.17g in [%.17g,%.17g]", txt, st, o[7], o[1], o[2], o[3]);
  judge(st, o + 1, "opk_fmin");
  n1 = nr; memcpy(R1, R, n1*sizeof(R[0]));
  nr = 0;
  st2 = opk_fmin_with_context(recctx, A, B, FL, ME, PR, o2 + 1, &magic);
  obs("context-comparisons");
  if (st2 != st || nr != n1 || memcmp(R1, R, n1*sizeof(R[0])) || memcmp(o, o2, sizeof(o)))
    viol("context-differs", "with context: status %d/%d, evaluations %ld/%ld, x %.17g/%.17g: %s", st, st2, n1, nr, o[1], o2[1], txt);
  if (st == 0 && n1 > 3 && r_p(0.3)) { /* the very number of evaluations which is needed is enough, one less is not */
    long me = ME, lim = n1 - r_int(0, 1);
    ME = lim; nr = 0; st2 = opk_fmin(rec, A, B, FL, lim, PR, o2 + 1); ME = me; obs("exact-limits");
    if (lim == n1 ? (st2 != 0 || nr != n1 || memcmp(o, o2, sizeof(o))) : (st2 == 0 || nr != lim))
      viol("exact-limit", "success needs %ld evaluations; with a limit of %ld: status %d after %ld: %s", n1, lim, st2, nr, txt);
  }
  if (opk_fmin_new && opk_fmin_start && opk_fmin_next && opk_fmin_get_final && opk_fmin_destroy && opk_fmin_set_precision) {
    fmin_ctx* ctx = opk_fmin_new(0); double x = 0.125, f = 0, q[7]; int task, run; long nev = -1, lim = ME < 0 ? n1 : n1;
    for (run = 0; run < 1 + r_p(0.2); ++run) {
      if (run == 0 && r_p(0.2)) {
        /* Not started. */
        double y = 1; 
        obs("driven-misuse");
        if (opk_fmin_get_final(ctx, q, NULL, NULL, NULL, NULL, NULL, NULL) != OPK_INVALID_ARGUMENT)
          viol("driven-misuse", "the results of a context which has not been started are given");
        if (opk_fmin_start(ctx, A, A, FL) != OPK_INVALID_ARGUMENT) viol("driven-misuse", "an empty interval is accepted");
        if (opk_fmin_set_precision(ctx, -1e-3) != OPK_INVALID_ARGUMENT) viol("driven-misuse", "a negative precision is accepted");
        if (opk_fmin_next(ctx, &y, 0) != OPK_FMIN_ERROR) viol("driven-misuse", "a context which has not been started answers no error");
      }
      if (r_p(0.3)) { /* another minimization, left before its end */
        double y = 0; long k = r_int(0, 12); unsigned fl = (unsigned)r_int(0, 7);
        if (opk_fmin_start(ctx, B + 1.5, A - 2.5, fl) != OPK_SUCCESS) { if (B + 1.5 != A - 2.5) viol("driven-start", "start refused: %s", txt); }
        else { while (k-- > 0 && opk_fmin_next(ctx, &y, y*y - y) == OPK_FMIN_FX) ; obs("driven-abandoned"); }
      }
      if (PR >= 0) opk_fmin_set_precision(ctx, PR);
      if (opk_fmin_start(ctx, A, B, FL) != OPK_SUCCESS) { viol("driven-start", "start refused: %s", txt); break; }
      if (opk_fmin_get_initial && opk_fmin_get_flags && opk_fmin_get_status && opk_fmin_get_precision) {
        double ga = NAN, gb = NAN; unsigned gf = 99;
        obs("driven-queries");
        if (opk_fmin_get_initial(ctx, &ga, &gb, &gf) != OPK_SUCCESS || ga != A || gb != B || (gf & 3) != (FL & 3) || opk_fmin_get_flags(ctx) != gf
            || opk_fmin_get_status(ctx) != OPK_FMIN_START || (PR >= 0 && opk_fmin_get_precision(ctx) != PR))
          viol("driven-queries", "after starting: [%g,%g] flags %u status %d precision %g: %s", ga, gb, gf, opk_fmin_get_status(ctx), opk_fmin_get_precision(ctx), txt);
      }
      nr = 0;
      while ((task = opk_fmin_next(ctx, &x, f)) == OPK_FMIN_FX && nr < lim) f = rec(x);
      if (opk_fmin_get_status && opk_fmin_get_status(ctx) != task) viol("driven-queries", "status %d after %d: %s", opk_fmin_get_status(ctx), task, txt);
      obs("driven-runs");
      if (nr != n1 || memcmp(R1, R, n1*sizeof(R[0]))) viol("driven-differs", "caller-driven form: other points requested: %s", txt);
      else if ((task == OPK_FMIN_CONVERGENCE) != (st == 0)) { viol("driven-task", "caller-driven form: task %d, callback form status %d: %s", task, st, txt); }
      else if (task == OPK_FMIN_CONVERGENCE) {
        if (opk_fmin_get_final(ctx, q, q+1, q+2, q+3, q+4, q+5, &nev) != OPK_SUCCESS || memcmp(q, o + 1, 6*sizeof(double)) || nev != n1)
          viol("driven-final", "caller-driven form: final (%.17g in [%.17g,%.17g], %ld evaluations) instead of (%.17g in [%.17g,%.17g], %ld): %s",
               q[0], q[1], q[2], nev, o[1], o[2], o[3], n1, txt);
        obs("driven-finals");
      }
      if (r_p(0.1)) {
        /* Changing the variable behind the back of the solver is an error,
           which sticks. */
        double y = r_bool() ? x + 1 + fabs(x) : x - 1 - fabs(x);
        obs("driven-changed");
        if (opk_fmin_next(ctx, &y, 0) != OPK_FMIN_ERROR || opk_fmin_next(ctx, &x, 0) != OPK_FMIN_ERROR)
          viol("driven-misuse", "a changed variable is not an error: %s", txt);
        if (opk_fmin_next(ctx, NULL, 0) != OPK_FMIN_ERROR || opk_fmin_next(NULL, &x, 0) != OPK_FMIN_ERROR)
          viol("driven-misuse", "a null address is not an error");
      }
    }
    opk_fmin_destroy(ctx);
  }
}
