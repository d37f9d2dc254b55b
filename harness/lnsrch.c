/* lnsrch.c -- line searches (C15) and the safeguarded step (C16). */
#include "common.h"
#include "optimpack.h"
typedef long double LD;
#define PROP(p) (strcmp(h_prop, p) == 0)

/*---------------------------------------------------------------- one-dimensional functions */
enum { F_QUAD, F_CONVEX, F_MT1, F_MT2, F_MT3, F_YA, F_WAVY, F_PIECE, F_LINEAR, F_JUMP, F_NOISE, F_OVER, F_COUNT };
static const char* fname[F_COUNT] = { "quadratic", "convex", "more-thuente-1", "more-thuente-2", "more-thuente-3",
  "yanai", "wavy", "piecewise", "linear", "jump", "noisy", "overflow" };
static struct { int kind; double a, b, c, off, scale; } F;
static double phi(double t, double* d) {
  double f = 0, g = 0, u = t*F.scale;
  switch (F.kind) {
  case F_QUAD: f = 0.5*F.b*(u - F.a)*(u - F.a); g = F.b*(u - F.a); break;
  case F_CONVEX: { double z = u - F.a; f = F.b*sqrt(1 + z*z) + 0.05*z*z; g = F.b*z/sqrt(1 + z*z) + 0.1*z; break; }
  case F_MT1: f = -u/(u*u + F.b); g = (u*u - F.b)/((u*u + F.b)*(u*u + F.b)); break;
  case F_MT2: { double q = 0.004, z = u + q; f = pow(z, 5) - 2*pow(z, 4); g = 5*pow(z, 4) - 8*pow(z, 3); break; }
  case F_MT3: { /* smoothed abs with oscillation */
    double be = 0.01, l = 39, p0, p1;
    if (u <= 1 - be) { p0 = 1 - u; p1 = -1; }
    else if (u >= 1 + be) { p0 = u - 1; p1 = 1; }
    else { p0 = (u - 1)*(u - 1)/(2*be) + be/2; p1 = (u - 1)/be; }
    f = p0 + 2*(1 - be)/(l*M_PI)*sin(l*M_PI*u/2); g = p1 + (1 - be)*cos(l*M_PI*u/2); break; }
  case F_YA: {
    double b1 = F.b > 1 ? 0.001 : 0.01, b2 = F.a > 0 ? 0.01 : 0.001;
    double g1 = sqrt(1 + b1*b1) - b1, g2 = sqrt(1 + b2*b2) - b2;
    double s1 = sqrt((1 - u)*(1 - u) + b2*b2), s2 = sqrt(u*u + b1*b1);
    f = g1*s1 + g2*s2; g = -g1*(1 - u)/s1 + g2*u/s2; break; }
  case F_WAVY: f = 0.1*(u - F.a)*(u - F.a) + F.c*sin(3*u); g = 0.2*(u - F.a) + 3*F.c*cos(3*u); break;
  case F_PIECE: f = fabs(u - F.a) + 0.5*fabs(u - 2*F.a); g = (u > F.a ? 1 : -1) + (u > 2*F.a ? 0.5 : -0.5); break;
  case F_LINEAR: f = -F.b*u; g = -F.b; break;
  case F_JUMP: f = -u + (u > fabs(F.a) ? 3 : 0); g = -1; break;
  case F_NOISE: f = 0.5*F.b*(u - F.a)*(u - F.a) + 0.1*r_norm(); g = F.b*(u - F.a) + 0.1*r_norm(); break;
  case F_OVER: f = u > fabs(F.a) ? INFINITY : -u; g = -1; break;
  }
  *d = g*F.scale;
  return f + F.off;
}
static void pick(void) {
  F.kind = (int)r_int(0, F_COUNT - 1);
  F.a = r_logu(1e-3, 1e3); if (r_p(0.05)) F.a = -F.a;
  if (r_p(0.6)) F.a = r_logu(0.1, 10);
  F.b = r_logu(0.01, 100); F.c = r_norm(); F.off = r_p(0.4) ? 0 : r_norm()*r_logu(0.01, 10);
  F.scale = r_p(0.5) ? 1 : r_logu(1e-3, 1e3);
}

enum { CSRCH, BACK, NONM };
static struct { int kind; double ftol, gtol, xtol, amin, s1, s2; long m; } S;
static double tried[3011], ftried[3011]; static double fs[32]; static long nfs;
static char txt[500];

static opk_lnsrch* make(void) {
  S.kind = (int)r_int(0, 2);
  S.ftol = r_p(0.3) ? 1e-4 : r_logu(1e-6, 0.4);
  if (r_p(0.05) && S.kind == BACK) S.ftol = 0.49;
  S.gtol = r_p(0.5) ? r_range(S.ftol, 0.95) : r_logu(1e-4, 0.9);
  S.xtol = r_p(0.3) ? 0 : r_p(0.5) ? DBL_EPSILON : r_logu(1e-15, 0.1);
  S.amin = r_p(0.3) ? 0.1 : r_range(0.001, 0.999);
  S.s1 = r_p(0.5) ? 0.1 : r_logu(1e-4, 0.5); S.s2 = r_p(0.5) ? 0.9 : r_range(S.s1 + 0.01, 0.999);
  S.m = r_int(1, 12);
  nfs = 0;
  switch (S.kind) {
  case CSRCH: return opk_lnsrch_new_csrch(S.ftol, S.gtol, S.xtol);
  case BACK: return opk_lnsrch_new_backtrack(S.ftol, S.amin);
  default: return opk_lnsrch_new_nonmonotone(S.m, S.ftol, S.s1, S.s2);
  }
}
static void describe(double f0, double g0, double stp, double lo, double hi) {
  snprintf(txt, sizeof(txt), "%s ftol=%g gtol=%g xtol=%g amin=%g s1=%g s2=%g m=%ld; f0=%.17g g0=%.17g stp=%g in [%g,%g]; %s a=%g b=%g c=%g off=%g scale=%g",
           S.kind == CSRCH ? "csrch" : S.kind == BACK ? "backtrack" : "nonmonotone", S.ftol, S.gtol, S.xtol, S.amin,
           S.s1, S.s2, S.m, f0, g0, stp, lo, hi, fname[F.kind], F.a, F.b, F.c, F.off, F.scale);
}
static void queries(opk_lnsrch* ls, int ret, const char* when) {
  int t = opk_lnsrch_get_task(ls), st = opk_lnsrch_get_status(ls);
  obs("queries");
  if (t != ret) viol("task-query", "%s: returned %d but task is %d; %s", when, ret, t, txt);
  if (!! opk_lnsrch_has_errors(ls) != (t == OPK_LNSRCH_ERROR) || !! opk_lnsrch_has_warnings(ls) != (t == OPK_LNSRCH_WARNING)
      || !! opk_lnsrch_converged(ls) != (t == OPK_LNSRCH_CONVERGENCE) || !! opk_lnsrch_finished(ls) != (t != OPK_LNSRCH_SEARCH))
    viol("predicates", "%s: predicates disagree with task %d; %s", when, t, txt);
  if ((t == OPK_LNSRCH_SEARCH || t == OPK_LNSRCH_CONVERGENCE) ? st != OPK_SUCCESS : st == OPK_SUCCESS)
    viol("status", "%s: task %d with status %d; %s", when, t, st, txt);
}
static void search(opk_lnsrch* ls) {
  double f0, g0, lo, hi, stp, stp1, f, g, prev, fmax; int ret, n = 0, smooth, invalid = 0, scenario, sat; long i, j;
  pick();
  f0 = phi(0, &g0);
  stp = r_p(0.3) ? 1 : r_logu(1e-3, 1e3)/F.scale;
  lo = r_p(0.3) ? 0 : r_p(0.5) ? stp*1e-20 : r_p(0.1) ? stp : stp*r_logu(1e-8, 1);
  hi = r_p(0.4) ? stp*1e20 : r_p(0.1) ? stp : stp*r_logu(1, 1e8);
  if (r_p(0.02) && lo > 0) stp = lo;
  stp1 = stp;
  describe(f0, g0, stp, lo, hi);
  if (r_p(0.06)) invalid = (int)r_int(1, 5);
  {
    double l = lo, h = hi, s = stp, gg = g0 < 0 ? g0 : -1; int want = OPK_SUCCESS;
    switch (invalid) {
    case 1: l = -r_logu(1e-300, 1); want = OPK_STPMIN_LT_ZERO; break;
    case 2: l = hi*(1 + r_logu(1e-15, 1)); if (l <= hi) l = nextafter(hi, INFINITY); want = OPK_STPMIN_GT_STPMAX; break;
    case 3: if (l == 0) l = s*0.5; s = r_bool() ? nextafter(l, 0) : l*0.1; want = OPK_STEP_LT_STPMIN; break;
    case 4: s = r_bool() ? nextafter(hi, INFINITY) : hi*2; want = OPK_STEP_GT_STPMAX; break;
    case 5: gg = r_bool() ? 0 : fabs(g0); want = OPK_NOT_A_DESCENT; break;
    }
    if (invalid) {
      ret = opk_lnsrch_start(ls, f0, gg, s, l, h);
      obs("invalid-starts");
      if (ret != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != want)
        viol("invalid-start", "start with invalid argument (case %d) answers %d, status %d; %s", invalid, ret, opk_lnsrch_get_status(ls), txt);
      queries(ls, ret, "invalid start");
      ret = opk_lnsrch_iterate(ls, &s, f0, gg);
      if (ret != OPK_LNSRCH_ERROR) viol("iterate-not-started", "iterate after a failed start answers %d; %s", ret, txt);
      return;
    }
  }
  if (!(g0 < 0)) { obs("ascent"); return; }
  ret = opk_lnsrch_start(ls, f0, g0, stp, lo, hi);
  if (ret != OPK_LNSRCH_SEARCH) { viol("start", "start answers %d, status %d; %s", ret, opk_lnsrch_get_status(ls), txt); return; }
  queries(ls, ret, "start");
  if (opk_lnsrch_get_step(ls) != stp) viol("step-query", "step %g instead of %g after start; %s", opk_lnsrch_get_step(ls), stp, txt);
  fs[nfs++ % 32] = f0;
  fmax = f0;
  if (S.kind == NONM) for (i = 1; i < S.m && i < nfs; ++i) fmax = dmax(fmax, fs[(nfs - 1 - i) % 32]);
  if (fmax > f0) obs("nonmonotone-reference-above");
  smooth = F.kind <= F_WAVY;
  scenario = r_p(0.04) ? (int)r_int(1, 3) : 0;
  while (1) {
    int stopat = (int)r_int(1, 5);
    if (scenario == 1 && n + 1 == stopat) { /* step changed behind its back */
      double s = stp*1.5 + 1e-3;
      ret = opk_lnsrch_iterate(ls, &s, f0, g0);
      obs("step-changed");
      if (ret != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_STEP_CHANGED)
        viol("step-changed", "changed step: answers %d, status %d; %s", ret, opk_lnsrch_get_status(ls), txt);
      queries(ls, ret, "step changed");
      return;
    }
    if (scenario == 3 && n + 1 == stopat) { /* nowhere to store the step */
      ret = opk_lnsrch_iterate(ls, NULL, f0, g0);
      obs("no-step-address");
      if (ret != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_ILLEGAL_ADDRESS)
        viol("no-step-address", "iterate without the address of the step answers %d, status %d; %s", ret, opk_lnsrch_get_status(ls), txt);
      queries(ls, ret, "no address for the step");
      return;
    }
    if (scenario == 2 && n + 1 == stopat) { obs("abandoned"); return; }
    f = phi(stp, &g); prev = stp; ++n; tried[n < 3010 ? n : 3010] = stp; ftried[n < 3010 ? n : 3010] = f;
    if (S.kind == CSRCH && isinf(f)) { obs("abandoned"); return; }
    if (! opk_lnsrch_use_deriv(ls)) g = NAN;
    if (!! opk_lnsrch_use_deriv(ls) != (S.kind == CSRCH)) viol("use-deriv", "use of derivatives; %s", txt);
    ret = opk_lnsrch_iterate(ls, &stp, f, g);
    if (h_verbose) printf("search %ld eval %d: stp=%.17g f=%.17g g=%.17g -> %d next %.17g\n", nfs, n, prev, f, g, ret, stp);
    queries(ls, ret, "iterate");
    obs("iterations");
    {
      double thr = fmax + S.ftol*prev*g0, tol = 8*DBL_EPSILON*(fabs(fmax) + fabs(S.ftol*prev*g0) + fabs(f));
      int maybe = f <= thr + tol; sat = f <= thr - tol;
      if (S.kind == CSRCH) {
        double t2 = -S.gtol*g0;
        maybe = maybe && fabs(g) <= t2*(1 + 1e-14); sat = sat && fabs(g) <= t2*(1 - 1e-14);
      }
      if (ret == OPK_LNSRCH_CONVERGENCE) {
        obsf("converged-%d", S.kind);
        if (stp != prev) viol("converged-step", "convergence at step %.17g while the step evaluated is %.17g; %s", stp, prev, txt);
        if (! maybe) viol("converged-wrong", "convergence at step %.17g with f=%.17g g=%.17g (threshold %.17g); %s", prev, f, g, thr, txt);
      } else if (sat) {
        viol("not-converged", "the conditions hold at step %.17g (f=%.17g <= %.17g, g=%.17g) but the answer is %d, status %d; %s",
             prev, f, thr, g, ret, opk_lnsrch_get_status(ls), txt);
      }
    }
    if (ret == OPK_LNSRCH_SEARCH) {
      if (!(stp >= lo && stp <= hi)) { viol("step-range", "step %.17g proposed after %.17g; %s", stp, prev, txt); return; }
      if (opk_lnsrch_get_step(ls) != stp) viol("step-query", "step %g instead of %g; %s", opk_lnsrch_get_step(ls), stp, txt);
      if (stp == prev && S.kind != CSRCH) viol("step-stuck", "the same step %.17g is proposed again; %s", stp, txt);
      if (S.kind != CSRCH && ! (stp < prev)) viol("step-grows", "step %.17g proposed after %.17g; %s", stp, prev, txt);
      if (S.kind == BACK && stp > lo) {
        /* No more than the largest reduction and some reduction. */
        double amin = dmin(S.amin, 0.5);
        if (stp < prev*amin*(1 - 1e-12)) viol("reduction", "step %.17g proposed after %.17g: reduction below %g; %s", stp, prev, amin, txt);
        obs("backtrack-reductions");
      }
      if (S.kind == NONM && stp > lo && stp > 1e-300) {
        /* Half way to the minimum or the minimizer of the parabola within the limits. */
        LD q = -(LD)g0*prev*prev, r = 2*((LD)f - f0 - (LD)prev*g0), qs = q/r, bis = ((LD)prev + lo)/2;
        int ok_b = fabsl(stp - bis) <= 1e-12L*bis, ok_q;
        LD er = r != 0 ? 8*DBL_EPSILON*(fabsl((LD)f) + fabsl((LD)f0) + fabsl((LD)prev*g0))/fabsl(r) : 1;
        ok_q = fabsl(stp - qs) <= (1e-12L + 4*er)*fabsl(qs);
        if (! ok_b && ! ok_q) viol("nonmonotone-step", "step %.17g proposed after %.17g: neither half way nor the interpolated one %.17Lg; %s", stp, prev, qs, txt);
        if (er < 1e-3L && r > 0) {
          int in = qs >= S.s1 + er*10 + 1e-12L && qs <= S.s2*prev*(1 - er*10 - 1e-12L);
          int out = qs < S.s1*(1 - er*10 - 1e-12L) || qs > S.s2*prev*(1 + er*10 + 1e-12L);
          if (in && ! ok_q) viol("nonmonotone-step", "step %.17g proposed after %.17g instead of the interpolated one %.17Lg; %s", stp, prev, qs, txt);
          if (out && ! ok_b) viol("nonmonotone-step", "step %.17g proposed after %.17g instead of the half way one; %s", stp, prev, txt);
          if (in) obs("nonmonotone-interpolations");
          if (out) obs("nonmonotone-bisections");
        }
      }
      if (n > 3000) { viol("endless", "%d steps proposed; %s", n, txt); return; }
      continue;
    }
    break;
  }
  obs_max("steps-per-search", n);
  obsf("end-%s-task%d-status%d", S.kind == CSRCH ? "csrch" : S.kind == BACK ? "backtrack" : "nonmonotone", ret, opk_lnsrch_get_status(ls));
  hash_d(f); hash_d(stp); hash_l(n); hash_l(ret);
  if (ret == OPK_LNSRCH_WARNING) {
    int st = opk_lnsrch_get_status(ls);
    int ok = st == OPK_STEP_EQ_STPMIN || (S.kind == CSRCH && (st == OPK_STEP_EQ_STPMAX || st == OPK_XTOL_TEST_SATISFIED || st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS));
    if (! ok) viol("warning-status", "warning with status %d; %s", st, txt);
    if (!(stp >= lo && stp <= hi)) viol("warning-step", "warning with step %.17g; %s", stp, txt);
    if (st == OPK_STEP_EQ_STPMIN && stp != lo) viol("warning-step", "step %.17g said to be at the lower bound; %s", stp, txt);
    if (st == OPK_STEP_EQ_STPMAX && stp != hi) viol("warning-step", "step %.17g said to be at the upper bound; %s", stp, txt);
    if (st == OPK_STEP_EQ_STPMAX && ! (f <= f0 + 8*DBL_EPSILON*(fabs(f0) + fabs(f)))) viol("warning-increase", "stopped at the upper bound with f=%.17g; %s", f, txt);
    if (S.kind == CSRCH && (st == OPK_XTOL_TEST_SATISFIED || st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) && stp != lo) { /* the best step found */
      for (i = 1; i < n && tried[i] != stp; ++i) ;
      obs("steps-tried-again");
      for (j = 1; j < n && j < 3010 && smooth; ++j) { /* lower values of the function and of the modified one */
        double e = 64*DBL_EPSILON*(fabs(f0) + fabs(f) + fabs(ftried[j]) + fabs(stp*g0) + fabs(tried[j]*g0));
        if (ftried[j] < f - e && ftried[j] - S.ftol*tried[j]*g0 < f - S.ftol*stp*g0 - e) { viol("warning-not-best", "warning %d at step %.17g with f=%.17g while f=%.17g at step %.17g tried before; %s", st, stp, f, ftried[j], tried[j], txt); break; }
      }
      if (i >= n) viol("warning-new-step", "warning %d at a step %.17g not tried before; %s", st, stp, txt);
    }
    if (smooth && (st == OPK_XTOL_TEST_SATISFIED || st == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS) && stp > lo
        && ! (f <= f0 + 64*DBL_EPSILON*(fabs(f0) + fabs(f) + fabs(prev*g0))))
      viol("warning-increase", "warning %d with f=%.17g at step %.17g; %s", st, f, stp, txt);
  }
  if (smooth && ret != OPK_LNSRCH_CONVERGENCE) {
    /* A step with the required conditions exists well inside the bounds? */
    int easy = S.ftol <= 0.3 && lo <= 1e-9/F.scale && stp1 >= 1e-6/F.scale && stp1 <= 1e6/F.scale && (F.kind == F_QUAD || F.kind == F_CONVEX || F.kind == F_WAVY)
      && fabs(F.off) + fabs(f0) < 1e3*fabs(g0)/F.scale;
    if (F.kind != F_QUAD && F.kind != F_CONVEX && S.kind == CSRCH) easy = 0;
    if (S.kind == CSRCH) easy = easy && F.a > 0 && hi > 3*F.a/F.scale && hi <= 1e7*dmax(stp1, F.a/F.scale) && S.xtol <= 1e-10 && S.gtol >= S.ftol && S.gtol >= 1e-3;
    if (easy) viol("no-convergence", "ends with %d, status %d, step %g after %d steps; %s", ret, opk_lnsrch_get_status(ls), stp, n, txt);
  }
  /* Finished: iterate refuses. */
  if (r_p(0.3)) {
    double s = stp; int r2;
    r2 = opk_lnsrch_iterate(ls, &s, f, g);
    obs("iterate-after-end");
    if (r2 != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_NOT_STARTED || s != stp)
      viol("iterate-after-end", "iterate after the end answers %d, status %d; %s", r2, opk_lnsrch_get_status(ls), txt);
    queries(ls, r2, "after the end");
  }
}
static void case15(void) {
  opk_lnsrch* ls = make(); int k, n = (int)(r_p(0.02) ? r_int(15, 300) : r_int(1, 14)); double s = 1;
  if (ls == NULL) { viol("refused", "constructor refused ftol=%g gtol=%g xtol=%g amin=%g s1=%g s2=%g m=%ld", S.ftol, S.gtol, S.xtol, S.amin, S.s1, S.s2, S.m); return; }
  snprintf(txt, sizeof(txt), "fresh");
  queries(ls, OPK_LNSRCH_ERROR, "fresh");
  if (opk_lnsrch_iterate(ls, &s, 0, -1) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(ls) != OPK_NOT_STARTED)
    viol("iterate-not-started", "iterate on a fresh line search is accepted");
  if (opk_lnsrch_iterate(NULL, &s, 0, -1) >= 0 || opk_lnsrch_start(NULL, 0, -1, 1, 0, 2) >= 0 || opk_lnsrch_get_task(NULL) != OPK_LNSRCH_ERROR)
    viol("null", "null line search accepted");
  for (k = 0; k < n; ++k) search(ls);
  obs_n("searches", n);
  nontrivial();
  sample("%d searches, last one: %s", n, txt);
  OPK_DROP(ls);
}

/*---------------------------------------------------------------- C16 */
typedef struct { LD stx, fx, dx, sty, fy, dy, stp, fp, dp, lo, hi; int br; } cst;
static LD noise;
static LD nz(LD v) { return noise > 0 ? v*(1 + noise*(2*(LD)r_unif() - 1)) : v; }
static LD nza(LD v, LD sc) { return noise > 0 ? v + sc*noise*(2*(LD)r_unif() - 1) : v; }
/* Minimizer (local) of the cubic interpolating values f0, f1 and slopes d0, d1
   at t0, t1: returns t. NAN if none. */
static LD cubic_min(LD t0, LD f0, LD d0, LD t1, LD f1, LD d1) {
  LD h = t1 - t0, s0 = nza((f1 - f0)/h, (fabsl(f0) + fabsl(f1))/fabsl(h)*0 + fabsl((f1 - f0)/h)), a, b, disc, u, q;
  /* p(u) = f0 + d0 h u + b u^2 + a u^3, u in [0,1] */
  d0 = nz(d0); d1 = nz(d1);
  a = (d0 + d1 - 2*s0)*h; b = (3*s0 - 2*d0 - d1)*h;
  a = nza(a, (fabsl(d0) + fabsl(d1) + 2*fabsl(s0))*fabsl(h)); b = nza(b, (3*fabsl(s0) + 2*fabsl(d0) + fabsl(d1))*fabsl(h));
  /* 3 a u^2 + 2 b u + d0 h = 0, with 6 a u + 2 b > 0 (for a minimum in f). */
  disc = b*b - 3*a*d0*h;
  disc = nza(disc, b*b + fabsl(3*a*d0*h));
  if (disc < 0) return NAN;
  q = sqrtl(disc);
  /* minimum: u = (-b + q)/(3a) = -d0 h/(b + q) */
  if (b + q != 0 && b >= 0) u = -d0*h/(b + q);
  else if (a != 0) u = (q - b)/(3*a);
  else return NAN;
  return t0 + u*h;
}
/* Expected new step. alt: the other candidate when the choice is ambiguous. */
static LD expected(const cst* c, int* kase, LD* alt) {
  LD C, Q, r; LD h = c->stp - c->stx; int opp = (c->dp < 0 && c->dx > 0) || (c->dp > 0 && c->dx < 0);
  *alt = NAN;
  if (c->fp > c->fx) {
    *kase = 1;
    C = cubic_min(c->stx, c->fx, c->dx, c->stp, c->fp, c->dp);
    { LD sl = (c->fx - c->fp)/h, den = nza(sl + c->dx, fabsl(sl) + fabsl(c->dx)); Q = c->stx + c->dx/den/2*h; }
    if (fabsl(fabsl(C - c->stx) - fabsl(Q - c->stx)) < 1e-9L*fabsl(Q - c->stx)) *alt = C;
    r = fabsl(C - c->stx) < fabsl(Q - c->stx) ? C : C + (Q - C)/2;
    return r;
  }
  if (opp) {
    *kase = 2;
    C = cubic_min(c->stx, c->fx, c->dx, c->stp, c->fp, c->dp);
    Q = c->stp + nz(c->dp/(c->dp - c->dx))*(c->stx - c->stp);
    if (fabsl(fabsl(C - c->stp) - fabsl(Q - c->stp)) < 1e-9L*fabsl(Q - c->stp)) *alt = fabsl(C - c->stp) > fabsl(Q - c->stp) ? Q : C;
    return fabsl(C - c->stp) > fabsl(Q - c->stp) ? C : Q;
  }
  if (fabsl(c->dp) < fabsl(c->dx)) {
    LD u;
    *kase = 3;
    C = cubic_min(c->stx, c->fx, c->dx, c->stp, c->fp, c->dp);
    u = (C - c->stp)/h; /* beyond stp in the direction of the step? */
    if (fabsl(u) < 1e-9L) { *alt = INFINITY; return NAN; }
    if (! (u > 0)) C = h > 0 ? c->hi : c->lo;
    { LD den = nza(c->dp - c->dx, fabsl(c->dp) + fabsl(c->dx)); Q = c->stp + c->dp/den*(c->stx - c->stp); }
    if (fabsl(fabsl(C - c->stp) - fabsl(Q - c->stp)) < 1e-9L*fabsl(Q - c->stp)) *alt = 1;
    if (c->br) {
      LD lim = c->stp + 0.66L*(c->sty - c->stp);
      r = fabsl(C - c->stp) < fabsl(Q - c->stp) ? C : Q;
      if (h > 0 ? r > lim : r < lim) r = lim;
      if (*alt == 1) { *alt = r == C ? Q : C; if (h > 0 ? *alt > lim : *alt < lim) *alt = lim; }
    } else {
      r = fabsl(C - c->stp) > fabsl(Q - c->stp) ? C : Q;
      if (*alt == 1) { *alt = r == C ? Q : C; if (*alt > c->hi) *alt = c->hi; if (*alt < c->lo) *alt = c->lo; }
      if (r > c->hi) r = c->hi;
      if (r < c->lo) r = c->lo;
    }
    return r;
  }
  *kase = 4;
  if (c->br) return cubic_min(c->stp, c->fp, c->dp, c->sty, c->fy, c->dy);
  return h > 0 ? c->hi : c->lo;
}
static void case16(void) {
  double stx, fx, dx, sty, fy, dy, stp, fp, dp, lo, hi, h; opk_bool br; cst c; int quad = 0, kase = 0, k, dir, flat = 0; LD want, alt, dev = 0; opk_status st;
  double QA = 0, QM = 0;
  double istx, ifx, idx, isty, ify, idy, istp; opk_bool ibr;
  br = r_bool(); dir = r_bool() ? 1 : -1;
  if (! br && r_p(0.7)) dir = 1;
  stx = r_p(0.3) ? 0 : r_logu(1e-3, 1e3);
  h = r_logu(1e-3, 1e3); if (dir < 0) h = -h;
  stp = stx + h; h = stp - stx;
  quad = r_p(0.3);
  if (quad) { /* exact minimizer expected */
    QM = stx + h*r_logu(0.05, 20); QA = r_logu(1e-3, 1e3);
    fx = QA*(stx - QM)*(stx - QM); dx = 2*QA*(stx - QM);
    fp = QA*(stp - QM)*(stp - QM); dp = 2*QA*(stp - QM);
    sty = br ? stp + h*r_logu(0.1, 10) : 0; fy = QA*(sty - QM)*(sty - QM); dy = 2*QA*(sty - QM);
    if (br && ! (fy >= fx)) { br = 0; }
    if (r_p(0.3)) { double o = r_norm()*QA*h*h; fx += o; fp += o; fy += o; }
  } else {
    double sl = r_logu(1e-3, 1e3);
    dx = -dir*sl; fx = r_norm()*sl*fabs(h);
    fp = fx + (r_p(0.1) ? 0 : r_norm()*sl*fabs(h)*r_logu(1e-3, 10));
    dp = r_norm()*sl*r_logu(1e-2, 10); if (r_p(0.05)) { dp = 0; flat = 1; }
    if (r_p(0.03)) dp = dx;
    sty = br ? stp + h*r_logu(1e-2, 100) : r_logu(1e-3, 1e3);
    fy = fx + (r_p(0.1) ? 0 : fabs(r_norm())*sl*fabs(h)*r_logu(1e-3, 10));
    dy = r_norm()*sl*r_logu(1e-2, 10);
  }
  lo = r_bool() ? 0 : dmin(stx, stp)*r_unif(); hi = dmax(stx, stp)*(r_bool() ? 5 : r_logu(1, 1e6)) + r_unif();
  if (! br) { lo = dmin(stp, lo); hi = dmax(stp, hi); }
  if (dir < 0 && lo > stp) lo = stp;
  istx = stx; ifx = fx; idx = dx; isty = sty; ify = fy; idy = dy; istp = stp; ibr = br;
  if (r_p(0.05)) { /* invalid input */
    int what = (int)r_int(1, 4), exp = 0;
    switch (what) {
    case 1: br = ibr = 1; sty = isty = stp - h*r_range(0, 0.99); exp = OPK_STEP_OUTSIDE_BRACKET;
      if (r_bool()) { sty = isty = stp; } break;
    case 2: idx = dx = -dx; exp = OPK_NOT_A_DESCENT; break;
    case 3: idx = dx = 0; exp = OPK_NOT_A_DESCENT; break;
    default: { double t = lo; lo = hi + 1; hi = t; exp = OPK_STPMIN_GT_STPMAX; }
    }
    if (what >= 2 && br && (stx < sty ? (stp <= stx || stp >= sty) : (stp <= sty || stp >= stx))) return;
    if (what == 1 && ! (stx < sty ? (stp <= stx || stp >= sty) : (stp <= sty || stp >= stx))) return;
    st = opk_cstep(&stx, &fx, &dx, &sty, &fy, &dy, &stp, fp, dp, &br, lo, hi);
    obs("invalid-inputs");
    if (st != (opk_status)exp) viol("error-code", "case %d: answer %d instead of %d (br=%d stx=%g sty=%g stp=%g dx=%g lo=%g hi=%g)", what, st, exp, ibr, istx, isty, istp, idx, lo, hi);
    if (stx != istx || fx != ifx || dx != idx || sty != isty || fy != ify || dy != idy || stp != istp || br != ibr)
      viol("error-changes", "arguments changed though the input is refused with %d", st);
    return;
  }
  if (br && (stx < sty ? (stp <= stx || stp >= sty) : (stp <= sty || stp >= stx))) return;
  if (dx*(stp - stx) >= 0) return;
  st = opk_cstep(&stx, &fx, &dx, &sty, &fy, &dy, &stp, fp, dp, &br, lo, hi);
#define ARGS istx, ifx, idx, isty, ify, idy, istp, fp, dp, ibr, lo, hi
#define FMT "stx=%.17g fx=%.17g dx=%.17g sty=%.17g fy=%.17g dy=%.17g stp=%.17g fp=%.17g dp=%.17g brackt=%d in [%.17g,%.17g]"
  if (st != OPK_SUCCESS) { viol("refused", "valid input refused with %d: " FMT, st, ARGS); return; }
  /* End points. */
  {
    int opp = (dp < 0 && idx > 0) || (dp > 0 && idx < 0), ok;
    int xb = fp > ifx ? 0 : 1;
    ok = xb ? (stx == istp && fx == fp && dx == dp) : (stx == istx && fx == ifx && dx == idx);
    if (! ok) viol("best-end", "best end point (%g,%g,%g) after: " FMT, stx, fx, dx, ARGS);
    if (! xb) ok = sty == istp && fy == fp && dy == dp;
    else if (opp) ok = sty == istx && fy == ifx && dy == idx;
    else ok = sty == isty && fy == ify && dy == idy;
    if (! ok) viol("other-end", "other end point (%g,%g,%g) after: " FMT, sty, fy, dy, ARGS);
    if (!! br != (ibr || ! xb || opp)) viol("bracket-flag", "flag %d after: " FMT, (int)br, ARGS);
    if (br) {
      obs("bracketed-after");
      if (! (dx*(sty - stx) <= 0)) viol("bracket-slope", "slope %g at the best point %g does not lead to the other end %g after: " FMT, dx, stx, sty, ARGS);
      if (! (fx <= fy)) viol("bracket-order", "best value %g > other value %g after: " FMT, fx, fy, ARGS);
    }
  }
  c.stx = istx; c.fx = ifx; c.dx = idx; c.sty = isty; c.fy = ify; c.dy = idy; c.stp = istp; c.fp = fp; c.dp = dp; c.lo = lo; c.hi = hi; c.br = ibr;
  noise = 0; want = expected(&c, &kase, &alt);
  obsf("case-%d%s%s", kase, ibr ? "-bracketed" : "", dir < 0 ? "-backward" : "");
  for (k = 0; k < 8; ++k) {
    LD w, al; int kk;
    noise = 4*DBL_EPSILON; w = expected(&c, &kk, &al); noise = 0;
    if (! isfinite((double)w)) { dev = INFINITY; break; }
    dev = fmaxl(dev, fabsl(w - want));
  }
  hash_d(stp); hash_l(kase); nontrivial();
  if (! isfinite(stp)) {
    if (isfinite((double)dev) && isfinite((double)want)) viol("not-finite", "new step %g, case %d, " FMT, stp, kase, ARGS);
    else obs("degenerate");
    return;
  }
  {
    LD tol, er, sc = fabsl(istp - istx);
    int near_alt = isfinite((double)alt);
    tol = 20*dev + 32*DBL_EPSILON*(fabsl((LD)istx) + fabsl((LD)istp) + fabsl((LD)stp) + (ibr ? fabsl((LD)isty) : 0));
    (void)sc;
    if (isfinite((double)want) && isfinite((double)dev) && dev < 0.01L*(fabsl(want - istp) + fabsl(want - istx))) {
      er = fabsl(stp - want);
      if (near_alt) er = fminl(er, fabsl(stp - alt));
      /* Average of the two candidates in the first case when they are close. */
      obs("steps-compared"); obs_max("step-error/tolerance", (double)(er/tol));
      if (er > tol) viol("step", "new step %.17g, expected %.17Lg (tolerance %.3Lg), case %d: " FMT, stp, want, tol, kase, ARGS);
    } else obs("ill-conditioned");
    if (! br && !(stp >= lo && stp <= hi)) viol("step-limits", "new step %.17g out of limits: " FMT, stp, ARGS);
    if (br && dev < 0.01L*fabsl((LD)stx - sty)) {
      LD a = fminl(stx, sty), b = fmaxl(stx, sty);
      obs("inside-bracket-checks");
      if (! (stp >= a - tol && stp <= b + tol)) viol("step-bracket", "new step %.17g outside of the bracket [%.17Lg,%.17Lg]: " FMT, stp, a, b, ARGS);
    }
    if (quad && kase <= 3) {
      int adm = kase <= 2 || (! ibr ? QM >= lo && QM <= hi : (dir > 0 ? QM <= istp + 0.66*(isty - istp) : QM >= istp + 0.66*(isty - istp)));
      LD cond = 1e-13L*(fabsl(istx) + fabsl(istp) + fabsl((LD)QM) + fabsl((LD)h)) + tol;
      if (kase == 3 && ! ibr && (dir > 0 ? hi : lo) != QM) adm = 0; /* the cubic may have no minimizer: either limit or minimizer */
      if (adm) {
        obs("quadratic-minimizers");
        if (fabsl(stp - (LD)QM) > cond + 1e-6L*fabsl((LD)QM - istx) + 1e-6L*fabsl((LD)h)) viol("quadratic", "new step %.17g, minimizer %.17g, case %d: " FMT, stp, QM, kase, ARGS);
      }
    }
  }
  (void)flat;
  sample("case %d: " FMT " -> stp=%.17g", kase, ARGS, stp);
}
void run_case(uint64_t c) {
  (void)c;
  if (PROP("C16")) { int k; for (k = 0; k < 10; ++k) case16(); } else case15();
}
