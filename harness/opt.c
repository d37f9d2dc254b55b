/* opt.c -- monitored runs of the limited-memory and conjugate gradient
 * optimizers driven by reverse communication.  The same monitors watch all the
 * runs; the property selects the configurations and which alarms count. */
#include "optcommon.h"

typedef long double LD;
static config C;
static problem P;
static int use_lin;
static double lin[PMAXN];
static double eps;  /* precision of the variables */
static char cfgtxt[400];

#define PROP(p) (strcmp(h_prop, p) == 0)

static double evalp(hvec* x, hvec* g) {
  double xd[PMAXN], gd[PMAXN], f; long i;
  for (i = 0; i < C.n; ++i) xd[i] = hv_get(x, i);
  f = use_lin ? prob_eval_lin(&P, lin, xd, gd) : prob_eval(&P, xd, gd);
  for (i = 0; i < C.n; ++i) hv_set(g, i, gd[i]);
  return f;
}
static void load(double* dst, hvec* v) { long i; for (i = 0; i < C.n; ++i) dst[i] = hv_get(v, i); }

/*---------------------------------------------------------------- noisy arithmetic */
static double noise; /* 0 for the reference itself */
static LD nz(LD x, LD scale) {
  return noise > 0 ? x + noise*scale*(2*(LD)r_unif() - 1) : x;
}
static LD dotn(const LD* a, const LD* b, const double* w) {
  LD s = 0, t = 0; long i;
  for (i = 0; i < C.n; ++i) {
    LD p = a[i]*b[i]*(w ? (LD)w[i] : 1);
    s += p; t += fabsl(p);
  }
  return nz(s, t*4);
}
static void upd(LD* d, LD a, const LD* x) { /* d += a x */
  long i;
  for (i = 0; i < C.n; ++i) d[i] = nz(d[i] + a*x[i], fabsl(d[i]) + fabsl(a*x[i]));
}

/*---------------------------------------------------------------- the monitor */
#define MAXHIST 64
static struct {
  double x0[PMAXN], g0[PMAXN], f0; /* at the start of the line search */
  double xb[PMAXN];                /* initial variables (projected) */
  double fb;
  double x[PMAXN], g[PMAXN], f;    /* last evaluated point */
  int started, have0;
  long evals, iters, restarts;
  double ginit;
  /* pairs since last restart, oldest first */
  long cnt; LD s[MAXHIST][PMAXN], y[MAXHIST][PMAXN];
  int pairs_known;
  /* line search */
  double xt1[PMAXN], stp1; int ntrial;
  /* nonmonotone memory */
  double fs[64]; long nfs;
  /* nlcg */
  LD dtgv, dtgverr; /* slope at the start of the line search, 0 if unknown */
  double stpref; /* step which the limits are relative to, 0 if unknown */
  LD d[PMAXN], derr; int d_known; double alpha_prev, dtg0, dtg0err; double g0norm;
} M;

static void free_mask(double* w, const double* x, const double* g, int* amb) {
  long i;
  *amb = 0;
  for (i = 0; i < C.n; ++i) {
    w[i] = 1;
    if (! cfg_bounded(&C)) continue;
    if (g[i] == 0) { w[i] = 0; *amb = 1; }
    if (g[i] > 0 && x[i] <= C.lo[i]) w[i] = 0;
    if (g[i] < 0 && x[i] >= C.hi[i]) w[i] = 0;
  }
}

static double clampx(double v, long i) {
  if (v < C.lo[i]) v = C.lo[i];
  if (v > C.hi[i]) v = C.hi[i];
  return v;
}

static void chk_feasible(hvec* x, const char* when) {
  long i;
  if (! cfg_bounded(&C)) return;
  for (i = 0; i < C.n; ++i) if (! isfinite(M.g[i]) || ! isfinite(M.f)) return;
  obs("feasibility-checks");
  for (i = 0; i < C.n; ++i) {
    double v = hv_get(x, i);
    if (!(v >= C.lo[i] && v <= C.hi[i])) {
      violp("C08", "infeasible-point", "%s: x[%ld]=%.17g not in [%.17g,%.17g] (evals=%ld) %s",
            when, i, v, C.lo[i], C.hi[i], M.evals, cfgtxt);
      return;
    }
    if (v == C.lo[i] || v == C.hi[i]) obs("component-on-bound");
  }
}

/* Two-loop recursion.  Returns 1 if a direction has been computed, 0 if no
   pair may be used, -1 if ambiguous. */
static int two_loop(LD* d, const double* g, int method, const double* w, long e) {
  long j, i; LD rho[MAXHIST], alpha[MAXHIST], gamma = 0; int any = 0;
  for (i = 0; i < C.n; ++i) d[i] = g[i];
  for (j = 0; j < e; ++j) {
    LD* s = M.s[M.cnt - 1 - j]; LD* y = M.y[M.cnt - 1 - j];
    const double* ww = (method == OPK_VMLMB ? w : NULL);
    LD sty = 0, sab = 0;
    for (i = 0; i < C.n; ++i) {
      LD p = s[i]*y[i]*(ww ? (LD)ww[i] : 1); sty += p; sab += fabsl(p);
    }
    if (sab > 0 && fabsl(sty) <= 32*C.n*eps*sab) return -1;
    if (sty > 0 && (sty < 1e-290L || (C.single && sty < 1e-30L))) return -1;
    rho[j] = 0;
    if (sty > 0) {
      LD yty = dotn(y, y, ww);
      sty = nz(sty, sab*4);
      rho[j] = 1/sty;
      if (gamma == 0) gamma = sty/yty;
      alpha[j] = rho[j]*dotn(d, s, ww);
      upd(d, -alpha[j], y);
      any = 1;
    }
  }
  if (! any) return 0;
  for (i = 0; i < C.n; ++i) d[i] = nz(d[i]*gamma, fabsl(d[i]*gamma));
  for (j = e - 1; j >= 0; --j) {
    LD* s = M.s[M.cnt - 1 - j]; LD* y = M.y[M.cnt - 1 - j];
    const double* ww = (method == OPK_VMLMB ? w : NULL);
    if (rho[j] > 0) {
      LD beta = rho[j]*dotn(d, y, ww);
      upd(d, alpha[j] - beta, s);
    }
  }
  if (method == OPK_VMLMB) for (i = 0; i < C.n; ++i) if (w[i] == 0) d[i] = 0;
  return 1;
}
static void project_dir(LD* d, const double* x) { /* steps along -d */
  long i;
  for (i = 0; i < C.n; ++i) {
    if (d[i] > 0 && x[i] <= C.lo[i]) d[i] = 0;
    if (d[i] < 0 && x[i] >= C.hi[i]) d[i] = 0;
  }
}

/* Called after the iterate call which ended an iteration and asked for a first
   trial point (vmlmb). */
static void chk_vmlmb_direction(lowopt* O, hvec* xv) {
  int method = opk_get_vmlmb_method(O->v), amb, r, k;
  long m = C.vo.mem < C.n ? C.vo.mem : C.n, e, i, j, mp;
  double w[PMAXN], stp = low_step(O), xt[PMAXN];
  LD d[PMAXN], dd[PMAXN], dev = 0, dn = 0, dtg = 0, dab = 0, thr, dev2;
  long restarted = low_restarts(O) - M.restarts;
  int expect_method = cfg_bounded(&C) ? (C.use_opts && C.vo.blmvm ? OPK_BLMVM : OPK_VMLMB) : OPK_LBFGS;
  double gp[PMAXN], gn = 0;
  if (! C.use_opts) m = 5 < C.n ? 5 : C.n;
  if (method != expect_method) violp("C14", "method", "method %d instead of %d; %s", method, expect_method, cfgtxt);
  free_mask(w, M.x, M.g, &amb);
  for (i = 0; i < C.n; ++i) { gp[i] = w[i] != 0 ? M.g[i] : 0; gn += gp[i]*gp[i]; }
  gn = sqrt(gn);
  load(xt, xv);
  /* New pair. */
  if (M.iters >= 1) {
    if (M.cnt >= MAXHIST) {
      memmove(M.s[0], M.s[1], sizeof(M.s[0])*(MAXHIST - 1));
      memmove(M.y[0], M.y[1], sizeof(M.y[0])*(MAXHIST - 1));
      --M.cnt;
    }
    for (i = 0; i < C.n; ++i) {
      LD s = (LD)M.x[i] - (LD)M.x0[i];
      LD y = (LD)(method == OPK_BLMVM ? gp[i] : M.g[i]) - (LD)M.g0[i];
      M.s[M.cnt][i] = C.single ? (LD)(float)s : (LD)(double)s;
      M.y[M.cnt][i] = C.single ? (LD)(float)y : (LD)(double)y;
    }
    ++M.cnt;
  }
  e = M.cnt < m ? M.cnt : m;
  mp = opk_get_vmlmb_mp(O->v);
  if (restarted < 0 || restarted > 1 || (restarted == 1 && e == 0))
    violp("C09", "restarts", "restarts went from %ld to %ld with %ld pairs; %s", M.restarts, low_restarts(O), e, cfgtxt);
  /* Reference direction. */
  noise = 0;
  r = two_loop(d, M.g, method, w, e);
  if (amb && r != 0) r = -1;
  if (r == 1) {
    if (cfg_bounded(&C)) project_dir(d, M.x);
    for (k = 0; k < 6 && r == 1; ++k) {
      noise = 4*eps;
      r = two_loop(dd, M.g, method, w, e);
      noise = 0;
      if (cfg_bounded(&C)) project_dir(dd, M.x);
      dev2 = 0;
      for (i = 0; i < C.n; ++i) dev2 = fmaxl(dev2, fabsl(d[i] - dd[i]));
      dev = fmaxl(dev, dev2);
    }
    dev *= 20;
    for (i = 0; i < C.n; ++i) {
      dn += d[i]*d[i]; dtg -= d[i]*(LD)M.g[i]; dab += fabsl(d[i]*(LD)M.g[i]) + dev*fabsl((LD)M.g[i]);
    }
    dn = sqrtl(dn);
    if (!(dn < (C.single ? 1e16L : 1e140L)) || ! isfinite((double)dev)) r = -1;
  }
  if (r == 1) {
    double ep = C.use_opts ? C.vo.epsilon : 0;
    LD slack = 8*C.n*eps*dab + 0;
    for (i = 0; i < C.n; ++i) slack += dev*fabsl((LD)M.g[i]);
    slack += ep*gn*dev*C.n;
    thr = -ep*dn*gn;
    if (fabsl(dtg - thr) <= slack || fabsl(dtg) <= slack) r = -1;
    else if (dtg >= 0 || dtg > thr) r = 0; /* not a sufficient descent direction */
  }
  if (r == -1) {
    obs("direction-ambiguous");
    if (restarted) M.cnt = 0;
    return;
  }
  if (r == 0) { /* steepest descent expected */
    if (e > 0) {
      obs("steepest-after-failure");
      if (restarted != 1) { violp("C14", "restart-missing", "the pairs give no descent direction but there is no restart (%ld pairs); %s", e, cfgtxt); return; }
    } else obs("steepest-initial");
    M.cnt = 0; e = 0;
    for (i = 0; i < C.n; ++i) d[i] = gp[i];
    dev = 0;
  } else {
    obs("quasi-newton-directions");
    obs_max("pairs-used", e);
    if (restarted) {
      violp("C14", "restart-spurious", "restart while the %ld pairs give a descent direction (%Lg, threshold %Lg); %s", e, dtg, thr, cfgtxt);
      M.cnt = 0; return;
    }
  }
  /* Exposed pairs. */
  {
    long lo = (m - 1 < e ? m - 1 : e), hi = e;
    if (mp < lo || mp > hi)
      violp("C14", "pairs-number", "%ld pairs exposed, expected between %ld and %ld (m=%ld); %s", mp, lo, hi, m, cfgtxt);
    for (j = 1; j <= mp && j <= M.cnt; ++j) {
      opk_vector* sv = opk_get_vmlmb_s(O->v, j); opk_vector* yv = opk_get_vmlmb_y(O->v, j);
      if (sv == NULL || yv == NULL) { violp("C14", "pair-missing", "pair %ld of %ld missing; %s", j, mp, cfgtxt); break; }
      obs("pairs-compared");
      for (i = 0; i < C.n; ++i) {
        double a, b; LD s = M.s[M.cnt - j][i], y = M.y[M.cnt - j][i];
        opk_vpeek(sv, i, &a); opk_vpeek(yv, i, &b);
        if (fabsl(a - s) > 4*eps*fabsl(s) || fabsl(b - y) > 4*eps*fabsl(y)) {
          violp("C14", "pair-value", "pair %ld of %ld, component %ld: s=%.17g (expected %.17Lg), y=%.17g (expected %.17Lg); %s",
                j, mp, i, a, s, b, y, cfgtxt);
          return;
        }
      }
    }
    if (opk_get_vmlmb_s(O->v, mp + 1) != NULL || opk_get_vmlmb_y(O->v, mp + 1) != NULL
        || opk_get_vmlmb_s(O->v, -1) != NULL || opk_get_vmlmb_y(O->v, -1) != NULL)
      violp("C14", "pair-beyond", "a pair beyond the %ld saved ones is exposed; %s", mp, cfgtxt);
  }
  /* First step. */
  if (!(stp > 0) || ! isfinite(stp)) return;
  {
    LD st = 1, st2 = 0, tol = 64*C.n*eps, blo = 0, bhi = 0, lo, hi;
    if (r == 0) {
      if (M.f != 0) st = 2*fabsl((LD)M.f/((LD)gn*gn));
      else {
        LD xn = 0, xw = 0, delta = C.use_opts ? C.vo.delta : 5e-2;
        for (i = 0; i < C.n; ++i) { LD q = (LD)M.x[i]*M.x[i]; xn += q; if (w[i] != 0) xw += q; }
        st = delta/gn*(xn > 0 ? sqrtl(xn) : 1); st2 = delta/gn*(xw > 0 ? sqrtl(xw) : 1);
        obs("step-from-delta");
      }
    }
    if (isfinite((double)st) && st > (C.single ? 1e-30L : 1e-290L) && dn == dn) {
      lo = hi = st;
      if (cfg_bounded(&C)) {
        /* The step is not larger than needed to block all the variables. */
        for (i = 0; i < C.n; ++i) {
          LD ad = fabsl(d[i]), gap = d[i] > 0 ? (LD)M.x[i] - C.lo[i] : (LD)C.hi[i] - M.x[i];
          if (d[i] == 0 && w[i] == 0) continue;
          if (ad <= 2*dev) { if (dev > 0) bhi = INFINITY; continue; }
          if (isinf((double)gap)) { blo = bhi = INFINITY; break; }
          blo = fmaxl(blo, gap/(ad + dev)); bhi = fmaxl(bhi, gap/(ad - dev));
        }
        /* The norm of the free variables may as well be the reference. */
        if (st2 > 0 && (stp < fminl(st, blo)*(1 - tol) || stp > fminl(st, bhi)*(1 + tol))) lo = hi = st = st2;
        lo = fminl(lo, blo); hi = fminl(hi, bhi);
        if (bhi < st) obs("step-shortened-by-bounds");
      }
      obs("first-steps-compared");
      if (stp < lo*(1 - tol) || stp > hi*(1 + tol))
        violp("C14", "first-step", "first step %.17g, expected between %.17Lg and %.17Lg (%ld pairs, iteration %ld); %s", stp, lo, hi, e, M.iters, cfgtxt);
      M.stpref = (double)st;
      M.dtgv = 0; M.dtgverr = 0;
      for (i = 0; i < C.n; ++i) { LD q = d[i]*(LD)M.g[i]; M.dtgv -= q; M.dtgverr += 8*C.n*eps*fabsl(q) + dev*fabsl((LD)M.g[i]); }
    }
  }
  /* Trial point. */
  {
    LD worst = 0; long iw = -1; LD dmx = 0;
    for (i = 0; i < C.n; ++i) dmx = fmaxl(dmx, fabsl(d[i]));
    if (dev > 0.05L*dmx) { obs("direction-ill-conditioned"); return; }
    for (i = 0; i < C.n; ++i) {
      LD v = (LD)M.x[i] - (LD)stp*d[i], tol, er;
      if (! isfinite((double)v) || (C.single && fabsl(v) > 1e37L)) return;
      tol = (LD)stp*dev + 8*eps*(fabsl((LD)M.x[i]) + fabsl((LD)stp*d[i])) + (C.single ? 1e-43L : 1e-320L);
      if (v < C.lo[i]) v = C.lo[i];
      if (v > C.hi[i]) v = C.hi[i];
      er = fabsl((LD)xt[i] - v)/tol;
      if (er > worst) { worst = er; iw = i; }
    }
    obs("directions-compared");
    obs_max("direction-error/tolerance", (double)worst);
    if (worst > 1)
      violp("C14", "direction", "trial point: x[%ld]=%.17g, expected %.17Lg (%.3Lg times the tolerance; %ld pairs, stp=%g, method %d, iteration %ld); %s",
            iw, xt[iw], fmaxl(C.lo[iw], fminl(C.hi[iw], (LD)M.x[iw] - (LD)stp*d[iw])), worst, e, stp, method, M.iters, cfgtxt);
  }
}

/*---------------------------------------------------------------- NLCG */
static LD nlcg_coef[3];
/* Returns 1: direction updated, 0: restart, -1 ambiguous. */
static int nlcg_dir(LD* d, LD* betap) {
  unsigned flags = C.use_opts ? C.no.flags : 0; int meth, clip = 0; long i;
  LD g[PMAXN], g0[PMAXN], y[PMAXN], beta = 0, gn2, gty, dty, dtg, yty, dtyab = 0, gtyab = 0;
  LD md[PMAXN], dtg0;
  if (flags == 0) flags = OPK_NLCG_DEFAULT;
  meth = flags & 0xff;
  for (i = 0; i < C.n; ++i) md[i] = noise > 0 ? M.d[i] + M.derr*(2*(LD)r_unif() - 1) : M.d[i];
  dtg0 = noise > 0 ? M.dtg0 + M.dtg0err*(2*(LD)r_unif() - 1) : (LD)M.dtg0;
  for (i = 0; i < C.n; ++i) {
    g[i] = M.g[i]; g0[i] = M.g0[i]; y[i] = nz(g[i] - g0[i], fabsl(g[i] - g0[i]));
    dtyab += fabsl(md[i]*y[i]); gtyab += fabsl(g[i]*y[i]);
  }
  gn2 = dotn(g, g, NULL); gty = dotn(g, y, NULL); dty = -dotn(md, y, NULL);
  dtg = -dotn(md, g, NULL); yty = dotn(y, y, NULL);
  if (fabsl(dty) <= 64*C.n*eps*dtyab && (meth == OPK_NLCG_HESTENES_STIEFEL || meth == OPK_NLCG_DAI_YUAN
      || meth == OPK_NLCG_HAGER_ZHANG || meth == OPK_NLCG_PERRY_SHANNO)) return -1;
  switch (meth) {
  case OPK_NLCG_FLETCHER_REEVES: beta = gn2/((LD)M.g0norm*M.g0norm); break;
  case OPK_NLCG_HESTENES_STIEFEL: beta = dty != 0 ? gty/dty : 0; clip = 1; break;
  case OPK_NLCG_POLAK_RIBIERE_POLYAK: beta = gty/((LD)M.g0norm*M.g0norm); clip = 1; break;
  case OPK_NLCG_FLETCHER: beta = -gn2/dtg0; break;
  case OPK_NLCG_LIU_STOREY: beta = -gty/dtg0; clip = 1; break;
  case OPK_NLCG_DAI_YUAN: beta = dty != 0 ? gn2/dty : 0; clip = 1; break;
  case OPK_NLCG_HAGER_ZHANG:
    beta = dty != 0 ? (gty - 2*yty*dtg/dty)/dty : 0; clip = 1;
    if (fabsl(beta*dty) <= 64*C.n*eps*(gtyab + 2*yty*fabsl(dtg/dty))) return -1;
    break;
  case OPK_NLCG_PERRY_SHANNO: {
    LD c1, c2, c3;
    if (yty == 0 || dty == 0) return 0;
    c1 = dty/yty; c2 = gty/yty - 2*dtg/dty; c3 = -dtg/yty;
    *betap = c2/c1;
    for (i = 0; i < C.n; ++i)
      d[i] = nz(c1*g[i] + c2*md[i] + c3*y[i], fabsl(c1*g[i]) + fabsl(c2*md[i]) + fabsl(c3*y[i]));
    return 1; }
  default: HARNESS_BUG("method %d", meth);
  }
  if (clip && (meth == OPK_NLCG_POLAK_RIBIERE_POLYAK || meth == OPK_NLCG_LIU_STOREY || meth == OPK_NLCG_HESTENES_STIEFEL)
      && fabsl(gty) <= 64*C.n*eps*gtyab && gtyab > 0) return -1;
  if (clip && (flags & OPK_NLCG_POWELL) && beta < 0) { beta = 0; if (noise == 0) obs("beta-clipped"); }
  *betap = beta;
  if (beta == 0) return 0;
  for (i = 0; i < C.n; ++i) d[i] = nz(g[i] + beta*md[i], fabsl(g[i]) + fabsl(beta*md[i]));
  return 1;
}
static void chk_nlcg_direction(lowopt* O, hvec* xv) {
  LD d[PMAXN], dd[PMAXN], beta = 0, b2, dev = 0, bdev = 0, dn = 0, dtg = 0, slack = 0, thr, gn = 0;
  long i, restarted = low_restarts(O) - M.restarts; int r, k;
  double stp = low_step(O), xt[PMAXN], ep = C.use_opts ? C.no.epsilon : 0, rb = opk_get_nlcg_beta(O->c);
  unsigned flags = C.use_opts ? C.no.flags : 0;
  if (flags == 0) flags = OPK_NLCG_DEFAULT;
  load(xt, xv);
  for (i = 0; i < C.n; ++i) gn += (LD)M.g[i]*M.g[i];
  gn = sqrtl(gn);
  if (restarted < 0 || restarted > 1 || (restarted == 1 && M.iters == 0))
    violp("C09", "restarts", "restarts went from %ld to %ld; %s", M.restarts, low_restarts(O), cfgtxt);
  if (M.iters == 0) r = 0;
  else if (! M.d_known) r = -1;
  else {
    noise = 0; r = nlcg_dir(d, &beta);
    for (k = 0; k < 6 && r == 1; ++k) {
      int r2;
      noise = 4*eps; r2 = nlcg_dir(dd, &b2); noise = 0;
      if (r2 != 1) { r = -1; break; }
      for (i = 0; i < C.n; ++i) dev = fmaxl(dev, fabsl(dd[i] - d[i]));
      bdev = fmaxl(bdev, fabsl(beta - b2));
    }
    if (r == 1) {
      dev *= 20; bdev *= 20;
      for (i = 0; i < C.n; ++i) {
        dn += d[i]*d[i]; dtg -= d[i]*(LD)M.g[i];
        slack += 8*C.n*eps*fabsl(d[i]*(LD)M.g[i]) + dev*fabsl((LD)M.g[i]);
      }
      dn = sqrtl(dn); thr = -ep*dn*gn; slack += ep*gn*dev*C.n;
      if (!(dn < (C.single ? 1e16L : 1e140L)) || ! isfinite((double)dev)) r = -1;
      else if (fabsl(dtg - thr) <= slack || fabsl(dtg) <= slack) r = -1;
      else if (dtg >= 0 || dtg > thr) r = 0;
    }
  }
  if (r == -1) {
    obs("nlcg-ambiguous");
    M.d_known = restarted != 0;
    if (restarted) {
      M.derr = 0; dtg = -gn*gn; M.dtg0 = (double)dtg; M.dtg0err = fabs(M.dtg0)*16*C.n*eps;
      for (i = 0; i < C.n; ++i) M.d[i] = M.g[i];
    }
    return;
  }
  if (r == 0) {
    if (M.iters > 0) {
      obs("nlcg-restarts");
      if (restarted != 1) { violp("C33", "restart-missing", "no restart though the update rule fails (beta=%.17Lg, dtg=%.17Lg, slack %Lg, reported beta %.17g); %s", beta, dtg, slack, rb, cfgtxt); M.d_known = 0; return; }
    }
    for (i = 0; i < C.n; ++i) d[i] = M.g[i];
    dev = 0; dtg = -gn*gn;
    if (rb != 0) violp("C33", "beta-after-restart", "beta=%g after a restart; %s", rb, cfgtxt);
    { /* initial step */
      LD st, tol = 64*C.n*eps; LD f = M.f;
      if (C.use_opts && C.no.fmin_given && C.no.fmin < M.f) {
        st = 2*((LD)C.no.fmin - f)/dtg; obs("nlcg-step-from-fmin");
      } else if (f != 0) st = 2*fabsl(f/dtg);
      else {
        LD xn = 0; for (i = 0; i < C.n; ++i) xn += (LD)M.x[i]*M.x[i];
        xn = sqrtl(xn); st = (C.use_opts ? C.no.delta : 5e-2)/gn*(xn > 0 ? xn : 1);
        obs("nlcg-step-from-delta");
      }
      if (isfinite((double)st) && st > 1e-300L && fabsl(st - stp) > tol*st)
        violp("C33", "initial-step", "first step %.17g along the gradient, expected %.17Lg; %s", stp, st, cfgtxt);
    }
  } else {
    LD st;
    obs("nlcg-updates"); obsf("nlcg-rule-%d", flags & 0xff);
    if (restarted) { violp("C33", "restart-spurious", "restart although the rule gives a descent direction; %s", cfgtxt); M.d_known = 0; return; }
    if (fabsl(rb - beta) > bdev + 64*C.n*eps*fabsl(beta))
      violp("C33", "beta", "beta=%.17g, expected %.17Lg (tolerance %.3Lg); %s", rb, beta, bdev, cfgtxt);
    st = M.alpha_prev;
    if (flags & OPK_NLCG_SHANNO_PHUA) { st *= (LD)M.dtg0/dtg; obs("nlcg-shanno-phua"); }
    if (fabsl(st - stp) > st*(64*C.n*eps + 2*slack/fabsl(dtg) + 2*M.dtg0err/fabs(M.dtg0)))
      violp("C33", "step", "first step %.17g, expected %.17Lg; %s", stp, st, cfgtxt);
  }
  if (stp > 0 && isfinite(stp)) {
    LD worst = 0, dmx = 0; long iw = 0;
    for (i = 0; i < C.n; ++i) dmx = fmaxl(dmx, fabsl(d[i]));
    if (dev > 0.05L*dmx) { obs("nlcg-ill-conditioned"); M.d_known = 0; return; }
    for (i = 0; i < C.n; ++i) {
      LD v = (LD)M.x[i] - (LD)stp*d[i], tol, er;
      if (! isfinite((double)v) || (C.single && fabsl(v) > 1e37L)) { M.d_known = 0; return; }
      tol = (LD)stp*dev + 8*eps*(fabsl((LD)M.x[i]) + fabsl((LD)stp*d[i])) + (C.single ? 1e-43L : 1e-320L);
      er = fabsl((LD)xt[i] - v)/tol;
      if (er > worst) { worst = er; iw = i; }
    }
    obs("nlcg-directions-compared");
    obs_max("nlcg-direction-error/tolerance", (double)worst);
    if (worst > 1) {
      violp("C33", "direction", "trial point: x[%ld]=%.17g, expected %.17Lg (%.3Lg times the tolerance; iteration %ld); %s",
            iw, xt[iw], (LD)M.x[iw] - (LD)stp*d[iw], worst, M.iters, cfgtxt);
    }
  }
  {
    /* Keep the direction, with a bound of the error on its components. */
    LD derr = 0, err = 0;
    if (r == 1 && (flags & 0xff) != OPK_NLCG_PERRY_SHANNO) {
      for (i = 0; i < C.n; ++i) {
        derr = fmaxl(derr, 4*eps*(fabsl((LD)M.g[i]) + fabsl(rb*M.d[i])) + fabsl((LD)rb)*M.derr);
        M.d[i] = M.g[i] + rb*M.d[i];
      }
    } else {
      derr = dev;
      for (i = 0; i < C.n; ++i) M.d[i] = d[i];
    }
    M.derr = derr; dtg = 0;
    for (i = 0; i < C.n; ++i) {
      dtg -= M.d[i]*(LD)M.g[i];
      err += derr*fabsl((LD)M.g[i]) + 8*C.n*eps*fabsl(M.d[i]*(LD)M.g[i]);
    }
    M.d_known = 1;
    M.dtg0 = (double)dtg; M.dtg0err = (double)err;
    if (err > 0.02L*fabsl(dtg)) { M.d_known = 0; obs("nlcg-lost"); }
  }
}

/* Steps along a direction are limited relatively to the first one. */
static void chk_step_limits(lowopt* O) {
  double smin, smax, stp = low_step(O), ref = M.stpref;
  const char* prop = C.vmlmb ? "C14" : "C33";
  if (C.vmlmb) {
    opk_vmlmb_options o; opk_get_vmlmb_default_options(&o);
    smin = C.use_opts ? C.vo.stpmin : o.stpmin; smax = C.use_opts ? C.vo.stpmax : o.stpmax;
  } else {
    opk_nlcg_options o; opk_get_nlcg_default_options(&o);
    smin = C.use_opts ? C.no.stpmin : o.stpmin; smax = C.use_opts ? C.no.stpmax : o.stpmax;
  }
  if (!(ref > 0) || ! isfinite(ref) || ! isfinite(stp)) return;
  obs("step-limit-checks");
  if (stp != M.stp1 && (stp >= ref*smax*0.999999 || stp <= ref*smin*1.000001)) obs("step-at-limit");
  if (stp > ref*smax*(1 + 256*C.n*eps) || stp < ref*smin*(1 - 256*C.n*eps))
    violp(prop, "step-limits", "step %.17g after a first step %.17g not in the relative range [%g,%g]; %s", stp, ref, smin, smax, cfgtxt);
}

/*---------------------------------------------------------------- at an iterate */
static double gn_hist[64]; static int gn_cnt; /* norms reported at the iterates of the last run */
static void chk_iterate(lowopt* O, opk_task task, hvec* xv) {
  double w[PMAXN], gn, fmax; int amb; long i; LD s = 0; double repn = low_gnorm(O);
  int ls = cfg_ls_effective(&C);
  double gatol = C.vmlmb ? C.vo.gatol : C.no.gatol, grtol = C.vmlmb ? C.vo.grtol : C.no.grtol;
  LD gmax = 0;
  for (i = 0; i < C.n; ++i) gmax = fmaxl(gmax, fabsl((LD)M.g[i]));
  free_mask(w, M.x, M.g, &amb); /* g[i]=0 does not change the norm */
  for (i = 0; i < C.n; ++i) if (w[i] != 0) s += (LD)M.g[i]*M.g[i];
  gn = (double)sqrtl(s);
  if (M.iters == 0) gn_cnt = 0;
  if (gn_cnt < 64) gn_hist[gn_cnt++] = repn;
  obs("iterates");
  if (task == OPK_TASK_FINAL_X) obs("final-iterates");
  /* C12 */
  if ((gmax == 0 || (gmax > (C.single ? 1e-17L : 1e-150L) && gmax < (C.single ? 1e17L : 1e150L)))) {
    double tol = (C.n + 8)*4*eps*gn, thr;
    obs("gnorm-checks");
    if (fabs(gn - repn) > tol)
      violp("C12", "gnorm", "reported gradient norm %.17g, actual %.17g (iteration %ld); %s", repn, gn, M.iters, cfgtxt);
    if (M.iters == 0) M.ginit = repn;
    thr = dmax(0, dmax(gatol, grtol*M.ginit));
    /* The absolute threshold is exact, the relative one is rounded. */
    if (fabs(repn - thr) > 8*DBL_EPSILON*thr || thr == 0 || gatol > grtol*M.ginit*(1 + 8*DBL_EPSILON)) {
      if (thr > 0 && repn == thr) obs("criterion-exactly-met");
      if (gatol > 0 && grtol > 0) obs("criterion-both-thresholds");
      if (fabs(repn - thr) < 1e-2*thr) obs("criterion-close");
      int want = repn <= thr;
      if (want) obs("criterion-met"); else obs("criterion-not-met");
      if (want != (task == OPK_TASK_FINAL_X))
        violp("C12", "convergence", "%s answered with gradient norm %.17g, threshold %.17g (initial norm %.17g, iteration %ld); %s",
              task == OPK_TASK_FINAL_X ? "final iterate" : "new iterate", repn, thr, M.ginit, M.iters, cfgtxt);
    }
  } else if (M.iters == 0) M.ginit = repn;
  /* C12: the step is the one which gave the iterate (no bounds) */
  if (M.iters >= 1 && ! cfg_bounded(&C) && M.ntrial >= 1) {
    double stp = low_step(O); int bad = 0;
    for (i = 0; i < C.n && ! bad; ++i) {
      LD a = ((LD)M.x[i] - M.x0[i])*M.stp1, b = ((LD)M.xt1[i] - M.x0[i])*stp;
      LD tol = 8*eps*((fabsl((LD)M.x[i]) + fabsl((LD)M.x0[i]))*M.stp1 + (fabsl((LD)M.xt1[i]) + fabsl((LD)M.x0[i]))*stp + fabsl(a) + fabsl(b));
      if (! isfinite((double)(a*b))) break;
      if (fabsl(a - b) > tol + (C.single ? 1e-43L : 1e-320L)) {
        bad = 1;
        violp("C12", "step", "reported step %.17g does not match the move (first trial: step %.17g); component %ld moved by %.17Lg, by %.17Lg at the first trial; %s",
              stp, M.stp1, i, (LD)M.x[i] - M.x0[i], (LD)M.xt1[i] - M.x0[i], cfgtxt);
      }
    }
    obs("step-checks");
    if (M.ntrial > 1) obs("step-checks-several-trials");
  }
  /* C11 */
  if (M.iters == 0) {
    M.fb = M.f; M.nfs = 0;
  } else {
    fmax = M.fs[(M.nfs - 1) % 64];
    if (ls == LS_NONMONOTONE) {
      long j; for (j = 1; j < C.lm && j < M.nfs; ++j) fmax = dmax(fmax, M.fs[(M.nfs - 1 - j) % 64]);
    }
    if (isfinite(M.f0) && isfinite(M.f)) {
      obs("decrease-checks"); obsf("decrease-checks-%s%s", ls_name[ls], cfg_bounded(&C) ? "-bounds" : "");
      if (M.f > fmax) {
        violp("C11", "increase", "accepted f=%.17g > %.17g (iteration %ld, line search %s); %s", M.f, fmax, M.iters, ls_name[ls], cfgtxt);
      } else if (! cfg_bounded(&C)) {
        LD gd = 0, gab = 0, tol; int conv = O->ls != NULL ? opk_lnsrch_get_task(O->ls) == OPK_LNSRCH_CONVERGENCE : 1;
        for (i = 0; i < C.n; ++i) {
          gd += (LD)M.g0[i]*((LD)M.x[i] - M.x0[i]);
          gab += fabsl((LD)M.g0[i])*(fabsl((LD)M.x[i]) + fabsl((LD)M.x0[i]));
        }
        tol = cfg_ftol(&C)*(gab*eps*4*(C.n + 4)) + 8*DBL_EPSILON*(fabsl((LD)M.f) + fabsl((LD)fmax));
        if (O->ls == NULL && ls == LS_CSRCH && M.f <= M.f0) conv = 0; /* a rounding warning may be hidden */
        if (O->ls == NULL && ls == LS_CSRCH && M.f + cfg_ftol(&C)*fabs((double)gd)*1e-3 < M.f0 && M.ntrial <= 15) conv = 1;
        if (conv && (LD)M.f > (LD)fmax + cfg_ftol(&C)*gd + tol)
          violp("C11", "insufficient-decrease", "f=%.17g, reference %.17g, predicted change %.6Lg, ftol=%g (iteration %ld, line search %s); %s",
                M.f, fmax, gd, cfg_ftol(&C), M.iters, ls_name[ls], cfgtxt);
        if (conv) obs("sufficient-decrease-checks");
        if (fmax > M.f0) obs("nonmonotone-reference-above");
      }
      /* Conditions declared satisfied by a More-Thuente line search, along the
         effective step. */
      if (O->ls != NULL && ls == LS_CSRCH && opk_lnsrch_get_task(O->ls) == OPK_LNSRCH_CONVERGENCE && M.ntrial >= 1) {
        LD s0 = 0, e0 = 0, s1 = 0, e1 = 0; double stp = low_step(O);
        if (! cfg_bounded(&C)) {
          for (i = 0; i < C.n; ++i) {
            s0 += (LD)M.g0[i]*((LD)M.xt1[i] - M.x0[i]);
            e0 += 4*(C.n + 2)*eps*fabsl((LD)M.g0[i])*(fabsl((LD)M.xt1[i]) + fabsl((LD)M.x0[i]));
          }
          s0 /= M.stp1; e0 /= M.stp1;
        } else { s0 = M.dtgv; e0 = M.dtgverr; }
        for (i = 0; i < C.n; ++i) {
          s1 += (LD)M.g[i]*((LD)M.x[i] - M.x0[i]);
          e1 += 4*(C.n + 2)*eps*fabsl((LD)M.g[i])*(fabsl((LD)M.x[i]) + fabsl((LD)M.x0[i]));
        }
        s1 /= stp; e1 /= stp;
        if (s0 < -e0 && isfinite((double)s0) && isfinite((double)s1) && isfinite((double)e1)) {
          LD tf = 8*DBL_EPSILON*(fabsl((LD)M.f) + fabsl((LD)M.f0)) + 4*C.ftol*stp*e0;
          obs("curvature-checks"); if (cfg_bounded(&C)) obs("curvature-checks-bounds");
          if (cfg_bounded(&C) && e1 < 0.1L*fabsl(s0)) obs("curvature-checks-bounds-sharp");
          if (fabsl(s1) > C.gtol*(fabsl(s0) + e0)*(1 + 1e-12L) + e1)
            violp("C11", "curvature", "slope %.17Lg (error %.3Lg) accepted after %.17Lg (error %.3Lg) with gtol=%g (iteration %ld, step %.17g); %s", s1, e1, s0, e0, C.gtol, M.iters, stp, cfgtxt);
          if ((LD)M.f > (LD)M.f0 + C.ftol*stp*s0 + tf)
            violp("C11", "armijo", "f=%.17g after %.17g with slope %.17Lg, ftol=%g (iteration %ld, step %.17g); %s", M.f, M.f0, s0, C.ftol, M.iters, stp, cfgtxt);
        }
      }
    }
    if (task == OPK_TASK_FINAL_X && isfinite(M.fb) && M.f > M.fb && ls != LS_NONMONOTONE)
      violp("C11", "final-worse", "final f=%.17g, initial %.17g; %s", M.f, M.fb, cfgtxt);
  }
}

/*---------------------------------------------------------------- counters */
static void chk_counters(lowopt* O, opk_task task, const char* when) {
  opk_status st = low_status(O);
  obs("protocol-steps");
  if (low_task(O) != task) violp("C09", "task-query", "%s: task query %d, returned %d; %s", when, low_task(O), task, cfgtxt);
  if (low_evals(O) != M.evals) violp("C09", "evaluations", "%s: %ld evaluations reported, %ld made; %s", when, low_evals(O), M.evals, cfgtxt);
  if (low_iters(O) != M.iters) violp("C09", "iterations", "%s: %ld iterations reported, %ld made; %s", when, low_iters(O), M.iters, cfgtxt);
  if (low_restarts(O) < M.restarts || low_restarts(O) > M.iters) violp("C09", "restarts", "%s: %ld restarts reported, %ld before, %ld iterations; %s", when, low_restarts(O), M.restarts, M.iters, cfgtxt);
  if ((task == OPK_TASK_ERROR || task == OPK_TASK_WARNING) ? st == OPK_SUCCESS : st != OPK_SUCCESS)
    violp("C09", "status", "%s: task %d with status %d; %s", when, task, st, cfgtxt);
}

/* Log of a run, for the comparison of restarted runs. */
typedef struct { long n; uint64_t h; } runlog;
static void log_step(runlog* L, lowopt* O, opk_task task, hvec* x) {
  long i; double v;
#define LOGB(p, sz) do { const unsigned char* b_ = (const unsigned char*)(p); size_t q_; \
    for (q_ = 0; q_ < (sz); ++q_) { L->h ^= b_[q_]; L->h *= 1099511628211ULL; } } while (0)
  ++L->n;
  i = task; LOGB(&i, sizeof(i));
  i = low_status(O); LOGB(&i, sizeof(i));
  for (i = 0; i < C.n; ++i) { v = hv_get(x, i); LOGB(&v, sizeof(v)); }
  if (M.evals > 0) {
    v = low_gnorm(O); if (M.evals > 0 && task != OPK_TASK_ERROR) LOGB(&v, sizeof(v));
    if (M.iters > 0) { v = low_step(O); LOGB(&v, sizeof(v)); }
  }
  i = low_iters(O); LOGB(&i, sizeof(i)); i = low_evals(O); LOGB(&i, sizeof(i)); i = low_restarts(O); LOGB(&i, sizeof(i));
}

typedef struct { opk_task last; double fbest; long evals; double x[PMAXN], g[PMAXN]; opk_status status; int done; } outcome;

/* One run of at most maxevals evaluations. */
static void run(lowopt* O, hvec* x, hvec* g, long maxevals, long after_final, runlog* L, outcome* R) {
  opk_task task; long i; double f = 0; int first = 1;
  memset(&M, 0, sizeof(M)); memset(R, 0, sizeof(*R));
  L->n = 0; L->h = 14695981039346656037ULL;
  for (i = 0; i < C.n; ++i) hv_set(x, i, C.x0[i]);
  task = low_start(O, x->v);
  if (task != OPK_TASK_COMPUTE_FG) violp("C09", "start", "start answers %d; %s", task, cfgtxt);
  for (i = 0; i < C.n; ++i) {
    double want = cfg_bounded(&C) ? clampx(C.x0[i], i) : C.x0[i];
    if (hv_get(x, i) != want) {
      violp(cfg_bounded(&C) ? "C08" : "C09", "start-point", "x[%ld]=%.17g after start, expected %.17g; %s", i, hv_get(x, i), want, cfgtxt);
      break;
    }
  }
  if (cfg_bounded(&C)) for (i = 0; i < C.n; ++i) if (C.x0[i] < C.lo[i] || C.x0[i] > C.hi[i]) { obs("infeasible-start"); break; }
  chk_counters(O, task, "after start");
  chk_feasible(x, "after start");
  log_step(L, O, task, x);
  M.pairs_known = 1;
  while (1) {
    double xb[PMAXN], gb[PMAXN]; opk_task prev = task;
    if (task == OPK_TASK_COMPUTE_FG) {
      if (M.evals >= maxevals) { obs("stopped-by-monitor"); break; }
      f = evalp(x, g);
      if (! isfinite(f)) obs("non-finite-objective");
      if (! PROP("C09") && ! PROP("C13")) {
        double lim = C.single ? 1e15 : 1e120; int big = !(fabs(f) < lim);
        for (i = 0; i < C.n && ! big; ++i) big = !(fabs(hv_get(g, i)) < lim && fabs(hv_get(x, i)) < lim);
        if (big) { obs("stopped-huge-values"); break; }
      }
      ++M.evals;
      load(M.x, x); load(M.g, g); M.f = f;
    } else if (task == OPK_TASK_FINAL_X) {
      if (R->done == 0) { R->done = 1; R->evals = M.evals; load(R->x, x); load(R->g, g); }
      if (after_final <= 0) break;
      --after_final;
      obs("iterate-after-final");
    } else if (task != OPK_TASK_NEW_X) break;
    load(xb, x); load(gb, g);
    task = low_iterate(O, x->v, f, g->v);
    if (prev == OPK_TASK_COMPUTE_FG) {
      int bad = 0;
      if (task == OPK_TASK_NEW_X || task == OPK_TASK_FINAL_X) {
        if (! first) ++M.iters;
        first = 0;
        for (i = 0; i < C.n; ++i) if (! same_bits(hv_get(x, i), xb[i]) || ! same_bits(hv_get(g, i), gb[i])) bad = 1;
        if (bad) violp("C09", "iterate-changed", "the variables or the gradient changed in the call answering an iterate; %s", cfgtxt);
        chk_counters(O, task, "at an iterate");
        chk_feasible(x, "iterate");
        chk_iterate(O, task, x);
        M.alpha_prev = low_step(O);
      } else if (task == OPK_TASK_COMPUTE_FG) {
        if (first) violp("C09", "protocol", "the first evaluation was not answered by an iterate; %s", cfgtxt);
        ++M.ntrial; obs("line-search-trials");
        if (! first) chk_step_limits(O);
        chk_counters(O, task, "during line search");
        chk_feasible(x, "trial");
      } else {
        obs("errors"); obsf("error-%d", low_status(O));
        chk_counters(O, task, "error");
        chk_feasible(x, "error");
      }
    } else {
      if (task == OPK_TASK_COMPUTE_FG) {
        chk_counters(O, task, "first trial");
        chk_feasible(x, "first trial");
        M.stpref = 0; M.dtgv = 0;
        if (C.vmlmb) chk_vmlmb_direction(O, x); else chk_nlcg_direction(O, x);
        M.restarts = low_restarts(O);
        memcpy(M.x0, M.x, sizeof(M.x)); M.f0 = M.f;
        { double s = 0; for (i = 0; i < C.n; ++i) s += M.g[i]*M.g[i]; M.g0norm = sqrt(s); }
        if (C.vmlmb && cfg_bounded(&C) && C.use_opts && C.vo.blmvm) {
          double w[PMAXN]; int amb; free_mask(w, M.x, M.g, &amb);
          for (i = 0; i < C.n; ++i) M.g0[i] = w[i] != 0 ? M.g[i] : 0;
        } else memcpy(M.g0, M.g, sizeof(M.g));
        M.fs[M.nfs++ % 64] = M.f;
        load(M.xt1, x); M.stp1 = low_step(O); M.ntrial = 1;
        if (! cfg_bounded(&C)) M.stpref = M.stp1;
        chk_step_limits(O);
        obs("line-searches");
      } else if (task == OPK_TASK_ERROR || task == OPK_TASK_WARNING) {
        obs("errors-at-line-search-start"); obsf("error-%d", low_status(O));
        M.restarts = low_restarts(O) >= M.restarts ? low_restarts(O) : M.restarts;
        chk_counters(O, task, "error");
        chk_feasible(x, "error");
      } else {
        violp("C09", "protocol", "iterate called at an iterate answers %d; %s", task, cfgtxt);
        break;
      }
    }
    if (h_verbose) printf("eval %ld iter %ld restarts %ld task %d status %d f=%.17g step=%.6g gnorm=%.6g x0=%.17g\n", M.evals, M.iters, low_restarts(O), task, low_status(O), f, low_step(O), low_gnorm(O), hv_get(x, 0));
    log_step(L, O, task, x);
    if (task == OPK_TASK_ERROR || task == OPK_TASK_WARNING) {
      /* Sticky. */
      opk_status st = low_status(O); int k;
      for (k = 0; k < 2; ++k) {
        opk_task t2;
        load(xb, x);
        t2 = low_iterate(O, x->v, f, g->v);
        obs("iterate-after-error");
        if (t2 != task || low_status(O) != st)
          violp("C09", "error-not-sticky", "after error status %d, iterate answers %d with status %d; %s", st, t2, low_status(O), cfgtxt);
        for (i = 0; i < C.n; ++i) if (! same_bits(hv_get(x, i), xb[i])) { violp("C09", "error-changes", "iterate after an error changes the variables; %s", cfgtxt); break; }
        chk_counters(O, task, "after error");
      }
      break;
    }
  }
  R->last = task; R->status = low_status(O);
  if (R->done == 0) { R->evals = M.evals; load(R->x, x); load(R->g, g); }
}

/*---------------------------------------------------------------- C13 */
static int cx_hard;   /* not so well conditioned, small tolerance */
static long cx_evals; /* evaluations of the last case */
static int cx_family(void) { return C.vmlmb ? (cfg_bounded(&C) ? (C.use_opts && C.vo.blmvm ? 2 : 1) : 0) : 10 + (int)(C.no.flags & 0xff); }
static int cx_jams(void) { /* rules known to stall now and then */
  unsigned rule = C.use_opts ? C.no.flags & 0xff : 0;
  return ! C.vmlmb && (rule == OPK_NLCG_FLETCHER_REEVES || rule == OPK_NLCG_HESTENES_STIEFEL
        || rule == OPK_NLCG_FLETCHER || rule == OPK_NLCG_DAI_YUAN);
}
static int convex_case(int loose) {
  lowopt O; hvec x, g; runlog L; outcome R; long i, budget;
  double xs[PMAXN], er = 0, gn = 0, tolx, cond = r_logu(1, C.single ? 30 : 100), fl;
  int kind = r_p(0.5) ? PK_QUAD : PK_LOGCOSH, tight = 0;
  if (cx_hard) cond = r_logu(30, C.single ? 60 : 300);
  prob_make(&P, kind, C.n, cond, r_p(0.7) ? 1 : r_logu(0.01, 100));
  P.off = r_bool() ? 0 : r_norm();
  use_lin = 1;
  for (i = 0; i < C.n; ++i) { xs[i] = P.xs[i]; lin[i] = 0; }
  if (C.single) for (i = 0; i < C.n; ++i) xs[i] = (float)xs[i];
  if (cfg_bounded(&C)) {
    /* Take a feasible x*, choose the linear term so that the gradient at x* is
       zero for free variables and the sign allowed at the active bounds. */
    double g0[PMAXN];
    for (i = 0; i < C.n; ++i) {
      double v = P.xs[i]; int at = 0;
      if (r_p(0.35)) { if (! isinf(C.lo[i])) { v = C.lo[i]; at = 1; } }
      else if (r_p(0.5)) { if (! isinf(C.hi[i])) { v = C.hi[i]; at = 2; } }
      if (at == 0) {
        v = clampx(v, i); at = v == C.lo[i] ? 1 : v == C.hi[i] ? 2 : 0;
        if (r_bool() && ! isinf(C.lo[i]) && ! isinf(C.hi[i])) { v = cfg_round(&C, C.lo[i] + r_range(0.1, 0.9)*(C.hi[i] - C.lo[i])); v = clampx(v, i); at = v == C.lo[i] ? 1 : v == C.hi[i] ? 2 : 0; }
      }
      xs[i] = cfg_round(&C, v);
    }
    /* The smooth part is centered there, so that the objective is well
       conditioned as a sum near the solution. */
    for (i = 0; i < C.n; ++i) P.xs[i] = xs[i];
    fl = prob_eval(&P, xs, g0);
    for (i = 0; i < C.n; ++i) {
      double mult = r_p(0.15) ? 0 : fabs(r_norm())*P.L;
      int at = xs[i] <= C.lo[i] ? 1 : xs[i] >= C.hi[i] ? 2 : 0;
      if (C.lo[i] == C.hi[i] && r_bool()) mult = -mult;
      lin[i] = (at == 1 ? mult : at == 2 ? -mult : 0) - g0[i];
      if (at) tight = 1;
    }
  }
  /* Tolerance of the run: absolute, relative to the scale of the problem. */
  {
    double gatol = P.L*(C.single ? r_logu(1e-3, cx_hard ? 2e-3 : 1e-2) : r_logu(1e-6, cx_hard ? 1e-5 : 1e-3)), xm = 0, gmin;
    for (i = 0; i < C.n; ++i) xm = dmax(xm, fabs(xs[i]));
    gmin = 50*(P.L + P.w)*eps*(1 + xm)*sqrt((double)C.n);
    gatol = dmax(gatol, gmin);
    C.use_opts = 1;
    C.vo.gatol = C.no.gatol = gatol; C.vo.grtol = C.no.grtol = 0;
  }
  cfg_describe(&C, cfgtxt, sizeof(cfgtxt));
  if (! low_new(&O, &C)) { viol("no-optimizer", "refused: %s", cfgtxt); low_free(&O); return 0; }
  x = hv_new(O.space, C.single, C.n, 0); g = hv_new(O.space, C.single, C.n, 0);
  budget = loose ? 600 : C.vmlmb ? 400 : 600; /* about four times the largest number ever needed */
  run(&O, &x, &g, budget, 0, &L, &R);
  cx_evals = R.evals;
  nontrivial(); hash_l(R.evals); hash_bytes(R.x, sizeof(R.x));
  obs("convex-problems");
  if (tight) obs("convex-active-bounds");
  obs_max("convex-evaluations", R.evals);
  obsf("convex-%s-%s", C.vmlmb ? (cfg_bounded(&C) ? (C.vo.blmvm ? "blmvm" : "vmlmb") : "lbfgs") : "nlcg", ls_name[C.ls]);
  obs_n("convex-evaluations-total", R.evals);
  { char k[80]; snprintf(k, sizeof(k), "evals-%s%d-%s%s", C.vmlmb ? "vmlm" : "nlcg", C.vmlmb ? cfg_bounded(&C) : (int)(C.no.flags & 0xff), ls_name[C.ls], C.single ? "-f" : ""); obs_max(k, R.evals); }
  if (! C.vmlmb) obs_max("convex-evaluations-nlcg", R.evals); else obs_max("convex-evaluations-vmlmb", R.evals);
  if (! R.done) {
    if (loose) obs("convex-not-converged-tolerated"); else viol("not-converged", "task %d status %d after %ld evaluations (%s, cond %g, kind %s); %s",
         R.last, R.status, R.evals, opk_get_reason(R.status), cond, pk_name[kind], cfgtxt);
  } else {
    double w[PMAXN], gx[PMAXN]; LD s = 0, lam;
    fl = prob_eval_lin(&P, lin, R.x, gx);
    for (i = 0; i < C.n; ++i) {
      int blocked = cfg_bounded(&C) && ((R.x[i] <= C.lo[i] && gx[i] > 0) || (R.x[i] >= C.hi[i] && gx[i] < 0));
      if (! blocked) s += (LD)gx[i]*gx[i];
      er += (R.x[i] - xs[i])*(R.x[i] - xs[i]);
    }
    gn = (double)sqrtl(s); er = sqrt(er);
    lam = C.vo.gatol*(1 + 1e-3) + P.L*eps*100;
    if (gn > lam)
      viol("not-stationary", "projected gradient norm %.3g at the solution, tolerance %.3g; %s", gn, C.vo.gatol, cfgtxt);
    { double xn = 0; for (i = 0; i < C.n; ++i) xn += xs[i]*xs[i];
      tolx = (double)lam/P.mu + sqrt((double)C.n)*100*eps*(P.L + P.w)/P.mu*(1 + sqrt(xn)); }
    obs_max("solution-error/tolerance", er/tolx);
    if (er > tolx)
      viol("wrong-solution", "distance to the minimizer %.3g, tolerance %.3g (cond %g, kind %s); %s", er, tolx, cond, pk_name[kind], cfgtxt);
    (void)w;
  }
  sample("%s: %ld evaluations, error %.2g; %s", pk_name[kind], R.evals, er, cfgtxt);
  hv_free(&x); hv_free(&g);
  low_free(&O);
  return R.done;
}

void run_case(uint64_t c) {
  lowopt O; hvec x, g; runlog L1, L2, L3; outcome R; int flags = 0, kind; long maxevals, afterf;
  (void)c;
  use_lin = 0;
  if (PROP("C08")) flags = CF_BOUND;
  else if (PROP("C13")) flags = CF_NICE;
  else if (PROP("C14")) flags = CF_VMLMB;
  else if (PROP("C33")) flags = CF_NLCG;
  else if (PROP("C11")) flags = r_p(0.7) ? CF_NOBOUND : 0;
  cfg_random(&C, flags);
  /* The curvature condition of the More-Thuente line search is not for
     projected paths, which are only piecewise smooth. */
  if (PROP("C13") && cfg_bounded(&C) && C.ls == LS_CSRCH) { C.ls = LS_BACKTRACK; C.amin = 0.1; }
  eps = hv_eps(C.single);
  cfg_describe(&C, cfgtxt, sizeof(cfgtxt));
  if (PROP("C13")) {
    unsigned rule = C.use_opts ? C.no.flags & 0xff : 0;
    if (r_p(0.06)) { /* mean number of evaluations of a method over problems which need several iterations */
      int fam = cx_family(), k, l = cx_jams(); double mean = 0, lim = fam == 0 ? 90 : fam >= 10 ? 110 : 55; /* far above what is met */ char key[40];
      cx_hard = 1;
      for (k = 0; k < 10; ++k) {
        do cfg_random(&C, CF_NICE | (fam >= 10 ? CF_NLCG : CF_VMLMB) | (fam == 0 ? CF_NOBOUND : fam < 10 ? CF_BOUND : 0));
        while (C.n < 4 || (fam == 1 && C.use_opts && C.vo.blmvm) || (fam == 2 && !(C.use_opts && C.vo.blmvm)));
        if (fam >= 10) C.no.flags = fam == 10 ? 0 : (C.no.flags & ~0xffu) | (fam - 10);
        if (fam >= 10 && ! C.use_opts) C.use_opts = 1;
        if (cfg_bounded(&C) && C.ls == LS_CSRCH) { C.ls = LS_BACKTRACK; C.amin = 0.1; }
        eps = hv_eps(C.single);
        convex_case(l);
        mean += 0.1*cx_evals;
      }
      cx_hard = 0;
      obs("convex-batches-mean"); snprintf(key, sizeof(key), "convex-batch-mean-%d", fam); obs_max(key, mean);
      if (! l && mean > lim) viol("too-many-evaluations", "%g evaluations for a problem in the mean", mean);
      return;
    }
    if (cx_jams()) {
      /* These rules are known to stall now and then (they have no automatic
         restart, the first, third and fourth ones may jam; the second one may
         cancel): several problems, of which most must be solved. */
      int k, bad = 0; unsigned fl = C.no.flags;
      for (k = 0; k < 6; ++k) {
        if (k > 0) do { cfg_random(&C, CF_NICE|CF_NLCG); C.no.flags = fl; } while (! C.use_opts);
        eps = hv_eps(C.single);
        bad += ! convex_case(1);
      }
      obs("convex-batches-loose");
      if (bad >= 4) viol("not-converged", "%d of 6 convex problems not solved in 600 evaluations with NLCG rule %u", bad, rule);
    } else convex_case(0);
    return;
  }
  kind = (int)r_int(0, PK_COUNT - 1);
  if ((kind == PK_FLAT || kind == PK_LINEAR || kind == PK_ABS) && ! r_p(0.4)) kind = (int)r_int(PK_QUAD, PK_QUARTIC);
  prob_make(&P, kind, C.n, r_logu(1, 1e3), r_p(0.7) ? 1 : r_logu(1e-3, 1e3));
  if ((kind == PK_WELL || kind == PK_INDEF || kind == PK_COS) && r_p(0.6)) { /* start near a stationary point */
    double d = r_logu(1e-7, 1e-1); long i; obs("start-near-stationary");
    for (i = 0; i < C.n; ++i) C.x0[i] = cfg_round(&C, P.xs[i] + d*r_norm());
  }
  if (r_p(0.1)) { /* start with a null objective */
    double gd[PMAXN]; P.off = 0; P.off = -prob_eval(&P, C.x0, gd);
  }
  maxevals = r_p(0.1) ? r_int(1, 6) : h_thorough ? 300 : 80;
  if (r_p(0.015)) maxevals = h_thorough ? 3000 : 700; /* long runs */
  if (r_p(0.0025)) { /* very long runs: many iterations are needed on such problems */
    kind = r_bool() ? PK_QUAD : PK_LOGCOSH;
    prob_make(&P, kind, C.n, r_logu(1e5, 1e12), r_p(0.7) ? 1 : r_logu(1e-3, 1e3));
    C.vo.gatol = C.no.gatol = 0; C.vo.grtol = C.no.grtol = 0; C.use_opts = 1;
    if (r_p(0.8) && C.vo.mem > 5) C.vo.mem = r_int(1, 5);
    C.x0[0] += 10*r_norm(); C.x0[0] = cfg_round(&C, C.x0[0]);
    maxevals = h_thorough ? 8000 : 4000;
    cfg_describe(&C, cfgtxt, sizeof(cfgtxt));
    obs("very-long-runs");
  }
  afterf = r_p(0.3) ? r_int(1, 2) : 0;
  if (! low_new(&O, &C)) { violp("C09", "no-optimizer", "refused: %s", cfgtxt); low_free(&O); return; }
  if (low_task(&O) != OPK_TASK_ERROR || low_status(&O) != OPK_NOT_STARTED)
    violp("C09", "initial-state", "task %d, status %d before start; %s", low_task(&O), low_status(&O), cfgtxt);
  x = hv_new(O.space, C.single, C.n, r_bool()); g = hv_new(O.space, C.single, C.n, r_bool());
  if (PROP("C09") && r_p(0.3)) { /* iterate before start */
    long i; double xb[PMAXN]; opk_task t;
    for (i = 0; i < C.n; ++i) { hv_set(&x, i, C.x0[i]); hv_set(&g, i, 1); }
    load(xb, &x);
    t = low_iterate(&O, x.v, 1.0, g.v);
    obs("iterate-before-start");
    if (t != OPK_TASK_ERROR || low_status(&O) != OPK_NOT_STARTED)
      violp("C09", "not-started", "iterate before start answers %d, status %d", t, low_status(&O));
    for (i = 0; i < C.n; ++i) if (hv_get(&x, i) != xb[i]) { violp("C09", "not-started-x", "iterate before start changes x"); break; }
  }
  run(&O, &x, &g, maxevals, afterf, &L1, &R);
  obs_max("iterations-of-a-run", M.iters);
  nontrivial(); hash_bytes(&L1.h, sizeof(L1.h));
  obsf("kind-%s", pk_name[kind]);
  sample("%s, %ld evaluations, %ld iterations, %ld restarts, last task %d; %s", pk_name[kind], M.evals, M.iters, M.restarts, R.last, cfgtxt);
  if (PROP("C09") || r_p(0.1)) {
    /* Start again after an abandoned or finished run. */
    lowopt O2; hvec x2, g2; outcome R2; long m2 = r_int(0, maxevals);
    config Csave = C; long i;
    /* another run of any length from elsewhere */
    for (i = 0; i < C.n; ++i) C.x0[i] = cfg_round(&C, C.x0[i] + r_norm());
    run(&O, &x, &g, m2, afterf, &L2, &R2);
    memcpy(C.x0, Csave.x0, sizeof(C.x0));
    run(&O, &x, &g, maxevals, afterf, &L2, &R2);
    obs("restarted-runs");
    if (L2.h != L1.h || L2.n != L1.n)
      violp("C09", "restart-differs", "a run started again on the same optimizer differs from the first one (%ld, %ld steps); %s", L1.n, L2.n, cfgtxt);
    if (! low_new(&O2, &C)) { violp("C09", "no-optimizer", "refused: %s", cfgtxt); return; }
    x2 = hv_new(O2.space, C.single, C.n, 0); g2 = hv_new(O2.space, C.single, C.n, 0);
    run(&O2, &x2, &g2, maxevals, afterf, &L3, &R2);
    if (L3.h != L1.h || L3.n != L1.n)
      violp("C09", "fresh-differs", "a run with a second optimizer differs from the first one; %s", cfgtxt);
    hv_free(&x2); hv_free(&g2); low_free(&O2);
  }
  if (PROP("C12") && C.use_opts && gn_cnt >= 2) {
    /* The same problem with thresholds close to the norms met (the iterates do
       not depend on the thresholds). */
    double hist[64]; int cnt = gn_cnt, k;
    memcpy(hist, gn_hist, sizeof(hist));
    for (k = 0; k < 3; ++k) {
      lowopt O2; hvec x2, g2; double gk = hist[r_int(r_p(0.1) ? 0 : 1, cnt - 1)], a, b, thr;
      if (!(gk > 0 && hist[0] > 0 && isfinite(gk) && isfinite(hist[0]))) continue;
      thr = gk*(r_p(0.3) ? 1 : 1 + (r_bool() ? 1 : -1)*r_logu(1e-14, 0.3));
      if (r_bool()) { a = thr; b = r_p(0.2) ? 0 : thr/hist[0]*(r_p(0.3) ? r_unif() : 1 - r_logu(1e-12, 0.5)); }
      else { b = thr/hist[0]; a = r_p(0.2) ? 0 : thr*(r_p(0.3) ? r_unif() : 1 - r_logu(1e-12, 0.5)); }
      if (!(isfinite(a) && isfinite(b))) continue;
      C.vo.gatol = C.no.gatol = a; C.vo.grtol = C.no.grtol = b;
      cfg_describe(&C, cfgtxt, sizeof(cfgtxt));
      if (! low_new(&O2, &C)) { violp("C09", "no-optimizer", "refused: %s", cfgtxt); low_free(&O2); return; }
      x2 = hv_new(O2.space, C.single, C.n, 0); g2 = hv_new(O2.space, C.single, C.n, 0);
      run(&O2, &x2, &g2, maxevals, 0, &L3, &R);
      obs("runs-with-close-thresholds");
      hv_free(&x2); hv_free(&g2); low_free(&O2);
    }
  }
  hv_free(&x); hv_free(&g);
  low_free(&O);
}
