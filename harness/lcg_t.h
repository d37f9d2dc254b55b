/* lcg_t.h -- template: T, FN(x), TAG(x), EPS, TINY, TNAME. */
#define MK(n) ((T*)ar(sizeof(T)*((n) > 0 ? (n) : 1)))
#define MAXN 40
/* Driver of one run of conjugate gradients (trust region version if tr). */
static void TAG(run)(int tr) {
  long n = r_p(0.04) ? 0 : r_p(0.1) ? 1 : r_p(0.03) ? r_int(13, MAXN) : r_int(2, 12), i, j, k; int kinds = 0, kindM = 0, starts, alias = 0, use_lcg = 0, phase = 0, misuse = 0;
  LD A[MAXN*MAXN], M[MAXN*MAXN], Q[MAXN*MAXN], ev[MAXN], xs[MAXN], b0[MAXN], rt[MAXN], xprev[MAXN], rprev[MAXN], pprev[MAXN], qprev[MAXN], xcur[MAXN], rcur[MAXN], zc[MAXN];
  T *p = MK(n), *q = MK(n), *r = MK(n), *x = MK(n), *z = NULL, *rho = MK(5), *x1 = MK(n), *r1 = MK(n), *p1 = MK(n), rho1[5]; opk_cg_state st, prev; char txt[300];
  int exact = 0; LD scale, bs, phi, phi_prev = INFINITY, kap = 1, e0 = -1, amax = 0, xmax = 0, bmax = 0, nrm_prev = 0, delta = 0, fac; long it = 0, maxit, ndist, steps = 0, newx = 0, calls = 0; int low = 0, truncated = 0, have_dir = 0, first = 1, expect_ap_x0 = 0, deep = 0, precond = 0, restarts = 0;
  double cond = r_logu(1, sizeof(T) == 4 ? 30 : 300);
  scale = r_p(0.6) ? 1 : r_logu(1e-4, 1e4); bs = r_p(0.6) ? 1 : r_logu(1e-4, 1e4);
  kinds = (int)r_int(0, 9); /* 0-5 definite, 6 clustered, 7 identity multiple, 8 indefinite, 9 semi-definite/negative */
  ndist = r_int(1, n > 0 ? n : 1); if (kinds == 7) ndist = 1; if (kinds <= 4) ndist = n;
  { LD lv[MAXN]; for (i = 0; i < ndist; ++i) lv[i] = scale*r_logu(1, cond); if (ndist > 1 && r_bool()) { lv[0] = scale; lv[1] = scale*cond; }
    for (i = 0; i < n; ++i) ev[i] = lv[i % ndist]; }
  if (kinds == 8) { ev[r_int(0, n > 0 ? n - 1 : 0)] *= -1; if (r_bool()) for (i = 0; i < n; ++i) if (r_p(0.3)) ev[i] *= -1; }
  if (kinds == 9) { if (r_bool()) for (i = 0; i < n; ++i) ev[i] *= -1; else ev[0] = 0; }
  lq_orth(Q, n);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += Q[i*n+k]*ev[k]*Q[j*n+k]; A[i*n+j] = s; }
  if (n >= 2 && r_p(0.06)) { /* exact computations: curvature exactly zero, step exactly to the boundary of the region */
    kinds = tr && r_bool() ? 11 : 10; exact = 1; if (n > 4 && r_bool()) n = 4; ndist = n;
    scale = ldexpl(1, (int)r_int(-4, 4)); bs = ldexpl(1, (int)r_int(-4, 4));
    for (i = 0; i < n*n; ++i) A[i] = 0;
    for (i = 0; i < n; ++i) A[i*n+i] = kinds == 11 ? scale : scale*r_int(-1, 2);
    if (kinds == 11) for (j = 1; j < n; ++j) A[j] = A[j*n] = scale*r_int(-1, 1)/4; }
  for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) A[i*n+j] = A[j*n+i] = (T)A[i*n+j];
  for (i = 0; i < n*n; ++i) if (fabsl(A[i]) > amax) amax = fabsl(A[i]);
  /* preconditioner */
  if (! exact && r_p(0.45) && n > 0) { precond = 1; kindM = (int)r_int(0, 5); z = MK(n);
    if (! tr && r_p(0.3)) { z = q; alias = 1; }
    for (i = 0; i < n*n; ++i) M[i] = 0;
    if (kindM <= 2) for (i = 0; i < n; ++i) M[i*n+i] = 1/(fabsl(A[i*n+i]) > scale*1e-3L ? fabsl(A[i*n+i]) : scale); /* Jacobi */
    else { LD mv[MAXN]; for (i = 0; i < n; ++i) mv[i] = r_logu(0.3, 3)*(kindM == 5 && r_p(0.4) ? -1 : 1);
      if (kindM == 5) mv[0] = -fabsl(mv[0]);
      if (kindM == 4) for (i = 0; i < n; ++i) mv[i] = 1/ev[i] > 0 && isfinite((double)(1/ev[i])) ? 1/ev[i] : 1/scale; /* nearly exact inverse */
      else lq_orth(Q, n);
      for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += Q[i*n+k]*mv[k]*Q[j*n+k]; M[i*n+j] = s; } }
    for (i = 0; i < n; ++i) for (j = 0; j <= i; ++j) M[i*n+j] = M[j*n+i] = (T)M[i*n+j];
  } else if (! tr && r_bool()) use_lcg = 1;
  for (i = 0; i < n; ++i) b0[i] = (T)(r_p(0.1) ? 0 : bs*r_norm());
  if (r_p(0.05)) for (i = 0; i < n; ++i) b0[i] = 0;
  if (exact) for (i = 0; i < n; ++i) b0[i] = kinds == 11 ? (i == 0 ? bs : 0) : bs*r_int(-1, 1);
  for (i = 0; i < n; ++i) if (fabsl(b0[i]) > bmax) bmax = fabsl(b0[i]);
  starts = exact || r_p(0.5) ? OPK_CG_START : OPK_CG_RESTART;
  for (i = 0; i < n; ++i) { x[i] = starts == OPK_CG_START ? (T)NAN : (T)(r_p(0.1) ? 0 : bs/scale*r_norm()); p[i] = q[i] = NAN; if (z) z[i] = NAN; r[i] = (T)b0[i]; }
  if (starts == OPK_CG_RESTART && r_p(0.05)) for (i = 0; i < n; ++i) x[i] = 0;
  for (i = 0; i < 5; ++i) rho[i] = NAN;
  /* solution for definite operators, condition number of M.A */
  { int spd = kinds <= 7 && (! precond || kindM <= 4); deep = spd && n > 0;
    if (spd && n > 0) { lq_solve(A, b0, xs, n); kap = precond ? lq_cond(A, M, n) : lq_cond(A, NULL, n); } }
  if (tr) { LD ns = 0; if (deep) { for (i = 0; i < n; ++i) ns += xs[i]*xs[i]; ns = sqrtl(ns); } else ns = bs/scale*sqrtl(n + 1); if (ns < 1e-8L*bs/scale) ns = 0;
    delta = (T)(r_p(0.1) ? 1e6*(ns + bs/scale) : ns > 0 ? ns*r_logu(0.05, 5) : bs/scale); if (!(delta > 0)) delta = 1;
    if (exact) delta = kinds == 11 ? bs/scale : bs/scale*ldexpl(1, (int)r_int(-2, 4));
    else if (starts == OPK_CG_RESTART && r_p(0.05)) { LD f = r_logu(1e2, 1e13); for (i = 0; i < n; ++i) x[i] = (T)(x[i]*f); obs("start-far-outside"); } }
  misuse = r_p(0.04); maxit = 3*n + 25;
  snprintf(txt, sizeof(txt), "%s%s%s n=%ld spectrum=%d(%ld values, cond %.3g) precond=%d kind=%d alias=%d start=%d scale=%.3Lg b=%.3Lg delta=%.6Lg", TNAME, tr ? "trcg" : use_lcg ? "lcg" : "plcg", "", n, kinds, ndist, cond, precond, kindM, alias, starts, scale, bs, delta);
  hash_bytes(txt, strlen(txt)); hash_bytes(r, n*sizeof(T)); sample("%s", txt);
  obs(sizeof(T) == 4 ? "single" : "double"); if (precond) obs("preconditioned"); if (alias) obs("z-is-q"); obsf("spectrum-%d", kinds); if (n > 0) nontrivial();
  fac = (LD)EPS;
  st = starts;
  if (misuse) { int w = (int)r_int(0, 1); if (tr && w) { delta = r_bool() ? 0 : -1; } else st = r_bool() ? 99 : -1; obs("misuse");
    memcpy(x1, x, n*sizeof(T)); memcpy(r1, r, n*sizeof(T)); }
  expect_ap_x0 = 0;
  for (;;) {
    prev = st; ++calls;
    memcpy(rho1, rho, 5*sizeof(T));
    if (tr) FN(trcg)(n, p, q, r, x, z, (T)delta, rho, &st); else if (use_lcg) FN(lcg)(n, p, q, r, x, rho, &st); else FN(plcg)(n, p, q, r, x, z, rho, &st);
    if (misuse) {
      if (st != OPK_CG_ERROR) viol("misuse", "%s: state %d instead of an error", txt, st);
      if (n && (memcmp(x1, x, n*sizeof(T)) || memcmp(r1, r, n*sizeof(T)))) viol("misuse", "%s: x or r modified by an erroneous call", txt);
      return;
    }
    /* order of the requests */
    { int ok;
      switch (prev) {
      case OPK_CG_START: ok = st == OPK_CG_NEWX; break;
      case OPK_CG_RESTART: ok = st == OPK_CG_AP || (tr && st == OPK_CG_TRUNCATED); break;
      case OPK_CG_NEWX: ok = precond ? st == OPK_CG_PRECOND : (st == OPK_CG_AP || st == OPK_CG_FINISH || st == OPK_CG_NON_CONVEX); break;
      case OPK_CG_PRECOND: ok = st == OPK_CG_AP || st == OPK_CG_FINISH || st == OPK_CG_NON_CONVEX; break;
      case OPK_CG_AP: ok = st == OPK_CG_NEWX || st == OPK_CG_FINISH || (tr ? st == OPK_CG_TRUNCATED : st == OPK_CG_NON_CONVEX); break;
      default: ok = st == prev; }
      if (h_verbose) fprintf(stderr, "call %ld %d->%d rho %g %g %g %g x0=%g r0=%g low=%d\n", calls, prev, st, (double)rho[0], (double)rho[1], (double)rho[2], (double)rho[3], n ? (double)x[0] : 0, n ? (double)r[0] : 0, low);
      if (! ok && tr && low && prev == OPK_CG_AP && st == OPK_CG_ERROR) { static int once = 0; obs("underflow-errors");
        if (! once++) viol("underflow-curvature", "%s: error at call %ld although the estimate has converged: r'.z=%.3g and p'.q underflows", txt, calls, (double)rho[1]);
        return; }
      if (! ok) { viol("order", "%s: call %ld: state %d after state %d", txt, calls, st, prev); return; } }
    if (prev == OPK_CG_FINISH || prev == OPK_CG_NON_CONVEX || prev == OPK_CG_TRUNCATED) {
      if (memcmp(x, x1, n*sizeof(T)) || memcmp(r, r1, n*sizeof(T)) || memcmp(rho, rho1, (tr ? 5 : 4)*sizeof(T))) viol("after-end", "%s: call after the end modifies the data", txt);
      if (phase == 0 && restarts < 1 && r_p(0.5)) { /* restart from the final point, larger region */
        ++restarts; obs("restarts"); st = OPK_CG_RESTART; if (tr) delta = (T)(delta*r_logu(1, 10));
        for (i = 0; i < n; ++i) { r[i] = (T)b0[i]; p[i] = q[i] = NAN; } 
        phi_prev = INFINITY; have_dir = 0; first = 1; nrm_prev = 0; steps = 0; newx = 0; e0 = -1; truncated = 0; starts = OPK_CG_RESTART; continue; }
      return;
    }
    { LD big = sizeof(T) == 4 ? 1e15L : 1e120L; if (xmax > big || bmax > big || fabsl((LD)rho[1]) > big) return; } /* diverges (singular operator) */
    for (i = 0; i < n; ++i) if (! isfinite((double)x[i]) || ! isfinite((double)r[i])) { static int once = 0; if (low && tr) { if (! once++) viol("underflow-curvature", "%s: x or r not finite at call %ld although the estimate has converged: p'.q underflows", txt, calls); return; } viol("finite", "%s: call %ld: x or r is not finite", txt, calls); return; }
    if (st == OPK_CG_PRECOND) {
      for (i = 0; i < n; ++i) { LD s = 0; for (j = 0; j < n; ++j) s += M[i*n+j]*r[j]; z[i] = (T)s; zc[i] = z[i]; }
      continue;
    }
    if (st == OPK_CG_AP) {
      if (prev == OPK_CG_RESTART) { /* p is x0 */
        for (i = 0; i < n; ++i) if (p[i] != x[i]) { viol("first-product", "%s: the vector to multiply is not the initial estimate", txt); return; }
        expect_ap_x0 = 1; obs("initial-products");
      } else { /* new direction */
        LD rz = 0, rzg = 0, beta; 
        for (i = 0; i < n; ++i) { LD zi = precond ? zc[i] : (LD)r[i]; rz += (LD)r[i]*zi; rzg += fabsl((LD)r[i]*zi); }
        { LD pp = 0, qq = 0, lim = TINY*1e4L/EPS; for (i = 0; i < n; ++i) { LD s = 0; for (j = 0; j < n; ++j) s += A[i*n+j]*p[j]; pp += p[i]*s; qq += (LD)r[i]*r[i]; }
          if (fabsl(rz) < lim || (fabsl(pp) < lim && ! exact) || qq < lim) low = 1; }
        if (low) { obs("underflow-range"); if (! tr) return; } else {
        if (!(fabsl(rho[1] - rz) <= (n + 3)*fac*rzg + n*TINY)) { viol("rho", "%s: iteration %ld: rho[1]=%.9g, r'.z=%.9Lg", txt, it, (double)rho[1], rz); return; }
        if (! have_dir) { beta = 0; obs("first-directions"); } else { beta = (LD)rho1[1] > 0 ? (LD)rho[1]/rho[0] : 0; obs("conjugate-directions"); }
        if (!(fabsl((LD)rho[3] - beta) <= 4*fac*fabsl(beta) + TINY)) { viol("beta", "%s: iteration %ld: rho[3]=%.9g instead of %.9Lg", txt, it, (double)rho[3], beta); return; }
        for (i = 0; i < n; ++i) { LD zi = precond ? zc[i] : (LD)r[i], w = zi + (have_dir ? beta*pprev[i] : 0), g = fabsl(zi) + (have_dir ? fabsl(beta*pprev[i]) : 0);
          if (!(fabsl((LD)p[i] - w) <= 8*fac*g + TINY)) { viol("direction", "%s: iteration %ld: p[%ld]=%.9g instead of %.9Lg", txt, it, i, (double)p[i], w); return; } }
        }
        for (i = 0; i < n; ++i) if (have_dir || steps) if (x[i] != xcur[i] || r[i] != rcur[i]) { viol("kept", "%s: x or r changed while computing a direction", txt); return; }
        expect_ap_x0 = 0;
      }
      for (i = 0; i < n; ++i) { LD s = 0; for (j = 0; j < n; ++j) s += A[i*n+j]*p[j]; q[i] = (T)s; qprev[i] = q[i]; pprev[i] = p[i]; xprev[i] = x[i]; rprev[i] = r[i]; }
      memcpy(p1, p, n*sizeof(T));
      continue;
    }
    /* NEWX, TRUNCATED, FINISH, NON_CONVEX: x and r are an estimate and its residual */
    { LD nx = 0, rn = 0, tolr, tolphi; phi = 0;
      for (i = 0; i < n; ++i) { nx += (LD)x[i]*x[i]; if (fabsl((LD)x[i]) > xmax) xmax = fabsl((LD)x[i]); }
      nx = sqrtl(nx); tolr = (10 + 2*steps + n)*(n + 3)*fac*(amax*xmax + bmax) + 4*TINY; 
      if (prev == OPK_CG_RESTART && st == OPK_CG_TRUNCATED) {
        obs("start-outside");
        if (!(fabsl(nx - delta) <= (n + 20)*fac*delta)) viol("norm", "%s: initial estimate of norm %.9Lg after rescaling", txt, nx);
        if (!(fabsl((LD)rho[4] - nx) <= (n + 20)*fac*nx)) viol("reported-norm", "%s: reported norm %.9g instead of %.9Lg", txt, (double)rho[4], nx);
        memcpy(x1, x, n*sizeof(T)); memcpy(r1, r, n*sizeof(T)); phase = 0; continue;
      }
      for (i = 0; i < n; ++i) { LD s = b0[i]; for (j = 0; j < n; ++j) s -= A[i*n+j]*x[j]; rt[i] = s; rn += s*s; phi += -0.5L*(b0[i] + s)*x[i]; }
      for (i = 0; i < n; ++i) if (!(fabsl((LD)r[i] - rt[i]) <= tolr)) { viol("residual", "%s: step %ld: r[%ld]=%.9g instead of %.9Lg (tolerance %Lg)", txt, steps, i, (double)r[i], rt[i], tolr); return; }
      tolphi = (20 + steps + n)*(n + 3)*fac*(amax*xmax + bmax)*xmax + TINY;
      if (st == OPK_CG_NEWX || st == OPK_CG_TRUNCATED) {
        int took = prev == OPK_CG_AP && ! expect_ap_x0; ++newx;
        if (took) { LD al = rho[2], pq = 0, pqg = 0, rp = 0, rpg = 0; ++steps; ++it; obs("steps");
          if (!(al > 0)) { viol("alpha", "%s: step %ld: length %.9Lg", txt, steps, al); return; }
          for (i = 0; i < n; ++i) { LD d = al*pprev[i], e = al*qprev[i];
            if (!(fabsl((LD)x[i] - (xprev[i] + d)) <= 4*fac*(fabsl(xprev[i]) + fabsl(d)) + TINY)) { viol("step", "%s: step %ld: x[%ld] changes by %.9Lg, rho[2]*p is %.9Lg", txt, steps, i, x[i] - xprev[i], d); return; }
            if (!(fabsl((LD)r[i] - (rprev[i] - e)) <= 4*fac*(fabsl(rprev[i]) + fabsl(e)) + TINY)) { viol("step", "%s: step %ld: r[%ld] changes by %.9Lg, -rho[2]*q is %.9Lg", txt, steps, i, r[i] - rprev[i], -e); return; }
            pq += pprev[i]*qprev[i]; pqg += fabsl(pprev[i]*qprev[i]); rp += (LD)r[i]*pprev[i]; rpg += (fabsl(rprev[i]) + fabsl(e))*fabsl(pprev[i]); }
          if (st == OPK_CG_NEWX) {
            LD want = (LD)rho[0]/pq;
            if (! (pq > (exact ? 0 : -(n + 3)*fac*pqg))) { viol("curvature", "%s: step %ld taken along a direction of curvature %.9Lg", txt, steps, pq); return; }
            if (! low && pq > 10*(n + 3)*fac*pqg && !(fabsl(al - want) <= 4*(n + 5)*fac*(pqg/pq)*fabsl(want))) { viol("alpha", "%s: step %ld: length %.9Lg instead of %.9Lg", txt, steps, al, want); return; }
          }
          (void)rpg; (void)rp;
        } else {
          for (i = 0; i < n; ++i) if (prev == OPK_CG_START ? x[i] != 0 : x[i] != xprev[i]) { viol("initial", "%s: initial estimate modified", txt); return; }
        }
        if (tr && low && st == OPK_CG_TRUNCATED) { static int once = 0; obs("underflow-truncations");
          if (! once++ && !(phi <= phi_prev + tolphi)) viol("underflow-curvature", "%s: converged estimate moved to the boundary at call %ld: r'.z=%.3g and p'.q underflows", txt, calls, (double)rho[1]);
          return; }
        if (! low && !(phi <= phi_prev + tolphi)) { viol("decrease", "%s: step %ld: quadratic value %.12Lg after %.12Lg", txt, steps, phi, phi_prev); return; }
        phi_prev = phi;
        if (kinds == 11 && took && steps == 1 && restarts == 0) { obs("exactly-on-boundary");
          if (st != OPK_CG_TRUNCATED && newx > 1) { viol("boundary", "%s: the first step ends exactly on the boundary, but the iteration goes on", txt); return; } }
        if (tr) {
          LD tl = (n + 20)*fac*(nx + delta*(st == OPK_CG_TRUNCATED));
          if (!(nx <= delta*(1 + (n + 20)*fac))) { viol("region", "%s: step %ld: norm %.12Lg out of the region", txt, steps, nx); return; }
          if (nx > sqrtl(TINY/fac)*10 && !(fabsl((LD)rho[4] - nx) <= tl)) { viol("reported-norm", "%s: step %ld: reported norm %.9g instead of %.9Lg", txt, steps, (double)rho[4], nx); return; }
          if (! low && ! precond && starts == OPK_CG_START && kinds <= 7 && !(nx >= nrm_prev*(1 - 20*sqrtl(fac)*sqrtl(cond)))) { viol("norm-decreases", "%s: step %ld: norm %.9Lg after %.9Lg", txt, steps, nx, nrm_prev); return; }
          nrm_prev = nx;
          if (st == OPK_CG_TRUNCATED) { LD pq = 0, pqg = 0, full = 0; truncated = 1;
            if (!(nx >= delta*(1 - (n + 20)*fac))) { viol("boundary", "%s: truncated at a norm of %.12Lg", txt, nx); return; }
            for (i = 0; i < n; ++i) { pq += pprev[i]*qprev[i]; pqg += fabsl(pprev[i]*qprev[i]); }
            if (! low && pq > (n + 3)*fac*pqg) { LD af = (LD)rho[1]/pq; for (i = 0; i < n; ++i) { LD t = xprev[i] + af*pprev[i]; full += t*t; } full = sqrtl(full);
              obs("truncated-length");
              if (!(full >= delta*(1 - (n + 30)*fac*(pqg/pq)*10))) { viol("needless-truncation", "%s: step %ld: truncated although the full step has norm %.12Lg", txt, steps, full); return; }
            } else obs("truncated-curvature");
          } else if (nx >= delta*(1 + (n + 20)*fac)) viol("boundary", "%s: continues on the boundary", txt);
        }
        /* convergence as fast as the theory says */
        if (deep && ! low && st == OPK_CG_NEWX) { LD e = 0, g = 0, rate = (sqrtl(kap) - 1)/(sqrtl(kap) + 1), bound, floor_; 
          for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { e += (x[i] - xs[i])*A[i*n+j]*(x[j] - xs[j]); g += fabsl(xs[i]*A[i*n+j]*xs[j]); }
          e = sqrtl(e > 0 ? e : 0);
          if (e0 < 0) { e0 = e; }
          /* rounding allowance: attainable accuracy and the slightly enlarged spectrum of finite precision */
          floor_ = 50*(n + 5 + steps)*fac*kap*(sqrtl(g) + e0 + sqrtl(n*amax)*xmax) + 10*sqrtl(TINY);
          rate = rate + 20*n*fac*sqrtl(kap); if (rate > 1) rate = 1;
          bound = 2*powl(rate, steps)*e0*1.01L;
          if (bound > e0 && steps > 0) bound = e0*(1 + 1e-3L);
          if (steps > 0 && !(e <= bound + floor_)) { viol("convergence", "%s: error %.6Lg after %ld steps (initially %.6Lg), bound %.6Lg + %.3Lg", txt, e, steps, e0, bound, floor_); return; }
          if (! precond && steps >= ndist && ndist <= 5 && !(e <= 100*floor_ + (sizeof(T) == 4 ? 3e-2L : 1e-4L)*e0)) { viol("finite-termination", "%s: error %.6Lg (initially %.6Lg) after %ld steps", txt, e, e0, steps); return; }
          if (steps > 0) obs("convergence-checks"); if (steps >= ndist && ndist < n) obs("few-eigenvalues");
          if (steps == maxit - 1) obs("many-steps");
        }
        have_dir = took || have_dir; if (! took) have_dir = 0;
        for (i = 0; i < n; ++i) { xcur[i] = x[i]; rcur[i] = r[i]; }
        (void)first;
      }
      if (st == OPK_CG_FINISH || st == OPK_CG_NON_CONVEX) {
        LD rz = 0, rzg = 0, pq = 0, pqg = 0; obs(st == OPK_CG_FINISH ? "finished" : "non-convex");
        for (i = 0; i < n; ++i) { LD zi = precond ? zc[i] : (LD)r[i]; rz += (LD)r[i]*zi; rzg += fabsl((LD)r[i]*zi); if (prev == OPK_CG_AP) { pq += pprev[i]*qprev[i]; pqg += fabsl(pprev[i]*qprev[i]); } }
        for (i = 0; i < n; ++i) if (newx && (x[i] != xcur[i] || r[i] != rcur[i])) { viol("kept", "%s: x or r changed by the last call", txt); return; }
        if (st == OPK_CG_FINISH) {
          if (low) ; else if (prev == OPK_CG_AP) { /* null step */
            if (!(pq > 0 && rz/pq <= 4*TINY) && ! (tr && pqg <= 4*TINY)) { viol("finish", "%s: finished with r'.z=%.6Lg p'.q=%.6Lg", txt, rz, pq); return; } }
          else if (! low && !(fabsl(rz) <= (n + 3)*fac*rzg + 4*n*TINY)) { viol("finish", "%s: finished with r'.z=%.6Lg", txt, rz); return; }
        } else if (prev == OPK_CG_AP) {
          if (! low && !(pq <= (n + 3)*fac*pqg + n*TINY)) { viol("non-convex", "%s: operator declared non positive although p'.q=%.6Lg", txt, pq); return; }
          obs("operator-not-positive");
        } else {
          if (! low && !(rz < (n + 3)*fac*rzg)) { viol("non-convex", "%s: preconditioner declared non positive although r'.z=%.6Lg", txt, rz); return; }
          obs("preconditioner-not-positive");
        }
      }
      if (st == OPK_CG_NEWX && newx >= maxit) { if (it >= n) obs("run-to-limit"); return; }
      if (st == OPK_CG_NEWX && r_p(0.01) && restarts < 1) { ++restarts; obs("restarts"); st = OPK_CG_RESTART; for (i = 0; i < n; ++i) { r[i] = (T)b0[i]; p[i] = NAN; q[i] = NAN; } have_dir = 0; phi_prev = INFINITY; nrm_prev = 0; e0 = -1; steps = 0; starts = OPK_CG_RESTART; }
      memcpy(x1, x, n*sizeof(T)); memcpy(r1, r, n*sizeof(T));
      (void)rn; (void)truncated; (void)phase;
    }
  }
}
#undef T
#undef FN
#undef EPS
#undef TINY
#undef TAG
#undef TNAME
#undef MK
#undef MAXN
