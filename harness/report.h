/* report.h -- what the derivative-free solvers print (C35): the text is captured and judged
 * against the evaluations really made, for the four levels of printing. */
typedef struct { long nf; double f, cv, rho, parmu, x[MAXN]; int kind, most; } rep_ev;
enum { EV_F, EV_RHO, EV_RET, EV_ERR, EV_NFV, EV_RED, EV_INI, EV_INC, EV_NORMAL };
static const char* rep_lab[] = { "Function number", "New RHO =", "At the return from", "Return from ", "NFVALS =", "Reduction in RHO to", "initial value of RHO is", "Increase in PARMU to", "Normal return from" };
static int rep_num(const char** p, const char* lab, double* v) { const char* q = *p; char* e; if (lab[0]) { q = strstr(q, lab); if (q == NULL || q - *p > 400) return 0; q += strlen(lab); } *v = strtod(q, &e); if (e == q) return 0; *p = e; return 1; }
static int rep_vec(const char** p, const char* lab, long n, double* x) { long i; if (! rep_num(p, lab, &x[0])) return 0; for (i = 1; i < n; ++i) if (! rep_num(p, "", &x[i])) return 0; return 1; }
/* Next event of the text: -1 at the end, -2 if it cannot be understood. */
static int rep_next(const char** pp, long n, rep_ev* e) {
  const char* p = *pp; int k = -1; double v;
  for (; *p; ++p) { for (k = 0; k <= EV_NORMAL; ++k) if (*p == rep_lab[k][0] && strncmp(p, rep_lab[k], strlen(rep_lab[k])) == 0) break; if (k <= EV_NORMAL) break; }
  if (! *p) { *pp = p; return -1; }
  memset(e, 0, sizeof(*e)); e->kind = k;
  if (k == EV_ERR && strncmp(p, "Return from", 11) == 0 && strstr(p, "because") == NULL) return -2;
  switch (k) {
  case EV_F: p += strlen(rep_lab[k]); if (! rep_num(&p, "", &v)) return -2; e->nf = (long)v; if (! rep_num(&p, "F =", &e->f) || ! rep_vec(&p, "X is:", n, e->x)) return -2; break;
  case EV_RHO: if (! rep_num(&p, "RHO =", &e->rho)) return -2; /* fall through */
  case EV_RET: { const char* m; if (! rep_num(&p, "function values =", &v)) return -2; e->nf = (long)v; m = strstr(p, "value of F"); e->most = m != NULL && m - p >= 5 && strncmp(m - 5, "Most", 4) == 0; if (! rep_num(&p, "value of F =", &e->f) || ! rep_vec(&p, "X is:", n, e->x)) return -2; break; }
  case EV_NFV: if (! rep_num(&p, "NFVALS =", &v)) return -2; e->nf = (long)v; if (! rep_num(&p, "F =", &e->f) || ! rep_num(&p, "MAXCV =", &e->cv) || ! rep_vec(&p, "X =", n, e->x)) return -2; break;
  case EV_RED: if (! rep_num(&p, rep_lab[k], &e->rho) || ! rep_num(&p, "PARMU =", &e->parmu)) return -2; break;
  case EV_INI: if (! rep_num(&p, rep_lab[k], &e->rho)) return -2; break;
  case EV_INC: if (! rep_num(&p, rep_lab[k], &e->parmu)) return -2; break;
  default: p += strlen(rep_lab[k]); }
  *pp = p; return k;
}
static int rep_close(double a, double b) { return a == b || fabs(a - b) <= 2e-6*fabs(b) + 1e-99; }
static int rep_point(const call_t* c, const prob_t* p, const double* x, long k, const double* mag) { long i; for (i = 0; i < c->n; ++i) { double s = c->scl ? c->scl[i] : 1, r = p->px[k*c->n+i]; if (!(fabs(x[i] - r) <= 2e-6*fabs(r) + 1e-12*(mag[i] + s*c->rb)*(10 + p->nev))) return 0; } return 1; }
/* sg = -1 when the opposite of the function is minimized, status and final values in c */
static void report_check(const call_t* c, const prob_t* p, const char* t, const char* text, long bytes) {
  const char* q = text; rep_ev e; int k, cob = c->solver == S_COBYLA, sg = c->maxi ? -1 : 1, last = -1; long nf = 0, nrho = 0, nret = 0, nerr = 0, nfinal = 0, nnorm = 0, i, j; double rho = c->rb, parmu = 0, mag[MAXN]; const int lev = (int)c->iprint;
  for (i = 0; i < p->nev; ++i) if (!(fabs(p->pf[i]) <= 1e30)) { obs("report-not-judged"); return; }
  mag_of(p, mag); obsf("reports-level-%d", lev); if (c->scl) obs("reports-scaled"); if (c->maxi) obs("reports-maximized");
  if (lev == 0) { if (bytes) viol("silent", "%s: prints without being asked: \"%.80s\"", t, text); return; }
  if (! bytes) { if (! (c->solver == S_NEWUOA && 0)) viol("nothing", "%s: nothing printed at level %d", t, lev); return; }
  while ((k = rep_next(&q, c->n, &e)) != -1) {
    if (k == -2) { viol("unreadable", "%s: the text at \"%.60s\" cannot be read", t, q); return; }
    obsf("report-event-%d", k);
    if (lev < 2 && (k == EV_F || k == EV_RHO || k == EV_RED || k == EV_INI || k == EV_INC)) { viol("verbose", "%s: level 1 prints \"%s\"", t, rep_lab[k]); return; }
    if (lev < 3 && k == EV_F) { viol("verbose", "%s: level %d prints the evaluations", t, lev); return; }
    if ((nret || nfinal) && k != EV_ERR) { viol("after-return", "%s: \"%s\" printed after the report of the return", t, rep_lab[k]); return; }
    if (k == EV_NFV && ! (lev == 3 && nf < p->nev) && ! (lev == 2 && (last == EV_RED || (last == EV_INI && nf == 0)))) { /* the final report of COBYLA */ ++nfinal;
      if (e.nf != p->nev) viol("final-count", "%s: %ld evaluations reported at the end, %ld made", t, e.nf, p->nev);
      if (! rep_close(e.f, c->f) || ! rep_close(e.cv, c->cv)) viol("final-value", "%s: reports f=%g and violation %g at the end instead of %g and %g", t, e.f, e.cv, c->f, c->cv);
      for (i = 0; i < c->n; ++i) if (! rep_close(e.x[i], c->x[i])) { viol("final-point", "%s: reports x[%ld]=%g at the end instead of %g", t, i, e.x[i], c->x[i]); break; }
      { int ok = 0; for (j = 0; j < p->nev && ! ok; ++j) if (rep_close(e.f, p->pf[j]) && rep_close(e.cv, p->pc[j]) && rep_point(c, p, e.x, j, mag)) ok = 1;
        if (! ok) { viol("final", "%s: what is reported at the end (f=%g, violation %g, x[0]=%g) is none of the %ld evaluations", t, e.f, e.cv, e.x[0], p->nev); return; } }
    } else if (k == EV_F || (k == EV_NFV && (lev == 3 || last == EV_INI))) { /* an evaluation */
      if (e.nf != nf + 1 || e.nf > p->nev) { viol("number", "%s: evaluation number %ld reported as %ld", t, nf + 1, e.nf); return; }
      nf = e.nf; j = nf - 1;
      if (! rep_close(e.f, p->pf[j]) || (cob && ! rep_close(e.cv, p->pc[j]))) { viol("value", "%s: value %g (violation %g) reported for evaluation %ld instead of %g (%g)", t, e.f, e.cv, nf, p->pf[j], cob ? p->pc[j] : 0.0); return; }
      if (! rep_point(c, p, e.x, j, mag)) { viol("point", "%s: the point reported for evaluation %ld is not the one evaluated (x[0]=%g instead of %g)", t, nf, e.x[0], p->px[j*c->n]); return; }
    } else if (k == EV_NFV) { /* the best point when the radius is reduced (COBYLA) */ int ok = 0;
      if (e.nf < nf || e.nf > p->nev) { viol("number", "%s: %ld evaluations reported after %ld, %ld made in all", t, e.nf, nf, p->nev); return; } nf = e.nf;
      for (j = 0; j < nf && ! ok; ++j) if (rep_close(e.f, p->pf[j]) && rep_close(e.cv, p->pc[j]) && rep_point(c, p, e.x, j, mag)) ok = 1;
      if (! ok) { viol("best", "%s: what is reported with radius %g (f=%g, violation %g, x[0]=%g) is none of the %ld evaluations", t, rho, e.f, e.cv, e.x[0], nf); return; }
      obs("report-best");
    } else if (k == EV_RHO || k == EV_RET) { double bf = INFINITY; int ok = 0;
      if (k == EV_RHO) { ++nrho; if (!(e.rho < rho && e.rho >= c->re*(1 - 1e-4))) { viol("radius", "%s: new radius %g after %g", t, e.rho, rho); return; } rho = e.rho; } else ++nret;
      if (lev == 3 && e.nf != nf) viol("number", "%s: %ld evaluations reported after the one of number %ld", t, e.nf, nf);
      if (e.nf < nf || e.nf > p->nev || (k == EV_RET && e.nf != p->nev)) { viol("count", "%s: %ld evaluations reported, %ld made", t, e.nf, p->nev); return; }
      nf = e.nf; for (j = 0; j < nf; ++j) if (sg*p->pf[j] < bf) bf = sg*p->pf[j];
      if (! rep_close(e.f, sg*bf)) { viol("best-value", "%s: best value after %ld evaluations reported as %.15g instead of %.15g", t, nf, e.f, sg*bf); return; }
      if (e.most != c->maxi) viol("wording", "%s: \"%s value\" when %simized", t, e.most ? "Most" : "Least", c->maxi ? "max" : "min");
      for (j = 0; j < nf && ! ok; ++j) if (sg*p->pf[j] == bf && rep_point(c, p, e.x, j, mag)) ok = 1;
      if (! ok) { viol("best-point", "%s: the point reported after %ld evaluations (x[0]=%g) is not the best one", t, nf, e.x[0]); return; }
      if (k == EV_RET) for (i = 0; i < c->n; ++i) if (! rep_close(e.x[i], c->x[i]) && fabs(e.x[i] - c->x[i]) > 1e-12*(mag[i] + c->rb)) { viol("final-point", "%s: reports x[%ld]=%g at the end instead of %g", t, i, e.x[i], c->x[i]); break; }
      obs("report-best");
    } else if (k == EV_INI) { if (last != -1) viol("initial", "%s: the initial radius is not reported first", t); if (! rep_close(e.rho, c->rb)) viol("initial", "%s: initial radius %g reported as %g", t, c->rb, e.rho);
    } else if (k == EV_INC) { if (!(e.parmu >= parmu*(1 - 2e-6))) viol("penalty", "%s: penalty increased from %g to %g", t, parmu, e.parmu); parmu = e.parmu;
    } else if (k == EV_RED) { ++nrho; if (!(e.rho < rho*(1 - 1e-6)  || rho <= c->re*1.0001) || !(e.rho >= c->re*(1 - 1e-4))) { viol("radius", "%s: radius reduced from %g to %g", t, rho, e.rho); return; }
      if (!(e.parmu <= parmu*(1 + 2e-6) && e.parmu >= 0)) viol("penalty", "%s: penalty %g with a reduced radius after %g", t, e.parmu, parmu); rho = e.rho; parmu = e.parmu;
    } else if (k == EV_ERR) ++nerr; else ++nnorm;
    last = k;
  }
  if (lev == 3 && nf != p->nev) viol("missing", "%s: %ld evaluations reported, %ld made", t, nf, p->nev);
  if (cob ? nfinal != 1 : c->status == 0 ? nret != 1 : nret > 1) viol("return", "%s: the return with status %d is reported %ld times at level %d", t, c->status, cob ? nfinal : nret, lev);
  if ((c->status != 0) != (nerr == 1) || nerr > 1) viol("error", "%s: status %d but %ld errors printed", t, c->status, nerr);
  if (cob && nnorm != (c->status == 0)) viol("normal", "%s: status %d but \"normal return\" printed %ld times", t, c->status, nnorm);
  if (lev >= 2 && c->status == 0 && c->re < c->rb*(1 - 1e-6) && ! rep_close(rho, c->re) && fabs(rho - c->re) > 1e-4*c->re) viol("last-radius", "%s: success but the last radius reported is %g instead of %g", t, rho, c->re);
  obs("reports"); obs_n("report-radii", nrho);
}
