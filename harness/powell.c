/* powell.c -- derivative-free solvers: BOBYQA (C24), NEWUOA (C25), COBYLA (C26)
 * and their caller-driven forms (C27); determinism of the three (C10). */
#include "common.h"
#include "optimpack.h"
#include "bobyqa.h"
#include "newuoa.h"
#include "cobyla.h"
typedef long double LD;
#define PROP(p) (strcmp(h_prop, p) == 0)
#define MAXN 32
#define MAXM 12

/*---------------------------------------------------------------- silence */
static FILE *io_out, *io_err, *io_sink; static long io_bytes; static char io_text[200];
static char* rep_text; static long rep_n, rep_cap; static int rep_on; /* everything that is printed (C35) */
static ssize_t io_write(void* c, const char* b, size_t n) {
  size_t k; (void)c; if (rep_on) { if (rep_n + (long)n + 1 > rep_cap) { char* t = (char*)realloc(rep_text, 2*(rep_n + n) + 4096); if (t == NULL) abort(); rep_text = t; rep_cap = 2*(rep_n + n) + 4096; } memcpy(rep_text + rep_n, b, n); rep_n += n; rep_text[rep_n] = 0; }
  for (k = 0; k < n; ++k, ++io_bytes) if (io_bytes < (long)sizeof(io_text) - 1) { io_text[io_bytes] = b[k]; io_text[io_bytes + 1] = 0; }
  return n; }
static void io_begin(void) {
  if (io_sink == NULL) { cookie_io_functions_t f = { NULL, io_write, NULL, NULL }; io_sink = fopencookie(NULL, "w", f); setvbuf(io_sink, NULL, _IONBF, 0); }
  io_bytes = 0; io_text[0] = 0; io_out = stdout; io_err = stderr; stdout = io_sink; stderr = io_sink; }
static void io_end(void) { fflush(io_sink); stdout = io_out; stderr = io_err; }

/*---------------------------------------------------------------- problems */
enum { QUAD, LOGCOSH, ROSEN, COSINE, ABSV, FLAT, NOISY, LINEAR, HUGEV, INFV, KINDS };
typedef struct {
  long n, m; int kind; LD H[MAXN*MAXN], g[MAXN], xs[MAXN], B[MAXN*MAXN], off; double amp;
  LD ca[MAXM*MAXN], cb[MAXM], cq[MAXM]; /* constraints: cb + ca.(x - xs) - cq*|x - xs|^2/2 >= 0 */
  double lmin, lmax; int neg; /* return the opposite */
  const double* ys; /* the solver works on y, the problem is in x = ys*y */
  double xl[MAXN], xu[MAXN]; int bounded;
  /* log */
  long nev, cap; double* px; double* pf; double* pc; char err[200]; double* hold; void* self; int nowrite;
} prob_t;

static double pr_func(prob_t* p, const double* y) {
  LD s = p->off; long i, j, n = p->n; LD d[MAXN]; double x[MAXN];
  for (i = 0; i < n; ++i) { x[i] = p->ys ? p->ys[i]*y[i] : y[i]; d[i] = (LD)x[i] - p->xs[i]; }
  switch (p->kind) {
  case QUAD: case LOGCOSH: case INFV: case HUGEV: case NOISY:
    for (i = 0; i < n; ++i) { LD t = 0; for (j = 0; j < n; ++j) t += p->H[i*n+j]*d[j]; s += 0.5L*t*d[i] + p->g[i]*d[i]; }
    if (p->kind == LOGCOSH) for (i = 0; i < n; ++i) { LD t = 0; for (j = 0; j < n; ++j) t += p->B[i*n+j]*d[j]; t = fabsl(t); s += p->amp*(t + log1pl(expl(-2*t)) - 0.693147180559945309417L); }
    if (p->kind == INFV && d[0] + 0.3L*d[n-1] > p->amp) return INFINITY;
    if (p->kind == HUGEV) s *= p->amp;
    if (p->kind == NOISY) { double v = 0; uint64_t h = 1469598103934665603ULL; unsigned char* b; for (i = 0; i < n; ++i) { v = x[i]; b = (unsigned char*)&v; for (j = 0; j < 8; ++j) { h ^= b[j]; h *= 1099511628211ULL; } }
      s += p->amp*((double)(h >> 11)*0x1p-53 - 0.5); }
    break;
  case ROSEN: for (i = 0; i + 1 < n; ++i) s += 10*(d[i+1] - d[i]*d[i])*(d[i+1] - d[i]*d[i]) + (1 - d[i])*(1 - d[i]); break;
  case COSINE: for (i = 0; i < n; ++i) s += p->amp*cosl(3*d[i] + i) + 0.3L*d[i]*d[i]; break;
  case ABSV: for (i = 0; i < n; ++i) s += fabsl(d[i])*(1 + i); break;
  case FLAT: break;
  case LINEAR: for (i = 0; i < n; ++i) s += p->g[i]*d[i]; break;
  }
  return (double)s;
}
static void pr_cons(const prob_t* p, const double* y, double* c) {
  long i, k, n = p->n; LD d[MAXN];
  for (i = 0; i < n; ++i) d[i] = (LD)(p->ys ? p->ys[i]*y[i] : y[i]) - p->xs[i];
  for (k = 0; k < p->m; ++k) { LD s = p->cb[k], q = 0; for (i = 0; i < n; ++i) { s += p->ca[k*n+i]*d[i]; q += d[i]*d[i]; } c[k] = (double)(s - 0.5L*p->cq[k]*q); }
}
static double pr_eval(prob_t* p, const double* x, double* c) {
  long i; double f = pr_func(p, x), cv = 0;
  if (c) { pr_cons(p, x, c); for (i = 0; i < p->m; ++i) if (-c[i] > cv) cv = -c[i]; }
  if (p->neg) f = -f;
  if (p->bounded && ! p->err[0]) for (i = 0; i < p->n; ++i) if (!(x[i] >= p->xl[i] && x[i] <= p->xu[i]))
    { snprintf(p->err, sizeof(p->err), "evaluation %ld: x[%ld]=%.17g out of [%.17g,%.17g] (by %.3g)", p->nev + 1, i, x[i], p->xl[i], p->xu[i], x[i] < p->xl[i] ? x[i] - p->xl[i] : x[i] - p->xu[i]); break; }
  if (p->nev < p->cap) { for (i = 0; i < p->n; ++i) p->px[p->nev*p->n + i] = x[i]; p->pf[p->nev] = f; p->pc[p->nev] = cv; }
  ++p->nev;
  return f;
}
static void* cb_data_bad; static long cb_n_bad;
static double cb_f(const opk_index n, const double* x, void* data) {
  prob_t* p = (prob_t*)data; if (p->self != data) { cb_data_bad = data; return 0; } if (n != p->n) ++cb_n_bad;
  return pr_eval(p, x, NULL);
}
static double cb_fc(opk_index n, opk_index m, const double x[], double con[], void* data) {
  prob_t* p = (prob_t*)data; if (p->self != data) { cb_data_bad = data; return 0; } if (n != p->n || m != p->m) ++cb_n_bad;
  return pr_eval(p, x, con);
}
static void pr_log(prob_t* p, long cap) { p->cap = cap; p->nev = 0; p->err[0] = 0; p->px = ard(cap*p->n); p->pf = ard(cap); p->pc = ard(cap); p->self = p; }
static prob_t* pr_copy(const prob_t* p) { prob_t* q = (prob_t*)ar(sizeof(prob_t)); *q = *p; pr_log(q, p->cap); return q; }
static void orth(LD* q, long n) {
  long i, j, k, pass; for (i = 0; i < n*n; ++i) q[i] = r_norm();
  for (j = 0; j < n; ++j) { LD s; for (pass = 0; pass < 2; ++pass) for (k = 0; k < j; ++k) { s = 0; for (i = 0; i < n; ++i) s += q[i*n+j]*q[i*n+k]; for (i = 0; i < n; ++i) q[i*n+j] -= s*q[i*n+k]; }
    s = 0; for (i = 0; i < n; ++i) s += q[i*n+j]*q[i*n+j]; s = sqrtl(s); for (i = 0; i < n; ++i) q[i*n+j] /= s; }
}
static prob_t* pr_new(long n, int kind, double cond) {
  prob_t* p = (prob_t*)ar(sizeof(prob_t)); LD Q[MAXN*MAXN], ev[MAXN]; long i, j, k; double sc = r_p(0.7) ? 1 : r_logu(0.1, 10);
  p->n = n; p->kind = kind; p->lmin = sc; p->lmax = sc*cond; p->amp = 1; p->off = r_p(0.5) ? 0 : r_norm();
  for (i = 0; i < n; ++i) ev[i] = sc*r_logu(1, cond);
  ev[0] = sc; if (n > 1) ev[n-1] = sc*cond;
  orth(Q, n);
  for (i = 0; i < n; ++i) for (j = 0; j < n; ++j) { LD s = 0; for (k = 0; k < n; ++k) s += Q[i*n+k]*ev[k]*Q[j*n+k]; p->H[i*n+j] = s; p->B[i*n+j] = r_norm(); }
  for (i = 0; i < n; ++i) { p->xs[i] = r_p(0.1) ? 0 : r_norm(); p->g[i] = 0; }
  switch (kind) { case LOGCOSH: p->amp = r_range(0.1, 1); break; case COSINE: p->amp = r_range(0.3, 2); break; case NOISY: p->amp = r_logu(1e-8, 1e-1); break;
    case HUGEV: p->amp = r_bool() ? r_logu(1e10, 1e100) : r_logu(1e-100, 1e-10); p->off = 0; break; case INFV: p->amp = r_range(-0.5, 1); break;
    case LINEAR: for (i = 0; i < n; ++i) p->g[i] = r_norm(); break; }
  return p;
}
static const char* txt_of(const prob_t* p, const char* s, long npt, const double* x0, double rb, double re, long maxfun, int maxi, int scaled) {
  static char b[300]; snprintf(b, sizeof(b), "%s n=%ld m=%ld npt=%ld kind=%d cond=%.3g rho=%.3g..%.3g maxfun=%ld%s%s x0=%.3g,%.3g", s, p->n, p->m, npt, p->kind, p->lmax/p->lmin, rb, re, maxfun, maxi ? " maximize" : "", scaled ? " scaled" : "", x0[0], x0[p->n > 1]);
  hash_bytes(b, strlen(b)); hash_bytes(x0, p->n*sizeof(double)); return b;
}
/* Same sequences of points (bit for bit)?  The second one may be in scaled variables. */
static int same_log(const prob_t* a, const prob_t* b, const double* s, long* where) {
  long k, i, n = a->n, m = a->nev < b->nev ? a->nev : b->nev; if (m > a->cap) m = a->cap;
  for (k = 0; k < m; ++k) for (i = 0; i < n; ++i) { double u = a->px[k*n+i], v = b->px[k*n+i]; if (s) v *= s[i]; if (! same_bits(u, v) && ! same_val(u, v)) { *where = k; return 0; } }
  *where = m; return a->nev == b->nev;
}
static void mag_of(const prob_t* p, double* mag) { long k, i; for (i = 0; i < p->n; ++i) { mag[i] = 0; for (k = 0; k < p->nev && k < p->cap; ++k) if (fabs(p->px[k*p->n+i]) > mag[i]) mag[i] = fabs(p->px[k*p->n+i]); } }

static double* work_new(long n, int pat) { double* w = ard(n); long k; for (k = 0; k < n; ++k) w[k] = pat == 0 ? NAN : pat == 1 ? 0 : pat == 2 ? 1e300 : r_norm(); return w; }

enum { S_BOBYQA, S_NEWUOA, S_COBYLA };
static const char* snames[] = { "bobyqa", "newuoa", "cobyla" };
typedef struct { int solver; long n, m, npt; int maxi; double x[MAXN]; const double* scl; double rb, re; long iprint, maxfun; const double *xl, *xu; double f, cv; long nev; int status; int pat; int simple; } call_t;
static void run_call(call_t* c, prob_t* p) {
  long n = c->n, npt = c->npt, wl; double* w; double* x = ard(n > 0 ? n : 1); long k; opk_index* ia;
  for (k = 0; k < n && k < MAXN; ++k) x[k] = c->x[k];
  cb_data_bad = NULL; cb_n_bad = 0;
  if (c->solver == S_BOBYQA) { wl = (npt + 5)*(npt + n) + 3*n*(n + 5)/2 + (c->scl ? 3*n : 0); if (wl < 1) wl = 1; w = work_new(wl, c->pat);
    io_begin();
    c->status = c->simple ? bobyqa(n, npt, cb_f, p, x, c->xl, c->xu, c->rb, c->re, c->iprint, c->maxfun, w) : bobyqa_optimize(n, npt, c->maxi, cb_f, p, x, c->xl, c->xu, c->scl, c->rb, c->re, c->iprint, c->maxfun, w);
    io_end(); c->f = w[0]; c->nev = p->nev; c->cv = 0;
  } else if (c->solver == S_NEWUOA) { wl = (npt + 13)*(npt + n) + 3*n*(n + 3)/2 + (c->scl ? n : 0); if (wl < 1) wl = 1; w = work_new(wl, c->pat);
    io_begin();
    c->status = c->simple ? newuoa(n, npt, cb_f, p, x, c->rb, c->re, c->iprint, c->maxfun, w) : newuoa_optimize(n, npt, c->maxi, cb_f, p, x, c->scl, c->rb, c->re, c->iprint, c->maxfun, w);
    io_end(); c->f = w[0]; c->nev = p->nev; c->cv = 0;
  } else { long m = c->m; wl = n*(3*n + 2*m + 11) + 4*m + 6; if (wl < 2) wl = 2; w = work_new(wl, c->pat); ia = (opk_index*)ar((m > 0 ? m + 1 : 1)*sizeof(opk_index)); for (k = 0; k < (m > 0 ? m + 1 : 1); ++k) ia[k] = -77;
    io_begin();
    c->status = c->simple ? cobyla(n, m, cb_fc, p, x, c->rb, c->re, c->iprint, c->maxfun, w, ia) : cobyla_optimize(n, m, c->maxi, cb_fc, p, x, c->scl, c->rb, c->re, c->iprint, c->maxfun, w, ia);
    io_end(); c->f = w[0]; c->cv = w[1]; c->nev = ia[0];
  }
  for (k = 0; k < n && k < MAXN; ++k) c->x[k] = x[k];
}

/*---------------------------------------------------------------- invalid arguments */
static void invalid_call(int solver) {
  long n = r_int(2, 5), i; prob_t* p = pr_new(n, QUAD, 10); call_t c; double xl[MAXN], xu[MAXN], scl[MAXN], x0[MAXN]; int want = 0, bad = (int)r_int(0, 7), usescl = r_bool(); char txt[200];
  memset(&c, 0, sizeof(c)); p->m = solver == S_COBYLA ? r_int(0, 3) : 0; pr_log(p, 100);
  for (i = 0; i < p->m; ++i) p->cb[i] = 1;
  c.solver = solver; c.n = n; c.m = p->m; c.npt = r_int(n + 2, (n + 1)*(n + 2)/2); c.rb = r_logu(0.01, 1); c.re = c.rb*r_logu(1e-4, 1); c.maxfun = 50; c.pat = (int)r_int(0, 2); c.maxi = r_bool();
  for (i = 0; i < n; ++i) { xl[i] = -2 - 3*r_unif(); xu[i] = xl[i] + 2*c.rb + r_range(0.1, 4); c.x[i] = x0[i] = r_p(0.3) ? xl[i] + r_unif()*c.rb*0.9 : r_norm()*2; scl[i] = r_logu(0.1, 10); }
  if (usescl) for (i = 0; i < n; ++i) { double t = 2.5*c.rb*scl[i]; if (xu[i] - xl[i] < t) xu[i] = xl[i] + t; }
  c.xl = xl; c.xu = xu; c.scl = usescl ? scl : NULL;
  switch (bad) {
  case 0: c.n = solver == S_COBYLA ? r_int(-1, 0) : r_int(-1, 1); c.npt = c.n + 2; want = -1; break;
  case 1: if (solver == S_COBYLA) { c.m = -1; want = COBYLA_BAD_NCONS; } else { c.npt = r_bool() ? n + 1 : (n + 1)*(n + 2)/2 + 1; want = -2; } break;
  case 2: c.re = c.rb*1.5; want = -3; break;
  case 3: c.re = r_bool() ? 0 : -1; want = -3; break;
  case 4: if (r_bool()) c.re = NAN; else c.rb = NAN; want = -3; break;
  case 5: case 6: c.scl = scl; scl[r_int(0, n - 1)] = bad == 5 ? (r_bool() ? 0 : -1) : r_bool() ? NAN : INFINITY; want = -4; break;
  default: if (solver == S_BOBYQA) { i = r_int(0, n - 1); xu[i] = xl[i] + (c.scl ? scl[i] : 1)*c.rb*r_range(-1, 1.9); want = BOBYQA_TOO_CLOSE; } else return; break;
  }
  snprintf(txt, sizeof(txt), "%s invalid argument %d: n=%ld m=%ld npt=%ld rho=%g..%g%s", snames[solver], bad, c.n, c.m, c.npt, c.rb, c.re, c.scl ? " scaled" : "");
  run_call(&c, p);
  obs("invalid-arguments"); obsf("invalid-%d", -want); hash_bytes(txt, strlen(txt)); nontrivial();
  if (c.status != want) viol("status", "%s: status %d instead of %d", txt, c.status, want);
  if (p->nev) viol("evaluated", "%s: %ld evaluations", txt, p->nev);
  for (i = 0; i < n && i < c.n; ++i) if (! same_bits(c.x[i], x0[i])) { viol("variables", "%s: x[%ld] changed from %.17g to %.17g (status %d)", txt, i, x0[i], c.x[i], c.status); break; }
  if (io_bytes) viol("output", "%s: prints \"%s\"", txt, io_text);
}

/*---------------------------------------------------------------- BOBYQA and NEWUOA, COBYLA callback forms */
static void setup(int solver, call_t* c, prob_t** pp, double* x0, double* xl, double* xu, double* scl, int* convex) {
  long n = r_p(0.02) ? (r_p(0.1) ? r_int(15, 26) : r_int(9, 14)) : solver == S_COBYLA ? r_int(1, 6) : r_int(2, r_p(0.9) ? 6 : 8), i, k, m = 0; int kind, bnd = solver == S_BOBYQA; double cond = r_logu(1, 100); prob_t* p;
  kind = r_p(0.55) ? (int)r_int(QUAD, LOGCOSH) : (int)r_int(ROSEN, KINDS - 1);
  if (solver == S_COBYLA) { cond = r_logu(1, 10); if (kind == INFV) kind = COSINE; }
  *pp = p = pr_new(n, kind, cond); *convex = kind <= LOGCOSH;
  memset(c, 0, sizeof(*c)); c->solver = solver; c->n = n; c->pat = (int)r_int(0, 2); c->maxi = r_p(0.3); p->neg = c->maxi;
  c->npt = r_p(0.5) ? 2*n + 1 : r_int(n + 2, (n + 1)*(n + 2)/2);
  c->rb = r_logu(0.05, 1); c->re = c->rb*r_logu(1e-6, 1); if (r_p(0.05)) c->re = c->rb;
  c->maxfun = r_p(0.6) ? 3000 : r_p(0.5) ? r_int(1, c->npt + 3) : r_int(1, 120); c->iprint = r_p(0.95) ? 0 : r_int(1, 3);
  if (! *convex && c->maxfun > 600) c->maxfun = 600;
  for (i = 0; i < n; ++i) { scl[i] = r_p(0.3) ? ldexp(1, (int)r_int(-3, 3)) : r_logu(0.2, 5); }
  if (r_p(0.15)) for (i = 0; i < n; ++i) scl[i] = 1;
  c->scl = r_p(0.4) ? scl : NULL;
  for (i = 0; i < n; ++i) { double s = c->scl ? scl[i] : 1; x0[i] = (double)p->xs[i] + (r_p(0.1) ? 0 : s*c->rb*r_norm()*r_logu(0.1, 10)); }
  p->bounded = bnd;
  if (bnd) for (i = 0; i < n; ++i) { double s = c->scl ? scl[i] : 1, w = s*c->rb*2*r_logu(1.0000001, 10); int t = (int)r_int(0, 4); LD xs = p->xs[i];
    if (r_p(0.03)) w = 2*c->rb*s*1.0000001;
    switch (t) {
    case 0: xl[i] = (double)xs; xu[i] = xl[i] + w; if (kind <= LOGCOSH) p->g[i] = fabs(r_norm()); p->xs[i] = xl[i]; break; /* active lower bound */
    case 1: xu[i] = (double)xs; xl[i] = xu[i] - w; if (kind <= LOGCOSH) p->g[i] = -fabs(r_norm()); p->xs[i] = xu[i]; break;
    case 2: xl[i] = -1e20; xu[i] = 1e20; if (r_bool()) xu[i] = INFINITY; if (r_bool()) xl[i] = -INFINITY; break;
    default: xl[i] = (double)xs - w*r_unif(); xu[i] = xl[i] + w; if (xs > xu[i]) p->xs[i] = xu[i]; if (xs < xl[i]) p->xs[i] = xl[i]; break; }
    if (r_p(0.2)) x0[i] = r_p(0.5) ? xl[i] : xu[i]; if (! isfinite(x0[i]) || fabs(x0[i]) > 1e10) x0[i] = (double)p->xs[i];
    if (r_p(0.15) && fabs(xl[i]) < 1e10) x0[i] = xl[i] + s*c->rb*r_range(-0.5, 1.2);
    p->xl[i] = xl[i]; p->xu[i] = xu[i]; c->xl = xl; c->xu = xu; }
  if (solver == S_COBYLA) { long na; m = r_p(0.25) ? 0 : r_p(0.03) ? r_int(6, MAXM) : r_int(1, 5); p->m = c->m = m; na = m < n ? r_int(0, m) : r_int(0, n); if (na > m) na = m;
    { LD Q[MAXN*MAXN]; orth(Q, n); for (k = 0; k < n; ++k) p->g[k] = kind == LINEAR ? p->g[k] : 0;
      for (k = 0; k < m; ++k) { double nr = r_range(0.5, 2); LD d[MAXN]; for (i = 0; i < n; ++i) d[i] = k < na ? Q[i*n+k] + 0.2*r_norm()*0 : r_norm();
        for (i = 0; i < n; ++i) p->ca[k*n+i] = nr*d[i]; p->cq[k] = r_p(0.3) ? r_range(0.1, 1) : 0;
        if (k < na) { double lam = r_range(0.3, 2); p->cb[k] = 0; if (*convex) for (i = 0; i < n; ++i) p->g[i] += lam*p->ca[k*n+i]; }
        else p->cb[k] = r_range(0.3, 3); } } }
  for (i = 0; i < n; ++i) c->x[i] = x0[i];
  pr_log(p, c->maxfun + 5);
}

#include "report.h"
/* What is printed by the callback and caller-driven forms. */
static void report_case(int solver) {
  call_t c; prob_t *p, *q; double x0[MAXN], xl[MAXN], xu[MAXN], scl[MAXN]; int convex, i; const char* t;
  setup(solver, &c, &p, x0, xl, xu, scl, &convex); c.iprint = r_p(0.1) ? 0 : r_int(1, 3); if (c.maxfun > 400 && ! r_p(0.1)) c.maxfun = 400;
  if (r_p(0.25)) { c.scl = NULL; c.maxi = 0; p->neg = 0; if (solver != S_BOBYQA) p->bounded = 0; }
  t = txt_of(p, snames[solver], c.npt, x0, c.rb, c.re, c.maxfun, c.maxi, c.scl != NULL); hash_l(c.iprint); sample("%s", t); nontrivial();
  rep_on = 1; rep_n = 0; if (rep_text) rep_text[0] = 0; q = pr_copy(p);
  if (c.scl == NULL && c.maxi == 0 && r_p(0.2)) c.simple = 1;
  run_call(&c, p); rep_on = 0;
  report_check(&c, p, t, rep_n ? rep_text : "", rep_n);
  if (h_verbose) printf("%s\nlevel %ld status %d nev %ld\n%s\n", t, c.iprint, c.status, p->nev, rep_n ? rep_text : "");
  if (solver != S_BOBYQA && c.scl == NULL && c.maxi == 0) { double* x = ard(c.n); double* con = ard(c.m > 0 ? c.m : 1); double f; int st = 1, pass; void* ctx; call_t d = c;
    char* copy; long m = rep_n; copy = (char*)malloc(m + 1); memcpy(copy, m ? rep_text : "", m + 1);
    rep_on = 1; rep_n = 0; if (rep_text) rep_text[0] = 0; io_begin();
    ctx = solver == S_NEWUOA ? (void*)newuoa_create(c.n, c.npt, c.rb, c.re, c.iprint, c.maxfun) : (void*)cobyla_create(c.n, c.m, c.rb, c.re, c.iprint, c.maxfun);
    io_end(); if (ctx == NULL) { rep_on = 0; free(copy); return; }
    for (pass = 0; pass < 2; ++pass) { q->nev = 0; rep_n = 0; for (i = 0; i < c.n; ++i) x[i] = x0[i]; st = 1; rep_on = 1;
      while (st == 1 && q->nev < c.maxfun + 2) { f = pr_eval(q, x, solver == S_COBYLA ? con : NULL); io_begin(); st = solver == S_NEWUOA ? (int)newuoa_iterate(ctx, f, x) : (int)cobyla_iterate(ctx, f, x, con); io_end(); }
      rep_on = 0; d.status = st; for (i = 0; i < c.n; ++i) d.x[i] = x[i];
      obs("reports-driven"); if (rep_n == 0 && rep_text) rep_text[0] = 0;
      report_check(&d, q, t, rep_n ? rep_text : "", rep_n);
      if (rep_n != m || (m && memcmp(copy, rep_text, m) != 0)) viol("driven-text", "%s: the caller-driven form does not print the same as the callback form (pass %d, level %ld)", t, pass, c.iprint);
      if (r_bool()) break;
      if (solver == S_NEWUOA) newuoa_restart(ctx); else cobyla_restart(ctx); }
    if (solver == S_NEWUOA) newuoa_delete(ctx); else cobyla_delete(ctx);
    free(copy); }
}

/* A series of convex problems: most runs must succeed with the requested accuracy. */
static void batch_case(int solver) {
  int b, bad = 0, i; char why[300] = "", txt[200]; double rel = r_logu(1e-6, 1e-3), worst = 0; int maxi = r_bool(), scaled = r_bool();
  snprintf(txt, sizeof(txt), "series of 12 convex problems solved by %s with rhoend=%.3g rhobeg%s%s", snames[solver], rel, maxi ? " maximize" : "", scaled ? " scaled" : "");
  hash_bytes(txt, strlen(txt)); sample("%s", txt); nontrivial(); obs("series");
  for (b = 0; b < 12; ++b) {
    call_t c; prob_t* p; double x0[MAXN], xl[MAXN], xu[MAXN], scl[MAXN], d = 0, r, fl; int convex, close; long tries = 0, n; int mark = ar_n;
    do { while (ar_n > mark) h_free(ar_tab[--ar_n]); setup(solver, &c, &p, x0, xl, xu, scl, &convex); close = 0; if (solver == S_BOBYQA) for (i = 0; i < c.n; ++i) if (!(xu[i] - xl[i] > 2.001*c.rb)) close = 1; } while ((! convex || close || c.n > 4 || p->lmax > 31*p->lmin || (solver == S_BOBYQA && c.npt < 2*c.n)) && ++tries < 1000);
    n = c.n; c.scl = NULL; c.maxi = p->neg = maxi; c.re = rel*c.rb; c.maxfun = 3000; c.iprint = 0; pr_log(p, 3005);
    if (scaled) { double s = ldexp(1, (int)r_int(-3, 3)); for (i = 0; i < n; ++i) scl[i] = s; c.rb /= s; c.re /= s; c.scl = scl; }
    run_call(&c, p);
    for (i = 0; i < n; ++i) { double e = c.x[i] - (double)p->xs[i]; d += e*e; } d = sqrt(d);
    fl = sqrt(DBL_EPSILON*(fabs((double)p->off) + 1)/p->lmin*1e3); r = (d - fl)/(c.re*(scaled ? scl[0] : 1));
    if (solver == S_COBYLA && c.cv/(c.re*(scaled ? scl[0] : 1)) > 1.5) r = fmax(r, 99);
    if (c.status != 0) r = 1e3;
    if (h_verbose) printf("  %d: status %d nev %ld ratio %.3g n=%ld m=%ld npt=%ld\n", b, c.status, p->nev, r, n, c.m, c.npt);
    if (r > worst) worst = r;
    obs("series-runs");
    if (!(r <= 8)) { ++bad; obs("series-bad"); if (! why[0]) snprintf(why, sizeof(why), "n=%ld m=%ld npt=%ld: status %d, %ld evaluations, distance %.3g, violation %.3g, rhoend %.3g", n, c.m, c.npt, c.status, p->nev, d, c.cv, c.re); }
    while (ar_n > mark) h_free(ar_tab[--ar_n]);
  }
  if (bad >= (solver == S_COBYLA ? 4 : 3)) viol("series", "%s: %d runs fail or are not accurate; first one: %s", txt, bad, why);
}

static void opt_case(int solver) {
  call_t c, c2; prob_t *p, *q; double x0[MAXN], xl[MAXN], xu[MAXN], scl[MAXN], mag[MAXN]; int convex, i, sg; long k, n, best, where; const char* t; double bf;
  static double worst = 0;
  if (r_p(0.12)) { invalid_call(solver); return; }
  if (r_p(0.05)) { batch_case(solver); return; }
  setup(solver, &c, &p, x0, xl, xu, scl, &convex); n = c.n; sg = c.maxi ? -1 : 1;
  t = txt_of(p, snames[solver], c.npt, x0, c.rb, c.re, c.maxfun, c.maxi, c.scl != NULL);
  sample("%s", t); nontrivial();
  run_call(&c, p);
  if (h_verbose) { printf("%s\nstatus %d nev %ld f %.17g cv %g\n", t, c.status, p->nev, c.f, c.cv); for (i = 0; i < n; ++i) printf("x[%d]=%.17g xs=%.17Lg\n", i, c.x[i], p->xs[i]); }
  obsf("status%d", c.status); obs_n("evaluations", p->nev); if (c.scl) obs("scaled"); if (c.maxi) obs("maximized"); obsf("kind-%d", p->kind);
  if (cb_data_bad || cb_n_bad) { viol("callback", "%s: wrong arguments given to the function", t); return; }
  if (p->err[0]) viol("bounds", "%s: %s", t, p->err);
  if (c.iprint == 0 && io_bytes) viol("output", "%s: prints \"%s\"", t, io_text);
  if (p->nev > c.maxfun) viol("limit", "%s: %ld evaluations", t, p->nev);
  if (c.status == -7 && solver == S_BOBYQA) { if (p->nev != c.maxfun) viol("limit", "%s: stops with too many evaluations after %ld", t, p->nev); obs("limit-reached"); }
  if (c.status == -6 && solver != S_BOBYQA) { if (p->nev != c.maxfun) viol("limit", "%s: stops with too many evaluations after %ld", t, p->nev); obs("limit-reached"); }
  if (p->nev < 1) { viol("limit", "%s: no evaluation", t); return; }
  switch (solver) {
  case S_BOBYQA: if (c.status != 0 && c.status != BOBYQA_TOO_MANY_EVALUATIONS && c.status != BOBYQA_ROUNDING_ERRORS && c.status != BOBYQA_STEP_FAILED) viol("status", "%s: unexpected status %d", t, c.status); break;
  case S_NEWUOA: if (c.status != 0 && c.status != NEWUOA_TOO_MANY_EVALUATIONS && c.status != NEWUOA_ROUNDING_ERRORS && c.status != NEWUOA_STEP_FAILED) viol("status", "%s: unexpected status %d", t, c.status); break;
  default: if (c.status != 0 && c.status != COBYLA_TOO_MANY_EVALUATIONS && c.status != COBYLA_ROUNDING_ERRORS) viol("status", "%s: unexpected status %d", t, c.status);
    if (c.nev != p->nev) viol("count", "%s: %ld evaluations reported, %ld made", t, c.nev, p->nev); break;
  }
  if (p->bounded) for (i = 0; i < n; ++i) if (!(c.x[i] >= xl[i] && c.x[i] <= xu[i])) { viol("bounds", "%s: final x[%d]=%.17g out of [%.17g,%.17g]", t, i, c.x[i], xl[i], xu[i]); break; }
  /* the initial point is the first one (NEWUOA, COBYLA) */
  mag_of(p, mag);
  if (solver != S_BOBYQA) for (i = 0; i < n; ++i) if (!(fabs(p->px[i] - x0[i]) <= (c.scl ? 4*DBL_EPSILON*fabs(x0[i]) : 0))) { viol("first-point", "%s: first evaluation at x[%d]=%.17g instead of %.17g", t, i, p->px[i], x0[i]); break; }
  /* best evaluated point */
  best = -1; bf = INFINITY;
  for (k = 0; k < p->nev; ++k) { double f = sg*p->pf[k]; if (f < bf || best < 0) { bf = f; best = k; } }
  { int fin = 1; for (k = 0; k < p->nev; ++k) { if (!(fabs(p->pf[k]) <= 1e110)) fin = 0; if (p->kind == LINEAR && !(fabs(p->pf[k]) <= 1e30)) fin = 0; } /* (overflows in the algorithm) */ if (! fin) { obs("non-finite-values"); return; } }
  if (solver != S_COBYLA) {
    if ((solver != S_BOBYQA || c.status == 0) && !(sg*c.f == bf)) viol("best-value", "%s: status %d: reported value %.17g, best one %.17g at evaluation %ld of %ld", t, c.status, c.f, sg*bf, best + 1, p->nev);
    /* the final point must be one with this value */
    { int ok = 0; double d = INFINITY; for (k = 0; k < p->nev && ! ok; ++k) if (sg*p->pf[k] == bf) { double e = 0; for (i = 0; i < n; ++i) { double s = (c.scl ? scl[i] : 1), u = fabs(c.x[i] - p->px[k*n+i])/(1e-13*(mag[i] + s*c.rb)*(10 + p->nev)); if (!(u <= e)) e = u; } if (e <= 1) ok = 1; if (e < d) d = e; }
      if (! ok) viol("best-point", "%s: status %d: the final variables are not a point of the reported value (distance %.3g)", t, c.status, d); }
    obs("best-point-checks");
  } else {
    int ok = 0; for (k = p->nev - 1; k >= 0 && ! ok; --k) if (p->pf[k] == c.f && p->pc[k] == c.cv) { double e = 0; for (i = 0; i < n; ++i) { double s = (c.scl ? scl[i] : 1), u = fabs(c.x[i] - p->px[k*n+i])/(1e-13*(mag[i] + s*c.rb)*(10 + p->nev)); if (!(u <= e)) e = u; } if (e <= 1) ok = 1; }
    if (! ok) viol("evaluated-point", "%s: status %d: no evaluation gave f=%.17g and violation %.17g at the final variables", t, c.status, c.f, c.cv);
    obs("evaluated-point-checks");
    if (p->m == 0 && c.status != COBYLA_SUCCESS && c.cv != 0) viol("violation", "%s: constraint violation %g without constraint", t, c.cv);
  }
  /* smooth convex problems: success means a solution */
  if (convex && c.status == 0) { LD d = 0, e; double floor_, lim, cv = 0, smax = 1, smin = 1; 
    if (c.scl) { smax = 0; smin = INFINITY; for (i = 0; i < n; ++i) { if (scl[i] > smax) smax = scl[i]; if (scl[i] < smin) smin = scl[i]; } }
    for (i = 0; i < n; ++i) { e = c.x[i] - p->xs[i]; d += e*e; } d = sqrtl(d);
    floor_ = sqrt(DBL_EPSILON*(fabs((double)p->off) + 1)/p->lmin*1e3);
    /* success of an approximate method is not absolutely accurate: only gross errors are alarms for a single run (see also batch_case) */
    lim = 10*(solver == S_COBYLA ? 20*n : 5*n)*smax*c.re*sqrt(p->lmax/p->lmin)*(c.scl ? smax/smin : 1) + floor_; (void)cv;
    obs("convex-success"); { double r = (double)(d/lim); if (r > worst) worst = r; obs_max("distance-ratio", r); if (r > 0.3) obs("distance-over-0.3"); }
    if (c.re <= 0.01*c.rb) obs("accuracy-checks");
    if (c.re <= 0.01*c.rb && !(d <= lim)) viol("solution", "%s: success at a distance %.4Lg from the solution (limit %.4g)", t, d, lim);
    if (solver == S_COBYLA && c.re <= 0.01*c.rb && !(c.cv <= 10*smax*c.re*2 + 1e-12)) viol("feasible", "%s: success with a violation %.4g of the constraints", t, c.cv);
  }
  if (convex && c.maxfun >= 3000 && c.status != 0) { obsf("convex-failure%d", c.status); }
  if (p->bounded) for (i = 0; i < n; ++i) { if (c.x[i] == xl[i] || c.x[i] == xu[i]) obs("component-on-bound"); }
  /* relations between runs */
  if (r_p(0.5)) {
    int rel = (int)r_int(0, 3); q = pr_copy(p); c2 = c; for (i = 0; i < n; ++i) c2.x[i] = x0[i]; c2.pat = (c.pat + 1) % 3;
    if (rel == 0) { /* maximizing f is minimizing -f */ c2.maxi = ! c.maxi; q->neg = ! p->neg; 
      run_call(&c2, q); obs("relation-maximize"); if (! same_log(p, q, NULL, &where)) viol("maximize", "%s: not the same points when the opposite function is %s (evaluation %ld)", t, c2.maxi ? "maximized" : "minimized", where + 1);
      else if (c.status != c2.status || !(c.f == -c2.f) || memcmp(c.x, c2.x, n*sizeof(double))) viol("maximize", "%s: not the same result when the opposite function is %s", t, c2.maxi ? "maximized" : "minimized"); }
    else if (rel == 1) { /* the same run again; unit scaling is none */ double one[MAXN]; for (i = 0; i < n; ++i) one[i] = 1; if (c.scl == NULL && r_bool()) { c2.scl = one; if (solver == S_BOBYQA) ; }
      else if (c.scl == NULL && ! c.maxi) c2.simple = 1;
      run_call(&c2, q); obs("relation-repeat"); if (! same_log(p, q, NULL, &where) || c.status != c2.status || ! same_val(c.f, c2.f) || memcmp(c.x, c2.x, n*sizeof(double))) violp(PROP("C10") ? "C10" : h_prop, "repeat", "%s: the same run gives other results (evaluation %ld)", t, where + 1); }
    else { /* scaling by powers of two is a change of variables */ double s2[MAXN], l2[MAXN], u2[MAXN]; prob_t* a = pr_copy(p); call_t ca = c; 
      for (i = 0; i < n; ++i) s2[i] = ldexp(1, (int)r_int(-4, 4));
      ca.scl = s2; for (i = 0; i < n; ++i) ca.x[i] = x0[i];
      c2.scl = NULL; q->ys = s2; q->bounded = 0; for (i = 0; i < n; ++i) { c2.x[i] = x0[i]/s2[i]; if (p->bounded) { l2[i] = xl[i]/s2[i]; u2[i] = xu[i]/s2[i]; } }
      if (p->bounded) { c2.xl = l2; c2.xu = u2; for (i = 0; i < n; ++i) if (u2[i] - l2[i] < 2.0000001*c.rb) return; }
      run_call(&ca, a); run_call(&c2, q); obs("relation-scaling");
      if (a->err[0]) viol("bounds", "%s (scaled by powers of two): %s", t, a->err);
      if (! same_log(a, q, s2, &where)) viol("scaling", "%s: scaling the variables is not a change of variables (evaluation %ld)", t, where + 1);
      else { for (i = 0; i < n; ++i) if (! same_val(ca.x[i], c2.x[i]*s2[i])) { viol("scaling", "%s: scaled final variables differ", t); break; }
        if (ca.status != c2.status || ! same_val(ca.f, c2.f)) viol("scaling", "%s: results differ with scaling", t); } }
  }
}

/*---------------------------------------------------------------- caller-driven forms */
static void rc_case(int solver) {
  call_t c; prob_t *p, *q; double x0[MAXN], xl[MAXN], xu[MAXN], scl[MAXN], *x, *con, f; int convex, st, pass, npass, i, stop_early, trouble; long n, m, where, k; const char* t; void* ctx; double rho, prho;
  do { setup(solver, &c, &p, x0, xl, xu, scl, &convex); ar_n = ar_n; } while (0);
  c.scl = NULL; c.maxi = 0; p->neg = 0; p->bounded = 0; n = c.n; m = c.m; x = ard(n); con = ard(m > 0 ? m : 1);
  for (i = 0; i < n; ++i) c.x[i] = x0[i];
  t = txt_of(p, snames[solver], c.npt, x0, c.rb, c.re, c.maxfun, 0, 0); sample("%s", t); nontrivial();
  run_call(&c, p);
  q = pr_copy(p);
#define NQ(a, b) (solver == S_NEWUOA ? (a) : (b))
  io_begin();
  ctx = NQ((void*)newuoa_create(n, c.npt, c.rb, c.re, c.iprint, c.maxfun), (void*)cobyla_create(n, m, c.rb, c.re, c.iprint, c.maxfun));
  io_end();
  if (ctx == NULL) { viol("create", "%s: no context", t); return; }
#define STATUS() NQ((int)newuoa_get_status(ctx), (int)cobyla_get_status(ctx))
#define NEVALS() NQ((long)newuoa_get_nevals(ctx), (long)cobyla_get_nevals(ctx))
#define RHO()    NQ(newuoa_get_rho(ctx), cobyla_get_rho(ctx))
#define ITER(f, x, c) NQ((int)newuoa_iterate(ctx, f, x), (int)cobyla_iterate(ctx, f, x, c))
  npass = 1 + r_bool();
  for (pass = 0; pass < npass; ++pass) {
    stop_early = pass + 1 < npass && r_p(0.4) ? (int)r_int(0, 30) : -1; trouble = r_p(0.15) ? (int)r_int(0, 20) : -1;
    q->nev = 0; for (i = 0; i < n; ++i) x[i] = x0[i];
    if (STATUS() != 1) viol("initial-status", "%s: initial status %d (pass %d)", t, STATUS(), pass);
    if (NEVALS() != 0) viol("initial-count", "%s: %ld evaluations before the first (pass %d)", t, NEVALS(), pass);
    rho = RHO(); if (rho != 0) viol("initial-rho", "%s: radius %g before the first iteration (pass %d)", t, rho, pass);
    prho = INFINITY; st = 1; k = 0; f = 0;
    while (st == 1) {
      if (k == stop_early) { obs("abandoned"); break; }
      if (k == trouble) { obs("misused"); io_begin();
        st = r_bool() || solver == S_NEWUOA ? ITER(0, NULL, con) : m > 0 ? ITER(0, x, NULL) : ITER(0, NULL, NULL);
        io_end();
        if (st != NQ((int)NEWUOA_BAD_ADDRESS, (int)COBYLA_BAD_ADDRESS) || STATUS() != st) viol("misuse", "%s: status %d (then %d) with a null address", t, st, STATUS());
        break; }
      f = pr_eval(q, x, solver == S_COBYLA ? con : NULL); ++k;
      if (k > c.maxfun) { viol("limit", "%s: %ld evaluations requested", t, k); break; }
      io_begin(); st = ITER(f, x, con); io_end();
      if (c.iprint == 0 && io_bytes) { viol("output", "%s: prints \"%s\"", t, io_text); }
      if (STATUS() != st) viol("status", "%s: status %d returned, %d queried", t, st, STATUS());
      if (NEVALS() != k) viol("count", "%s: %ld evaluations reported after %ld", t, NEVALS(), k);
      rho = RHO();
      if (!(rho >= c.re*(1 - 1e-15) && rho <= c.rb*(1 + 1e-15) && rho <= prho)) viol("rho", "%s: radius %.17g after %ld evaluations (previous %.17g)", t, rho, k, prho);
      prho = rho;
      if (solver == S_COBYLA && st == 1 && ! same_val(cobyla_get_last_f(ctx), f)) viol("last-f", "%s: last value %.17g instead of %.17g", t, cobyla_get_last_f(ctx), f);
      obs("iterations");
    }
    if (st <= 0 && (trouble < 0 || k < trouble)) { /* finished */
      obsf("end-status%d", st); obs("finished");
      if (! same_log(p, q, NULL, &where)) viol("points", "%s: callback and caller-driven forms differ at evaluation %ld (of %ld and %ld, pass %d)", t, where + 1, p->nev, q->nev, pass);
      else {
        if (st != c.status) viol("end-status", "%s: status %d instead of %d (pass %d)", t, st, c.status, pass);
        for (i = 0; i < n; ++i) if (! same_val(x[i], c.x[i])) { viol("end-point", "%s: final x[%d]=%.17g instead of %.17g (status %d, pass %d)", t, i, x[i], c.x[i], st, pass); break; }
        if (solver == S_COBYLA && st == 0 && ! same_val(cobyla_get_last_f(ctx), c.f)) viol("last-f", "%s: value at the solution %.17g instead of %.17g", t, cobyla_get_last_f(ctx), c.f);
      }
      if (st == 0 && rho > c.re*(1 + 1e-15)) viol("rho", "%s: success at a radius %g", t, rho);
    }
    if (st != 1) { double y[MAXN]; int st2, z; /* any further call is a misuse */
      for (i = 0; i < n; ++i) y[i] = x[i];
      for (z = 0; z < 2; ++z) { io_begin(); st2 = ITER(1, x, con); io_end();
        if (st2 != NQ((int)NEWUOA_CORRUPTED, (int)COBYLA_CORRUPTED) || STATUS() != st2) viol("after-end", "%s: status %d (then %d) when iterating after the end (status %d)", t, st2, STATUS(), st); }
      for (i = 0; i < n; ++i) if (! same_val(x[i], y[i])) { viol("after-end", "%s: variables modified by a call after the end", t); break; }
      obs("after-end");
    }
    if (pass + 1 < npass) { int s = NQ((int)newuoa_restart(ctx), (int)cobyla_restart(ctx)); obs("restarted"); if (s != 1) viol("restart", "%s: status %d on restart", t, s); }
  }
  NQ(newuoa_delete(ctx), cobyla_delete(ctx));
  if (r_p(0.1)) { /* queries on nothing */
    ctx = NULL; errno = 0; 
    if (STATUS() != NQ((int)NEWUOA_BAD_ADDRESS, (int)COBYLA_BAD_ADDRESS)) viol("null", "%s: status of no context", t);
    if (NEVALS() != -1 || RHO() != -1) viol("null", "%s: count or radius of no context", t);
    if (ITER(0, x, con) != NQ((int)NEWUOA_BAD_ADDRESS, (int)COBYLA_BAD_ADDRESS)) viol("null", "%s: iterating on no context", t);
    if (NQ((int)newuoa_restart(NULL), (int)cobyla_restart(NULL)) != NQ((int)NEWUOA_BAD_ADDRESS, (int)COBYLA_BAD_ADDRESS)) viol("null", "%s: restarting no context", t);
    NQ(newuoa_delete(NULL), cobyla_delete(NULL)); obs("null-context");
  }
}
static void rc_invalid(int solver) {
  long n = r_int(2, 5), m = r_int(0, 4), npt = r_int(n + 2, (n + 1)*(n + 2)/2), maxfun = 30; double rb = 0.5, re = 0.01; int bad = (int)r_int(0, 6), e; void* ctx; char txt[160];
  switch (bad) {
  case 0: n = solver == S_NEWUOA ? r_int(-1, 1) : r_int(-1, 0); npt = n + 2; break;
  case 1: if (solver == S_NEWUOA) npt = r_bool() ? n + 1 : (n + 1)*(n + 2)/2 + 1; else m = -1; break;
  case 2: re = 0.6; break;
  case 3: re = r_bool() ? 0 : -1; break;
  case 4: if (r_bool()) rb = NAN; else re = NAN; break;
  case 5: { long big = 1L << r_int(31, 61); /* more memory than can be addressed */
      if (solver == S_NEWUOA) { n = big + r_int(-3, 3); npt = n > (1L << 40) ? n + 2 : r_bool() ? 2*n + 1 : n + r_int(2, 9); } 
      else if (r_bool()) n = big + r_int(-3, 3); else { m = (1L << 61) + r_int(-3, 3); if (r_bool()) n = big; }
      obs("impossible-sizes"); } break;
  default: maxfun = r_int(-1, 0);
  }
  snprintf(txt, sizeof(txt), "%s_create with n=%ld m=%ld npt=%ld rho=%g..%g maxfun=%ld", snames[solver], n, m, npt, rb, re, maxfun);
  errno = 0; io_begin();
  ctx = NQ((void*)newuoa_create(n, npt, rb, re, 0, maxfun), (void*)cobyla_create(n, m, rb, re, 0, maxfun)); e = errno;
  io_end(); obs("invalid-creations"); hash_bytes(txt, strlen(txt)); nontrivial();
  if (ctx != NULL) { viol("invalid-accepted", "%s: accepted", txt); NQ(newuoa_delete(ctx), cobyla_delete(ctx)); }
  else if (e != (bad == 5 ? ENOMEM : EINVAL)) viol("invalid-errno", "%s: errno %d", txt, e);
  if (io_bytes) viol("output", "%s: prints \"%s\"", txt, io_text);
}

/*---------------------------------------------------------------- subroutines for Fortran (C36) */
#ifdef FORTRAN_LINKAGE
static prob_t* ft_p; static long ft_n, ft_m; static const char* ft_bad;
int FORTRAN_NAME(calfun,CALFUN)(const opk_index* n, double* x, double* f) { if (*n != ft_n) { ft_bad = "wrong number of variables"; *f = 0; return 0; } *f = cb_f(*n, x, ft_p); return 0; }
void FORTRAN_NAME(calcfc,CALCFC)(opk_index* n, opk_index* m, const double x[], double* f, double con[]) { if (*n != ft_n || *m != ft_m) { ft_bad = "wrong number of variables or constraints"; *f = 0; return; } *f = cb_fc(*n, *m, x, con, ft_p); }
static void fort_case(int solver) {
  call_t c; prob_t *p, *q; double x0[MAXN], xl[MAXN], xu[MAXN], scl[MAXN], *x, *w, *lo = NULL, *up = NULL; int convex, i, ret, bad = 0; const char* t; char* text; long len, wl, where; opk_index *ia = NULL, n, m, npt, iprint, maxfun; double rb, re;
  setup(solver, &c, &p, x0, xl, xu, scl, &convex); if (c.maxfun > 300 && ! r_p(0.1)) c.maxfun = 300;
  c.scl = NULL; c.maxi = 0; p->neg = 0; if (solver != S_BOBYQA) p->bounded = 0; c.iprint = r_p(0.7) ? 0 : r_int(1, 3); c.simple = 1;
  if (r_p(0.1)) { bad = 1; c.iprint = 0; if (r_bool()) c.re = r_bool() ? 2*c.rb : -1; else if (solver == S_COBYLA) { bad = 2; } else c.npt = c.n + 1; }
  if (bad == 2) c.n = 0; /* no variables */
  t = txt_of(p, snames[solver], c.npt, x0, c.rb, c.re, c.maxfun, 0, 0); sample("Fortran %s", t); hash_l(c.iprint); nontrivial(); q = pr_copy(p);
  rep_on = 1; rep_n = 0; run_call(&c, p); rep_on = 0; len = rep_n; text = (char*)malloc(len + 1); if (len) memcpy(text, rep_text, len);
  n = c.n; m = c.m; npt = c.npt; rb = c.rb; re = c.re; iprint = c.iprint; maxfun = c.maxfun; ft_p = q; ft_n = n; ft_m = m; ft_bad = NULL; cb_data_bad = NULL; cb_n_bad = 0;
  x = ard(n > 0 ? n : 1); for (i = 0; i < n; ++i) x[i] = x0[i];
  if (solver == S_BOBYQA) { lo = ard(n); up = ard(n); for (i = 0; i < n; ++i) { lo[i] = xl[i]; up[i] = xu[i]; } }
  wl = solver == S_BOBYQA ? (npt + 5)*(npt + n) + 3*n*(n + 5)/2 : solver == S_NEWUOA ? (npt + 13)*(npt + n) + 3*n*(n + 3)/2 : n*(3*n + 2*m + 11) + 4*m + 6; if (wl < 2) wl = 2;
  w = work_new(wl, (c.pat + 1)%3); if (solver == S_COBYLA) { ia = (opk_index*)ar((m + 1)*sizeof(opk_index)); for (i = 0; i < m + 1; ++i) ia[i] = -77; }
  rep_on = 1; rep_n = 0; io_begin();
  ret = solver == S_BOBYQA ? FORTRAN_NAME(bobyqa,BOBYQA)(&n, &npt, x, lo, up, &rb, &re, &iprint, &maxfun, w)
      : solver == S_NEWUOA ? FORTRAN_NAME(newuoa,NEWUOA)(&n, &npt, x, &rb, &re, &iprint, &maxfun, w)
      : FORTRAN_NAME(cobyla,COBYLA)(&n, &m, x, &rb, &re, &iprint, &maxfun, w, ia);
  io_end(); rep_on = 0; (void)ret; obsf("fortran-%s", snames[solver]); if (bad) obs("fortran-invalid");
  if (ft_bad) viol("fortran-callback", "%s: %s", t, ft_bad);
  if (n != c.n || m != c.m || npt != c.npt || rb != c.rb || re != c.re || iprint != c.iprint) viol("fortran-arguments", "%s: arguments modified", t);
  if (maxfun != (solver == S_COBYLA ? q->nev : c.maxfun)) viol("fortran-maxfun", "%s: MAXFUN is %ld on return after %ld evaluations (limit %ld)", t, (long)maxfun, q->nev, c.maxfun);
  if (! same_log(p, q, NULL, &where)) viol("fortran-points", "%s: the subroutine and the C function differ at evaluation %ld (of %ld and %ld)", t, where + 1, p->nev, q->nev);
  else {
    for (i = 0; i < n; ++i) if (! same_val(x[i], c.x[i])) { viol("fortran-point", "%s: final x[%d]=%.17g instead of %.17g", t, i, x[i], c.x[i]); break; }
    if (! bad && (solver != S_BOBYQA || c.status == 0) && ! same_val(w[0], c.f)) viol("fortran-value", "%s: value %.17g instead of %.17g", t, w[0], c.f);
    if (! bad && solver == S_COBYLA && ! same_val(w[1], c.cv)) viol("fortran-violation", "%s: violation %.17g instead of %.17g", t, w[1], c.cv);
    if (rep_n != len || (len && memcmp(text, rep_text, len) != 0)) viol("fortran-text", "%s: not the same text printed at level %ld", t, c.iprint);
  }
  free(text); obs("fortran-runs"); obs_n("fortran-evaluations", q->nev);
}
#endif

void run_case(uint64_t c) {
  long live = a_live;
  if (PROP("C24")) opt_case(S_BOBYQA);
  else if (PROP("C25")) opt_case(S_NEWUOA);
  else if (PROP("C26")) opt_case(S_COBYLA);
  else if (PROP("C27")) { int s = (c & 1) ? S_NEWUOA : S_COBYLA; if (r_p(0.06)) rc_invalid(s); else rc_case(s); 
    if (a_live != live) viol("leak", "memory not released"); }
#ifdef FORTRAN_LINKAGE
  else if (PROP("C36")) fort_case((int)(c % 3));
#endif
  else if (PROP("C35")) report_case((int)(c % 3));
  else opt_case((int)(c % 3));
}
