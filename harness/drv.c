/* drv.c -- the simple driver against the low-level optimizers (C29).
 *
 * One reference run of the low-level optimizer on vectors and several other
 * runs, of the driver or of the low-level optimizer created otherwise (bounds
 * expressed differently, options omitted or given as defaults), advance in
 * lock-step on the same objective function; all observable values must be the
 * same bit for bit.  */
#include "optcommon.h"

#define MAXRUN 5
typedef struct {
  int driver; opk_optimizer* d; lowopt low; hvec hx, hg; /* low-level */
  void* x; void* g;                                     /* driver */
  int moving;        /* arrays change at each call */
  void* keep[2];     /* arrays of the bounds that must be kept */
  char what[160];
} run;

static size_t esz(const config* C) { return C->single ? sizeof(float) : sizeof(double); }
static double el(const config* C, const void* p, long i) { return C->single ? (double)((const float*)p)[i] : ((const double*)p)[i]; }

/* The bound values of C expressed as kind K in fresh memory: address to give. */
static int is_scalar_kind(int k) { return k == OPK_BOUND_SCALAR_FLOAT || k == OPK_BOUND_SCALAR_DOUBLE; }
typedef struct { int kind; void* addr; size_t size; hvec v; } expr;
static void express(const config* C, const double* b, int kind, expr* e, opk_vspace* space) {
  long i, n = C->n;
  memset(e, 0, sizeof(*e)); e->kind = kind;
  if (kind == OPK_BOUND_NONE) return;
  if (kind == OPK_BOUND_VECTOR) {
    e->v = hv_new(space, C->single, n, 0);
    for (i = 0; i < n; ++i) hv_set(&e->v, i, b[i]);
    e->addr = e->v.v; return;
  }
  if (is_scalar_kind(kind)) n = 1;
  e->size = n*((kind & 1) ? sizeof(float) : sizeof(double));
  e->addr = h_alloc(e->size);
  for (i = 0; i < n; ++i) if (kind & 1) ((float*)e->addr)[i] = (float)b[i]; else ((double*)e->addr)[i] = b[i];
}
/* Can the values be given by this kind? */
static int possible(const config* C, const double* b, int none, int kind, int driver) {
  long i;
  if (kind == OPK_BOUND_VECTOR && driver) return 0;
  if (kind == OPK_BOUND_NONE) return none;
  if (is_scalar_kind(kind)) for (i = 1; i < C->n; ++i) if (b[i] != b[0]) return 0;
  return ! none; /* no bound is not the same thing as an infinite one */
}
static int random_kind(const config* C, const double* b, int none, int driver) {
  int k, t;
  for (t = 0; t < 50; ++t) { k = (int)r_int(0, 7); if (possible(C, b, none, k, driver)) return k; }
  return none ? 0 : OPK_BOUND_VOLATILE_DOUBLE;
}
static void scribble(void* p, size_t n) { size_t i; for (i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)r_u64(); }

static int run_create(run* R, config* C, int driver, int lk, int uk) {
  expr el_, eu; opk_lnsrch* ls; opk_vmlmb_options vo = C->vo; opk_nlcg_options no = C->no;
  void* opts = C->vmlmb ? (void*)&vo : (void*)&no; char* ob; char* oc; size_t osz = C->vmlmb ? sizeof(vo) : sizeof(no);
  int give = C->use_opts || r_bool(); /* when options are omitted, default options may be given instead */
  memset(R, 0, sizeof(*R));
  R->driver = driver;
  snprintf(R->what, sizeof(R->what), "%s bounds=%d,%d options=%d", driver ? "driver" : "low-level", lk, uk, give);
  ls = cfg_lnsrch(C);
  /* the options in a block of their own, released after the creation */
  ob = (char*)h_alloc(osz); oc = (char*)h_alloc(osz);
  memcpy(ob, opts, osz); memcpy(oc, ob, osz);
  if (! driver) {
    R->low.vmlmb = C->vmlmb; R->low.space = hv_space(C->single, C->n); R->low.ls = NULL;
    express(C, C->lo, lk, &el_, R->low.space); express(C, C->hi, uk, &eu, R->low.space);
    if (lk || uk) {
      R->low.box = opk_new_boxset(R->low.space, (opk_bound_type)lk, el_.addr, (opk_bound_type)uk, eu.addr);
      if (! R->low.box) HARNESS_BUG("no box");
    }
    if (C->vmlmb) R->low.v = opk_new_vmlmb_optimizer(give ? (void*)ob : NULL, R->low.space, ls, R->low.box);
    else R->low.c = opk_new_nlcg_optimizer(give ? (void*)ob : NULL, R->low.space, ls);
    if (! R->low.v && ! R->low.c) HARNESS_BUG("no optimizer");
    R->hx = hv_new(R->low.space, C->single, C->n, r_bool()); R->hg = hv_new(R->low.space, C->single, C->n, r_bool());
  } else {
    unsigned char* cl = NULL; unsigned char* cu = NULL; size_t i;
    express(C, C->lo, lk, &el_, NULL); express(C, C->hi, uk, &eu, NULL);
    if (el_.size) { cl = (unsigned char*)ar(el_.size); memcpy(cl, el_.addr, el_.size); }
    if (eu.size) { cu = (unsigned char*)ar(eu.size); memcpy(cu, eu.addr, eu.size); }
    R->d = opk_new_optimizer(C->vmlmb ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, give ? ob : NULL, C->single ? OPK_FLOAT : OPK_DOUBLE,
                             C->n, (opk_bound_type)lk, el_.addr, (opk_bound_type)uk, eu.addr, ls);
    if (! R->d) { viol("driver-refused", "opk_new_optimizer fails (errno %d) where the low level succeeds: %s", errno, R->what); }
    else {
      for (i = 0; cl && i < el_.size; ++i) if (((unsigned char*)el_.addr)[i] != cl[i]) { viol("bounds-modified", "lower bound modified by the creation"); break; }
      for (i = 0; cu && i < eu.size; ++i) if (((unsigned char*)eu.addr)[i] != cu[i]) { viol("bounds-modified", "upper bound modified by the creation"); break; }
    }
    R->x = h_alloc(C->n*esz(C)); R->g = h_alloc(C->n*esz(C));
    R->moving = r_bool();
  }
  if (memcmp(ob, oc, osz) != 0) viol("options-modified", "options modified by the creation");
  /* Nothing but static arrays is needed any more. */
  scribble(ob, osz); h_free(ob); h_free(oc);
  OPK_DROP(ls);
  { expr* e[2]; int k; e[0] = &el_; e[1] = &eu;
    for (k = 0; k < 2; ++k) {
      if (e[k]->v.v) hv_free(&e[k]->v);
      else if (e[k]->addr) {
        if (driver && (e[k]->kind == OPK_BOUND_STATIC_FLOAT || e[k]->kind == OPK_BOUND_STATIC_DOUBLE)) R->keep[k] = e[k]->addr;
        else { scribble(e[k]->addr, e[k]->size); h_free(e[k]->addr); obs("bounds-released"); }
      }
    } }
  if (! driver) { OPK_DROP(R->low.box); R->low.box = NULL; }
  return ! driver || R->d != NULL;
}
static void run_free(run* R) {
  int k;
  if (R->driver) { opk_destroy_optimizer(R->d); if (R->x) h_free(R->x); if (R->g) h_free(R->g); }
  else { hv_free(&R->hx); hv_free(&R->hg); low_free(&R->low); }
  for (k = 0; k < 2; ++k) if (R->keep[k]) h_free(R->keep[k]);
}
static void* rx(run* R) { return R->driver ? R->x : R->hx.data; }
static void* rg(run* R) { return R->driver ? R->g : R->hg.data; }
static opk_task run_start(run* R, config* C, const double* x0) {
  long i;
  for (i = 0; i < C->n; ++i) if (C->single) ((float*)rx(R))[i] = (float)x0[i]; else ((double*)rx(R))[i] = x0[i];
  return R->driver ? opk_start(R->d, R->x) : low_start(&R->low, R->hx.v);
}
static void move(config* C, void** p) { /* same contents elsewhere, the former array is released */
  size_t s = C->n*esz(C); void* q = h_alloc(s);
  memcpy(q, *p, s); scribble(*p, s); h_free(*p); *p = q;
}
static opk_task run_iterate(run* R, config* C, double f, const double* gd) {
  long i, n = C->n; opk_task t; void* g; unsigned char copy[PMAXN*sizeof(double)];
  if (R->driver && R->moving) { move(C, &R->x); move(C, &R->g); obs("arrays-moved"); }
  g = rg(R);
  for (i = 0; i < n; ++i) if (C->single) ((float*)g)[i] = (float)gd[i]; else ((double*)g)[i] = gd[i];
  memcpy(copy, g, n*esz(C));
  t = R->driver ? opk_iterate(R->d, R->x, f, R->g) : low_iterate(&R->low, R->hx.v, f, R->hg.v);
  if (memcmp(copy, g, n*esz(C)) != 0) viol("gradient-modified", "gradient modified: %s", R->what);
  return t;
}
typedef struct { opk_task task; opk_status status; long ev, it, rs; double step, gnorm; } view;
static view run_view(run* R) {
  view v;
  memset(&v, 0, sizeof(v));
  if (R->driver) {
    v.task = opk_get_task(R->d); v.status = opk_get_status(R->d); v.ev = opk_get_evaluations(R->d); v.it = opk_get_iterations(R->d);
    v.rs = opk_get_restarts(R->d); v.step = opk_get_step(R->d); v.gnorm = opk_get_gnorm(R->d);
  } else {
    v.task = low_task(&R->low); v.status = low_status(&R->low); v.ev = low_evals(&R->low); v.it = low_iters(&R->low);
    v.rs = low_restarts(&R->low); v.step = low_step(&R->low); v.gnorm = low_gnorm(&R->low);
  }
  return v;
}
static int same_view(const view* a, const view* b) {
  return a->task == b->task && a->status == b->status && a->ev == b->ev && a->it == b->it && a->rs == b->rs
    && same_val(a->step, b->step) && same_val(a->gnorm, b->gnorm);
}
static void compare(config* C, run* A, run* B, opk_task ta, opk_task tb, int k) {
  view a = run_view(A), b = run_view(B); long i;
  if (ta != tb || ! same_view(&a, &b)) {
    viol("different-state", "call %d: (task %d/%d status %d ev %ld it %ld rs %ld step %g gnorm %g) but (task %d/%d status %d ev %ld it %ld rs %ld step %g gnorm %g) for %s",
         k, ta, a.task, a.status, a.ev, a.it, a.rs, a.step, a.gnorm, tb, b.task, b.status, b.ev, b.it, b.rs, b.step, b.gnorm, B->what);
    return;
  }
  for (i = 0; i < C->n; ++i) if (! same_val(el(C, rx(A), i), el(C, rx(B), i))) {
    viol("different-variables", "call %d: x[%ld] = %.17g but %.17g for %s", k, i, el(C, rx(A), i), el(C, rx(B), i), B->what);
    return;
  }
  obs("states-compared");
}
static void texts(run* R, config* C, char* name, char* desc) {
  if (R->driver) { opk_get_name(name, 100, R->d); opk_get_description(desc, 300, R->d); }
  else if (C->vmlmb) { snprintf(name, 100, "%s", opk_get_vmlmb_method_name(R->low.v)); opk_get_vmlmb_description(desc, 300, R->low.v); }
  else { strcpy(name, "NLCG"); opk_get_nlcg_description(desc, 300, R->low.c); }
}

void run_case(uint64_t c) {
  config C; problem P; run R[MAXRUN]; int nr = 0, i, k, maxev, nstart, s, lnone, unone, ok = 1; char d[400], n0[100], d0[300], n1[100], d1[300];
  opk_task t[MAXRUN]; long j;
  cfg_random(&C, 0);
  if (c % 3 == 0) { C.use_opts = 0; opk_get_vmlmb_default_options(&C.vo); opk_get_nlcg_default_options(&C.no); }
  prob_make(&P, (int)r_int(0, PK_COUNT - 1), C.n, r_logu(1, 1e4), r_p(0.2) ? r_logu(1e-6, 1e6) : 1);
  lnone = (C.lk == 0); unone = (C.uk == 0);
  if (cfg_bounded(&C)) {
    /* values which all kinds can represent */
    for (j = 0; j < C.n; ++j) { C.lo[j] = (float)C.lo[j]; C.hi[j] = (float)C.hi[j]; if (C.lo[j] > C.hi[j]) C.hi[j] = C.lo[j]; }
    if (is_scalar_kind(C.lk) && is_scalar_kind(C.uk)) obs("scalar-bounds");
    if (r_p(0.2) && ! lnone) for (j = 1; j < C.n; ++j) { C.lo[j] = C.lo[0]; if (C.hi[j] < C.lo[j]) C.hi[j] = (float)(C.lo[j] + 1); }
  }
  cfg_describe(&C, d, sizeof(d));
  hash_bytes(d, strlen(d)); hash_l(P.kind); for (j = 0; j < C.n; ++j) hash_d(C.x0[j]);
  if (c < 2) sample("%s on a %s function", d, pk_name[P.kind]);
  /* Low-level reference, driver with the same kinds if possible, and others. */
  for (k = 0; k < 4 && ok; ++k) {
    int drv = k == 0 ? 0 : k == 1 ? 1 : r_p(0.75), lk = 0, uk = 0;
    if (cfg_bounded(&C)) {
      lk = random_kind(&C, C.lo, lnone, drv); uk = random_kind(&C, C.hi, unone, drv);
      if (! lk && ! uk) { if (! lnone) lk = OPK_BOUND_VOLATILE_DOUBLE; else uk = OPK_BOUND_VOLATILE_DOUBLE; }
      obsf("%s-lower-%d", drv ? "driver" : "low-level", lk); obsf("%s-upper-%d", drv ? "driver" : "low-level", uk);
    }
    ok = run_create(&R[nr++], &C, drv, lk, uk);
    obs(drv ? "driver-runs" : "low-level-runs");
    if (! C.vmlmb) obsf("nlcg-rule-%u", C.use_opts && C.no.flags ? C.no.flags & 0xff : OPK_NLCG_DEFAULT & 0xff);
    else obs(! cfg_bounded(&C) ? "lbfgs" : C.use_opts && C.vo.blmvm ? "blmvm" : "vmlmb");
  }
  if (! C.use_opts) obs("default-options");
  if (ok) {
    texts(&R[0], &C, n0, d0);
    for (i = 1; i < nr; ++i) {
      view a = run_view(&R[0]), b = run_view(&R[i]);
      texts(&R[i], &C, n1, d1);
      if (strcmp(n0, n1) || strcmp(d0, d1)) viol("different-texts", "\"%s\" \"%s\" but \"%s\" \"%s\" for %s", n0, d0, n1, d1, R[i].what);
      if (! same_view(&a, &b)) viol("different-before-start", "different before the start: %s", R[i].what);
    }
    nstart = r_p(0.25) ? 2 : 1;
    for (s = 0; s < nstart && ok; ++s) {
      if (s > 0) { for (j = 0; j < C.n; ++j) C.x0[j] = cfg_round(&C, r_norm()*2); obs("restarted"); }
      for (i = 0; i < nr; ++i) t[i] = run_start(&R[i], &C, C.x0);
      maxev = (int)(r_p(0.1) ? r_int(1, 5) : r_int(5, 70));
      for (k = 0; k < maxev; ++k) {
        double xd[PMAXN], gd[PMAXN], f; long nv = h_nviol; int extra = 0;
        for (i = 1; i < nr; ++i) compare(&C, &R[0], &R[i], t[0], t[i], k);
        if (h_nviol > nv) { ok = 0; break; }
        obsf("task-%d", t[0]);
        if (t[0] != OPK_TASK_COMPUTE_FG && t[0] != OPK_TASK_NEW_X) {
          if (r_p(0.5)) break; /* else go on after the end */
          if (++extra > 2) break;
        }
        for (j = 0; j < C.n; ++j) xd[j] = el(&C, rx(&R[0]), j);
        f = prob_eval(&P, xd, gd);
        if (r_p(0.02)) { f = INFINITY; obs("infinite-values"); }
        for (j = 0; j < C.n; ++j) gd[j] = cfg_round(&C, gd[j]);
        for (i = 0; i < nr; ++i) t[i] = run_iterate(&R[i], &C, f, gd);
        nontrivial();
      }
      texts(&R[0], &C, n1, d1);
      if (strcmp(n0, n1) || strcmp(d0, d1)) viol("changed-texts", "\"%s\" \"%s\" after the run instead of \"%s\" \"%s\"", n1, d1, n0, d0);
    }
  }
  for (i = 0; i < nr; ++i) run_free(&R[i]);
  if (a_live != 0) { viol("leak", "%ld blocks not released", a_live); }
}
