/* custom.c -- extension points (C34): vector spaces, convex sets, line searches
 * and operators defined by the caller.
 *
 * The objects defined here delegate to built-in ones, hidden behind them, and
 * check on each call what the interface guarantees.  Runs with them are compared
 * to runs with the built-in objects; they are also made to fail. */
#include "optcommon.h"

/*---------------------------------------------------------------- vector space */
typedef struct { opk_vspace base; opk_vspace* in; long nvec, ncalls; int tag; double extra[3]; } cspace;
typedef struct { opk_vector base; opk_vector* in; long extra[2]; } cvector;
static long sp_final, sp_live, v_live, v_fail_at = -1, v_created;
static int n_ops[32]; static const char* ctx = "";
#define CALL(k, name) do { if (! n_ops[k]++) obs("method-" name); } while (0)
static opk_vspace* cur_space; /* the only custom space in use, or NULL */
static const cvector* chk(const opk_vspace* s, const opk_vector* v, const char* what) {
  if (s == NULL || (cur_space && s != cur_space)) viol("space", "%s: called with another space; %s", what, ctx);
  if (v == NULL || v->owner != s) { viol("owner", "%s: called with a vector which does not belong to the space; %s", what, ctx); HARNESS_BUG("foreign vector"); }
  if (opk_get_object_references((opk_object*)v) < 1) viol("dead", "%s: called with a vector which is not referenced; %s", what, ctx);
  return (const cvector*)v;
}
#define IN(v) (((const cvector*)chk(s, v, __func__))->in)
#define INS (((cspace*)s)->in)
static void s_finalize(opk_vspace* s) {
  cspace* c = (cspace*)s; CALL(0, "finalize_space");
  if (c->nvec != 0) viol("finalize-order", "space finalized while %ld of its vectors remain; %s", c->nvec, ctx);
  if (c->tag != 12345) viol("finalize-twice", "space finalized twice; %s", ctx);
  c->tag = 0; ++sp_final; --sp_live; OPK_DROP(c->in);
}
static opk_vector* s_create(opk_vspace* s) {
  cspace* c = (cspace*)s; cvector* v; CALL(1, "create");
  if (v_created++ == v_fail_at) { errno = ENOMEM; return NULL; }
  v = (cvector*)opk_allocate_vector(s, sizeof(cvector));
  if (v == NULL) return NULL;
  if (v->in != NULL || v->extra[0] || v->extra[1]) viol("zero-fill", "the members of a new vector are not null; %s", ctx);
  if (v->base.owner != s) viol("owner", "new vector without its space");
  v->extra[0] = 777; ++c->nvec; ++v_live;
  v->in = opk_vcreate(c->in); if (v->in == NULL) HARNESS_BUG("no inner vector");
  return &v->base;
}
static void s_finalize_vector(opk_vspace* s, opk_vector* x) {
  cvector* v = (cvector*)x; cspace* c = (cspace*)s; CALL(2, "finalize_vector");
  if (x->owner != s || c->tag != 12345) viol("finalize-vector", "vector finalized with another space or after its space; %s", ctx);
  if (v->extra[0] != 777) viol("finalize-vector", "vector finalized twice; %s", ctx);
  v->extra[0] = 0; --c->nvec; --v_live; OPK_DROP(v->in); v->in = NULL;
}
static void idx(const opk_vspace* s, opk_index k) { if (k < 0 || k >= s->size) viol("index", "element %ld of %ld; %s", (long)k, (long)s->size, ctx); }
static double s_peek(const opk_vspace* s, const opk_vector* v, opk_index k) { CALL(3, "peek"); idx(s, k); return INS->ops->peek(INS, IN(v), k); }
static void s_poke(const opk_vspace* s, opk_vector* v, opk_index k, double x) { CALL(4, "poke"); idx(s, k); INS->ops->poke(INS, IN(v), k, x); }
static void etype(const void* p, int t) { if (p == NULL || (t != OPK_FLOAT && t != OPK_DOUBLE)) viol("type", "type %d or null address; %s", t, ctx); }
static void s_import(const opk_vspace* s, opk_vector* v, const void* src, opk_eltype t) { CALL(5, "import"); etype(src, t); INS->ops->import(INS, IN(v), src, t); }
static void s_export(const opk_vspace* s, void* dst, opk_eltype t, const opk_vector* v) { CALL(6, "export"); etype(dst, t); INS->ops->export(INS, dst, t, IN(v)); }
static void s_fill(opk_vspace* s, opk_vector* v, double a) { CALL(7, "fill"); INS->ops->fill(INS, IN(v), a); }
static double s_norm1(opk_vspace* s, const opk_vector* v) { CALL(8, "norm1"); return INS->ops->norm1(INS, IN(v)); }
static double s_norm2(opk_vspace* s, const opk_vector* v) { CALL(9, "norm2"); return INS->ops->norm2(INS, IN(v)); }
static double s_norminf(opk_vspace* s, const opk_vector* v) { CALL(10, "norminf"); return INS->ops->norminf(INS, IN(v)); }
static double s_dot(opk_vspace* s, const opk_vector* x, const opk_vector* y) { CALL(11, "dot"); return INS->ops->dot(INS, IN(x), IN(y)); }
static double s_dot3(opk_vspace* s, const opk_vector* w, const opk_vector* x, const opk_vector* y) { CALL(12, "dot3"); return INS->ops->dot3(INS, IN(w), IN(x), IN(y)); }
static void s_copy(opk_vspace* s, opk_vector* d, const opk_vector* x) {
  CALL(13, "copy"); if (d == x) viol("same", "copy of a vector onto itself; %s", ctx); INS->ops->copy(INS, IN(d), IN(x)); }
static void s_swap(opk_vspace* s, opk_vector* x, opk_vector* y) {
  CALL(14, "swap"); if (x == y) viol("same", "exchange of a vector with itself; %s", ctx); INS->ops->swap(INS, IN(x), IN(y)); }
static void s_scale(opk_vspace* s, opk_vector* d, double a, const opk_vector* x) {
  CALL(15, "scale"); if (a == 0 || a == 1) viol("factor", "scaling by %g; %s", a, ctx); INS->ops->scale(INS, IN(d), a, IN(x)); }
static void s_product(opk_vspace* s, opk_vector* d, const opk_vector* x, const opk_vector* y) { CALL(16, "product"); INS->ops->product(INS, IN(d), IN(x), IN(y)); }
static void s_axpby(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y) {
  CALL(17, "axpby"); if (a == 0 || b == 0) viol("factor", "combination with null coefficients %g %g; %s", a, b, ctx);
  INS->ops->axpby(INS, IN(d), a, IN(x), b, IN(y)); }
static void s_axpbypcz(opk_vspace* s, opk_vector* d, double a, const opk_vector* x, double b, const opk_vector* y, double c, const opk_vector* z) {
  CALL(18, "axpbypcz"); if (a == 0 || b == 0 || c == 0) viol("factor", "combination with null coefficients %g %g %g; %s", a, b, c, ctx);
  INS->ops->axpbypcz(INS, IN(d), a, IN(x), b, IN(y), c, IN(z)); }
/* status to return instead at some call of the set or of the box operations */
static int set_fail_kind = -1; static long set_fail_at, set_calls[4]; static opk_status set_fail_status; static long set_failed; static int set_poison;
static int set_fails(int k) { if (set_calls[k]++ == set_fail_at && k == set_fail_kind) { ++set_failed; return 1; } return 0; }
static const void* side(opk_vspace* s, const void* p, int kind, const char* what) {
  if (kind == 0) { return NULL; }
  if (p == NULL) { viol("bound", "null %s bound of kind %d; %s", what, kind, ctx); HARNESS_BUG("null bound"); }
  return kind == 2 ? (const void*)IN((const opk_vector*)p) : p;
}
#define SIDES const void *l, *u; if (b < 0 || b > 8) { viol("bound", "bounds of kind %d; %s", b, ctx); return OPK_INVALID_ARGUMENT; } \
  l = side(s, xl, b%3, "lower"); u = side(s, xu, b/3, "upper")
static void orient(int o) { if (o != OPK_ASCENT && o != OPK_DESCENT) viol("orientation", "orientation %d; %s", o, ctx); }
static opk_status s_projvar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* xl, const void* xu, int b) {
  SIDES; CALL(19, "boxprojvar"); if (set_fails(0)) return set_fail_status; return INS->ops->boxprojvar(INS, IN(d), IN(x), l, u, b); }
static opk_status s_projdir(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* xl, const void* xu, int b, const opk_vector* p, opk_orientation o) {
  SIDES; CALL(20, "boxprojdir"); orient(o); if (set_fails(1)) return set_fail_status; return INS->ops->boxprojdir(INS, IN(d), IN(x), l, u, b, IN(p), o); }
static opk_status s_freevar(opk_vspace* s, opk_vector* d, const opk_vector* x, const void* xl, const void* xu, int b, const opk_vector* p, opk_orientation o) {
  SIDES; CALL(21, "boxfreevar"); orient(o); if (set_fails(2)) return set_fail_status; return INS->ops->boxfreevar(INS, IN(d), IN(x), l, u, b, IN(p), o); }
static opk_status s_steplim(opk_vspace* s, double* a1, double* a2, double* a3, const opk_vector* x, const void* xl, const void* xu, int b, const opk_vector* p, opk_orientation o) {
  SIDES; CALL(22, "boxsteplim"); orient(o);
  if (set_fails(3)) { if (set_poison) { if (a1) *a1 = NAN; if (a2) *a2 = NAN; if (a3) *a3 = NAN; } return set_fail_status; }
  return INS->ops->boxsteplim(INS, a1, a2, a3, IN(x), l, u, b, IN(p), o); }
static const opk_vspace_operations all_ops = { "custom", s_finalize, s_create, s_finalize_vector, s_peek, s_poke, s_import, s_export, s_fill, s_norm1, s_norm2,
  s_norminf, s_dot, s_dot3, s_copy, s_swap, s_scale, s_product, s_axpby, s_axpbypcz, s_projvar, s_projdir, s_freevar, s_steplim };
static opk_vspace* c_space(const opk_vspace_operations* ops, int single, long n) {
  cspace* c = (cspace*)opk_allocate_vector_space(ops, n, sizeof(cspace));
  if (c == NULL) HARNESS_BUG("no custom space");
  if (c->in || c->nvec || c->ncalls || c->tag || c->extra[0] != 0 || c->extra[2] != 0) viol("zero-fill", "the members of a new space are not null");
  if (c->base.size != n || c->base.ops != ops) viol("size", "new space of size %ld instead of %ld", (long)c->base.size, n);
  c->in = hv_space(single, n); c->tag = 12345; ++sp_live;
  return &c->base;
}

/*---------------------------------------------------------------- convex set */
/* Delegates to a box set, in the same space or in the hidden one. */
typedef struct { opk_convexset base; opk_convexset* in; int unwrap; long extra; } cset;
static long set_final;
static void x_finalize(opk_convexset* s) {
  cset* c = (cset*)s;
  if (c->extra != 99) viol("finalize-set", "set finalized twice");
  if (s->space == NULL || s->space->size < 1) viol("finalize-set", "set finalized without its space");
  c->extra = 0; ++set_final; OPK_DROP(c->in);
}
static const opk_vector* xin(const opk_convexset* s, const opk_vector* v) {
  if (s == NULL || v == NULL || v->owner != s->space) { viol("owner", "set operation on a vector of another space; %s", ctx); HARNESS_BUG("foreign vector"); }
  return ((cset*)s)->unwrap ? ((const cvector*)v)->in : v;
}
#define XI(v) ((opk_vector*)xin(set, v))
#define XS (((cset*)set)->in)
static opk_status x_projvar(opk_vector* d, const opk_vector* x, const opk_convexset* set) { obs("set-projvar"); if (set_fails(0)) return set_fail_status; return opk_project_variables(XI(d), XI(x), XS); }
static opk_status x_projdir(opk_vector* d, const opk_vector* x, const opk_convexset* set, const opk_vector* p, opk_orientation o) {
  obs("set-projdir"); orient(o); if (set_fails(1)) return set_fail_status; return opk_project_direction(XI(d), XI(x), XS, XI(p), o); }
static opk_status x_freevar(opk_vector* d, const opk_vector* x, const opk_convexset* set, const opk_vector* p, opk_orientation o) {
  obs("set-freevar"); orient(o); if (set_fails(2)) return set_fail_status; return opk_get_free_variables(XI(d), XI(x), XS, XI(p), o); }
static opk_status x_steplim(double* a, double* b, double* c, const opk_vector* x, const opk_convexset* set, const opk_vector* p, opk_orientation o) {
  obs("set-steplim"); orient(o);
  if (set_fails(3)) { if (set_poison) { if (a) *a = NAN; if (b) *b = NAN; if (c) *c = NAN; } return set_fail_status; }
  return opk_get_step_limits(a, b, c, XI(x), XS, XI(p), o); }
static opk_convexset* c_set(opk_vspace* space, opk_convexset* in, int unwrap, int mask) {
  cset* c = (cset*)opk_allocate_convexset(space, x_finalize, (mask & 1) ? x_projvar : NULL, (mask & 2) ? x_projdir : NULL,
    (mask & 4) ? x_freevar : NULL, (mask & 8) ? x_steplim : NULL, sizeof(cset));
  if (c == NULL) HARNESS_BUG("no custom set");
  if (c->in || c->unwrap || c->extra) viol("zero-fill", "the members of a new set are not null");
  c->in = in; c->unwrap = unwrap; c->extra = 99;
  return &c->base;
}

/*---------------------------------------------------------------- line search */
typedef struct { opk_lnsrch base; opk_lnsrch* in; long extra; int mode, left, end; opk_status st; double last; } clnsrch;
static long ls_final, ls_resets, ls_starts; static double ls_f; static int ls_run_started; /* value given for the next iteration */
static void l_finalize(opk_lnsrch* s) { clnsrch* c = (clnsrch*)s; if (c->extra != 55) viol("finalize-search", "line search finalized twice"); c->extra = 0; ++ls_final; if (c->in) OPK_DROP(c->in); }
static void l_reset(opk_lnsrch* s) { ++ls_resets; obs("search-resets"); if (((clnsrch*)s)->in) opk__reset_lnsrch(((clnsrch*)s)->in); }
static void l_limits(opk_lnsrch* s, const char* w) {
  if (!(s->stpmin >= 0) || !(s->stp >= s->stpmin) || !(s->stp <= s->stpmax)) viol("search-limits", "%s: step %g, limits %g and %g; %s", w, s->stp, s->stpmin, s->stpmax, ctx);
  if (!(s->ginit < 0)) viol("search-slope", "%s: initial slope %g; %s", w, s->ginit, ctx);
}
static opk_lnsrch_task l_start(opk_lnsrch* s) {
  clnsrch* c = (clnsrch*)s; opk_lnsrch_task t = OPK_LNSRCH_SEARCH;
  obs("search-starts"); ++ls_starts;
  /* (Non-finite values are passed on to the built-in object.) */
  if (! isnan(s->ginit) && ! isnan(s->stp) && ! isnan(s->stpmin) && ! isnan(s->stpmax)) l_limits(s, "start");
  if (c->mode && ! same_val(s->finit, ls_f)) viol("search-value", "search started with the value %.17g instead of %.17g; %s", s->finit, ls_f, ctx);
  if (c->in) { t = opk_lnsrch_start(c->in, s->finit, s->ginit, s->stp, s->stpmin, s->stpmax); s->status = opk_lnsrch_get_status(c->in); }
  else s->status = OPK_SUCCESS;
  s->task = t; c->last = s->stp;
  if (c->mode == 2) { c->left = (int)r_int(0, 3); c->end = (int)r_int(0, 9); c->st = (opk_status)r_int(1, 28); }
  return t;
}
static int scr_task; static opk_status scr_status; static double scr_step; static int scr_done;
static opk_lnsrch_task l_iterate(opk_lnsrch* s, double* stp, double f, double df) {
  clnsrch* c = (clnsrch*)s; opk_lnsrch_task t;
  obs("search-iterations");
  if (stp == NULL) { viol("search-step", "null address of the step; %s", ctx); HARNESS_BUG("null step"); }
  if (! same_val(*stp, s->stp) || ! same_val(*stp, c->last)) viol("search-step", "step %.17g given, %.17g recorded, %.17g expected; %s", *stp, s->stp, c->last, ctx);
  if (c->mode && ! same_val(f, ls_f)) viol("search-value", "value %.17g given instead of %.17g; %s", f, ls_f, ctx);
  if (c->in) { double x = *stp; t = opk_lnsrch_iterate(c->in, &x, f, df); s->status = opk_lnsrch_get_status(c->in); *stp = x; c->last = fmax(fmin(x, s->stpmax), s->stpmin); if (isnan(x)) c->last = x; return t; }
  /* Scripted. */
  if (c->left-- > 0) {
    /* another step, perhaps beyond the limits, never one which would be refused because it is at a limit twice */
    double q = s->stp*r_logu(0.05, 1.5);
    if (!(q > s->stpmin) || !(q < s->stpmax) || ! isfinite(q)) q = s->stp;
    if (s->stp > s->stpmin && s->stp < s->stpmax && r_p(0.05)) { q = r_bool() ? s->stpmin/2 : s->stpmax*2; obs("search-clipped"); }
    *stp = q; c->last = fmax(fmin(q, s->stpmax), s->stpmin); s->status = OPK_SUCCESS; scr_step = c->last;
    if (s->stp <= s->stpmin || s->stp >= s->stpmax) { c->left = 0; }
    else return OPK_LNSRCH_SEARCH;
    *stp = s->stp; c->last = s->stp;
  }
  scr_done = 1; scr_step = s->stp;
  if (c->end < 7) { scr_task = OPK_LNSRCH_CONVERGENCE; scr_status = OPK_SUCCESS; }
  else if (c->end == 7) { scr_task = OPK_LNSRCH_WARNING; scr_status = OPK_ROUNDING_ERRORS_PREVENT_PROGRESS; }
  else if (c->end == 8) { scr_task = OPK_LNSRCH_WARNING; scr_status = c->st; }
  else { scr_task = OPK_LNSRCH_ERROR; scr_status = c->st; }
  s->status = scr_status;
  return (opk_lnsrch_task)scr_task;
}
static opk_lnsrch_operations ls_ops_d = { l_finalize, l_start, l_iterate, TRUE, l_reset };
static opk_lnsrch_operations ls_ops_f = { l_finalize, l_start, l_iterate, FALSE, l_reset };
static opk_lnsrch_operations ls_ops_nr = { l_finalize, l_start, l_iterate, FALSE, NULL };
static opk_lnsrch* c_lnsrch(opk_lnsrch_operations* ops, opk_lnsrch* in, int mode) {
  clnsrch* c = (clnsrch*)opk_allocate_line_search(ops, sizeof(clnsrch));
  if (c == NULL) HARNESS_BUG("no custom line search");
  if (c->in || c->extra || c->mode || c->left || c->last != 0) viol("zero-fill", "the members of a new line search are not null");
  if (opk_lnsrch_get_task(&c->base) == OPK_LNSRCH_SEARCH || opk_lnsrch_get_status(&c->base) != OPK_NOT_STARTED) viol("new-search", "a new line search is started");
  if (! opk_lnsrch_use_deriv(&c->base) != ! ops->use_deriv) viol("use-deriv", "answer about the use of derivatives");
  c->in = in; c->mode = mode; c->extra = 55;
  return &c->base;
}

/*---------------------------------------------------------------- operators */
typedef struct { opk_operator base; long extra; } coper;
static long op_final; static int op_called; static opk_operator* op_self; static opk_vector* op_dst; static const opk_vector* op_src; static opk_status op_ret;
static void o_finalize(opk_operator* o) { if (((coper*)o)->extra != 33 || o->inpspace == NULL || o->outspace == NULL) viol("finalize-operator", "operator finalized twice or without its spaces"); ((coper*)o)->extra = 0; ++op_final; }
#define OAPP(k) { op_called = op_called*10 + k; op_self = self; op_dst = dst; op_src = src; return op_ret; }
static opk_status o_direct(opk_operator* self, opk_vector* dst, const opk_vector* src) OAPP(1)
static opk_status o_adjoint(opk_operator* self, opk_vector* dst, const opk_vector* src) OAPP(2)
static opk_status o_inverse(opk_operator* self, opk_vector* dst, const opk_vector* src) OAPP(3)

/*---------------------------------------------------------------- cases */
static int random_status(void) { int s; do { s = (int)r_int(1, 28); } while (s == OPK_SUCCESS); return s; }
static void begin(void) {
  sp_final = sp_live = v_live = v_created = 0; v_fail_at = -1; set_fail_kind = -1; set_fail_at = -1; set_failed = 0; set_final = ls_final = op_final = 0;
  memset(set_calls, 0, sizeof(set_calls)); ls_resets = ls_starts = 0; cur_space = NULL; ctx = ""; set_poison = r_bool(); scr_done = 0;
}
static void end(const char* what) {
  if (v_live != 0) viol("vectors", "%ld vectors not finalized after %s; %s", v_live, what, ctx);
  if (sp_live != 0) viol("spaces", "%ld spaces not finalized after %s; %s", sp_live, what, ctx);
  if (a_live != 0) viol("leak", "%ld blocks remain after %s; %s", a_live, what, ctx);
}
/* Vector operations, on a custom space and on a built-in one. */
static void c_vectors(void) {
  int single = r_bool(), i, k, t; long n = r_int(1, 9); opk_vspace_operations ops = all_ops; opk_vspace *s, *q; opk_vector *v[4]; hvec h[4];
  int noimp = r_p(0.3), noexp = r_p(0.3); double buf[16]; float fbuf[16];
  if (noimp) ops.import = NULL;
  if (noexp) ops.export = NULL;
  s = c_space(&ops, single, n); cur_space = s; q = hv_space(single, n);
  for (i = 0; i < 4; ++i) { v[i] = opk_vcreate(s); h[i] = hv_new(q, single, n, 0); if (v[i] == NULL) HARNESS_BUG("no custom vector");
    for (k = 0; k < n; ++k) { double z = r_norm(); if (opk_vpoke(v[i], k, z) != OPK_SUCCESS || opk_vpoke(h[i].v, k, z) != OPK_SUCCESS) viol("poke", "poke refused"); } }
  if (opk_get_object_references((opk_object*)s) != 5) viol("references", "%ld references on a space of 4 vectors", (long)opk_get_object_references((opk_object*)s));
  for (t = 0; t < 12; ++t) {
    int a = (int)r_int(0, 3), b = (int)r_int(0, 3), c = (int)r_int(0, 3), d = (int)r_int(0, 3), op = (int)r_int(0, 17), w = 0;
    static const double ct[] = { 0, 1, -1, 2, -0.5, 0, 1, 0.3 }; double x = ct[r_int(0, 7)], y = ct[r_int(0, 7)], z = ct[r_int(0, 7)], r1 = 0, r2 = 0, p1 = 0, p2 = 0; opk_index at = r_int(0, n - 1);
    switch (op) {
    case 0: opk_vzero(v[a]); opk_vzero(h[a].v); break;
    case 1: opk_vfill(v[a], x); opk_vfill(h[a].v, x); break;
    case 2: opk_vcopy(v[a], v[b]); opk_vcopy(h[a].v, h[b].v); break;
    case 3: opk_vscale(v[a], x, v[b]); opk_vscale(h[a].v, x, h[b].v); break;
    case 4: opk_vswap(v[a], v[b]); opk_vswap(h[a].v, h[b].v); break;
    case 5: r1 = opk_vdot(v[a], v[b]); r2 = opk_vdot(h[a].v, h[b].v); break;
    case 6: r1 = opk_vdot3(v[a], v[b], v[c]); r2 = opk_vdot3(h[a].v, h[b].v, h[c].v); break;
    case 7: r1 = opk_vnorm2(v[a]); r2 = opk_vnorm2(h[a].v); break;
    case 8: r1 = opk_vnorm1(v[a]); r2 = opk_vnorm1(h[a].v); break;
    case 9: r1 = opk_vnorminf(v[a]); r2 = opk_vnorminf(h[a].v); break;
    case 10: opk_vproduct(v[a], v[b], v[c]); opk_vproduct(h[a].v, h[b].v, h[c].v); break;
    case 11: case 12: opk_vaxpby(v[a], x, v[b], y, v[c]); opk_vaxpby(h[a].v, x, h[b].v, y, h[c].v); break;
    case 13: case 14: opk_vaxpbypcz(v[a], x, v[b], y, v[c], z, v[d]); opk_vaxpbypcz(h[a].v, x, h[b].v, y, h[c].v, z, h[d].v); break;
    case 15: w = r_bool(); for (k = 0; k < n; ++k) { buf[k] = r_norm(); fbuf[k] = (float)buf[k]; }
      { int st = opk_vimport(v[a], w ? (void*)buf : (void*)fbuf, w ? OPK_DOUBLE : OPK_FLOAT, n);
        if (st != (noimp ? OPK_NOT_IMPLEMENTED : OPK_SUCCESS)) viol("import", "import: status %d, method %s", st, noimp ? "missing" : "there");
        if (! noimp) opk_vimport(h[a].v, w ? (void*)buf : (void*)fbuf, w ? OPK_DOUBLE : OPK_FLOAT, n);
        obsf("import-%d", st); }
      break;
    case 16: w = r_bool(); for (k = 0; k < n; ++k) buf[k] = fbuf[k] = 1234;
      { int st = opk_vexport(w ? (void*)buf : (void*)fbuf, w ? OPK_DOUBLE : OPK_FLOAT, n, v[a]);
        if (st != (noexp ? OPK_NOT_IMPLEMENTED : OPK_SUCCESS)) viol("export", "export: status %d, method %s", st, noexp ? "missing" : "there");
        for (k = 0; k < n; ++k) { double e = noexp ? 1234 : w ? hv_get(&h[a], k) : (double)(float)hv_get(&h[a], k), g = w ? buf[k] : (double)fbuf[k]; if (! same_bits(e, g)) viol("export", "element %d: %g instead of %g", k, g, e); }
        obsf("export-%d", st); }
      break;
    default: if (opk_vpeek(v[a], at, &p1) != OPK_SUCCESS || opk_vpeek(h[a].v, at, &p2) != OPK_SUCCESS) viol("peek", "peek refused"); r1 = p1; r2 = p2; break;
    }
    if (! same_bits(r1, r2)) viol("result", "operation %d: %.17g instead of %.17g", op, r1, r2);
    for (i = 0; i < 4; ++i) for (k = 0; k < n; ++k) { opk_vpeek(v[i], k, &p1); if (! same_bits(p1, hv_get(&h[i], k))) { viol("values", "operation %d on vectors %d %d %d %d with %g %g %g: vector %d differs", op, a, b, c, d, x, y, z, i); goto out; } }
    obs("vector-operations"); hash_l(op*64 + a*16 + b*4 + c);
  }
  { char *p1 = NULL, *p2 = NULL; size_t l1 = 0, l2 = 0; FILE *f1 = open_memstream(&p1, &l1), *f2 = open_memstream(&p2, &l2); opk_index m = r_int(-1, n + 1); const char* nm = r_bool() ? "x" : NULL;
    opk_vprint(f1, nm, v[0], m); opk_vprint(f2, nm, h[0].v, m); fclose(f1); fclose(f2);
    if (l1 != l2 || strcmp(p1, p2)) viol("print", "prints %s instead of %s", p1, p2);
    free(p1); free(p2); }
 out:
  for (i = 0; i < 4; ++i) hv_free(&h[i]);
  OPK_DROP(q);
  if (r_bool()) { OPK_DROP(s); if (sp_final) viol("finalize-order", "space finalized before its vectors"); for (i = 0; i < 4; ++i) OPK_DROP(v[i]); }
  else { for (i = 0; i < 4; ++i) OPK_DROP(v[i]); if (sp_final || v_live) viol("finalize-order", "vectors not finalized when dropped, or space finalized while referenced"); OPK_DROP(s); }
  if (sp_final != 1) viol("finalize-order", "space finalized %ld times", sp_final);
  end("operations on vectors"); nontrivial();
}
static void c_operators(void) {
  opk_operator_operations ops; int t, mask = (int)r_int(0, 7), fin = r_bool(); long m = r_int(1, 4), n = r_int(1, 4); coper* o;
  opk_vspace *si = r_bool() ? c_space(&all_ops, r_bool(), n) : hv_space(r_bool(), n), *so = r_p(0.2) ? NULL : r_bool() ? c_space(&all_ops, r_bool(), m) : hv_space(r_bool(), m);
  opk_vector *a, *b, *c; opk_vspace* sx = hv_space(0, 2);
  memset(&ops, 0, sizeof(ops)); if (fin) ops.finalize = o_finalize;
  if (mask & 1) ops.apply_direct = o_direct;
  if (mask & 2) ops.apply_adjoint = o_adjoint;
  if (mask & 4) ops.apply_inverse = o_inverse;
  if (so == NULL) so = (opk_vspace*)opk_hold_object((opk_object*)si);
  a = opk_vcreate(si); b = opk_vcreate(so); c = opk_vcreate(sx);
  o = (coper*)opk_allocate_operator(&ops, si, so, sizeof(coper));
  if (o == NULL) HARNESS_BUG("no operator");
  if (o->extra) viol("zero-fill", "the members of a new operator are not null");
  o->extra = 33; OPK_DROP(sx);
  if (r_bool()) { OPK_DROP(si); OPK_DROP(so); si = so = NULL; }
  for (t = 0; t < 6; ++t) {
    int w = (int)r_int(1, 3), have = (mask >> (w - 1)) & 1, bad = r_p(0.3), want, got; opk_vector *d = w == 1 ? b : a, *s = w == 1 ? a : b;
    if (bad) { if (r_bool()) d = c; else s = c; }
    op_called = 0; op_ret = (opk_status)(r_bool() ? OPK_SUCCESS : random_status());
    want = bad ? OPK_BAD_SPACE : ! have ? OPK_NOT_IMPLEMENTED : op_ret;
    got = w == 1 ? opk_apply_direct(&o->base, d, s) : w == 2 ? opk_apply_adjoint(&o->base, d, s) : opk_apply_inverse(&o->base, d, s);
    if (got != want) viol("operator-status", "application %d: status %d instead of %d (methods %d, %s space)", w, got, want, mask, bad ? "bad" : "good");
    if (bad || ! have) { if (op_called) viol("operator-called", "application %d: method called (methods %d, %s space)", w, mask, bad ? "bad" : "good"); obs("operator-refused"); }
    else { if (op_called != w || op_self != &o->base || op_dst != d || op_src != s) viol("operator-called", "application %d: methods called: %d, or other arguments", w, op_called); obsf("operator-applied-%d", w); }
  }
  OPK_DROP(a); OPK_DROP(b); OPK_DROP(c); OPK_DROP(o);
  if (op_final != fin) viol("finalize-operator", "operator finalized %ld times", op_final);
  if (si) { OPK_DROP(si); OPK_DROP(so); }
  end("applications of an operator"); hash_l(mask); nontrivial();
}
static void c_sets(void) { /* dispatch of the operations of a set */
  int single = r_bool(), mask = (int)r_int(0, 15), t, k; long n = r_int(1, 6); opk_vspace *s, *q = NULL; opk_convexset *in, *set; opk_vector *v[3]; double lo = -0.5, up = 0.7; int kind = (int)r_int(0, 2);
  /* 0: custom set; 1: box set of a custom space, 2: the same without all the methods */
  opk_vspace_operations ops = all_ops;
  if (kind == 1) mask = 15;
  if (kind == 2) { if (!(mask & 1)) ops.boxprojvar = NULL; if (!(mask & 2)) ops.boxprojdir = NULL; if (!(mask & 4)) ops.boxfreevar = NULL; if (!(mask & 8)) ops.boxsteplim = NULL; }
  s = c_space(&ops, single, n); cur_space = s;
  if (kind == 0) { in = opk_new_boxset(((cspace*)s)->in, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &up); set = c_set(s, in, 1, mask); }
  else set = opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, &lo, OPK_BOUND_SCALAR_DOUBLE, &up);
  if (set == NULL) HARNESS_BUG("no set");
  for (k = 0; k < 3; ++k) v[k] = opk_vcreate(s);
  if (! opk_can_project_variables(set) != !(mask & 1) || ! opk_can_project_directions(set) != !(mask & 2) || ! opk_can_get_free_variables(set) != !(mask & 4) || ! opk_can_get_step_limits(set) != !(mask & 8))
    viol("can", "answers about the operations of a set which has %d (kind %d)", mask, kind);
  (void)q;
  for (t = 0; t < 6; ++t) {
    int op = (int)r_int(0, 3), have = (mask >> op) & 1, want, got; long before[4]; double l1 = -7, l2 = -7, l3 = -7, x, xd[8], dd[8]; opk_orientation o = r_bool() ? OPK_ASCENT : OPK_DESCENT; int fail = r_p(0.3);
    for (k = 0; k < n; ++k) { int e = (int)r_int(0, 3); xd[k] = cfg_round(&(config){ .single = single }, e == 0 ? (op == 0 ? -2 : lo) : e == 1 ? up : r_range(lo, up)); dd[k] = cfg_round(&(config){ .single = single }, r_p(0.2) ? 0 : r_norm()); opk_vpoke(v[1], k, xd[k]); opk_vpoke(v[2], k, dd[k]); opk_vpoke(v[0], k, 55); }
    if (single) for (k = 0; k < n; ++k) if (xd[k] > up) xd[k] = up;
    set_fail_kind = fail ? op : -1; set_fail_status = (opk_status)random_status(); memcpy(before, set_calls, sizeof(before)); set_fail_at = set_calls[op];
    want = ! have ? OPK_NOT_IMPLEMENTED : fail ? set_fail_status : OPK_SUCCESS;
    got = op == 0 ? opk_project_variables(v[0], v[1], set) : op == 1 ? opk_project_direction(v[0], v[1], set, v[2], o) : op == 2 ? opk_get_free_variables(v[0], v[1], set, v[2], o) : opk_get_step_limits(&l1, &l2, &l3, v[1], set, v[2], o);
    if (got != want) viol("set-status", "operation %d: status %d instead of %d (methods %d, kind %d)", op, got, want, mask, kind);
    for (k = 0; k < 4; ++k) if (set_calls[k] - before[k] != (k == op && have)) viol("set-called", "operation %d: method %d called %ld times (methods %d, kind %d)", op, k, set_calls[k] - before[k], mask, kind);
    if (want != OPK_SUCCESS) { obs("set-refused"); for (k = 0; k < n && op < 3; ++k) { opk_vpeek(v[0], k, &x); if (x != 55) viol("set-output", "operation %d failed and its output is written", op); } }
    else if (op < 3) for (k = 0; k < n; ++k) {
      double bl = single ? (double)(float)lo : lo, bu = single ? (double)(float)up : up, e, y = o == OPK_ASCENT ? -dd[k] : dd[k]; double xk; opk_vpeek(v[1], k, &xk);
      e = op == 0 ? dmin(dmax(xk, bl), bu) : ((xk <= bl && y < 0) || (xk >= bu && y > 0) || (op == 2 && dd[k] == 0)) ? 0 : op == 1 ? dd[k] : 1;
      opk_vpeek(v[0], k, &x);
      if (x != e && ! (single && fabs(x - e) < 1e-6)) viol("set-values", "operation %d: element %d is %g instead of %g (kind %d)", op, k, x, e, kind);
      obs("set-values"); }
    else { if (l1 == -7 || l2 == -7 || l3 == -7) viol("set-values", "limits not written"); obs("set-values"); }
  }
  for (k = 0; k < 3; ++k) OPK_DROP(v[k]);
  if (r_bool()) { OPK_DROP(s); if (sp_final) viol("finalize-order", "space finalized before a set"); OPK_DROP(set); } else { OPK_DROP(set); OPK_DROP(s); }
  if (kind == 0 && set_final != 1) viol("finalize-set", "set finalized %ld times", set_final);
  end("operations on a set"); hash_l(mask + 16*kind); nontrivial();
}
/* An optimizer. */
typedef struct { int kind; opk_vspace* s; opk_convexset* box; opk_lnsrch* ls; opk_vector *bl, *bu, *x, *g; lowopt O; } crun;
static opk_vector* bvec(opk_vspace* s, int kind, const double* d, long n) { long i; opk_vector* v; if (kind != OPK_BOUND_VECTOR) return NULL; v = opk_vcreate(s); if (v) for (i = 0; i < n; ++i) opk_vpoke(v, i, d[i]); return v; }
static void* baddr(config* C, int up, opk_vector* v) { int k = up ? C->uk : C->lk; if (k == 0) return NULL; if (k == OPK_BOUND_VECTOR) return v; if (k & 1) return up ? C->fu : C->fl; return up ? C->du : C->dl; }
/* how&1: custom space; how&2: custom line search; how&4: custom set */
static void crun_new(crun* R, config* C, int how, int lsmode, int mask) {
  opk_vspace* bs; int single = C->single; long n = C->n; opk_convexset* b = NULL;
  memset(R, 0, sizeof(*R));
  R->s = (how & 1) ? c_space(&all_ops, single, n) : hv_space(single, n);
  if (how & 1) cur_space = R->s;
  if (cfg_bounded(C)) {
    int unwrap = (how & 5) == 5; bs = unwrap ? ((cspace*)R->s)->in : R->s;
    R->bl = bvec(bs, C->lk, C->dl, n); R->bu = bvec(bs, C->uk, C->du, n);
    b = opk_new_boxset(bs, (opk_bound_type)C->lk, baddr(C, 0, R->bl), (opk_bound_type)C->uk, baddr(C, 1, R->bu));
    if (b == NULL) HARNESS_BUG("no box");
    if (how & 4) b = c_set(R->s, b, unwrap, mask);
    if (R->bl) { OPK_DROP(R->bl); }
    if (R->bu) { OPK_DROP(R->bu); }
    R->box = b;
  }
  if (lsmode == 2) { opk_lnsrch_operations* o = r_bool() ? &ls_ops_d : r_bool() ? &ls_ops_f : &ls_ops_nr; R->ls = c_lnsrch(o, NULL, 2); }
  else { R->ls = cfg_lnsrch(C); if (R->ls && (how & 2)) R->ls = c_lnsrch(opk_lnsrch_use_deriv(R->ls) ? &ls_ops_d : &ls_ops_f, R->ls, 1); }
  R->O.vmlmb = C->vmlmb;
  if (C->vmlmb) R->O.v = opk_new_vmlmb_optimizer(C->use_opts ? &C->vo : NULL, R->s, R->ls, R->box);
  else R->O.c = opk_new_nlcg_optimizer(C->use_opts ? &C->no : NULL, R->s, R->ls);
}
static void crun_vectors(crun* R, config* C) { long i; R->x = opk_vcreate(R->s); R->g = opk_vcreate(R->s); for (i = 0; i < C->n; ++i) { opk_vpoke(R->x, i, C->x0[i]); opk_vpoke(R->g, i, 0); } }
static void crun_free(crun* R, int order) {
  int k; for (k = 0; k < 6; ++k) switch ((k + order)%6) {
  case 0: if (R->O.v) OPK_DROP(R->O.v); if (R->O.c) OPK_DROP(R->O.c); break;
  case 1: if (R->ls) OPK_DROP(R->ls); break; case 2: if (R->box) OPK_DROP(R->box); break;
  case 3: if (R->x) OPK_DROP(R->x); break; case 4: if (R->g) OPK_DROP(R->g); break; default: OPK_DROP(R->s); break; }
}
static double crun_eval(crun* R, problem* P, int how) {
  double xd[PMAXN], gd[PMAXN], f; long i, n = P->n;
  if (how) opk_vexport(xd, OPK_DOUBLE, n, R->x); else for (i = 0; i < n; ++i) opk_vpeek(R->x, i, &xd[i]);
  f = prob_eval(P, xd, gd);
  if (how) opk_vimport(R->g, gd, OPK_DOUBLE, n); else for (i = 0; i < n; ++i) opk_vpoke(R->g, i, gd[i]);
  ls_f = f; return f;
}
static char cfgt[400];
static void cfg_make(config* C, problem* P, int flags) {
  cfg_random(C, flags); if (C->n > 12) C->n = 12;
  if (C->ls == LS_DEFAULT && r_bool()) { C->ls = LS_NONMONOTONE; C->lm = r_int(1, 6); }
  prob_make(P, (int)r_int(0, PK_COUNT - 1), C->n, r_logu(1, 1e4), r_logu(0.1, 10)); cfg_describe(C, cfgt, sizeof(cfgt)); ctx = cfgt;
}
static void c_twin(void) { /* the same run with built-in and custom objects */
  config C; problem P, P2; crun A, B; int how, k, e, runs = r_p(0.2) ? 2 : 1, run, order = (int)r_int(0, 5); long steps = 0, lim = r_int(3, 60), i;
  cfg_make(&C, &P, 0); P2 = P;
  do { how = (int)r_int(1, 7); if (! cfg_bounded(&C)) how &= 3; } while (how == 0);
  crun_new(&A, &C, 0, 0, 15); crun_new(&B, &C, how, 0, 15);
  if (! (A.O.v || A.O.c) || ! (B.O.v || B.O.c)) { viol("refused", "optimizer refused with custom objects (%d); %s", how, ctx); goto out; }
  crun_vectors(&A, &C); crun_vectors(&B, &C);
  if (r_bool()) { if (B.box) OPK_DROP(B.box); if (B.ls) OPK_DROP(B.ls); B.box = NULL; B.ls = NULL; } /* the optimizer holds them */
  for (run = 0; run < runs; ++run) {
    opk_task ta, tb; long r0 = ls_resets; double fa = 0, fb = 0;
    set_fail_kind = -1;
    ta = low_start(&A.O, A.x); tb = low_start(&B.O, B.x);
    if ((how & 2) && C.ls != LS_DEFAULT && ls_resets == r0) viol("no-reset", "line search not reset when the optimizer is started; %s", ctx);
    for (k = 0; k < lim; ++k) {
      double xa, xb;
      if (ta != tb) { viol("twin", "task %d instead of %d at step %d of run %d with custom objects %d; %s", tb, ta, k, run, how, ctx); goto out; }
      for (i = 0; i < C.n; ++i) { opk_vpeek(A.x, i, &xa); opk_vpeek(B.x, i, &xb); if (! same_bits(xa, xb)) { viol("twin", "variable %ld is %.17g instead of %.17g at step %d of run %d with custom objects %d; %s", i, xb, xa, k, run, how, ctx); goto out; } }
      if (low_status(&A.O) != low_status(&B.O) || low_evals(&A.O) != low_evals(&B.O) || low_iters(&A.O) != low_iters(&B.O) || low_restarts(&A.O) != low_restarts(&B.O)
          || ! same_val(low_step(&A.O), low_step(&B.O)) || ! same_val(low_gnorm(&A.O), low_gnorm(&B.O))) { viol("twin", "status, counters, step or norm differ at step %d of run %d with custom objects %d; %s", k, run, how, ctx); goto out; }
      ++steps; obs("twin-steps");
      if (ta == OPK_TASK_COMPUTE_FG) { e = r_bool(); fa = crun_eval(&A, &P, e); fb = crun_eval(&B, &P2, e); }
      else if (ta != OPK_TASK_NEW_X && ! (ta == OPK_TASK_FINAL_X && r_p(0.3))) { obsf("twin-end-%d", ta); break; }
      ta = low_iterate(&A.O, A.x, fa, A.g); tb = low_iterate(&B.O, B.x, fb, B.g);
    }
    for (i = 0; i < C.n; ++i) { double z = cfg_round(&C, r_norm()); opk_vpoke(A.x, i, z); opk_vpoke(B.x, i, z); }
  }
  obsf("twin-%s-%d", C.vmlmb ? cfg_bounded(&C) ? C.vo.blmvm && C.use_opts ? "blmvm" : "vmlmb" : "lbfgs" : "nlcg", how);
  if (steps > 3) nontrivial();
  hash_l(how); hash_bytes(cfgt, strlen(cfgt));
  { char b1[200], b2[200]; size_t l1, l2; b1[0] = b2[0] = 0;
    if (C.vmlmb) { l1 = opk_get_vmlmb_description(b1, sizeof(b1), A.O.v); l2 = opk_get_vmlmb_description(b2, sizeof(b2), B.O.v); }
    else { l1 = opk_get_nlcg_description(b1, sizeof(b1), A.O.c); l2 = opk_get_nlcg_description(b2, sizeof(b2), B.O.c); }
    if (l1 != l2 || strcmp(b1, b2)) viol("description", "described as %s instead of %s", b2, b1); }
 out:
  crun_free(&A, 0); crun_free(&B, order); end("a run with custom objects");
}
static void c_failing(void) { /* operations of the set which are missing or fail */
  config C; problem P; crun R; int how, kind = (int)r_int(0, 3), missing = r_p(0.3), k; opk_task t; long at = r_p(0.3) ? 0 : r_int(0, 12); double f = 0, x0[PMAXN]; long i;
  cfg_make(&C, &P, CF_BOUND); how = missing || r_bool() ? (int)r_int(2, 3) + 2 + (r_bool() ? 2 : 0) : 1;
  if (how != 1) how = 4 | (how & 3);
  crun_new(&R, &C, how, 0, missing ? 15 & ~(1 << kind) : 15);
  if (! R.O.v) { viol("refused", "optimizer refused; %s", ctx); goto out; }
  crun_vectors(&R, &C);
  set_fail_kind = missing ? -1 : kind; set_fail_at = at; set_fail_status = (opk_status)random_status();
  t = low_start(&R.O, R.x);
  for (k = 0; k < 40; ++k) {
    long nf = set_failed; opk_status s = low_status(&R.O);
    if (nf && ! missing) {
      if (t != OPK_TASK_ERROR || s != set_fail_status) viol("set-failure", "operation %d of the set failed with status %d: task %d, status %d; %s", kind, set_fail_status, t, s, ctx);
      obsf("set-failure-%d", kind);
      for (i = 0; i < C.n; ++i) opk_vpeek(R.x, i, &x0[i]);
      if (low_iterate(&R.O, R.x, f, R.g) != OPK_TASK_ERROR || low_status(&R.O) != s) viol("set-failure", "the optimizer does not remain in error; %s", ctx);
      /* the failure is over: the optimizer can be started again */
      if (low_start(&R.O, R.x) != OPK_TASK_COMPUTE_FG || low_status(&R.O) != OPK_SUCCESS) viol("set-restart", "the optimizer cannot be started again after operation %d of the set failed; %s", kind, ctx);
      break;
    }
    if (t == OPK_TASK_ERROR) {
      if (missing && s == OPK_NOT_IMPLEMENTED) obsf("set-missing-%d", kind);
      break;
    }
    if (missing && (kind == 0 || (kind == 2 && k > 1 && t != OPK_TASK_COMPUTE_FG) || (kind == 3 && low_evals(&R.O) > 1)))
      viol("set-missing", "the optimizer goes on with a set without operation %d (step %d, task %d); %s", kind, k, t, ctx);
    if (t == OPK_TASK_COMPUTE_FG) f = crun_eval(&R, &P, 0);
    else if (t != OPK_TASK_NEW_X) break;
    t = low_iterate(&R.O, R.x, f, R.g);
  }
  set_fail_kind = -1; nontrivial(); hash_l(kind*2 + missing); hash_bytes(cfgt, strlen(cfgt));
 out:
  crun_free(&R, (int)r_int(0, 5)); end("a run with a failing set");
}
static void c_script(void) { /* line searches whose steps and outcomes are arbitrary */
  config C; problem P; crun R; int k; opk_task t; double f = 0; long i, it, n;
  cfg_make(&C, &P, 0); if (P.kind == PK_EXP || P.kind == PK_ROSEN || P.kind == PK_QUARTIC) P.kind = PK_COS; n = C.n;
  crun_new(&R, &C, (int)r_int(0, 1), 2, 15);
  if (! R.O.v && ! R.O.c) { viol("refused", "optimizer refused; %s", ctx); goto out; }
  crun_vectors(&R, &C);
  { long r0 = ls_resets; int nr = ((clnsrch*)R.ls)->base.ops->reset == NULL; t = low_start(&R.O, R.x); if (! nr && ls_resets == r0) viol("no-reset", "line search not reset when the optimizer is started; %s", ctx); }
  for (k = 0; k < 40 && (t == OPK_TASK_COMPUTE_FG || t == OPK_TASK_NEW_X); ++k) {
    clnsrch* c = (clnsrch*)R.ls; double before[PMAXN], after[PMAXN]; opk_task was = t; int inls = low_evals(&R.O) >= 1;
    if (t == OPK_TASK_COMPUTE_FG) { f = crun_eval(&R, &P, 1); if (! isfinite(f)) break; }
    opk_vexport(before, OPK_DOUBLE, n, R.x); scr_done = 0; it = low_iters(&R.O);
    t = low_iterate(&R.O, R.x, f, R.g); opk_vexport(after, OPK_DOUBLE, n, R.x);
    if (was == OPK_TASK_COMPUTE_FG && inls) {
      opk_status s = low_status(&R.O);
      if (! scr_done) { /* another step */
        if (t != OPK_TASK_COMPUTE_FG || s != OPK_SUCCESS) { viol("script", "the search goes on: task %d, status %d; %s", t, s, ctx); break; }
        if (! same_bits(low_step(&R.O), scr_step)) viol("script-step", "step %.17g instead of the one of the search, %.17g; %s", low_step(&R.O), scr_step, ctx);
        obs("script-search");
      } else {
        if (scr_task == OPK_LNSRCH_CONVERGENCE || (scr_task == OPK_LNSRCH_WARNING && scr_status == OPK_ROUNDING_ERRORS_PREVENT_PROGRESS)) {
          if ((t != OPK_TASK_NEW_X && t != OPK_TASK_FINAL_X) || s != OPK_SUCCESS || low_iters(&R.O) != it + 1)
            viol("script", "search over (task %d, status %d): task %d, status %d, %ld iterations after %ld; %s", scr_task, scr_status, t, s, low_iters(&R.O), it, ctx);
          obsf("script-accepted-%d", scr_task);
        } else {
          if (t != OPK_TASK_ERROR || s != scr_status || low_iters(&R.O) != it)
            viol("script", "search failed (task %d, status %d): task %d, status %d, %ld iterations after %ld; %s", scr_task, scr_status, t, s, low_iters(&R.O), it, ctx);
          obsf("script-failed-%d", scr_task);
        }
        for (i = 0; i < n; ++i) if (! same_bits(before[i], after[i])) { viol("script-moved", "variables changed at the end of the search; %s", ctx); break; }
      }
    } else if (was == OPK_TASK_NEW_X && t == OPK_TASK_COMPUTE_FG) {
      if (! same_bits(low_step(&R.O), c->base.stp)) viol("script-step", "first step %.17g instead of %.17g; %s", low_step(&R.O), c->base.stp, ctx);
      obs("script-first");
    }
    if (cfg_bounded(&C)) for (i = 0; i < n; ++i) if (after[i] < C.lo[i] || after[i] > C.hi[i]) { viol("script-feasible", "variables out of the bounds; %s", ctx); break; }
    if (low_step(&R.O) < 0) viol("script-step", "negative step; %s", ctx);
  }
  obsf("script-last-task-%d", t); nontrivial(); hash_bytes(cfgt, strlen(cfgt)); hash_l(k);
 out:
  crun_free(&R, (int)r_int(0, 5)); if (ls_final != 1) viol("finalize-search", "line search finalized %ld times", ls_final);
  end("a run with a scripted line search");
}
static void c_nocreate(void) { /* the space fails to create vectors */
  config C; problem P; crun R; long total, at;
  cfg_make(&C, &P, 0); if (cfg_bounded(&C) && (C.lk == OPK_BOUND_VECTOR || C.uk == OPK_BOUND_VECTOR)) { C.lk = C.lk == 7 ? 2 : C.lk; C.uk = C.uk == 7 ? 2 : C.uk; }
  v_created = 0; v_fail_at = -1; C.ls = LS_DEFAULT;
  { opk_vspace* s = c_space(&all_ops, C.single, C.n); opk_convexset* b = NULL; void* o; long v0; double l = C.dl[0];
    cur_space = s; memset(&R, 0, sizeof(R));
    if (cfg_bounded(&C)) { b = opk_new_boxset(s, (opk_bound_type)OPK_BOUND_SCALAR_DOUBLE, &l, OPK_BOUND_NONE, NULL); }
    v_created = 0; o = C.vmlmb ? (void*)opk_new_vmlmb_optimizer(&C.vo, s, NULL, b) : (void*)opk_new_nlcg_optimizer(&C.no, s, NULL);
    total = v_created; v0 = v_live; if (o == NULL) viol("refused", "optimizer refused; %s", ctx); else { OPK_DROP(o); }
    if (v_live != 0) viol("vectors", "%ld of %ld vectors remain; %s", v_live, v0, ctx);
    at = r_int(0, total > 0 ? total - 1 : 0);
    { opk_index rs = opk_get_object_references((opk_object*)s), rb = opk_get_object_references((opk_object*)b);
      v_created = 0; v_fail_at = at; o = C.vmlmb ? (void*)opk_new_vmlmb_optimizer(&C.vo, s, NULL, b) : (void*)opk_new_nlcg_optimizer(&C.no, s, NULL);
      if (o != NULL && total > 0) { viol("create-failure", "optimizer created although vector %ld of %ld was not; %s", at, total, ctx); OPK_DROP(o); }
      if (opk_get_object_references((opk_object*)s) != rs || opk_get_object_references((opk_object*)b) != rb || v_live != 0) viol("create-failure", "references or vectors remain when vector %ld of %ld is not created; %s", at, total, ctx);
      v_fail_at = -1; obs("create-failures"); }
    { double a[16]; float af[16]; long i; int kind = (int)r_int(3, 6); opk_convexset* z; for (i = 0; i < 16; ++i) { a[i] = 1; af[i] = 1; }
      v_created = 0; v_fail_at = 0; errno = 0; z = r_bool() ? opk_new_boxset(s, (opk_bound_type)kind, (kind & 1) ? (void*)af : (void*)a, OPK_BOUND_NONE, NULL) : opk_new_boxset(s, OPK_BOUND_SCALAR_DOUBLE, a, (opk_bound_type)kind, (kind & 1) ? (void*)af : (void*)a);
      if (z != NULL) { viol("create-failure", "box set created although the vector of its bound was not"); OPK_DROP(z); } else if (errno != ENOMEM) viol("create-failure", "box set: errno %d", errno);
      v_fail_at = -1; }
    if (b) OPK_DROP(b);
    OPK_DROP(s); }
  end("failures to create vectors"); nontrivial(); hash_l(at); hash_bytes(cfgt, strlen(cfgt));
}
void run_case(uint64_t c) {
  begin(); a_fill = (int)r_int(0, 255);
  switch (c%8) {
  case 0: c_vectors(); break; case 1: c_operators(); break; case 2: c_sets(); break; case 3: case 4: c_twin(); break;
  case 5: c_failing(); break; case 6: c_script(); break; default: if (r_bool()) c_nocreate(); else c_twin(); break; }
  if (c < 8 && cfgt[0]) sample("%s", cfgt);
  a_fill = -1;
}
