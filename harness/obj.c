/* obj.c -- objects: life time (C02), failures of allocations (C03), incorrect
 * use (C04). */
#include "common.h"
#include "vutil.h"
#include "optcommon.h"
#include "bobyqa.h"
#include "newuoa.h"
#include "cobyla.h"

/*================================================================ C02 */
enum { K_SPACE, K_VEC, K_SET, K_LS, K_OP, K_NLCG, K_VMLMB, K_DRIVER, K_CUSTOM };
static const char* kname[] = { "space", "vector", "set", "line-search", "operator", "nlcg",
  "vmlmb", "driver", "object" };
#define MAXNODE 400
#define MAXCH 8
typedef struct {
  int kind, alive, single; long n;
  opk_object* p; long idx;      /* allocation number of the block */
  long ext;                     /* references owned by the program */
  int nch; int ch[MAXCH]; long mult[MAXCH];
  /* hooks */
  int fin_hook;                 /* destruction is reported by a hook */
  /* wrapped vectors */
  int wrapped; int fn; void* cd; void* data;
  /* custom spaces */
  opk_vspace_operations* ops; long nvec_fin, nvec_created;
  /* sets */
  double lo, hi;
  /* optimizers */
  int x, g; int started, frozen; void* dx; void* dg; opk_task task;
} node;
static node N[MAXNODE];
static int nn;

/* Events reported by the hooks. */
typedef struct { int fn; void* p; } event;
static event ev[4000], want[4000];
static int nev, nwant;
static void log_ev(int fn, void* p) {
  if (nev < 4000) { ev[nev].fn = fn; ev[nev].p = p; ++nev; }
}
static void free0(void* p) { log_ev(0, p); }
static void free1(void* p) { log_ev(1, p); }
static void free2(void* p) { log_ev(2, p); }
static void free_drop(void* p) { log_ev(3, p); OPK_DROP(p); }
typedef void freefn(void*);
static freefn* fns[4] = { free0, free1, free2, free_drop };
#define EV_FIN 10
#define EV_SPACE 11
#define EV_SET 12
#define EV_LS 13
#define EV_OP 14
static void fin_custom(opk_object* o) { log_ev(EV_FIN, o); }
static void fin_space(opk_vspace* s) { log_ev(EV_SPACE, s); }
static void fin_set(opk_convexset* s) {
  /* The space must still be there. */
  if (s->space->size < 1) viol("set-space", "space released before the set");
  log_ev(EV_SET, s);
}
static void fin_ls(opk_lnsrch* s) { log_ev(EV_LS, s); }
static void fin_op(opk_operator* s) {
  if (s->inpspace->size < 1 || s->outspace->size < 1) viol("op-space", "space released before the operator");
  log_ev(EV_OP, s);
}
static opk_status c_projvar(opk_vector* dst, const opk_vector* x, const opk_convexset* set) {
  (void)set; opk_vcopy(dst, x); return OPK_SUCCESS; }
static opk_lnsrch_task c_start(opk_lnsrch* ls) {
  ls->status = OPK_SUCCESS; ls->task = OPK_LNSRCH_SEARCH; return ls->task; }
static opk_lnsrch_task c_iterate(opk_lnsrch* ls, double* stp, double f, double g) {
  (void)f; (void)g; (void)stp; ls->status = OPK_SUCCESS; ls->task = OPK_LNSRCH_CONVERGENCE; return ls->task; }
static opk_lnsrch_operations custom_ls_ops = { fin_ls, c_start, c_iterate, FALSE, NULL };
static opk_status op_direct(opk_operator* self, opk_vector* dst, const opk_vector* src) {
  (void)self; (void)src; opk_vfill(dst, 3); return OPK_SUCCESS; }
static opk_operator_operations custom_op_ops = { fin_op, op_direct, NULL, NULL };

static int node_new(int kind, void* p) {
  node* d;
  if (nn >= MAXNODE) HARNESS_BUG("too many nodes");
  d = &N[nn]; memset(d, 0, sizeof(*d));
  d->kind = kind; d->p = (opk_object*)p; d->alive = 1; d->ext = 1;
#ifndef NO_ALLOC_WRAP
  d->idx = a_index(p);
  if (d->idx < 0) viol("not-a-block", "new %s is not at the start of an allocated block", kname[kind]);
#endif
  obsf("created-%s", kname[kind]);
  return nn++;
}
static void node_child(int k, int c, long mult) {
  node* d = &N[k]; int i;
  for (i = 0; i < d->nch; ++i) if (d->ch[i] == c) { d->mult[i] += mult; return; }
  if (d->nch >= MAXCH) HARNESS_BUG("too many children");
  d->ch[d->nch] = c; d->mult[d->nch++] = mult;
}
static long node_refs(int k) {
  long r = N[k].ext; int i, j;
  for (i = 0; i < nn; ++i) if (N[i].alive)
    for (j = 0; j < N[i].nch; ++j) if (N[i].ch[j] == k) r += N[i].mult[j];
  return r;
}
static void want_ev(int fn, void* p) { want[nwant].fn = fn; want[nwant].p = p; ++nwant; }
/* Update the model after references have been released. */
static void settle(void) {
  int again = 1, i;
  while (again) {
    again = 0;
    for (i = 0; i < nn; ++i) if (N[i].alive && node_refs(i) == 0) {
      N[i].alive = 0; again = 1;
      if (N[i].kind == K_VEC && N[i].wrapped && N[i].fn >= 0) want_ev(N[i].fn, N[i].cd);
      if (N[i].fin_hook) want_ev(N[i].kind == K_SPACE ? EV_SPACE : N[i].kind == K_SET ? EV_SET
        : N[i].kind == K_LS ? EV_LS : N[i].kind == K_OP ? EV_OP : EV_FIN, N[i].p);
      obsf("destroyed-%s", kname[N[i].kind]);
    }
  }
}
static int in_events(const event* t, int n, const event* e) {
  int i, c = 0; for (i = 0; i < n; ++i) if (t[i].fn == e->fn && t[i].p == e->p) ++c; return c;
}
static void check_all(const char* what) {
  int i; long live = 0;
  settle();
  for (i = 0; i < nwant; ++i) {
    int a = in_events(ev, nev, &want[i]), b = in_events(want, nwant, &want[i]);
    if (a != b) viol("release", "after %s: release/finalize (%d) of an object called %d times instead of %d",
                     what, want[i].fn, a, b);
  }
  for (i = 0; i < nev; ++i) if (in_events(want, nwant, &ev[i]) == 0)
    viol("unexpected-release", "after %s: unexpected call of release function %d", what, ev[i].fn);
  obs_n("release-callbacks", nev);
  nev = nwant = 0;
  for (i = 0; i < nn; ++i) {
    long idx = -1;
#ifndef NO_ALLOC_WRAP
    idx = a_index(N[i].p);
    if (N[i].alive && idx != N[i].idx) {
      viol("early", "after %s: a %s has been released while %ld references remain", what, kname[N[i].kind], node_refs(i));
      _exit(10);
    }
    if (! N[i].alive && idx == N[i].idx) {
      viol("leak", "after %s: a %s without any owner has not been released", what, kname[N[i].kind]);
      N[i].idx = -2;
    }
#endif
    if (! N[i].alive) continue;
    ++live;
    if (N[i].kind != K_DRIVER) {
      long r = node_refs(i), q = (long)opk_get_object_references(N[i].p);
      if (r != q) { viol("references", "after %s: %s has %ld owners but reports %ld references", what, kname[N[i].kind], r, q); _exit(10); }
      obs("reference-counts-checked");
    }
  }
  obs_max("live-objects", (double)live);
}
static int pick(int kind) {
  int t, k;
  for (t = 0; t < 60 && nn > 0; ++t) {
    k = (int)r_int(0, nn - 1);
    if (N[k].alive && (kind < 0 || N[k].kind == kind)) return k;
  }
  return -1;
}
/* A live space which can be reached (the program may have dropped its own references). */
static opk_vspace* SP(int k) { return (opk_vspace*)N[k].p; }
static opk_vector* VE(int k) { return (opk_vector*)N[k].p; }
static int vec_space(int k) { return N[k].ch[0]; }

static void (*orig_fv)(opk_vspace*, opk_vector*);
static void hook_fv(opk_vspace* s, opk_vector* v) {
  int i;
  for (i = 0; i < nn; ++i) if (N[i].kind == K_SPACE && N[i].p == (opk_object*)s) { N[i].nvec_fin++; break; }
  orig_fv(s, v);
}
static int mk_space(void) {
  int single = r_bool(), k; long n = r_int(1, 9); opk_vspace* s;
  s = single ? opk_new_simple_float_vector_space(n) : opk_new_simple_double_vector_space(n);
  if (s == NULL) HARNESS_BUG("no space");
  if (r_p(0.3)) { /* derived space with hooks */
    opk_vspace_operations* ops = (opk_vspace_operations*)ar(sizeof(*ops));
    opk_vspace* t;
    *ops = *s->ops;
    ops->finalize_space = fin_space;
    orig_fv = ops->finalize_vector; ops->finalize_vector = hook_fv;
    t = opk_allocate_vector_space(ops, n, r_bool() ? 0 : sizeof(opk_vspace) + 64);
    OPK_DROP(s);
    if (t == NULL) HARNESS_BUG("no space");
    k = node_new(K_SPACE, t); N[k].fin_hook = 1; N[k].ops = ops;
  } else k = node_new(K_SPACE, s);
  N[k].single = single; N[k].n = n;
  return k;
}
static size_t esz(int k) { return N[k].single ? sizeof(float) : sizeof(double); }
static int mk_vec(int s) {
  opk_vector* v; int k;
  if (N[s].ops || r_bool()) {
    v = opk_vcreate(SP(s));
    if (v == NULL) HARNESS_BUG("no vector");
    opk_vfill(v, r_norm());
    k = node_new(K_VEC, v);
  } else {
    int fn = (int)r_int(-1, 3); void* cd = NULL; void* data = ar(N[s].n*esz(s)); int c = -1;
    if (fn == 3) { c = pick(-1); if (c < 0 || N[c].kind == K_DRIVER) fn = 0; }
    if (fn == 3) { cd = OPK_HOLD(N[c].p); }
    else if (r_p(0.8)) cd = r_bool() ? data : ar(8);
    v = N[s].single ? opk_wrap_simple_float_vector(SP(s), (float*)data, fn < 0 ? NULL : fns[fn], cd)
      : opk_wrap_simple_double_vector(SP(s), (double*)data, fn < 0 ? NULL : fns[fn], cd);
    if (v == NULL) HARNESS_BUG("no vector");
    k = node_new(K_VEC, v); N[k].wrapped = 1; N[k].fn = fn; N[k].cd = cd; N[k].data = data;
    node_child(k, s, 1);
    if (fn == 3) node_child(k, c, 1);
    N[k].single = N[s].single; N[k].n = N[s].n;
    return k;
  }
  node_child(k, s, 1);
  N[k].single = N[s].single; N[k].n = N[s].n;
  return k;
}
static void getters(int k) {
  freefn* f; void* c; void* d;
  if (N[k].single) {
    f = opk_get_simple_float_vector_free_client_data(VE(k));
    c = opk_get_simple_float_vector_client_data(VE(k)); d = opk_get_simple_float_vector_data(VE(k));
  } else {
    f = opk_get_simple_double_vector_free_client_data(VE(k));
    c = opk_get_simple_double_vector_client_data(VE(k)); d = opk_get_simple_double_vector_data(VE(k));
  }
  if (f != (N[k].fn < 0 ? NULL : fns[N[k].fn])) viol("getter", "release function of a wrapped vector is not the one given");
  if (c != N[k].cd) viol("getter", "client data of a wrapped vector is not the one given");
  if (d != N[k].data) viol("getter", "data of a wrapped vector is not the array given");
}
static void rewrap(int k) {
  int s = vec_space(k), fn = N[k].fn, same, r, bad = r_p(0.1); void* cd = N[k].cd; void* data;
  if (N[k].fn == 3) { if (! r_p(0.3)) return; } /* keep it for later most of the time */
  data = r_p(0.3) ? N[k].data : ar(N[k].n*esz(s));
  switch (r_int(0, 4)) {
  case 0: break;                                   /* same function and client data */
  case 1: cd = ar(8); if (fn == 3) fn = 1; break;
  case 2: fn = (int)r_int(-1, 2); break;
  case 3: fn = (int)r_int(-1, 2); cd = r_bool() ? NULL : data; break;
  default: if (fn == 3) fn = 0; cd = data; break;
  }
  same = (fn == N[k].fn && cd == N[k].cd);
  if (fn == 3 && ! same) HARNESS_BUG("rewrap");
  if (fn != 3 && N[k].fn == 3) { /* the client data is an object: now dropped */ }
  if (N[k].single) r = opk_rewrap_simple_float_vector(VE(k), bad ? NULL : (float*)data, fn < 0 ? NULL : fns[fn], cd);
  else r = opk_rewrap_simple_double_vector(VE(k), bad ? NULL : (double*)data, fn < 0 ? NULL : fns[fn], cd);
  if (bad) {
    if (r == OPK_SUCCESS) viol("rewrap-null", "re-wrapping a null array is reported as a success");
    obs("rewraps-refused");
    getters(k);
    return;
  }
  if (r != OPK_SUCCESS) viol("rewrap", "valid re-wrapping refused with status %d", r);
  if (! same && N[k].fn >= 0) {
    want_ev(N[k].fn, N[k].cd);
    obs("rewraps-with-release");
    if (N[k].fn == 3) { /* edge removed */
      int j; for (j = 1; j < N[k].nch; ++j) {} 
      if (N[k].nch == 2) N[k].nch = 1; else N[k].mult[0] -= 1; /* object was the space itself */
    }
  } else obs(same ? "rewraps-same" : "rewraps-without-function");
  N[k].fn = fn; N[k].cd = cd; N[k].data = data;
  getters(k);
  if (r_p(0.5)) { /* the elements are the ones of the new array */
    double z = r_int(-9, 9); long i;
    opk_vfill(VE(k), z);
    for (i = 0; i < N[k].n; ++i)
      if ((N[k].single ? (double)((float*)data)[i] : ((double*)data)[i]) != z) { viol("rewrap-data", "elements are not in the new array"); break; }
  }
}
static int mk_set(int s) {
  int k; opk_convexset* set;
  if (r_p(0.25)) {
    set = opk_allocate_convexset(SP(s), fin_set, c_projvar, NULL, NULL, NULL, 0);
    if (set == NULL) HARNESS_BUG("no set");
    k = node_new(K_SET, set); N[k].fin_hook = 1; N[k].lo = -INFINITY; N[k].hi = INFINITY;
    node_child(k, s, 1);
  } else {
    double b[2]; float fb[2]; double* arr[2]; float* farr[2]; void* addr[2]; int kind[2], vn[2] = {-1, -1}, j;
    long i, before, rv = 0;
    b[0] = r_int(-5, 0); b[1] = r_int(1, 5);
    for (j = 0; j < 2; ++j) {
      kind[j] = (int)r_int(0, 7);
      if (j == 1 && kind[0] == OPK_BOUND_VECTOR && r_p(0.3)) { /* twice the same vector */
        kind[1] = OPK_BOUND_VECTOR; addr[1] = addr[0]; b[1] = b[0]; fb[1] = fb[0]; arr[1] = arr[0]; farr[1] = farr[0]; obs("same-vector-twice"); continue;
      }
      fb[j] = (float)b[j]; arr[j] = ard(N[s].n); farr[j] = arf(N[s].n);
      for (i = 0; i < N[s].n; ++i) farr[j][i] = (float)(arr[j][i] = b[j]);
      if (kind[j] == OPK_BOUND_VECTOR) {
        opk_vector* v = opk_vcreate(SP(s)); vn[j] = node_new(K_VEC, v); node_child(vn[j], s, 1);
        N[vn[j]].single = N[s].single; N[vn[j]].n = N[s].n;
        opk_vfill(v, b[j]); addr[j] = v; N[vn[j]].frozen = 1;
      } else if (kind[j] == OPK_BOUND_NONE) { addr[j] = NULL; b[j] = j ? INFINITY : -INFINITY; }
      else if (kind[j] == OPK_BOUND_SCALAR_FLOAT) addr[j] = &fb[j];
      else if (kind[j] == OPK_BOUND_SCALAR_DOUBLE) addr[j] = &b[j];
      else addr[j] = (kind[j] & 1) ? (void*)farr[j] : (void*)arr[j];
    }
    before = opk_get_object_references(N[s].p);
    if (vn[0] >= 0) rv = opk_get_object_references(N[vn[0]].p);
    set = opk_new_boxset(SP(s), (opk_bound_type)kind[0], addr[0], (opk_bound_type)kind[1], addr[1]);
    if (set == NULL) { viol("boxset", "valid box set refused (kinds %d and %d)", kind[0], kind[1]); return -1; }
    k = node_new(K_SET, set); N[k].lo = b[0]; N[k].hi = b[1];
    before = opk_get_object_references(N[s].p) - before;
    if (before < 1) viol("set-holds-space", "a box set does not hold its space");
    node_child(k, s, before);
    if (vn[0] >= 0 && addr[1] == addr[0]) { rv = opk_get_object_references(N[vn[0]].p) - rv; if (rv < 1) viol("set-holds-bound", "a box set does not hold the vector of its bounds"); node_child(k, vn[0], rv); }
    else for (j = 0; j < 2; ++j) if (vn[j] >= 0) node_child(k, vn[j], 1);
    /* copies of arrays: the caller may reuse its memory */
    for (j = 0; j < 2; ++j) for (i = 0; i < N[s].n; ++i) { arr[j][i] = 1e9; farr[j][i] = 1e9f; }
  }
  N[k].single = N[s].single; N[k].n = N[s].n;
  return k;
}
static void use_set(int k) {
  int s = -1, j; opk_vector* v; long i;
  for (j = 0; j < N[k].nch; ++j) if (N[N[k].ch[j]].kind == K_SPACE) s = N[k].ch[j];
  v = opk_vcreate(SP(s));
  if (v == NULL) HARNESS_BUG("no vector");
  if (N[s].ops) N[s].nvec_created++;
  for (i = 0; i < N[k].n; ++i) opk_vpoke(v, i, (double)r_int(-12, 12));
  if (opk_project_variables(v, v, (opk_convexset*)N[k].p) != OPK_SUCCESS) viol("set-use", "cannot project");
  for (i = 0; i < N[k].n; ++i) {
    double z = 0; opk_vpeek(v, i, &z);
    if (z < N[k].lo || z > N[k].hi) { viol("set-bounds", "bounds of the set have changed: %g not in [%g,%g]", z, N[k].lo, N[k].hi); break; }
  }
  OPK_DROP(v);
  obs("sets-used");
}
static int mk_ls(void) {
  opk_lnsrch* ls; int k;
  switch (r_int(0, 3)) {
  case 0: ls = opk_lnsrch_new_csrch(1e-4, 0.1, 1e-15); break;
  case 1: ls = opk_lnsrch_new_backtrack(1e-4, 0.1); break;
  case 2: ls = opk_lnsrch_new_nonmonotone(r_int(1, 5), 1e-4, 0.1, 0.9); break;
  default: ls = opk_allocate_line_search(&custom_ls_ops, 0);
    k = node_new(K_LS, ls); N[k].fin_hook = 1; return k;
  }
  if (ls == NULL) HARNESS_BUG("no line search");
  return node_new(K_LS, ls);
}
static int mk_opt(int s) {
  int k, l = r_bool() ? pick(K_LS) : -1, b = -1, j; long rs, rl = 0, rb = 0; void* p;
  int vm = r_bool();
  rs = opk_get_object_references(N[s].p);
  if (l >= 0) rl = opk_get_object_references(N[l].p);
  if (vm) {
    opk_vmlmb_options o; opk_get_vmlmb_default_options(&o);
    o.mem = r_int(1, 6); o.blmvm = r_bool(); o.save_memory = r_bool();
    if (r_bool()) for (j = 0; j < 20; ++j) {
      b = pick(K_SET); if (b >= 0 && ! N[b].fin_hook && ((opk_convexset*)N[b].p)->space == SP(s)) break;
      b = -1;
    }
    if (b >= 0) rb = opk_get_object_references(N[b].p);
    p = opk_new_vmlmb_optimizer(&o, SP(s), l < 0 ? NULL : (opk_lnsrch*)N[l].p, b < 0 ? NULL : (opk_convexset*)N[b].p);
  } else {
    opk_nlcg_options o; opk_get_nlcg_default_options(&o);
    o.flags = (unsigned)r_int(1, 8) | (r_bool() ? OPK_NLCG_POWELL : 0);
    p = opk_new_nlcg_optimizer(&o, SP(s), l < 0 ? NULL : (opk_lnsrch*)N[l].p);
  }
  if (p == NULL) { viol("optimizer", "valid optimizer refused"); return -1; }
  k = node_new(vm ? K_VMLMB : K_NLCG, p);
  N[k].single = N[s].single; N[k].n = N[s].n; N[k].x = N[k].g = -1;
  rs = opk_get_object_references(N[s].p) - rs;
  if (rs < 1) viol("opt-holds-space", "an optimizer does not hold its space");
  node_child(k, s, rs);
  if (l >= 0) {
    rl = opk_get_object_references(N[l].p) - rl;
    if (rl < 1) viol("opt-holds-lnsrch", "an optimizer does not hold its line search");
    node_child(k, l, rl);
  }
  if (b >= 0) {
    rb = opk_get_object_references(N[b].p) - rb;
    if (rb < 1) viol("opt-holds-box", "an optimizer does not hold its bounds");
    node_child(k, b, rb);
  }
  return k;
}
static int mk_driver(void) {
  int single = r_bool(), l = r_bool() ? pick(K_LS) : -1, k, lk = 0, uk = 0; long n = r_int(1, 9), i, rl = 0;
  opk_optimizer* o; int vm = r_bool();
  if (vm && r_bool()) { lk = (int)r_int(0, 6); uk = (int)r_int(0, 6); }
  { float fl = -3, fu = 3; double dl = -3, du = 3; float* afl = arf(n); float* afu = arf(n); double* adl = ard(n); double* adu = ard(n);
    void *la, *ua;
    for (i = 0; i < n; ++i) { adl[i] = afl[i] = -3; adu[i] = afu[i] = 3; }
    la = lk == 0 ? NULL : lk == OPK_BOUND_SCALAR_FLOAT ? (void*)&fl : lk == OPK_BOUND_SCALAR_DOUBLE ? (void*)&dl : (lk & 1) ? (void*)afl : (void*)adl;
    ua = uk == 0 ? NULL : uk == OPK_BOUND_SCALAR_FLOAT ? (void*)&fu : uk == OPK_BOUND_SCALAR_DOUBLE ? (void*)&du : (uk & 1) ? (void*)afu : (void*)adu;
    if (l >= 0) rl = opk_get_object_references(N[l].p);
    o = opk_new_optimizer(vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, NULL, single ? OPK_FLOAT : OPK_DOUBLE, n,
                          (opk_bound_type)lk, la, (opk_bound_type)uk, ua, l < 0 ? NULL : (opk_lnsrch*)N[l].p);
  }
  if (o == NULL) { viol("driver", "valid optimizer refused"); return -1; }
  k = node_new(K_DRIVER, o);
  N[k].single = single; N[k].n = n;
  N[k].dx = ar(n*(single ? sizeof(float) : sizeof(double)));
  N[k].dg = ar(n*(single ? sizeof(float) : sizeof(double)));
  if (l >= 0) {
    rl = opk_get_object_references(N[l].p) - rl;
    if (rl < 1) viol("opt-holds-lnsrch", "an optimizer does not hold its line search");
    node_child(k, l, rl);
  }
  return k;
}
static void use_opt(int k) {
  long i, n = N[k].n, steps = r_int(1, 4); double f;
  long before[MAXCH];
  for (i = 0; i < N[k].nch; ++i) before[i] = (long)opk_get_object_references(N[N[k].ch[i]].p);
  if (N[k].kind == K_DRIVER) {
    opk_optimizer* o = (opk_optimizer*)N[k].p;
    if (! N[k].started || r_p(0.1)) {
      for (i = 0; i < n; ++i) { double z = 3*r_norm(); if (N[k].single) ((float*)N[k].dx)[i] = (float)z; else ((double*)N[k].dx)[i] = z; }
      opk_start(o, N[k].dx); N[k].started = 1;
    }
    while (steps-- > 0) {
      f = 0;
      for (i = 0; i < n; ++i) {
        double z = N[k].single ? (double)((float*)N[k].dx)[i] : ((double*)N[k].dx)[i], g = (z - 1)*(1 + i);
        f += 0.5*g*(z - 1);
        if (N[k].single) ((float*)N[k].dg)[i] = (float)g; else ((double*)N[k].dg)[i] = g;
      }
      opk_iterate(o, N[k].dx, f, N[k].dg);
    }
  } else {
    /* own vectors, created from the space of the optimizer: released at once */
    int s = N[k].ch[0]; opk_vector* x; opk_vector* g;
    int vm = N[k].kind == K_VMLMB;
    x = opk_vcreate(SP(s)); g = opk_vcreate(SP(s));
    if (! x || ! g) HARNESS_BUG("no vector");
    opk_vfill(x, r_norm()*3);
    if (vm) opk_start_vmlmb((opk_vmlmb*)N[k].p, x); else opk_start_nlcg((opk_nlcg*)N[k].p, x);
    while (steps-- > 0) {
      f = 0;
      for (i = 0; i < n; ++i) {
        double z = 0, d; opk_vpeek(x, i, &z); d = (z - 1)*(1 + i); f += 0.5*d*(z - 1); opk_vpoke(g, i, d);
      }
      if (vm) opk_iterate_vmlmb((opk_vmlmb*)N[k].p, x, f, g); else opk_iterate_nlcg((opk_nlcg*)N[k].p, x, f, g);
    }
    OPK_DROP(x); OPK_DROP(g);
  }
  /* An optimizer may hold more or less references while running (objects allocated on demand),
     but at least one. */
  for (i = 0; i < N[k].nch; ++i) {
    long r = (long)opk_get_object_references(N[N[k].ch[i]].p) - before[i];
    if (N[k].mult[i] + r < 1) viol("opt-holds-running", "an optimizer does not hold a %s any longer", kname[N[N[k].ch[i]].kind]);
    N[k].mult[i] += r;
  }
  obs("optimizers-used");
}
static void drop_ext(int k) {
  if (N[k].kind == K_DRIVER) opk_destroy_optimizer((opk_optimizer*)N[k].p);
  else OPK_DROP(N[k].p);
  --N[k].ext;
}
static void use_vecs(int k) {
  int s = vec_space(k), j, m = -1; double z;
  for (j = 0; j < 20; ++j) { m = pick(K_VEC); if (m >= 0 && vec_space(m) == s) break; m = -1; }
  if (m < 0 || N[m].frozen) m = k;
  if (N[k].frozen) return;
  z = r_int(-4, 4);
  opk_vfill(VE(k), z); opk_vcopy(VE(m), VE(k));
  if (opk_vdot(VE(k), VE(m)) != z*z*N[k].n) viol("vector-use", "wrong dot product of live vectors");
  obs("vectors-used");
}
static void c02(uint64_t c) {
  long base_live = a_live, base_unk = a_unknown_free, steps = r_int(20, h_thorough ? 160 : 90), i; int k, s;
  const char* what;
  nn = 0; nev = nwant = 0;
  a_fill = r_bool() ? 0xA5 : 0;
  while (steps-- > 0 && nn < MAXNODE - 10) {
    what = "?";
    switch (r_int(0, 17)) {
    case 0: mk_space(); what = "new space"; break;
    case 1: case 2: case 3: if ((s = pick(K_SPACE)) >= 0) { mk_vec(s); what = "new vector"; } break;
    case 4: if ((s = pick(K_SPACE)) >= 0) { mk_set(s); what = "new set"; } break;
    case 5: mk_ls(); what = "new line search"; break;
    case 6: if ((s = pick(K_SPACE)) >= 0) {
        int s2 = pick(K_SPACE); opk_operator* op; if (s2 < 0) s2 = s; op = opk_allocate_operator(&custom_op_ops, SP(s), SP(s2), 0);
        if (op == NULL) HARNESS_BUG("no operator");
        k = node_new(K_OP, op); N[k].fin_hook = 1; node_child(k, s, 1); node_child(k, s2, 1); what = "new operator"; } break;
    case 7: case 8: if ((s = pick(K_SPACE)) >= 0) { mk_opt(s); what = "new optimizer"; } break;
    case 9: mk_driver(); what = "new driver"; break;
    case 10: if (r_bool()) { opk_object* o = opk_allocate_object(fin_custom, r_int(0, 100)); k = node_new(K_CUSTOM, o); N[k].fin_hook = 1; what = "new object"; }
      else {
        if (opk_hold_object(NULL) != NULL) viol("hold-null", "holding NULL does not return NULL");
        opk_drop_object(NULL); opk_destroy_optimizer(NULL);
        if (opk_get_object_references(NULL) != 0) viol("refs-null", "NULL has references");
        obs("null-objects"); what = "null object";
      } break;
    case 11: if ((k = pick(-1)) >= 0 && N[k].kind != K_DRIVER) { /* we can hold any object we reach */
        if (OPK_HOLD(N[k].p) != N[k].p) viol("hold", "hold does not return its argument");
        ++N[k].ext; what = "hold"; obs("holds");
        if (r_p(0.03)) { /* many references */
          long q, many = r_p(0.05) ? r_int(65000, 70000) : r_int(100, 1000), r0 = opk_get_object_references((opk_object*)N[k].p);
          for (q = 0; q < many; ++q) OPK_HOLD(N[k].p);
          if (opk_get_object_references((opk_object*)N[k].p) != r0 + many) viol("many-references", "%ld references after holding %ld more times an object with %ld references", (long)opk_get_object_references((opk_object*)N[k].p), many, r0);
          for (q = 0; q < many; ++q) OPK_DROP(N[k].p);
          obs("many-references");
        } } break;
    case 12: case 13: if ((k = pick(-1)) >= 0 && N[k].ext > 0) { drop_ext(k); what = "drop"; obs("drops"); } break;
    case 14: if ((k = pick(K_VEC)) >= 0) { if (N[k].wrapped) { rewrap(k); what = "rewrap"; } else use_vecs(k); } break;
    case 15: if ((k = pick(K_SET)) >= 0) { use_set(k); what = "use of a set"; } break;
    case 16: k = pick(r_bool() ? K_DRIVER : r_bool() ? K_NLCG : K_VMLMB); if (k >= 0) { use_opt(k); what = "use of an optimizer"; } break;
    default: if ((k = pick(K_VEC)) >= 0) { use_vecs(k); what = "use of vectors"; } break;
    }
    check_all(what);
    if (h_nviol) break;
  }
  /* Everything is dropped, in random order. */
  for (i = 0; i < 100000 && ! h_nviol; ++i) {
    int left = 0, t;
    for (t = 0; t < nn; ++t) if (N[t].alive && N[t].ext > 0) ++left;
    if (! left) break;
    for (t = 0; t < 200; ++t) { k = (int)r_int(0, nn - 1); if (N[k].alive && N[k].ext > 0) break; k = -1; }
    if (k < 0) for (k = 0; ! (N[k].alive && N[k].ext > 0); ++k) {}
    if (r_p(0.2) && N[k].kind >= K_NLCG && N[k].kind <= K_DRIVER) { use_opt(k); check_all("use in disorder"); }
    drop_ext(k); check_all("final drop"); obs("drops");
  }
  if (! h_nviol) {
    for (k = 0; k < nn; ++k) if (N[k].alive) HARNESS_BUG("model: still alive");
    if (a_live != base_live) viol("memory", "%ld blocks remain after everything is dropped", a_live - base_live);
    if (a_unknown_free != base_unk) viol("unknown-free", "free() of an unknown block");
  }
  a_fill = -1;
  hash_l((long)c); hash_l(nn); nontrivial();
  obs_n("objects", nn);
}
/*================================================================ C03 */
typedef struct { int what; config C; int ls; long n, m, npt; int kl, ku, single; } scen;
#define S_COUNT 13
static const char* sname[S_COUNT] = { "space", "vcreate", "wrap", "lnsrch", "boxset", "nlcg", "vmlmb", "driver",
  "newuoa", "cobyla", "convexset", "operator", "object" };
/* Objects supplied by the caller. */
static opk_vspace* w_space; static opk_lnsrch* w_ls; static opk_convexset* w_box; static hvec w_l, w_u; static int w_rel;
static void w_free(void* p) { (void)p; ++w_rel; }
static void* scen_make(scen* S) {
  config* C = &S->C; void* data;
  switch (S->what) {
  case 0: return S->single ? opk_new_simple_float_vector_space(S->n) : opk_new_simple_double_vector_space(S->n);
  case 1: return opk_vcreate(w_space);
  case 2: data = C->dl; if (C->single) return opk_wrap_simple_float_vector(w_space, C->fl, w_free, data);
    return opk_wrap_simple_double_vector(w_space, C->dl, w_free, data);
  case 3: C->ls = S->ls; return cfg_lnsrch(C);
  case 4: { void* l = S->kl == OPK_BOUND_VECTOR ? (void*)w_l.v : S->kl == 0 ? NULL : (S->kl & 1) ? (void*)C->fl : (void*)C->dl;
      void* u = S->ku == OPK_BOUND_VECTOR ? (void*)w_u.v : S->ku == 0 ? NULL : (S->ku & 1) ? (void*)C->fu : (void*)C->du;
      return opk_new_boxset(w_space, (opk_bound_type)S->kl, l, (opk_bound_type)S->ku, u); }
  case 5: return opk_new_nlcg_optimizer(C->use_opts ? &C->no : NULL, w_space, w_ls);
  case 6: return opk_new_vmlmb_optimizer(C->use_opts ? &C->vo : NULL, w_space, w_ls, w_box);
  case 7: { int vm = C->vmlmb, kl = vm ? S->kl % 7 : 0, ku = vm ? S->ku % 7 : 0;
      void* l = kl == 0 ? NULL : (kl & 1) ? (void*)C->fl : (void*)C->dl;
      void* u = ku == 0 ? NULL : (ku & 1) ? (void*)C->fu : (void*)C->du;
      return opk_new_optimizer(vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG,
        C->use_opts ? (vm ? (void*)&C->vo : (void*)&C->no) : NULL, C->single ? OPK_FLOAT : OPK_DOUBLE, C->n,
        (opk_bound_type)kl, l, (opk_bound_type)ku, u, w_ls); }
  case 8: return newuoa_create(S->n + 1, S->npt, 1.0, 1e-3, 0, 100);
  case 9: return cobyla_create(S->n, S->m, 1.0, 1e-3, 0, 100);
  case 10: return opk_allocate_convexset(w_space, NULL, c_projvar, NULL, NULL, NULL, 0);
  case 11: return opk_allocate_operator(&custom_op_ops, w_space, w_space, 0);
  default: return opk_allocate_object(NULL, 40);
  }
}
static void scen_free(scen* S, void* p) {
  if (S->what == 8) newuoa_delete((newuoa_context*)p);
  else if (S->what == 9) cobyla_delete((cobyla_context*)p);
  else OPK_DROP(p);
}
static void c03_case(uint64_t c) {
  scen S, S0; long N0, k, base, bytes, after; void* p; long refs[5], i; int crel;
  memset(&S, 0, sizeof(S));
  S.what = (int)(c % S_COUNT);
  if (S.what < 4 && r_p(0.5)) S.what = (int)r_int(4, 7);
  cfg_random(&S.C, (r_bool() ? CF_VMLMB : CF_NLCG));
  if (r_p(0.1)) S.C.no.flags = 0;
  S.single = r_bool(); S.n = r_p(0.1) ? 1 : r_int(1, 30); S.m = r_int(0, 12);
  S.npt = r_int(S.n + 3, (S.n + 3)*(S.n + 2)/2);
  S.ls = (int)r_int(1, 3);
  if (S.C.ls != LS_CSRCH && S.ls == LS_CSRCH) { S.C.gtol = 0.1; S.C.xtol = 1e-15; }
  if (S.ls != LS_CSRCH && S.C.ls == LS_CSRCH) { S.C.amin = 0.1; S.C.ftol = 1e-3; S.C.s1 = 0.1; S.C.s2 = 0.9; S.C.lm = r_int(1, 9); }
  S.kl = (int)r_int(0, 7); S.ku = (int)r_int(0, 7);
  for (i = 0; i < S.C.n; ++i) { S.C.dl[i] = S.C.fl[i] = -2; S.C.du[i] = S.C.fu[i] = 2; }
  w_space = hv_space(S.C.single, S.C.n);
  w_ls = r_bool() ? NULL : opk_lnsrch_new_csrch(1e-3, 0.1, 1e-15);
  w_l = hv_new(w_space, S.C.single, S.C.n, 0); w_u = hv_new(w_space, S.C.single, S.C.n, 1);
  for (i = 0; i < S.C.n; ++i) { hv_set(&w_l, i, -2); hv_set(&w_u, i, 2); }
  w_box = (S.what == 6 && r_p(0.6)) ? opk_new_boxset(w_space, OPK_BOUND_VECTOR, w_l.v, OPK_BOUND_VECTOR, w_u.v) : NULL;
  w_rel = 0;
  S0 = S;
  /* Without failure. */
  a_fill = 0x5A;
  base = a_live; bytes = a_live_bytes;
  a_begin(-1, 0); errno = 0;
  p = scen_make(&S); N0 = a_count; a_end();
  if (p == NULL) { viol("refused", "%s: valid call refused (errno %d)", sname[S.what], errno); goto done; }
  crel = w_rel;
  scen_free(&S, p);
  if (S.what == 2 && (crel != 0 || w_rel != 1)) viol("release", "client data not released once");
  if (a_live != base || a_live_bytes != bytes) viol("leak", "%s: %ld blocks remain", sname[S.what], a_live - base);
  obsf("scenarios-%s", sname[S.what]); obs_n("allocations-seen", N0); obs_max("allocations-per-call", (double)N0);
  if (N0 == 0) viol("no-allocation", "%s: no allocation seen", sname[S.what]);
  w_rel = 0;
  for (after = 0; after < 2; ++after) for (k = 0; k < N0 && ! h_nviol; ++k) {
    int e;
    refs[0] = opk_get_object_references((opk_object*)w_space); refs[1] = opk_get_object_references((opk_object*)w_ls);
    refs[2] = opk_get_object_references((opk_object*)w_box); refs[3] = opk_get_object_references((opk_object*)w_l.v);
    refs[4] = opk_get_object_references((opk_object*)w_u.v);
    base = a_live; bytes = a_live_bytes;
    S = S0; errno = 0;
    a_begin(k, (int)after); p = scen_make(&S); e = errno; a_end();
    obs("failures-injected"); if (k > 0) obs("failures-not-first"); if (after) obs("failures-persistent");
    if (a_failed == 0) { viol("not-deterministic", "%s: allocation %ld not reached", sname[S.what], k); if (p) scen_free(&S, p); continue; }
    if (p != NULL) { viol("ignored", "%s: failure of allocation %ld of %ld is not reported", sname[S.what], k + 1, N0); scen_free(&S, p); continue; }
    if (e != ENOMEM) viol("errno", "%s: errno is %d, not ENOMEM, when allocation %ld of %ld fails", sname[S.what], e, k + 1, N0);
    if (opk_guess_status(e) != OPK_INSUFFICIENT_MEMORY) viol("status", "%s: status guessed from errno is %d", sname[S.what], opk_guess_status(e));
    if (a_live != base || a_live_bytes != bytes) viol("leak", "%s: %ld blocks leak when allocation %ld of %ld fails", sname[S.what], a_live - base, k + 1, N0);
    if (w_rel) viol("released", "%s: client data released though the call failed", sname[S.what]);
    if (refs[0] != opk_get_object_references((opk_object*)w_space) || refs[1] != opk_get_object_references((opk_object*)w_ls)
        || refs[2] != opk_get_object_references((opk_object*)w_box) || refs[3] != opk_get_object_references((opk_object*)w_l.v)
        || refs[4] != opk_get_object_references((opk_object*)w_u.v))
      viol("references", "%s: references on the caller's objects changed when allocation %ld of %ld fails", sname[S.what], k + 1, N0);
    if (memcmp(&S.C.vo, &S0.C.vo, sizeof(S.C.vo)) || memcmp(&S.C.no, &S0.C.no, sizeof(S.C.no)) || memcmp(S.C.dl, S0.C.dl, sizeof(S.C.dl))
        || memcmp(S.C.fl, S0.C.fl, sizeof(S.C.fl)) || memcmp(S.C.du, S0.C.du, sizeof(S.C.du)) || memcmp(S.C.fu, S0.C.fu, sizeof(S.C.fu)))
      viol("data", "%s: options or bounds of the caller changed", sname[S.what]);
    for (i = 0; i < S.C.n; ++i) if (hv_get(&w_l, i) != -2 || hv_get(&w_u, i) != 2) { viol("data", "%s: bounds changed", sname[S.what]); break; }
  }
  if (! h_nviol) { /* works again */
    S = S0; p = scen_make(&S);
    if (p == NULL) viol("no-recovery", "%s: refused after failures", sname[S.what]);
    else scen_free(&S, p);
    obs("recoveries");
  }
 done:
  hash_l(S.what); hash_l(N0); hash_l(S.C.n); hash_l((long)S.C.vo.mem); hash_l(S.kl*8 + S.ku); hash_l((long)S.C.no.flags); nontrivial();
  if (w_box) OPK_DROP(w_box);
  hv_free(&w_l); hv_free(&w_u);
  if (w_ls) OPK_DROP(w_ls);
  OPK_DROP(w_space);
  a_fill = -1;
}
/* Runs without any memory left: same results, or insufficient memory. */
static double rq(const double* x, long n) { long i; double f = 0; for (i = 0; i < n; ++i) f += (1 + i)*(x[i] - 0.3)*(x[i] - 0.3); return f; }
static double bq(const opk_index n, const double* x, void* d) { (void)d; return rq(x, n); }
static double cq(opk_index n, opk_index m, const double x[], double con[], void* d) {
  long i; (void)d; for (i = 0; i < m; ++i) con[i] = x[i % n] - 0.1; return rq(x, n); }
static double fq(double x) { return (x - 0.3)*(x - 0.3); }
static double run_once(int kind, config* C, int* status, int* ran_out) {
  double x[PMAXN], xl[PMAXN], xu[PMAXN], r = 0; long n = 3, i;
  *status = 0; *ran_out = 0;
  for (i = 0; i < PMAXN; ++i) { x[i] = 1; xl[i] = -2; xu[i] = 2; }
  switch (kind) {
  case 0: { double w[400]; memset(w, 0, sizeof(w)); *status = bobyqa(n, 2*n + 1, bq, NULL, x, xl, xu, 0.5, 1e-4, 0, 200, w); *ran_out = (*status != 0); break; }
  case 1: { double w[400]; memset(w, 0, sizeof(w)); *status = newuoa(n, 2*n + 1, bq, NULL, x, 0.5, 1e-4, 0, 200, w); *ran_out = (*status != 0); break; }
  case 2: { double w[400]; opk_index ia[10]; memset(w, 0, sizeof(w)); memset(ia, 0, sizeof(ia)); *status = cobyla(n, 2, cq, NULL, x, 0.5, 1e-4, 0, 200, w, ia); *ran_out = (*status != 0); break; }
  case 3: { double out[7]; *status = opk_fmin(fq, -1, 2, 0, 100, 1e-8, out); x[0] = out[0]; *ran_out = *status < 0; break; }
  default: {
      /* an optimizer created before: start and iterate */
      static lowopt O; hvec X, G; int task, k;
      if (! low_new(&O, C)) HARNESS_BUG("optimizer");
      X = hv_new(O.space, C->single, C->n, 0); G = hv_new(O.space, C->single, C->n, 0);
      for (i = 0; i < C->n; ++i) hv_set(&X, i, C->x0[i]);
      if (kind == 5) a_begin(0, 1);
      task = low_start(&O, X.v);
      for (k = 0; k < 60; ++k) {
        if (task == OPK_TASK_COMPUTE_FG) {
          double f = 0, z; for (i = 0; i < C->n; ++i) { z = hv_get(&X, i) - 0.2*(i + 1); f += 0.5*(1 + i)*z*z; hv_set(&G, i, (1 + i)*z); }
          r = f; task = low_iterate(&O, X.v, f, G.v);
        } else if (task == OPK_TASK_NEW_X) task = low_iterate(&O, X.v, r, G.v);
        else break;
      }
      *status = low_status(&O); *ran_out = (task == OPK_TASK_ERROR && *status == OPK_INSUFFICIENT_MEMORY);
      a_end();
      r = 0; for (i = 0; i < C->n; ++i) r = r*1.7 + hv_get(&X, i);
      hv_free(&X); hv_free(&G); low_free(&O);
      return r;
    }
  }
  for (i = 0; i < n; ++i) r = r*1.7 + x[i];
  return r;
}
static void c03_run(uint64_t c) {
  int kind = (int)(c % 5), s1, s2, o1, o2; double r1, r2; config C;
  if (kind == 4 || r_p(0.6)) {
    cfg_random(&C, 0);
    r1 = run_once(4, &C, &s1, &o1); r2 = run_once(5, &C, &s2, &o2);
    obs("optimizers-run-without-memory");
  } else {
    kind %= 4;
    r1 = run_once(kind, NULL, &s1, &o1);
    a_begin(0, 1); r2 = run_once(kind, NULL, &s2, &o2); a_end();
    obs("solvers-run-without-memory");
  }
  if (o1) return;
  if (a_failed > 0 ? ! o2 : (! same_bits(r1, r2) || s1 != s2))
    viol("run", "kind %d: %ld allocations failed, status %d (%d with memory), result %g (%g with memory)", kind, a_failed, s2, s1, r2, r1);
}
static void c03(uint64_t c) { if (c % 10 == 9) c03_run(c/10); else c03_case(c/10*9 + c%10); }

#include "misuse.h"
void run_case(uint64_t c) {
  if (strcmp(h_prop, "C02") == 0) c02(c);
  else if (strcmp(h_prop, "C03") == 0) c03(c);
  else if (strcmp(h_prop, "C04") == 0) c04(c);
  else HARNESS_BUG("property");
}
