/* box.c -- C05 projection, C06 directions and free variables, C07 step limits. */
#include "vutil.h"

static const char* kname[8] = { "none", "scalar-float", "scalar-double", "static-float",
  "static-double", "volatile-float", "volatile-double", "vector" };

typedef struct {
  int kind; int single; long n;
  void* value;          /* what is given to the library */
  double* b;            /* reference bounds, in the precision of the variables */
  hvec vec;             /* for OPK_BOUND_VECTOR */
  int dead;             /* storage clobbered or released */
} bound;

static double cvt(int single, double x) { return single ? (double)(float)x : x; }

static void bound_make(bound* B, opk_vspace* space, int single, long n, int kind, const double* val) {
  long i;
  memset(B, 0, sizeof(*B));
  B->kind = kind; B->single = single; B->n = n;
  B->b = ard(n);
  switch (kind) {
  case OPK_BOUND_NONE: B->value = NULL; break;
  case OPK_BOUND_SCALAR_FLOAT: {
    float* p = (float*)h_alloc(sizeof(float)); p[0] = (float)val[0]; B->value = p;
    for (i = 0; i < n; ++i) B->b[i] = cvt(single, p[0]);
    break; }
  case OPK_BOUND_SCALAR_DOUBLE: {
    double* p = (double*)h_alloc(sizeof(double)); p[0] = val[0]; B->value = p;
    for (i = 0; i < n; ++i) B->b[i] = cvt(single, p[0]);
    break; }
  case OPK_BOUND_STATIC_FLOAT: case OPK_BOUND_VOLATILE_FLOAT: {
    float* p = (float*)h_alloc(n*sizeof(float)); B->value = p;
    for (i = 0; i < n; ++i) { p[i] = (float)val[i]; B->b[i] = cvt(single, p[i]); }
    break; }
  case OPK_BOUND_STATIC_DOUBLE: case OPK_BOUND_VOLATILE_DOUBLE: {
    double* p = (double*)h_alloc(n*sizeof(double)); B->value = p;
    for (i = 0; i < n; ++i) { p[i] = val[i]; B->b[i] = cvt(single, p[i]); }
    break; }
  case OPK_BOUND_VECTOR:
    B->vec = hv_new(space, single, n, r_bool());
    for (i = 0; i < n; ++i) { hv_set(&B->vec, i, val[i]); B->b[i] = hv_get(&B->vec, i); }
    B->value = B->vec.v;
    break;
  }
}
/* Storage of scalars and volatile arrays is no longer needed. */
static void bound_clobber(bound* B) {
  int k = B->kind;
  if (k == OPK_BOUND_SCALAR_FLOAT || k == OPK_BOUND_SCALAR_DOUBLE ||
      k == OPK_BOUND_VOLATILE_FLOAT || k == OPK_BOUND_VOLATILE_DOUBLE) {
    size_t m = (k == OPK_BOUND_SCALAR_FLOAT) ? 4 : (k == OPK_BOUND_SCALAR_DOUBLE) ? 8 :
      (k == OPK_BOUND_VOLATILE_FLOAT) ? 4*B->n : 8*B->n;
    memset(B->value, 0xA5, m);
    h_free(B->value); /* use after free would be caught */
    B->value = NULL; B->dead = 1;
    obs("bound-storage-released-before-use");
  }
}
static int bound_intact(bound* B) {
  long i;
  if (B->kind == OPK_BOUND_VECTOR) {
    for (i = 0; i < B->n; ++i) if (! same_bits(hv_get(&B->vec, i), B->b[i])) return 0;
  } else if (B->kind == OPK_BOUND_STATIC_DOUBLE) {
    for (i = 0; i < B->n; ++i) if (cvt(B->single, ((double*)B->value)[i]) != B->b[i]) return 0;
  } else if (B->kind == OPK_BOUND_STATIC_FLOAT) {
    for (i = 0; i < B->n; ++i) if (cvt(B->single, ((float*)B->value)[i]) != B->b[i]) return 0;
  }
  return 1;
}
static void bound_free(bound* B) {
  if (B->kind == OPK_BOUND_VECTOR) hv_free(&B->vec);
  else if (B->value != NULL) h_free(B->value);
}
static double LO(bound* L, long i) { return L->kind == 0 ? -INFINITY : L->b[i]; }

void run_case(uint64_t c) {
  int lk = c & 7, uk = (c >> 3) & 7, single = (c >> 6) & 1;
  int orient = ((c >> 7) & 1) ? 1 : -1;
  int what = strcmp(h_prop, "C05") == 0 ? 5 : strcmp(h_prop, "C06") == 0 ? 6 :
    strcmp(h_prop, "C07") == 0 ? 7 : 0;
  long n, i;
  double *lv, *uv, eps, realmax;
  opk_vspace* space;
  bound L, U;
  opk_convexset* set;
  hvec x, d, dst;
  double *ox, *od;
  int scalarL = (lk == 1 || lk == 2), scalarU = (uk == 1 || uk == 2);
  double scale = r_p(0.2) ? r_logu(1e-6, 1e6) : 1;
  int infs = r_p(0.25);
  opk_status st;

  n = r_p(0.1) ? 1 : r_int(1, 24);
  if (r_p(0.03)) n = r_p(0.03) ? r_int(401, 70000) : r_int(100, 400);
  a_fill = (int)r_int(0, 255);
  eps = hv_eps(single);
  realmax = single ? FLT_MAX : DBL_MAX;
  space = hv_space(single, n);
  lv = ard(n); uv = ard(n);
  {
    double l0 = scale*r_norm(), u0;
    if (r_p(0.2)) l0 = 0;
    u0 = r_p(0.1) ? l0 : l0 + scale*fabs(r_norm());
    for (i = 0; i < n; ++i) {
      double l, u;
      if (scalarL && scalarU) { l = l0; u = u0; }
      else if (scalarL) { l = l0; u = r_p(0.15) ? l0 : l0 + scale*fabs(r_norm()); }
      else if (scalarU) { u = u0; l = r_p(0.15) ? u0 : u0 - scale*fabs(r_norm()); }
      else { l = scale*r_norm(); u = r_p(0.15) ? l : l + scale*fabs(r_norm()); }
      if (infs) {
        if (! scalarL && r_p(0.4)) l = -INFINITY;
        if (! scalarU && r_p(0.4)) u = INFINITY;
      }
      lv[i] = l; uv[i] = u;
    }
  }
  /* Rounding of the bounds to single precision is monotonic except between
     the kinds: make everything representable in single precision half of the
     time, always if the kinds differ in precision. */
  if (single || r_bool() || lk == 1 || lk == 3 || lk == 5 || uk == 1 || uk == 3 || uk == 5) {
    for (i = 0; i < n; ++i) { lv[i] = (float)lv[i]; uv[i] = (float)uv[i]; }
  }
  bound_make(&L, space, single, n, lk, lv);
  bound_make(&U, space, single, n, uk, uv);
  for (i = 0; i < n; ++i) {
    double lo = LO(&L, i), hi = uk == 0 ? INFINITY : U.b[i];
    if (! (lo <= hi)) HARNESS_BUG("lo=%g hi=%g kinds %d %d", lo, hi, lk, uk);
  }
  set = opk_new_boxset(space, (opk_bound_type)lk, L.value, (opk_bound_type)uk, U.value);
  if (set == NULL) { viol("no-box", "kinds %s %s errno=%d", kname[lk], kname[uk], errno); return; }
  if (r_bool()) { bound_clobber(&L); bound_clobber(&U); }
  if (r_p(0.3)) { /* the box keeps the vector alive */
    if (lk == 7) { OPK_DROP(L.vec.v); L.vec.v = NULL; if (L.vec.own == NULL) L.kind = 0, L.value = NULL, L.vec.data = NULL; obs("bound-vector-dropped"); }
  }
  if (L.kind == 0 && lk == 7) { /* data not readable any more by us */ }

  x = hv_new(space, single, n, r_bool());
  d = hv_new(space, single, n, r_bool());
  dst = hv_new(space, single, n, r_bool());
  for (i = 0; i < n; ++i) {
    double lo = lk == 0 ? -INFINITY : L.b[i], hi = uk == 0 ? INFINITY : U.b[i], v;
    if (what == 5) {
      switch (r_int(0, 6)) {
      case 0: v = isinf(lo) ? scale*r_norm() : lo; break;
      case 1: v = isinf(hi) ? scale*r_norm() : hi; break;
      case 2: v = isinf(lo) ? -1e30 : lo - scale*fabs(r_norm()); break;
      case 3: v = isinf(hi) ? 1e30 : hi + scale*fabs(r_norm()); break;
      case 4: v = isinf(lo) ? 0 : (single ? nextafterf((float)lo, -INFINITY) : nextafter(lo, -INFINITY)); break;
      case 5: v = isinf(hi) ? 0 : (single ? nextafterf((float)hi, INFINITY) : nextafter(hi, INFINITY)); break;
      default: v = scale*r_norm()*2; break;
      }
      if (r_p(0.01)) v = r_bool() ? INFINITY : -INFINITY;
    } else {
      switch (r_int(0, 5)) {
      case 0: case 1: v = isinf(lo) ? scale*r_norm() : lo; break;
      case 2: case 3: v = isinf(hi) ? scale*r_norm() : hi; break;
      default: v = (isinf(lo) || isinf(hi)) ? scale*r_norm()*2 : lo + (hi - lo)*r_unif(); break;
      }
      v = cvt(single, v);
      if (v < lo) v = lo;
      if (v > hi) v = hi;
    }
    hv_set(&x, i, v);
    hv_set(&d, i, r_p(0.2) ? 0 : r_norm()*(r_p(0.1) ? r_logu(1e-6, 1e6) : 1));
    hv_set(&dst, i, 777 + i);
  }
  if (r_p(0.05)) for (i = 0; i < n; ++i) hv_set(&d, i, 0);
  ox = hv_dup(&x); od = hv_dup(&d);
  hash_l(c & 255); hash_l(n); hash_d(ox[0]); hash_d(od[n-1]); hash_d(lv[0]); nontrivial();
  obsf("kinds-%s", kname[lk]);
  if (what == 5) {
    int inplace = r_p(0.3);
    hvec* out = inplace ? &x : &dst;
    if (! opk_can_project_variables(set)) viol("capability", "cannot project variables");
    st = opk_project_variables(out->v, x.v, set);
    if (st != OPK_SUCCESS) viol("status", "kinds %s %s: %d", kname[lk], kname[uk], st);
    for (i = 0; i < n; ++i) {
      double lo = lk == 0 ? -INFINITY : L.b[i], hi = uk == 0 ? INFINITY : U.b[i];
      double e = ox[i] < lo ? lo : ox[i] > hi ? hi : ox[i], got = hv_get(out, i);
      if (ox[i] < lo) obs("below"); else if (ox[i] > hi) obs("above");
      else if (ox[i] == lo || ox[i] == hi) obs("on-bound"); else obs("inside");
      if (got != e) {
        viol("projection", "kinds %s %s single=%d n=%ld i=%ld inplace=%d x=%.17g lo=%.17g hi=%.17g got %.17g",
             kname[lk], kname[uk], single, n, i, inplace, ox[i], lo, hi, got);
        break;
      }
    }
    if (! inplace && ! hv_same(&x, ox)) viol("operand-modified", "x modified, kinds %s %s", kname[lk], kname[uk]);
    { /* idempotent */
      double* p = hv_dup(out);
      st = opk_project_variables(out->v, out->v, set);
      if (st != OPK_SUCCESS || ! hv_same(out, p)) viol("not-idempotent", "kinds %s %s", kname[lk], kname[uk]);
    }
  } else if (what == 6) {
    int alias = (int)r_int(0, 3); /* 0,1: none, 2: dst is d, 3: dst is d for the mask as well */
    int o = r_p(0.1) ? orient*7 : orient;
    hvec* out = alias >= 2 ? &d : &dst;
    if (! opk_can_project_directions(set) || ! opk_can_get_free_variables(set)) viol("capability", "box without directions or free variables");
    st = opk_project_direction(out->v, x.v, set, d.v, (opk_orientation)o);
    if (st != OPK_SUCCESS) viol("status", "kinds %s %s: %d", kname[lk], kname[uk], st);
    for (i = 0; i < n; ++i) {
      double lo = lk == 0 ? -INFINITY : L.b[i], hi = uk == 0 ? INFINITY : U.b[i];
      double p = orient*od[i], got = hv_get(out, i);
      int blocked = (p < 0 && ox[i] <= lo) || (p > 0 && ox[i] >= hi);
      obs(blocked ? "blocked" : p == 0 ? "null-component" : "free");
      if (got != (blocked ? 0 : od[i])) {
        viol("direction", "kinds %s %s single=%d n=%ld i=%ld orient=%d alias=%d x=%.17g lo=%.17g hi=%.17g d=%g got %.17g",
             kname[lk], kname[uk], single, n, i, o, alias, ox[i], lo, hi, od[i], got);
        break;
      }
    }
    for (i = 0; i < n; ++i) hv_set(&d, i, od[i]);
    out = alias == 3 ? &d : &dst;
    for (i = 0; alias != 3 && i < n; ++i) hv_set(&dst, i, 777 + i);
    st = opk_get_free_variables(out->v, x.v, set, d.v, (opk_orientation)o);
    if (st != OPK_SUCCESS) viol("status", "free variables, kinds %s %s: %d", kname[lk], kname[uk], st);
    for (i = 0; i < n; ++i) {
      double lo = lk == 0 ? -INFINITY : L.b[i], hi = uk == 0 ? INFINITY : U.b[i];
      double p = orient*od[i], got = hv_get(out, i);
      int blocked = (p < 0 && ox[i] <= lo) || (p > 0 && ox[i] >= hi);
      int ok = blocked ? got == 0 : p == 0 ? ((lk == 0 && uk == 0) ? (got == 0 || got == 1) : got == 0) : got == 1;
      if (! ok) {
        viol("free-mask", "kinds %s %s single=%d n=%ld i=%ld orient=%d alias=%d x=%.17g lo=%.17g hi=%.17g d=%g got %.17g",
             kname[lk], kname[uk], single, n, i, o, alias, ox[i], lo, hi, od[i], got);
        break;
      }
    }
    if (! hv_same(&x, ox)) viol("operand-modified", "x modified, kinds %s %s", kname[lk], kname[uk]);
    if (alias != 3 && ! hv_same(&d, od)) viol("operand-modified", "d modified, kinds %s %s", kname[lk], kname[uk]);
  } else if (what == 7) {
    double s1 = -7, s2 = -7, s3 = -7, t1, t2, t3;
    long double e1 = INFINITY, e2 = INFINITY, e3 = 0;
    int moving = 0, k;
    for (i = 0; i < n; ++i) {
      double lo = lk == 0 ? -INFINITY : L.b[i], hi = uk == 0 ? INFINITY : U.b[i];
      long double p = orient*(long double)od[i], s;
      if (p == 0) continue;
      ++moving;
      s = p > 0 ? ((long double)hi - ox[i])/p : ((long double)lo - ox[i])/p;
      if (s > realmax) s = INFINITY;
      if (s < e1) e1 = s;
      if (s > 0 && s < e2) e2 = s;
      if (s > e3) e3 = s;
    }
    if (! opk_can_get_step_limits(set)) viol("capability", "box without step limits");
    st = opk_get_step_limits(&s1, &s2, &s3, x.v, set, d.v, (opk_orientation)orient);
    if (st != OPK_SUCCESS) viol("status", "kinds %s %s: %d", kname[lk], kname[uk], st);
#define BADLIM(s, e) (isinf(e) ? !((s) >= realmax) : !(fabsl((long double)(s) - (e)) <= 8*eps*(e)))
    obs(isinf(e1) ? "smin1-infinite" : e1 == 0 ? "smin1-zero" : "smin1-positive");
    obs(isinf(e2) ? "smin2-infinite" : "smin2-finite");
    obs(isinf(e3) ? "smax-infinite" : e3 == 0 ? "smax-zero" : "smax-finite");
    if (BADLIM(s1, e1)) viol("smin1", "kinds %s %s single=%d n=%ld orient=%d got %.17g expected %.17Lg", kname[lk], kname[uk], single, n, orient, s1, e1);
    if (BADLIM(s2, e2)) viol("smin2", "kinds %s %s single=%d n=%ld orient=%d got %.17g expected %.17Lg", kname[lk], kname[uk], single, n, orient, s2, e2);
    if (moving || lk || uk)
      if (BADLIM(s3, e3)) viol("smax", "kinds %s %s single=%d n=%ld orient=%d got %.17g expected %.17Lg", kname[lk], kname[uk], single, n, orient, s3, e3);
    for (k = 0; k < 8; ++k) {
      t1 = t2 = t3 = -9;
      st = opk_get_step_limits((k & 1) ? &t1 : NULL, (k & 2) ? &t2 : NULL, (k & 4) ? &t3 : NULL,
                               x.v, set, d.v, (opk_orientation)orient);
      if (st != OPK_SUCCESS || ((k & 1) ? !same_bits(t1, s1) : t1 != -9) ||
          ((k & 2) ? !same_bits(t2, s2) : t2 != -9) || ((k & 4) ? !same_bits(t3, s3) : t3 != -9)) {
        viol("subset", "asking for subset %d gives different limits", k);
      }
    }
    if (! hv_same(&x, ox) || ! hv_same(&d, od)) viol("operand-modified", "kinds %s %s", kname[lk], kname[uk]);
    { /* after projection of the direction the two first limits agree */
      opk_project_direction(dst.v, x.v, set, d.v, (opk_orientation)orient);
      opk_get_step_limits(&t1, &t2, &t3, x.v, set, dst.v, (opk_orientation)orient);
      if (t1 != t2 && !(t1 >= realmax && t2 >= realmax)) viol("projected-limits", "kinds %s %s: %g != %g", kname[lk], kname[uk], t1, t2);
    }
  }
  if (! (lk == 7 && L.vec.v == NULL && L.vec.own == NULL)) if (! bound_intact(&L)) viol("bounds-modified", "lower bound %s", kname[lk]);
  if (! bound_intact(&U)) viol("bounds-modified", "upper bound %s", kname[uk]);
  if (c < 2) sample("lower %s upper %s single=%d n=%ld orient=%d x[0]=%g d[0]=%g", kname[lk], kname[uk], single, n, orient, ox[0], od[0]);
  hv_free(&x); hv_free(&d); hv_free(&dst);
  if (r_bool()) { OPK_DROP(space); space = NULL; }
  OPK_DROP(set);
  if (lk == 7 && L.kind == 0) { /* already dropped */ } else bound_free(&L);
  bound_free(&U);
  if (space) OPK_DROP(space);
  if (a_live != 0) viol("leak", "%ld blocks left", a_live);
}
