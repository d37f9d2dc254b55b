/* misuse.h -- incorrect use (C04), included by obj.c. */
static opk_vspace *mA, *mB, *mC;      /* A and B: same type and size; C: other precision */
#define NMV 8
static hvec mv[NMV];                  /* 0-3 in A, 4-5 in B, 6-7 in C */
static double* msnap[NMV]; static long mrefs[NMV + 4];
static opk_convexset *mbox, *mbare; static opk_operator* mop;
static long merrors; static char mmsg[200];
static void m_handler(const char* msg) { ++merrors; snprintf(mmsg, sizeof(mmsg), "%s", msg ? msg : "(null)"); }
static char mtxt[300];
#define BAD(...) do { snprintf(mtxt, sizeof(mtxt), __VA_ARGS__); } while (0)
static void m_snap(void) {
  int i;
  for (i = 0; i < NMV; ++i) { msnap[i] = hv_dup(&mv[i]); mrefs[i] = opk_get_object_references((opk_object*)mv[i].v); }
  mrefs[NMV] = opk_get_object_references((opk_object*)mA); mrefs[NMV+1] = opk_get_object_references((opk_object*)mB);
  mrefs[NMV+2] = opk_get_object_references((opk_object*)mC); mrefs[NMV+3] = opk_get_object_references((opk_object*)mbox);
  merrors = 0; errno = 0;
}
static void m_same(void) {
  int i;
  for (i = 0; i < NMV; ++i) {
    if (! hv_same(&mv[i], msnap[i])) viol("operand", "%s: vector %d changed", mtxt, i);
    if (mrefs[i] != opk_get_object_references((opk_object*)mv[i].v)) viol("references", "%s: references on vector %d changed", mtxt, i);
  }
  if (mrefs[NMV] != opk_get_object_references((opk_object*)mA) || mrefs[NMV+1] != opk_get_object_references((opk_object*)mB)
      || mrefs[NMV+2] != opk_get_object_references((opk_object*)mC) || mrefs[NMV+3] != opk_get_object_references((opk_object*)mbox))
    viol("references", "%s: references on the spaces or set changed", mtxt);
}
static void m_error(int n) {
  if (merrors != n) viol("handler", "%s: error handler called %ld times instead of %d", mtxt, merrors, n);
  if (n && merrors && mmsg[0] == 0) viol("handler", "%s: empty message", mtxt);
  obs("checked-handler");
}
static void m_status(int got, int want) {
  if (got != want) viol("status", "%s: status %d instead of %d", mtxt, got, want);
  if (merrors) viol("handler", "%s: error handler called", mtxt);
  obsf("status-%d", want);
}
static void m_null(void* p, int e) { int g = errno;
  if (p != NULL) viol("accepted", "%s: accepted", mtxt);
  else if (g != e) viol("errno", "%s: errno %d instead of %d", mtxt, g, e);
  if (merrors) viol("handler", "%s: error handler called", mtxt);
  obsf("errno-%d", e);
}
static double coef(void) { static const double t[] = { 0, 1, -1, 0, 2.5, -3 }; return t[r_int(0, 5)]; }
static opk_vector* vA(void) { return mv[r_int(0, 3)].v; }
static opk_vector* vX(void) { return mv[r_int(4, 7)].v; } /* not in A */
static double special(void) {
  static const double t[] = { 0, -0.0, 1, -1, 0.5, 1e-300, -1e-300, 1e300, -1e300, 5e-324, 0.99999999999999989, 1.0000000000000002,
    0.49999999999999994, 0.50000000000000011, 1e-20, 1e20, 2, 0.1, 0.9, DBL_MAX };
  switch (r_int(0, 9)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; default: return t[r_int(0, 19)]; }
}
static int fin(double x) { return ! isnan(x) && ! isinf(x); }
static void m_vectors(void) {
  int op = (int)r_int(0, 7), pos, k; double a = coef(), b = coef(), g = coef(), r = 0; opk_vector* v[4];
  static const int na[] = { 2, 2, 2, 2, 3, 3, 3, 4 };
  static const char* nm[] = { "vcopy", "vscale", "vswap", "vdot", "vdot3", "vproduct", "vaxpby", "vaxpbypcz" };
  for (k = 0; k < 4; ++k) v[k] = vA();
  pos = (int)r_int(0, na[op] - 1); v[pos] = vX();
  if (r_p(0.2)) { /* all but one are in another space */ opk_vector* t = mv[r_bool() ? 4 : 6].v; for (k = 0; k < na[op]; ++k) v[k] = t; v[pos] = vA(); }
  BAD("opk_%s with argument %d of another space (coefficients %g %g %g)", nm[op], pos, a, b, g);
  m_snap();
  switch (op) {
  case 0: opk_vcopy(v[0], v[1]); break;
  case 1: opk_vscale(v[0], a, v[1]); break;
  case 2: opk_vswap(v[0], v[1]); break;
  case 3: r = opk_vdot(v[0], v[1]); break;
  case 4: r = opk_vdot3(v[0], v[1], v[2]); break;
  case 5: opk_vproduct(v[0], v[1], v[2]); break;
  case 6: opk_vaxpby(v[0], a, v[1], b, v[2]); break;
  default: opk_vaxpbypcz(v[0], a, v[1], b, v[2], g, v[3]); break;
  }
  m_error(1); m_same();
  if (r != 0) viol("value", "%s: value %g", mtxt, r);
  obsf("foreign-%s-%d", nm[op], pos);
}
static void m_elements(void) {
  hvec* h = &mv[r_int(0, 7)]; opk_index bad[] = { -1, h->n, h->n + 1, LONG_MIN, LONG_MAX, -h->n }, k = bad[r_int(0, 5)];
  double d = 123.25; double buf[32]; long i; int t; opk_index n;
  for (i = 0; i < 32; ++i) buf[i] = 77;
  m_snap();
  switch (r_int(0, 9)) {
  case 0: BAD("opk_vpeek(NULL)"); m_status(opk_vpeek(NULL, 0, &d), OPK_ILLEGAL_ADDRESS); break;
  case 1: BAD("opk_vpeek to NULL"); m_status(opk_vpeek(h->v, r_bool() ? 0 : k, NULL), OPK_ILLEGAL_ADDRESS); break;
  case 2: BAD("opk_vpeek at %ld of %ld", (long)k, h->n); m_status(opk_vpeek(h->v, k, &d), OPK_OUT_OF_BOUNDS_INDEX); break;
  case 3: BAD("opk_vpoke(NULL)"); m_status(opk_vpoke(NULL, 0, 1), OPK_ILLEGAL_ADDRESS); break;
  case 4: BAD("opk_vpoke at %ld of %ld", (long)k, h->n); m_status(opk_vpoke(h->v, k, 1), OPK_OUT_OF_BOUNDS_INDEX); break;
  case 5: BAD("opk_vimport with a null address");
    m_status(r_bool() ? opk_vimport(NULL, buf, OPK_DOUBLE, h->n) : opk_vimport(h->v, NULL, OPK_DOUBLE, h->n), OPK_ILLEGAL_ADDRESS); break;
  case 6: BAD("opk_vexport with a null address");
    m_status(r_bool() ? opk_vexport(NULL, OPK_DOUBLE, h->n, h->v) : opk_vexport(buf, OPK_DOUBLE, h->n, NULL), OPK_ILLEGAL_ADDRESS); break;
  case 7: t = r_bool() ? -1 : (int)r_int(2, 99); BAD("import or export of type %d", t);
    m_status(r_bool() ? opk_vimport(h->v, buf, (opk_eltype)t, h->n) : opk_vexport(buf, (opk_eltype)t, h->n, h->v), OPK_INVALID_ARGUMENT); break;
  default: t = r_bool() ? OPK_FLOAT : OPK_DOUBLE; n = r_bool() ? h->n + (r_bool() ? 1 : -1) : r_bool() ? 0 : -h->n;
    BAD("import or export of %ld elements instead of %ld", (long)n, h->n);
    m_status(r_bool() ? opk_vimport(h->v, buf, (opk_eltype)t, n) : opk_vexport(buf, (opk_eltype)t, n, h->v), OPK_INVALID_ARGUMENT); break;
  }
  m_same();
  if (d != 123.25) viol("output", "%s: output written", mtxt);
  for (i = 0; i < 32; ++i) if (buf[i] != 77) { viol("output", "%s: buffer changed", mtxt); break; }
}
static void m_wrapping(void) {
  double d[8] = { 0 }; float f[8]; void* cd = (void*)d; int dbl = r_bool(), r; opk_vspace* good = dbl ? (mA->ops == mC->ops ? NULL : NULL) : NULL;
  opk_vspace *sd, *sf; hvec *hd, *hf; long n;
  if (mv[0].single) { sf = mA; sd = mC; hf = &mv[1]; hd = &mv[7]; } else { sd = mA; sf = mC; hd = &mv[1]; hf = &mv[7]; }
  (void)good; memset(f, 0, sizeof(f)); w_rel = 0;
  m_snap();
  switch (r_int(0, 9)) {
  case 0: n = r_bool() ? 0 : -r_int(1, 1000); BAD("space of %ld elements", n);
    m_null(dbl ? opk_new_simple_double_vector_space(n) : opk_new_simple_float_vector_space(n), EINVAL); break;
  case 1: BAD("opk_allocate_vector_space of size 0"); m_null(opk_allocate_vector_space(mA->ops, 0, 0), EINVAL); break;
  case 2: { opk_index big[] = { LONG_MAX, LONG_MAX/2 + 1, (LONG_MAX >> 2) + 2, (LONG_MAX >> 3) + 1, (LONG_MAX >> 1) + 3, 1L << 62, 1L << 61, 1L << 60, (1L << 61) + 4 };
      opk_index nb = big[r_int(0, 8)]; opk_vspace* s = dbl ? opk_new_simple_double_vector_space(nb) : opk_new_simple_float_vector_space(nb);
      BAD("vector of %ld elements", (long)nb);
      if (s != NULL) { opk_vector* v; errno = 0; v = opk_vcreate(s); m_null(v, ENOMEM); if (v) OPK_DROP(v); OPK_DROP(s); }
      break; }
  case 3: BAD("vector of no space"); m_null(opk_vcreate(NULL), EFAULT); break;
  case 4: BAD("wrapping in no space"); m_null(dbl ? opk_wrap_simple_double_vector(NULL, d, w_free, cd) : opk_wrap_simple_float_vector(NULL, f, w_free, cd), EFAULT); break;
  case 5: BAD("wrapping in a space of the other type"); m_null(dbl ? opk_wrap_simple_double_vector(sf, d, w_free, cd) : opk_wrap_simple_float_vector(sd, f, w_free, cd), EINVAL); break;
  case 6: BAD("wrapping a null array"); m_null(dbl ? opk_wrap_simple_double_vector(sd, NULL, w_free, cd) : opk_wrap_simple_float_vector(sf, NULL, w_free, cd), EFAULT); break;
  case 7: { int k = (int)r_int(0, 2), e = k == 1 ? EINVAL : EFAULT;
      BAD("re-wrapping %s", k == 0 ? "NULL" : k == 1 ? "a vector of the other type" : "a null array");
      if (dbl) r = opk_rewrap_simple_double_vector(k == 0 ? NULL : k == 1 ? hf->v : hd->v, k == 2 ? NULL : d, w_free, cd);
      else r = opk_rewrap_simple_float_vector(k == 0 ? NULL : k == 1 ? hd->v : hf->v, k == 2 ? NULL : f, w_free, cd);
      if (r == OPK_SUCCESS) viol("accepted", "%s: accepted", mtxt);
      if (errno != e) viol("errno", "%s: errno %d instead of %d", mtxt, errno, e);
      obs("rewrap-refused"); break; }
  default: { int k = (int)r_int(0, 2), z = r_bool(); opk_vector* v = z ? NULL : dbl ? hf->v : hd->v;
      BAD("getting member %d of %s", k, z ? "NULL" : "a vector of the other type");
      m_null(k == 0 ? (dbl ? (void*)opk_get_simple_double_vector_data(v) : (void*)opk_get_simple_float_vector_data(v))
             : k == 1 ? (dbl ? opk_get_simple_double_vector_client_data(v) : opk_get_simple_float_vector_client_data(v))
             : (dbl ? (void*)opk_get_simple_double_vector_free_client_data(v) : (void*)opk_get_simple_float_vector_free_client_data(v)),
             z ? EFAULT : EINVAL); break; }
  }
  if (w_rel) viol("released", "%s: release function called", mtxt);
  m_same();
}
static void m_sets(void) {
  int op = (int)r_int(0, 3), how = (int)r_int(0, 2), want, got, k, pos; double s[3] = { -7, -7, -7 };
  opk_vector *d = mv[0].v, *x = mv[1].v, *p = mv[2].v; opk_convexset* set = mbox;
  opk_orientation o = r_bool() ? OPK_DESCENT : OPK_ASCENT;
  static const char* nm[] = { "project_variables", "project_direction", "get_free_variables", "get_step_limits" };
  want = how == 0 ? OPK_ILLEGAL_ADDRESS : how == 1 ? OPK_BAD_SPACE : OPK_NOT_IMPLEMENTED;
  /* positions: 0 dst, 1 x, 2 set, 3 direction */
  do { pos = (int)r_int(0, 3); } while ((op == 0 && pos == 3) || (op == 3 && pos == 0) || (how == 1 && pos == 2));
  if (how == 0) { if (pos == 0) d = NULL; else if (pos == 1) x = NULL; else if (pos == 2) set = NULL; else p = NULL; }
  else if (how == 1) { opk_vector* f = vX(); if (pos == 0) d = f; else if (pos == 1) x = f; else p = f; }
  else set = mbare;
  BAD("opk_%s: %s (argument %d)", nm[op], how == 0 ? "null address" : how == 1 ? "vector of another space" : "not implemented", pos);
  m_snap();
  got = op == 0 ? opk_project_variables(d, x, set) : op == 1 ? opk_project_direction(d, x, set, p, o)
    : op == 2 ? opk_get_free_variables(d, x, set, p, o) : opk_get_step_limits(&s[0], &s[1], &s[2], x, set, p, o);
  m_status(got, want); m_same();
  for (k = 0; k < 3; ++k) if (s[k] != -7) viol("output", "%s: output written", mtxt);
  if (opk_can_project_variables(NULL) || opk_can_project_directions(NULL) || opk_can_get_free_variables(NULL) || opk_can_get_step_limits(NULL)
      || opk_can_project_variables(mbare) || opk_can_project_directions(mbare) || opk_can_get_free_variables(mbare) || opk_can_get_step_limits(mbare))
    viol("can", "a set without operations (or no set) claims to implement some");
  if (! opk_can_project_variables(mbox) || ! opk_can_project_directions(mbox) || ! opk_can_get_free_variables(mbox) || ! opk_can_get_step_limits(mbox))
    viol("can", "a box set claims to not implement some operation");
  obsf("set-%s-%d", nm[op], how);
}
static void m_boxes(void) {
  double dl[32], du[32], sd = 1; float fl[32]; void *l, *u; int lk, uk, i, e, how = (int)r_int(0, 4), up = r_bool(); long base = a_live, bytes = a_live_bytes;
  opk_convexset* r;
  for (i = 0; i < 32; ++i) { dl[i] = -1; du[i] = 1; fl[i] = -1; }
  /* one valid side */
  lk = (int)r_int(0, 7); l = lk == 0 ? NULL : lk <= 2 ? (void*)&sd : lk == 7 ? (void*)mv[0].v : (lk & 1) ? (void*)fl : (void*)dl;
  if (lk == OPK_BOUND_SCALAR_FLOAT) l = fl;
  switch (how) {
  case 0: uk = 0; u = du; e = EINVAL; BAD("box set with a value for no bound"); break;
  case 1: uk = (int)r_int(1, 7); u = NULL; e = EFAULT; BAD("box set with a null address for a bound of kind %d", uk); break;
  case 2: uk = 7; u = vX(); e = EINVAL; BAD("box set with a bound of another space"); break;
  case 3: uk = r_bool() ? -1 : (int)r_int(8, 99); u = du; e = EINVAL; BAD("box set with a bound of kind %d", uk); break;
  default: uk = 0; u = NULL; e = EFAULT; BAD("box set of no space"); break;
  }
  m_snap();
  if (up) r = opk_new_boxset(how == 4 ? NULL : mA, (opk_bound_type)lk, l, (opk_bound_type)uk, u);
  else r = opk_new_boxset(how == 4 ? NULL : mA, (opk_bound_type)uk, u, (opk_bound_type)lk, l);
  m_null(r, e); if (r) OPK_DROP(r);
  m_same();
  if (a_live != base || a_live_bytes != bytes) viol("leak", "%s: memory remains", mtxt);
  for (i = 0; i < 32; ++i) if (dl[i] != -1 || du[i] != 1 || fl[i] != -1) { viol("operand", "%s: bounds changed", mtxt); break; }
  obsf("boxset-refused-%d", how);
}
static void m_operators(void) {
  opk_vector *d = mv[0].v, *s = mv[6].v; /* mop maps C into A: direct A <- C */
  int w = (int)r_int(0, 2), how = (int)r_int(0, 3), got, want; opk_operator* o = mop;
  m_snap();
  if (r_p(0.15)) { BAD("operator without a space"); m_null(opk_allocate_operator(&custom_op_ops, r_bool() ? NULL : mA, NULL, 0), EFAULT); m_same(); return; }
  if (r_p(0.1)) { BAD("convex set without a space"); m_null(opk_allocate_convexset(NULL, NULL, NULL, NULL, NULL, NULL, 0), EFAULT); m_same(); return; }
  if (w) { opk_vector* t = d; d = s; s = t; }
  if (how == 0) { want = OPK_ILLEGAL_ADDRESS; switch (r_int(0, 2)) { case 0: o = NULL; break; case 1: d = NULL; break; default: s = NULL; } }
  else if (how == 1) { want = OPK_BAD_SPACE; if (r_bool()) d = mv[4].v; else s = mv[5].v; if (r_p(0.3)) { d = w ? mv[0].v : mv[6].v; s = w ? mv[6].v : mv[0].v; } }
  else { want = OPK_NOT_IMPLEMENTED; if (w == 0) { want = OPK_BAD_SPACE; d = mv[6].v; } }
  BAD("operator: application %d, error %d", w, how);
  got = w == 0 ? opk_apply_direct(o, d, s) : w == 1 ? opk_apply_adjoint(o, d, s) : opk_apply_inverse(o, d, s);
  m_status(got, want); m_same();
  obsf("operator-%d-%d", w, how);
}
static void m_lnsrch(void) {
  double a = special(), b = special(), c = special(); int ok, k = (int)r_int(0, 3); opk_lnsrch* ls; long m = r_p(0.8) ? r_int(1, 9) : -r_int(0, 3);
  if (r_bool()) { a = r_unif(); b = r_unif(); c = r_unif(); switch (r_int(0, 4)) { case 0: a = special(); break; case 1: b = special(); break; case 2: c = special(); break; } }
  m_snap();
  if (k == 0) {
    BAD("csrch(%.17g,%.17g,%.17g)", a, b, c); ok = a >= 0 && b >= 0 && c >= 0; ls = opk_lnsrch_new_csrch(a, b, c);
    if (ok && (isinf(a) || isinf(b) || isinf(c))) { if (ls) OPK_DROP(ls); return; }
  } else if (k == 1) { BAD("backtrack(%.17g,%.17g)", a, b); ok = a > 0 && a < 0.5 && b > 0 && b < 1; ls = opk_lnsrch_new_backtrack(a, b); }
  else if (k == 2) { BAD("nonmonotone(%ld,%.17g,%.17g,%.17g)", m, a, b, c); ok = m >= 1 && a > 0 && fin(a) && b > 0 && b < c && c < 1; ls = opk_lnsrch_new_nonmonotone(m, a, b, c); }
  else {
    BAD("line search without operations"); ok = 0; ls = opk_allocate_line_search(NULL, 0);
    if (ls != NULL) viol("accepted", "%s: accepted", mtxt); else if (errno != EFAULT) viol("errno", "%s: errno %d", mtxt, errno);
    if (opk_lnsrch_get_task(NULL) != OPK_LNSRCH_ERROR || opk_lnsrch_get_status(NULL) != OPK_ILLEGAL_ADDRESS || opk_lnsrch_get_step(NULL) != -1
        || ! opk_lnsrch_has_errors(NULL) || opk_lnsrch_has_warnings(NULL) || opk_lnsrch_converged(NULL) || ! opk_lnsrch_finished(NULL))
      viol("null-lnsrch", "queries on no line search");
    { double s = 2; if (opk_lnsrch_iterate(NULL, &s, 1, 1) != OPK_LNSRCH_ERROR || s != 2 || opk_lnsrch_start(NULL, 1, -1, 1, 0, 2) != OPK_LNSRCH_ERROR) viol("null-lnsrch", "operations on no line search"); }
    return;
  }
  if (ok && ls == NULL) viol("refused", "%s: refused", mtxt);
  if (! ok) m_null(ls, EINVAL);
  obsf("lnsrch-%d-%s", k, ok ? "valid" : "invalid");
  if (ls) {
    if (k != 3) { /* invalid starts */
      int want, got; double s1, s2, s = r_range(0.5, 2);
      s1 = r_range(0.1, 0.4); s2 = r_range(3, 9);
      switch (r_int(0, 4)) {
      case 0: want = OPK_STPMIN_LT_ZERO; got = opk_lnsrch_start(ls, 1, -1, s, -s1, s2); break;
      case 1: want = OPK_STPMIN_GT_STPMAX; got = opk_lnsrch_start(ls, 1, -1, s, s2, s1); break;
      case 2: want = OPK_STEP_LT_STPMIN; got = opk_lnsrch_start(ls, 1, -1, s1/2, s1, s2); break;
      case 3: want = OPK_STEP_GT_STPMAX; got = opk_lnsrch_start(ls, 1, -1, s2*2, s1, s2); break;
      default: want = OPK_NOT_A_DESCENT; got = opk_lnsrch_start(ls, 1, r_bool() ? 0 : 2, s, s1, s2); break;
      }
      if (got != OPK_LNSRCH_ERROR || opk_lnsrch_get_task(ls) != got || opk_lnsrch_get_status(ls) != (opk_status)want)
        viol("start", "invalid start: task %d, status %d instead of %d", got, opk_lnsrch_get_status(ls), want);
      s1 = s;
      if (opk_lnsrch_iterate(ls, &s, 1, 1) != OPK_LNSRCH_ERROR || s != s1) viol("not-started", "iterating a search which is not started");
      obs("invalid-starts");
    }
    OPK_DROP(ls);
  }
}
static void opt_fields(double* gatol, double* grtol, double* delta, double* epsilon, double* stpmin, double* stpmax) {
  int k, nb = r_bool() ? 1 : (int)r_int(0, 3); double* f[6];
  f[0] = gatol; f[1] = grtol; f[2] = delta; f[3] = epsilon; f[4] = stpmin; f[5] = stpmax;
  for (k = 0; k < nb; ++k) *f[r_int(0, 5)] = special();
  if (r_p(0.1)) *stpmin = *stpmax;
}
static int opt_ok(double gatol, double grtol, double delta, double epsilon, double stpmin, double stpmax) {
  return fin(gatol) && gatol >= 0 && fin(grtol) && grtol >= 0 && fin(delta) && delta > 0 && fin(epsilon) && epsilon >= 0 && epsilon < 1
    && fin(stpmin) && stpmin >= 0 && fin(stpmax) && stpmax > stpmin;
}
static void m_options(void) {
  int vm = r_bool(), ok, st, drv = r_bool(); void* p; long base = a_live;
  opk_vmlmb_options v, v0; opk_nlcg_options g, g0;
  memset(&v, 0, sizeof(v)); memset(&g, 0, sizeof(g));
  opk_get_vmlmb_default_options(&v); opk_get_nlcg_default_options(&g);
  if (opk_check_vmlmb_options(&v) != OPK_SUCCESS || opk_check_nlcg_options(&g) != OPK_SUCCESS) viol("default", "default options refused");
  opk_get_vmlmb_default_options(NULL); opk_get_nlcg_default_options(NULL);
  /* queries which accept a null optimizer: no valid step, norm, number of pairs, text */
  { char b[8] = "xyz"; if (opk_get_vmlmb_step(NULL) > 0 || opk_get_vmlmb_gnorm(NULL) > 0 || opk_get_vmlmb_mp(NULL) != 0 || opk_get_nlcg_step(NULL) > 0 || opk_get_nlcg_gnorm(NULL) > 0
      || opk_get_nlcg_description(b, sizeof(b), NULL) > 1 || (b[0] != 0 && strcmp(b, "xyz") != 0)) viol("null-optimizer", "a query answers something for a null optimizer"); }
  if (vm) {
    opt_fields(&v.gatol, &v.grtol, &v.delta, &v.epsilon, &v.stpmin, &v.stpmax);
    if (r_p(0.3)) v.mem = r_int(-2, 3);
    v.blmvm = r_bool(); v.save_memory = r_bool();
    ok = opt_ok(v.gatol, v.grtol, v.delta, v.epsilon, v.stpmin, v.stpmax) && v.mem >= 1;
    BAD("vmlmb options gatol=%.17g grtol=%.17g delta=%.17g epsilon=%.17g stpmin=%.17g stpmax=%.17g mem=%ld", v.gatol, v.grtol, v.delta, v.epsilon, v.stpmin, v.stpmax, (long)v.mem);
  } else {
    opt_fields(&g.gatol, &g.grtol, &g.delta, &g.epsilon, &g.stpmin, &g.stpmax);
    if (r_p(0.3)) { g.fmin_given = r_bool(); g.fmin = special(); }
    if (r_p(0.5)) g.flags = (unsigned)(r_p(0.2) ? 0 : r_p(0.7) ? r_int(0, 10) : r_int(0, 255)) | (unsigned)((r_bool() ? OPK_NLCG_POWELL : 0) | (r_bool() ? OPK_NLCG_SHANNO_PHUA : 0));
    ok = opt_ok(g.gatol, g.grtol, g.delta, g.epsilon, g.stpmin, g.stpmax) && (! g.fmin_given || fin(g.fmin))
      && (g.flags == 0 || ((g.flags & 255) >= 1 && (g.flags & 255) <= 8));
    BAD("nlcg options gatol=%.17g grtol=%.17g delta=%.17g epsilon=%.17g stpmin=%.17g stpmax=%.17g fmin=%g (%d) flags=0x%x", g.gatol, g.grtol, g.delta, g.epsilon, g.stpmin, g.stpmax, g.fmin, g.fmin_given, g.flags);
  }
  v0 = v; g0 = g;
  m_snap();
  st = vm ? opk_check_vmlmb_options(&v) : opk_check_nlcg_options(&g);
  if ((st == OPK_SUCCESS) != ok) viol("checker", "%s: checker answers %d", mtxt, st);
  else if (! ok && st != OPK_INVALID_ARGUMENT) viol("checker", "%s: status %d", mtxt, st);
  if ((vm ? opk_check_vmlmb_options(NULL) : opk_check_nlcg_options(NULL)) != OPK_ILLEGAL_ADDRESS) viol("checker", "no options: not an illegal address");
  errno = 0;
  if (drv) p = opk_new_optimizer(vm ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, vm ? (void*)&v : (void*)&g, r_bool() ? OPK_FLOAT : OPK_DOUBLE, r_int(1, 6), OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  else p = vm ? (void*)opk_new_vmlmb_optimizer(&v, mA, NULL, r_bool() ? mbox : NULL) : (void*)opk_new_nlcg_optimizer(&g, mA, NULL);
  if (ok && p == NULL) viol("constructor", "%s: refused by the constructor (errno %d)", mtxt, errno);
  if (! ok) m_null(p, EINVAL);
  if (p) OPK_DROP(p);
  if (memcmp(&v, &v0, sizeof(v)) || memcmp(&g, &g0, sizeof(g))) viol("options-changed", "%s: options modified", mtxt);
  m_same();
  if (a_live != base) viol("leak", "%s: memory remains", mtxt);
  obsf("options-%s-%s", vm ? "vmlmb" : "nlcg", ok ? "valid" : "invalid");
}
static void m_constructors(void) {
  double z[32]; float zf[32]; int i, how = (int)r_int(0, 10), e, lk = 0, uk = 0, alg = r_bool() ? OPK_ALGORITHM_NLCG : OPK_ALGORITHM_VMLMB, type = r_bool() ? OPK_FLOAT : OPK_DOUBLE;
  opk_index n = mv[0].n; void *l = NULL, *u = NULL, *p; long base = a_live;
  for (i = 0; i < 32; ++i) { z[i] = 1; zf[i] = 1; } (void)zf;
  m_snap();
  switch (how) {
  case 0: BAD("vmlmb optimizer of no space"); m_null(opk_new_vmlmb_optimizer(NULL, NULL, NULL, NULL), EFAULT); goto done;
  case 1: BAD("nlcg optimizer of no space"); m_null(opk_new_nlcg_optimizer(NULL, NULL, NULL), EFAULT); goto done;
  case 2: BAD("vmlmb optimizer with bounds of another space"); m_null(opk_new_vmlmb_optimizer(NULL, r_bool() ? mB : mC, NULL, mbox), EINVAL); goto done;
  case 3: n = -r_int(0, 5); e = EINVAL; break;
  case 4: type = r_bool() ? -1 : (int)r_int(2, 50); e = EINVAL; break;
  case 5: alg = r_bool() ? -1 : (int)r_int(2, 50); e = EINVAL; break;
  case 6: alg = OPK_ALGORITHM_NLCG; lk = OPK_BOUND_SCALAR_DOUBLE; l = z; if (r_bool()) { uk = lk; u = l; lk = 0; l = NULL; } e = EINVAL; break;
  case 7: alg = OPK_ALGORITHM_VMLMB; if (r_bool()) lk = (int)r_int(1, 7); else uk = (int)r_int(1, 7); e = EFAULT; break;
  case 8: alg = OPK_ALGORITHM_VMLMB; if (r_bool()) l = z; else u = z; e = EFAULT; break;
  case 9: alg = OPK_ALGORITHM_VMLMB; if (r_bool()) { lk = (int)r_int(8, 40); l = z; } else { uk = -1; u = z; } e = EINVAL; break;
  default: alg = OPK_ALGORITHM_VMLMB; if (r_bool()) { lk = OPK_BOUND_VECTOR; l = mv[r_int(0, 7)].v; } else { uk = OPK_BOUND_VECTOR; u = mv[r_int(0, 7)].v; } e = EINVAL; break;
  }
  BAD("optimizer: algorithm %d, type %d, n=%ld, bounds %d%s and %d%s", alg, type, (long)n, lk, l ? "" : " (null)", uk, u ? "" : " (null)");
  p = opk_new_optimizer((opk_algorithm)alg, NULL, (opk_eltype)type, n, (opk_bound_type)lk, l, (opk_bound_type)uk, u, NULL);
  m_null(p, e); if (p) OPK_DROP(p);
 done:
  m_same();
  if (a_live != base) viol("leak", "%s: memory remains", mtxt);
  for (i = 0; i < 32; ++i) if (z[i] != 1) { viol("operand", "%s: bounds changed", mtxt); break; }
  obsf("constructor-refused-%d", how);
}
static void m_driver(void) {
  config C; opk_optimizer* o; long i, n, k; double f = 0, *x, *g; float *xs, *gs; int task; char buf[40];
  cfg_random(&C, CF_NOBOUND); n = C.n;
  o = opk_new_optimizer(C.vmlmb ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, NULL, C.single ? OPK_FLOAT : OPK_DOUBLE, n, OPK_BOUND_NONE, NULL, OPK_BOUND_NONE, NULL, NULL);
  if (o == NULL) { viol("refused", "optimizer refused"); return; }
  x = ard(n); g = ard(n); xs = arf(n); gs = arf(n);
  for (i = 0; i < n; ++i) { x[i] = xs[i] = (float)(1 + i); }
#define X_ (C.single ? (void*)xs : (void*)x)
#define G_ (C.single ? (void*)gs : (void*)g)
  if (r_bool()) {
    opk_start(o, X_);
    for (k = r_int(0, 3); k > 0; --k) {
      f = 0; for (i = 0; i < n; ++i) { double z = C.single ? xs[i] : x[i]; f += z*z; g[i] = 2*z; gs[i] = (float)g[i]; }
      opk_iterate(o, X_, f, G_);
    }
  }
  { double* x0 = ard(n); double* g0 = ard(n); int how = (int)r_int(0, 3);
    for (i = 0; i < n; ++i) { x0[i] = C.single ? xs[i] : x[i]; g0[i] = C.single ? gs[i] : g[i]; }
    BAD("driver with a null array (%d)", how);
    task = how == 0 ? opk_start(o, NULL) : how == 1 ? opk_iterate(o, NULL, f, G_) : how == 2 ? opk_iterate(o, X_, f, NULL) : opk_iterate(o, NULL, f, NULL);
    if (task != OPK_TASK_ERROR || opk_get_task(o) != OPK_TASK_ERROR || opk_get_status(o) != OPK_ILLEGAL_ADDRESS)
      viol("driver", "%s: task %d (%d), status %d", mtxt, task, opk_get_task(o), opk_get_status(o));
    for (i = 0; i < n; ++i) if (! same_bits(x0[i], C.single ? xs[i] : x[i]) || ! same_bits(g0[i], C.single ? gs[i] : g[i])) { viol("operand", "%s: variables or gradient changed", mtxt); break; }
    if (opk_start(o, X_) != OPK_TASK_COMPUTE_FG || opk_get_status(o) != OPK_SUCCESS) viol("driver", "%s: cannot be started again", mtxt);
  }
  OPK_DROP(o);
  BAD("no optimizer");
  if (opk_start(NULL, X_) != OPK_TASK_ERROR || opk_iterate(NULL, X_, f, G_) != OPK_TASK_ERROR || opk_get_task(NULL) != OPK_TASK_ERROR
      || opk_get_status(NULL) != OPK_ILLEGAL_ADDRESS || opk_get_evaluations(NULL) != 0 || opk_get_iterations(NULL) != 0 || opk_get_restarts(NULL) != 0
      || opk_get_step(NULL) >= 0 || opk_get_gnorm(NULL) > 0) viol("driver", "operations on no optimizer");
  memset(buf, 'x', sizeof(buf));
  if (opk_get_name(buf, sizeof(buf), NULL) != 1 || buf[0] != 0 || buf[1] != 'x') viol("driver", "name of no optimizer");
  memset(buf, 'x', sizeof(buf));
  if (opk_get_description(buf, sizeof(buf), NULL) != 1 || buf[0] != 0 || buf[1] != 'x') viol("driver", "description of no optimizer");
  opk_destroy_optimizer(NULL);
  obs("driver-null");
}
static void m_fmin(void) {
  double out[7], a = r_norm(); int r, i;
  for (i = 0; i < 7; ++i) out[i] = 55;
  BAD("fmin with an empty interval"); errno = 0;
  r = opk_fmin(fq, a, a, (unsigned)r_int(0, 3), 50, 1e-3, out);
  if (r != -1 || errno != EINVAL) viol("fmin", "%s: %d, errno %d", mtxt, r, errno);
  for (i = 0; i < 7; ++i) if (out[i] != 55) { viol("output", "%s: output written", mtxt); break; }
  obs("fmin-refused");
}
static void m_other(const char* msg) { (void)msg; merrors += 1000; }
static void m_handlers(void) {
  opk_error_handler *h0, *h1;
  BAD("error handlers"); m_snap();
  if (opk_get_error_handler() != m_handler) viol("handlers", "the handler is not the one which was set");
  h0 = opk_set_error_handler(m_other);
  if (h0 != m_handler || opk_get_error_handler() != m_other) viol("handlers", "setting a handler does not give the previous one, or is without effect");
  opk_error("text");
  if (merrors != 1000) viol("handlers", "the new handler is not called (%ld)", merrors);
  h1 = opk_set_error_handler(NULL);
  if (h1 != m_other) viol("handlers", "restoring the default handler does not give the previous one");
  h1 = opk_get_error_handler();
  if (h1 == NULL || h1 == m_other || h1 == m_handler) viol("handlers", "no default handler");
  else {
    int p[2]; pid_t k; char b[200]; ssize_t n = 0; int st = 0;
    if (pipe(p) != 0) HARNESS_BUG("pipe");
    fflush(stdout); fflush(stderr); k = fork();
    if (k == 0) { signal(SIGABRT, SIG_DFL); dup2(p[1], 2); if (r_bool()) opk_error("some text"); else { opk_vdot(mv[0].v, mv[6].v); } _exit(7); }
    close(p[1]); { ssize_t q; while (n < 199 && (q = read(p[0], b + n, 199 - n)) > 0) n += q; } b[n > 0 ? n : 0] = 0; close(p[0]); waitpid(k, &st, 0);
    if (! WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) viol("handlers", "the default handler does not abort (status %d)", st);
    if (n < 12) viol("handlers", "the default handler prints %s", n > 0 ? b : "nothing");
    obs("default-handler");
  }
  opk_set_error_handler(m_handler); merrors = 0; m_same(); obs("handlers");
}
static void c04(uint64_t c) {
  long n = r_int(1, 6), i, k; int single = r_bool(), kind;
  opk_error_handler* old = opk_set_error_handler(m_handler);
  kind = (int)(c % 11);
  a_fill = 0x77;
  mA = hv_space(single, n); mB = hv_space(single, n); mC = hv_space(! single, n);
  for (k = 0; k < NMV; ++k) {
    mv[k] = hv_new(k < 4 ? mA : k < 6 ? mB : mC, k < 6 ? single : ! single, n, r_bool());
    for (i = 0; i < n; ++i) hv_set(&mv[k], i, r_norm());
  }
  mbox = opk_new_boxset(mA, OPK_BOUND_VECTOR, mv[3].v, OPK_BOUND_NONE, NULL);
  mbare = opk_allocate_convexset(mA, NULL, NULL, NULL, NULL, NULL, 0);
  mop = opk_allocate_operator(&custom_op_ops, mC, mA, 0);
  if (! mbox || ! mbare || ! mop) HARNESS_BUG("setup");
  { int t; for (t = 0; t < 6; ++t) switch (kind) {
    case 0: m_vectors(); break; case 1: m_elements(); break; case 2: m_wrapping(); break; case 3: m_sets(); break;
    case 4: m_boxes(); if (t == 0 && r_p(0.2)) m_handlers(); break; case 5: m_operators(); break; case 6: m_lnsrch(); break; case 7: m_options(); break;
    case 8: m_constructors(); break; case 9: m_driver(); break; default: if (t) m_options(); else m_fmin(); break; } }
  obs_n("incorrect-calls", 6);
  hash_bytes(mtxt, strlen(mtxt)); hash_l((long)c % 977); nontrivial();
  OPK_DROP(mop); OPK_DROP(mbare); OPK_DROP(mbox);
  for (k = 0; k < NMV; ++k) hv_free(&mv[k]);
  OPK_DROP(mA); OPK_DROP(mB); OPK_DROP(mC);
  a_fill = -1; nev = 0;
  opk_set_error_handler(old);
}
