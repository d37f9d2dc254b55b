/* strings.c -- texts, names and constants (C28). */
#include "optcommon.h"
#include "bobyqa.h"
#include "newuoa.h"
#include "cobyla.h"

static int has(const char* text, const char* word) { return strcasestr(text, word) != NULL; }

/*------------------------------------------------ texts of codes */
typedef struct { int code; const char* word; } keyword;
/* A word that the text of each code must contain. */
static const keyword opk_words[] = {
  {0, "success"}, {1, "argument"}, {2, "memory"}, {3, "address"}, {4, "implemented"}, {5, "workspace"},
  {6, "space"}, {7, "index"}, {8, "started"}, {9, "descent"}, {10, "changed"}, {11, "bracket"},
  {12, "larger"}, {13, "zero"}, {14, "lower bound"}, {15, "upper bound"}, {16, "function"}, {17, "gradient"},
  {18, "variable"}, {19, "upper bound"}, {20, "lower bound"}, {21, "rounding"}, {22, "operator"},
  {23, "preconditioner"}, {24, "infeasible"}, {25, "block"}, {26, "undefined"}, {27, "evaluations"}, {28, "iterations"}};
static const keyword bob_words[] = {
  {BOBYQA_SUCCESS, "converged"}, {BOBYQA_BAD_NVARS, "variables"}, {BOBYQA_BAD_NPT, "NPT"}, {BOBYQA_BAD_RHO_RANGE, "radius"},
  {BOBYQA_BAD_SCALING, "scaling"}, {BOBYQA_TOO_CLOSE, "bounds"}, {BOBYQA_ROUNDING_ERRORS, "cancellation"},
  {BOBYQA_TOO_MANY_EVALUATIONS, "evaluations"}, {BOBYQA_STEP_FAILED, "step"}};
static const keyword new_words[] = {
  {NEWUOA_ITERATE, "requested"}, {NEWUOA_SUCCESS, "converged"}, {NEWUOA_BAD_NVARS, "variables"}, {NEWUOA_BAD_NPT, "NPT"},
  {NEWUOA_BAD_RHO_RANGE, "radius"}, {NEWUOA_BAD_SCALING, "scaling"}, {NEWUOA_ROUNDING_ERRORS, "cancellation"},
  {NEWUOA_TOO_MANY_EVALUATIONS, "evaluations"}, {NEWUOA_STEP_FAILED, "step"}, {NEWUOA_BAD_ADDRESS, "address"},
  {NEWUOA_CORRUPTED, "workspace"}};
static const keyword cob_words[] = {
  {COBYLA_ITERATE, "requested"}, {COBYLA_SUCCESS, "success"}, {COBYLA_BAD_NVARS, "variables"},
  {COBYLA_BAD_NCONS, "constraints"}, {COBYLA_BAD_RHO_RANGE, "radius"}, {COBYLA_BAD_SCALING, "scaling"},
  {COBYLA_ROUNDING_ERRORS, "rounding"}, {COBYLA_TOO_MANY_EVALUATIONS, "evaluations"}, {COBYLA_BAD_ADDRESS, "address"},
  {COBYLA_CORRUPTED, "workspace"}};
static const char* opk_r(int c) { return opk_get_reason((opk_status)c); }
static const char* bob_r(int c) { return bobyqa_reason((bobyqa_status)c); }
static const char* new_r(int c) { return newuoa_reason((newuoa_status)c); }
static const char* cob_r(int c) { return cobyla_reason((cobyla_status)c); }
#define NEL(t) ((int)(sizeof(t)/sizeof(t[0])))
static const struct { const char* name; const char* (*fn)(int); const keyword* w; int n; } families[4] = {
  {"opk", opk_r, opk_words, NEL(opk_words)}, {"bobyqa", bob_r, bob_words, NEL(bob_words)},
  {"newuoa", new_r, new_words, NEL(new_words)}, {"cobyla", cob_r, cob_words, NEL(cob_words)}};

static void case_reasons(void) {
  int fam = (int)r_int(0, 3), n = families[fam].n, i, j, known = 0;
  const keyword* w = families[fam].w;
  const char* s; const char* t; int code;
  i = (int)r_int(0, n - 1);
  s = families[fam].fn(w[i].code);
  if (s == NULL || s[0] == '\0') { viol("empty-reason", "%s: no text for code %d", families[fam].name, w[i].code); return; }
  if (! has(s, w[i].word)) viol("wrong-reason", "%s: text of code %d is \"%s\" (no \"%s\")", families[fam].name, w[i].code, s, w[i].word);
  if (has(s, "unknown")) viol("unknown-reason", "%s: text of code %d is \"%s\"", families[fam].name, w[i].code, s);
  for (j = 0; j < n; ++j) {
    if (j == i || w[i].code == w[j].code) continue;
    t = families[fam].fn(w[j].code);
    if (t && strcmp(s, t) == 0) viol("same-reason", "%s: codes %d and %d have the same text \"%s\"", families[fam].name, w[i].code, w[j].code, s);
  }
  /* Unknown codes. */
  do {
    code = r_p(0.5) ? (int)r_int(-40, 60) : r_p(0.5) ? (int)(r_u64() >> 33) : -(int)(r_u64() >> 33);
    for (known = j = 0; j < n; ++j) if (w[j].code == code) known = 1;
  } while (known);
  s = families[fam].fn(code);
  if (s == NULL || (s[0] != '\0' && ! has(s, "unknown")))
    viol("reason-of-unknown", "%s: text of the unknown code %d is \"%s\"", families[fam].name, code, s ? s : "(null)");
  obsf("reasons-%s", families[fam].name); hash_l(fam); hash_l(i); hash_l(code); nontrivial();
}

/*------------------------------------------------ errno */
static void case_errno(void) {
  int code = r_p(0.3) ? ENOMEM : r_p(0.3) ? EFAULT : r_p(0.3) ? EINVAL : r_p(0.8) ? (int)r_int(-5, 140) : (int)(r_u64() >> 32);
  opk_status s; 
  s = opk_guess_status(code);
  if (code == ENOMEM && s != OPK_INSUFFICIENT_MEMORY) viol("guess", "status of ENOMEM is %d", s);
  else if (code == EFAULT && s != OPK_ILLEGAL_ADDRESS) viol("guess", "status of EFAULT is %d", s);
  else if (code == EINVAL && s != OPK_INVALID_ARGUMENT) viol("guess", "status of EINVAL is %d", s);
  else if (code != ENOMEM && code != EFAULT && code != EINVAL && (int)s >= 0 && (int)s < OPK_MAX_STATUS)
    viol("guess-other", "status of error %d is %d", code, s);
  obs(code == ENOMEM ? "errno-ENOMEM" : code == EFAULT ? "errno-EFAULT" : code == EINVAL ? "errno-EINVAL" : "errno-other");
  hash_l(code); nontrivial();
}

/*------------------------------------------------ constants */
#define K(s) { #s, (long)(s) }
static const struct { const char* name; long value; } constants[] = {
#define OPK_STATUS_(a, b, c) K(b),
  OPK_STATUS_LIST_
#undef OPK_STATUS_
  K(OPK_TRUE), K(OPK_FALSE), K(OPK_FLOAT), K(OPK_DOUBLE),
  K(OPK_TASK_ERROR), K(OPK_TASK_START), K(OPK_TASK_COMPUTE_FG), K(OPK_TASK_NEW_X), K(OPK_TASK_FINAL_X), K(OPK_TASK_WARNING),
  K(OPK_LNSRCH_ERROR), K(OPK_LNSRCH_SEARCH), K(OPK_LNSRCH_CONVERGENCE), K(OPK_LNSRCH_WARNING),
  K(OPK_NLCG_FLETCHER_REEVES), K(OPK_NLCG_HESTENES_STIEFEL), K(OPK_NLCG_POLAK_RIBIERE_POLYAK), K(OPK_NLCG_FLETCHER),
  K(OPK_NLCG_LIU_STOREY), K(OPK_NLCG_DAI_YUAN), K(OPK_NLCG_PERRY_SHANNO), K(OPK_NLCG_HAGER_ZHANG), K(OPK_NLCG_POWELL),
  K(OPK_NLCG_SHANNO_PHUA), K(OPK_NLCG_DEFAULT),
  K(OPK_BOUND_NONE), K(OPK_BOUND_SCALAR_FLOAT), K(OPK_BOUND_SCALAR_DOUBLE), K(OPK_BOUND_STATIC_FLOAT), K(OPK_BOUND_STATIC_DOUBLE),
  K(OPK_BOUND_VOLATILE_FLOAT), K(OPK_BOUND_VOLATILE_DOUBLE), K(OPK_BOUND_VECTOR),
  K(OPK_ASCENT), K(OPK_DESCENT),
  K(OPK_SCALING_NONE), K(OPK_SCALING_OREN_SPEDICATO), K(OPK_SCALING_BARZILAI_BORWEIN),
  K(OPK_LBFGS), K(OPK_VMLMB), K(OPK_BLMVM), K(OPK_ALGORITHM_NLCG), K(OPK_ALGORITHM_VMLMB),
  K(OPK_FMIN_BOUNDED_BY_A), K(OPK_FMIN_BOUNDED_BY_B), K(OPK_FMIN_SMOOTH), K(OPK_FMIN_ERROR), K(OPK_FMIN_START), K(OPK_FMIN_FX),
  K(OPK_FMIN_NEWX), K(OPK_FMIN_CONVERGENCE) };
/* Values written in the documentation of the interface. */
static const struct { const char* name; long value; } published[] = {
  {"OPK_SUCCESS", 0}, {"OPK_TASK_ERROR", -1}, {"OPK_TASK_START", 0}, {"OPK_TASK_COMPUTE_FG", 1}, {"OPK_TASK_NEW_X", 2},
  {"OPK_TASK_FINAL_X", 3}, {"OPK_TASK_WARNING", 4}, {"OPK_NLCG_POWELL", 256}, {"OPK_NLCG_SHANNO_PHUA", 512}, {"OPK_ASCENT", -1},
  {"OPK_DESCENT", 1}, {"OPK_FMIN_BOUNDED_BY_A", 1}, {"OPK_FMIN_BOUNDED_BY_B", 2}, {"OPK_FMIN_SMOOTH", 4}};
static int known_constant(const char* s) {
  int i;
  for (i = 0; i < NEL(constants); ++i) if (strcmp(s, constants[i].name) == 0) return 1;
  return 0;
}
static void case_constants(void) {
  int i = (int)r_int(0, NEL(constants) - 1), how = (int)r_int(0, 6), k;
  const char* name = constants[i].name; size_t l = strlen(name);
  char* s = (char*)ar(l + 12); long v, mark = (long)r_u64(); opk_status st;
  /* the name in a block of exactly its size */
  { char* t = (char*)ar(l + 1); memcpy(t, name, l + 1);
    v = constants[i].value + 1 + (long)r_int(0, 5);
    st = opk_get_integer_constant(t, &v);
    if (st != OPK_SUCCESS || v != constants[i].value)
      viol("constant", "%s: status %d, value %ld instead of %ld", name, st, v, constants[i].value);
    st = opk_get_integer_constant(t, NULL);
    if (st != OPK_SUCCESS) viol("constant-null", "%s: status %d with a NULL address", name, st);
    obs("constants"); }
  k = (int)r_int(0, NEL(published) - 1);
  v = 12345;
  if (opk_get_integer_constant(published[k].name, &v) != OPK_SUCCESS || v != published[k].value)
    viol("published-constant", "%s is %ld instead of %ld", published[k].name, v, published[k].value);
  /* something else */
  memcpy(s, name, l + 1);
  switch (how) {
  case 0: s[l - 1 - r_int(0, 2)] = '\0'; break;
  case 1: s[l] = "_XS0 "[r_int(0, 4)]; s[l + 1] = '\0'; break;
  case 2: k = (int)r_int(0, l - 1); s[k] = (char)(s[k] ^ 0x20); break;
  case 3: memmove(s, s + 1, l); break;
  case 4: memmove(s + 1, s, l + 1); s[0] = ' '; break;
  case 5: for (k = 0; k < (int)l; ++k) if (s[k] >= 'A' && s[k] <= 'Z') s[k] += 32; break;
  default: for (k = 0; k < (int)r_int(0, l); ++k) s[k] = (char)r_int(1, 255); s[k] = '\0'; break;
  }
  if (! known_constant(s)) {
    v = mark;
    st = opk_get_integer_constant(s, &v);
    if (st != OPK_INVALID_ARGUMENT) viol("not-a-constant", "\"%s\" accepted: status %d", s, st);
    if (v != mark) viol("not-a-constant-value", "value written for \"%s\"", s);
    if (opk_get_integer_constant(s, NULL) != OPK_INVALID_ARGUMENT) viol("not-a-constant", "\"%s\" accepted with a NULL address", s);
    obs("not-constants");
  }
  v = mark;
  if (opk_get_integer_constant(NULL, &v) != OPK_INVALID_ARGUMENT || opk_get_integer_constant("", &v) != OPK_INVALID_ARGUMENT
      || v != mark) viol("no-name", "NULL or empty name accepted");
  hash_bytes(s, strlen(s)); hash_l(i); nontrivial();
}

/*------------------------------------------------ copies */
/* Expected result of copying SRC in a buffer: judge one call. */
typedef size_t copier(char* buf, size_t size, void* arg);
static void judge_copy(const char* what, copier* fn, void* arg, const char* src, size_t size) {
  size_t l = strlen(src), r, i, m;
  unsigned char fill = (unsigned char)r_int(1, 255);
  /* exact block, so that any overrun is seen, and the same with a margin */
  char* b = (char*)ar(size); 
  memset(b, fill, size);
  r = fn(b, size, arg);
  if (r != l + 1) viol("copy-size", "%s: %zu bytes reported instead of %zu (buffer of %zu)", what, r, l + 1, size);
  if (size > 0) {
    m = (size > l ? l : size - 1);
    if (memcmp(b, src, m) != 0) viol("copy-text", "%s: wrong text in a buffer of %zu bytes", what, size);
    if (b[m] != '\0') viol("copy-end", "%s: text not terminated at %zu in a buffer of %zu bytes", what, m, size);
  }
  b = (char*)ar(size + 64); memset(b, fill, size + 64);
  r = fn(b + 32, size, arg);
  for (i = 0; i < size + 64; ++i) if ((i < 32 || i >= 32 + size) && (unsigned char)b[i] != fill) {
    viol("copy-overrun", "%s: byte %ld written, buffer of %zu bytes", what, (long)i - 32, size); break; }
  obs("copies"); if (size <= l) obs("copies-truncated"); if (size == 0) obs("copies-empty-buffer");
}
static void judge_null(const char* what, copier* fn, void* arg, const char* src) {
  size_t r = fn(NULL, 0, arg), l = strlen(src);
  if (r != l + 1) viol("copy-null", "%s: %zu bytes reported instead of %zu (NULL buffer)", what, r, l + 1);
  r = fn(NULL, (size_t)r_int(1, 100), arg);
  if (r != l + 1) viol("copy-null", "%s: %zu bytes reported instead of %zu (NULL buffer, size not 0)", what, r, l + 1);
}
static size_t cp_string(char* buf, size_t size, void* arg) { return opk_copy_string(buf, size, (const char*)arg); }
static void case_copy(void) {
  size_t l = (size_t)(r_p(0.2) ? 0 : r_p(0.5) ? r_int(1, 12) : r_int(1, 300)), i;
  char* s = (char*)ar(l + 1);
  for (i = 0; i < l; ++i) s[i] = (char)r_int(1, 255);
  s[l] = '\0';
  judge_copy("opk_copy_string", cp_string, s, s, (size_t)r_int(0, (long)l + 4));
  judge_copy("opk_copy_string", cp_string, s, s, l + (size_t)r_int(-1 + (l == 0), 1));
  judge_null("opk_copy_string", cp_string, s, s);
  if (r_p(0.1)) {
    judge_copy("opk_copy_string(NULL)", cp_string, NULL, "", (size_t)r_int(0, 4));
    judge_null("opk_copy_string(NULL)", cp_string, NULL, "");
    obs("copies-of-null");
  }
  hash_bytes(s, l); nontrivial();
}

/*------------------------------------------------ names and descriptions */
static size_t cp_nlcg(char* buf, size_t size, void* arg) { return opk_get_nlcg_description(buf, size, (opk_nlcg*)arg); }
static size_t cp_vmlmb(char* buf, size_t size, void* arg) { return opk_get_vmlmb_description(buf, size, (opk_vmlmb*)arg); }
static size_t cp_name(char* buf, size_t size, void* arg) { return opk_get_name(buf, size, (opk_optimizer*)arg); }
static size_t cp_desc(char* buf, size_t size, void* arg) { return opk_get_description(buf, size, (opk_optimizer*)arg); }
static int has_number(const char* s, long v) {
  char b[32]; const char* p = s; size_t l;
  snprintf(b, sizeof(b), "%ld", v); l = strlen(b);
  while ((p = strstr(p, b)) != NULL) {
    if ((p == s || p[-1] < '0' || p[-1] > '9') && (p[l] < '0' || p[l] > '9')) return 1;
    ++p;
  }
  return 0;
}
static const char* rule_words[9][2] = { {0, 0}, {"Fletcher", "Reeves"}, {"Hestenes", "Stiefel"}, {"Polak", "Polyak"}, {"Fletcher", "descent"},
  {"Liu", "Storey"}, {"Dai", "Yuan"}, {"Perry", "Shanno"}, {"Hager", "Zhang"} };
static void check_description(const config* C, const char* s, const char* how, unsigned flags, long mem, int bounded) {
  if (s[0] == '\0') { viol("empty-description", "%s: empty description", how); return; }
  if (C->vmlmb) {
    if (! has_number(s, mem)) viol("description-memory", "%s: \"%s\" does not tell the number of steps %ld", how, s, mem);
    if ((has(s, "bound") != 0) != bounded) viol("description-bounds", "%s: \"%s\" with bounds: %d", how, s, bounded);
  } else {
    unsigned r = flags & 0xff, k;
    if (! has(s, rule_words[r][0]) || ! has(s, rule_words[r][1]))
      viol("description-rule", "%s: \"%s\" for the method 0x%x", how, s, flags);
    if (r != OPK_NLCG_FLETCHER_REEVES) for (k = 1; k <= 8; ++k) if (k != r && k != OPK_NLCG_FLETCHER && has(s, rule_words[k][0]))
      { if (! (k == OPK_NLCG_FLETCHER_REEVES && r == OPK_NLCG_FLETCHER)) viol("description-other-rule", "%s: \"%s\" for the method 0x%x", how, s, flags); }
    if ((has(s, "Powell") != 0) != ((flags & OPK_NLCG_POWELL) != 0)) viol("description-powell", "%s: \"%s\" for the method 0x%x", how, s, flags);
    if ((has(s, "Phua") != 0) != ((flags & OPK_NLCG_SHANNO_PHUA) != 0)) viol("description-phua", "%s: \"%s\" for the method 0x%x", how, s, flags);
  }
}
static void case_description(void) {
  config C; lowopt O; char text[600], name[100]; size_t l; const char* want; long mem; unsigned flags; int bounded; opk_optimizer* D;
  copier* fn; void* arg; long i;
  cfg_random(&C, 0);
  if (r_p(0.2)) { C.vo.mem = (opk_index)(r_u64() >> 2); if (C.vo.mem < 1) C.vo.mem = 7; }
  if (! low_new(&O, &C)) HARNESS_BUG("optimizer refused");
  bounded = cfg_bounded(&C);
  mem = C.use_opts ? (long)C.vo.mem : 5;
  if (mem > C.n) mem = C.n;
  flags = C.use_opts && C.no.flags ? C.no.flags : OPK_NLCG_DEFAULT;
  fn = C.vmlmb ? cp_vmlmb : cp_nlcg; arg = C.vmlmb ? (void*)O.v : (void*)O.c;
  l = fn(text, sizeof(text), arg);
  if (l < 1 || l > sizeof(text) || memchr(text, 0, sizeof(text)) == NULL) { viol("description", "bad description"); return; }
  check_description(&C, text, "low level", flags, mem, bounded);
  judge_null("description", fn, arg, text);
  judge_copy("description", fn, arg, text, (size_t)r_int(0, (long)strlen(text) + 3));
  judge_copy("description", fn, arg, text, strlen(text) + (size_t)r_int(-1, 1));
  want = ! C.vmlmb ? "NLCG" : ! bounded ? "VMLM/L-BFGS" : C.use_opts && C.vo.blmvm ? "BLMVM" : "VMLMB";
  if (C.vmlmb) {
    const char* s = opk_get_vmlmb_method_name(O.v);
    opk_vmlmb_method m = opk_get_vmlmb_method(O.v);
    if (s == NULL || strcmp(s, want) != 0) viol("method-name", "\"%s\" instead of \"%s\"", s ? s : "(null)", want);
    if (m != (! bounded ? OPK_LBFGS : C.use_opts && C.vo.blmvm ? OPK_BLMVM : OPK_VMLMB)) viol("method", "method %d for %s", m, want);
  }
  obsf("descriptions-%s", want);
  if (! C.vmlmb) { obsf("rule-%u", flags & 0xff); if ((flags & OPK_NLCG_POWELL) && (flags & OPK_NLCG_SHANNO_PHUA)) obs("all-flags"); }
  low_free(&O);
  /* The driver gives the same texts. */
  if (! C.vmlmb || C.ls == LS_DEFAULT || 1) {
    hvec d1, d2; void* lo; void* up;
    if (C.lk == OPK_BOUND_VECTOR) C.lk = OPK_BOUND_STATIC_DOUBLE;
    if (C.uk == OPK_BOUND_VECTOR) C.uk = OPK_BOUND_STATIC_DOUBLE;
    lo = cfg_bound_addr(&C, 0, &d1, NULL); up = cfg_bound_addr(&C, 1, &d2, NULL);
    D = opk_new_optimizer(C.vmlmb ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, C.use_opts ? (C.vmlmb ? (void*)&C.vo : (void*)&C.no) : NULL,
                          C.single ? OPK_FLOAT : OPK_DOUBLE, C.n, C.lk, lo, C.uk, up, NULL);
    if (D == NULL) HARNESS_BUG("driver refused");
    {
      char t2[600]; size_t l2 = opk_get_description(t2, sizeof(t2), D);
      if (l2 != l || strcmp(t2, text) != 0) viol("driver-description", "\"%s\" instead of \"%s\"", t2, text);
      judge_null("opk_get_description", cp_desc, D, text);
      judge_copy("opk_get_description", cp_desc, D, text, (size_t)r_int(0, (long)strlen(text) + 3));
      l2 = opk_get_name(name, sizeof(name), D);
      if (l2 != strlen(want) + 1 || strcmp(name, want) != 0) viol("driver-name", "\"%s\" instead of \"%s\"", name, want);
      judge_null("opk_get_name", cp_name, D, want);
      judge_copy("opk_get_name", cp_name, D, want, (size_t)r_int(0, (long)strlen(want) + 3));
    }
    opk_destroy_optimizer(D);
    obs("driver-texts");
  }
  judge_copy("opk_get_name(NULL)", cp_name, NULL, "", (size_t)r_int(0, 3));
  judge_copy("opk_get_description(NULL)", cp_desc, NULL, "", (size_t)r_int(0, 3));
  for (i = 0; i < 600; ++i) if (! text[i]) break;
  hash_bytes(text, strlen(text)); hash_l(C.n); nontrivial();
}
void run_case(uint64_t c) {
  switch (c % 6) {
  case 0: case_reasons(); break;
  case 1: case_errno(); break;
  case 2: case_constants(); break;
  case 3: case_copy(); break;
  default: case_description();
  }
  if (a_live != 0) { viol("leak", "%ld blocks not released", a_live); }
  if (c == 0) sample("%d constants, %d OptimPack texts", NEL(constants), NEL(opk_words));
}
