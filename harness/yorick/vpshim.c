/* Reference: thin C layer over the library's public interface. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "optimpack.h"
typedef struct { opk_optimizer* opt; void *lo, *up; } ref;
enum { K_DELTA = 1, K_EPSILON, K_GATOL, K_GRTOL, K_STPMIN, K_STPMAX, K_FMIN, K_FLAGS, K_MEM };
static opk_bound_type bound(int kind, int single, long n, const double* v, void** addr) {
  long i; *addr = NULL;
  if (kind == 0) return OPK_BOUND_NONE;
  if (kind == 1) { double* p = malloc(sizeof(double)); *p = v[0]; *addr = p; return OPK_BOUND_SCALAR_DOUBLE; }
  if (single) { float* p = malloc(n*sizeof(float)); for (i = 0; i < n; ++i) p[i] = (float)v[i]; *addr = p; return OPK_BOUND_STATIC_FLOAT; }
  else { double* p = malloc(n*sizeof(double)); for (i = 0; i < n; ++i) p[i] = v[i]; *addr = p; return OPK_BOUND_STATIC_DOUBLE; }
}
ref* vs_new(int alg, int single, long n, int nk, const int* keys, const double* vals, int lk, const double* lo, int uk, const double* up) {
  ref* r = calloc(1, sizeof(ref)); opk_nlcg_options cg; opk_vmlmb_options vm; int k; opk_bound_type lt, ut;
  opk_get_nlcg_default_options(&cg); opk_get_vmlmb_default_options(&vm); vm.blmvm = (alg == 2);
  for (k = 0; k < nk; ++k) switch (keys[k]) {
    case K_DELTA: cg.delta = vm.delta = vals[k]; break;
    case K_EPSILON: cg.epsilon = vm.epsilon = vals[k]; break;
    case K_GATOL: cg.gatol = vm.gatol = vals[k]; break;
    case K_GRTOL: cg.grtol = vm.grtol = vals[k]; break;
    case K_STPMIN: cg.stpmin = vm.stpmin = vals[k]; break;
    case K_STPMAX: cg.stpmax = vm.stpmax = vals[k]; break;
    case K_FMIN: cg.fmin = vals[k]; cg.fmin_given = 1; break;
    case K_FLAGS: cg.flags = (unsigned)vals[k]; break;
    case K_MEM: vm.mem = (opk_index)vals[k]; break;
  }
  lt = bound(lk, single, n, lo, &r->lo); ut = bound(uk, single, n, up, &r->up);
  r->opt = opk_new_optimizer(alg ? OPK_ALGORITHM_VMLMB : OPK_ALGORITHM_NLCG, alg ? (void*)&vm : (void*)&cg, single ? OPK_FLOAT : OPK_DOUBLE, n, lt, r->lo, ut, r->up, NULL);
  return r;
}
int vs_ok(ref* r) { return r->opt != NULL; }
void vs_free(ref* r) { opk_destroy_optimizer(r->opt); free(r->lo); free(r->up); free(r); }
int vs_start(ref* r, void* x) { return opk_start(r->opt, x); }
int vs_iterate(ref* r, void* x, double f, void* g) { return opk_iterate(r->opt, x, f, g); }
int vs_task(ref* r) { return opk_get_task(r->opt); }
int vs_status(ref* r) { return opk_get_status(r->opt); }
long vs_iterations(ref* r) { return opk_get_iterations(r->opt); }
long vs_evaluations(ref* r) { return opk_get_evaluations(r->opt); }
long vs_restarts(ref* r) { return opk_get_restarts(r->opt); }
double vs_gnorm(ref* r) { return opk_get_gnorm(r->opt); }
double vs_step(ref* r) { return opk_get_step(r->opt); }
const char* vs_reason(int status) { return opk_get_reason(status); }
static char text[4096];
const char* vs_name(ref* r) { opk_get_name(text, sizeof(text), r->opt); return text; }
const char* vs_description(ref* r) { opk_get_description(text, sizeof(text), r->opt); return text; }
long vs_constant(const char* name, int* ok) { long v = 0; *ok = opk_get_integer_constant(name, &v) == OPK_SUCCESS; return v; }
