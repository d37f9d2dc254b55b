/* Built-in functions added to the copy of the plug-in under test: evaluations,
 * exact event log, count of the blocks owned by the library. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pstdlib.h>
#include <yapi.h>

extern long vp_evals;
double vp_eval(long kind, long seed, long n, const double* x, double* g);
void vp_cons(long seed, long m, long n, const double* x, double* c);

/* Blocks of the library (the interpreter has its own functions). */
static long live = 0;
void* __real_malloc(size_t n); void __real_free(void* p); void* __real_calloc(size_t n, size_t m); void* __real_realloc(void* p, size_t n);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) ++live; return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); if (p) ++live; return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); if (!q && p) ++live; return p; }
/* Arrays of the interpreter kept by the objects. */
void* __real_yget_use(int iarg); void __real_ydrop_use(void* h);
void* __wrap_yget_use(int iarg) { void* p = __real_yget_use(iarg); if (p) ++live; return p; }
void __wrap_ydrop_use(void* h) { if (h) --live; __real_ydrop_use(h); }
void __wrap_free(void* p) { if (p) --live; __real_free(p); }

static FILE* out = NULL;
void Y_vp_open(int argc) { out = fopen(ygets_q(0), "w"); if (!out) y_error("cannot open the log"); ypush_nil(); }
void Y_vp_live(int argc) { ypush_long(live); }
void Y_vp_evals(int argc) { long v = vp_evals; vp_evals = 0; ypush_long(v); }
void Y_vp_log(int argc) {
  int k; long i;
  fprintf(out, "%s", ygets_q(argc - 1));
  for (k = argc - 2; k >= 0; --k) {
    int t = yarg_typeid(k);
    if (t <= Y_DOUBLE) {
      long ntot, dims[Y_DIMSIZE]; int type; void* a = ygeta_any(k, &ntot, dims, &type);
      fputs(type <= Y_LONG ? " i" : type == Y_FLOAT ? " f" : " d", out);
      for (i = 1; i <= dims[0]; ++i) fprintf(out, "%c%ld", i == 1 ? '[' : ',', dims[i]);
      if (dims[0]) fputc(']', out);
      for (i = 0; i < ntot; ++i) {
        fputc(i ? ',' : ':', out);
        switch (type) {
        case Y_CHAR: fprintf(out, "%d", ((unsigned char*)a)[i]); break;
        case Y_SHORT: fprintf(out, "%d", ((short*)a)[i]); break;
        case Y_INT: fprintf(out, "%d", ((int*)a)[i]); break;
        case Y_LONG: fprintf(out, "%ld", ((long*)a)[i]); break;
        case Y_FLOAT: { unsigned u; memcpy(&u, (float*)a + i, 4); fprintf(out, "%08x", u); } break;
        default: { unsigned long u; memcpy(&u, (double*)a + i, 8); fprintf(out, "%016lx", u); }
        }
      }
    } else if (t == Y_STRING) {
      long n; char** q = ygeta_q(k, &n, NULL);
      fputs(" q:", out);
      for (i = 0; i < n; ++i) { const char* s = q[i]; if (!s) fputs("(null)", out); else for (; *s; ++s) { if (*s <= ' ' || *s == '%' || *s >= 127 || *s < 0) fprintf(out, "%%%02x", (unsigned char)*s); else fputc(*s, out); } }
    } else fputs(t == Y_VOID ? " v" : " ?", out);
  }
  fputc('\n', out); fflush(out);
  ypush_nil();
}
#define MAXN 64
static long get_x(int iarg, double* x, long* dims, int* type) {
  long n, i; void* a = ygeta_any(iarg, &n, dims, type);
  if (n > MAXN) y_error("vp: too many variables");
  for (i = 0; i < n; ++i) switch (*type) { case Y_FLOAT: x[i] = ((float*)a)[i]; break; case Y_DOUBLE: x[i] = ((double*)a)[i]; break; default: y_error("vp: variables are not real numbers"); }
  return n;
}
void Y_vp_f(int argc) { /* vp_f(kind, seed, x) */
  double x[MAXN]; long dims[Y_DIMSIZE]; int type; long n = get_x(0, x, dims, &type);
  ++vp_evals;
  ypush_double(vp_eval(ygets_l(2), ygets_l(1), n, x, NULL));
}
void Y_vp_g(int argc) { /* vp_g(kind, seed, x) */
  double x[MAXN], g[MAXN]; long dims[Y_DIMSIZE], i; int type; long n = get_x(0, x, dims, &type);
  vp_eval(ygets_l(2), ygets_l(1), n, x, g);
  if (type == Y_FLOAT) { float* r = ypush_f(dims); for (i = 0; i < n; ++i) r[i] = (float)g[i]; }
  else { double* r = ypush_d(dims); for (i = 0; i < n; ++i) r[i] = g[i]; }
}
void Y_vp_c(int argc) { /* vp_c(seed, m, x) */
  double x[MAXN]; long dims[Y_DIMSIZE], m = ygets_l(1); int type; long n = get_x(0, x, dims, &type), seed = ygets_l(2);
  dims[0] = 1; dims[1] = m;
  vp_cons(seed, m, n, x, ypush_d(dims));
}
