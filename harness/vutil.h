/* vutil.h -- vectors under observation: the harness keeps the raw storage. */
#ifndef VUTIL_H
#define VUTIL_H 1
#include "common.h"
#include "optimpack.h"
#include "optimpack-private.h"

typedef struct {
  opk_vector* v;
  int single;
  long n;
  void* data;      /* the raw elements */
  void* own;       /* storage to release after the vector, or NULL */
} hvec;

static UNUSED opk_vspace* hv_space(int single, long n) {
  opk_vspace* s = single ? opk_new_simple_float_vector_space(n)
    : opk_new_simple_double_vector_space(n);
  if (s == NULL) HARNESS_BUG("no vector space");
  return s;
}
/* how: 0 = created by the library, 1 = wrapped memory */
static UNUSED hvec hv_new(opk_vspace* s, int single, long n, int how) {
  hvec h; memset(&h, 0, sizeof(h));
  h.single = single; h.n = n;
  if (how == 0) {
    h.v = opk_vcreate(s);
    if (h.v == NULL) HARNESS_BUG("no vector");
    h.data = single ? (void*)opk_get_simple_float_vector_data(h.v)
      : (void*)opk_get_simple_double_vector_data(h.v);
  } else {
    h.own = h_alloc(n*(single ? sizeof(float) : sizeof(double)));
    h.data = h.own;
    h.v = single ? opk_wrap_simple_float_vector(s, (float*)h.data, NULL, NULL)
      : opk_wrap_simple_double_vector(s, (double*)h.data, NULL, NULL);
    if (h.v == NULL) HARNESS_BUG("no wrapped vector");
  }
  return h;
}
static UNUSED void hv_free(hvec* h) {
  if (h->v) OPK_DROP(h->v);
  if (h->own) h_free(h->own);
  memset(h, 0, sizeof(*h));
}
static UNUSED double hv_get(const hvec* h, long i) {
  return h->single ? (double)((float*)h->data)[i] : ((double*)h->data)[i];
}
static UNUSED void hv_set(hvec* h, long i, double x) {
  if (h->single) ((float*)h->data)[i] = (float)x; else ((double*)h->data)[i] = x;
}
static UNUSED double* hv_dup(const hvec* h) { /* copy of the elements (arena) */
  double* p = ard(h->n); long i;
  for (i = 0; i < h->n; ++i) p[i] = hv_get(h, i);
  return p;
}
static UNUSED int hv_same(const hvec* h, const double* ref) {
  long i;
  for (i = 0; i < h->n; ++i) if (! same_bits(hv_get(h, i), ref[i])) return 0;
  return 1;
}
static UNUSED double hv_eps(int single) { return single ? FLT_EPSILON : DBL_EPSILON; }
static UNUSED double hv_tiny(int single) { return single ? FLT_MIN : DBL_MIN; }
#endif
