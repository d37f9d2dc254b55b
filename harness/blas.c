/* blas.c -- linear algebra kernels (C20, C21). */
#include "common.h"
#include "optimpack.h"
#include "optimpack-linalg.h"
typedef long double LD;
#define PROP(p) (strcmp(h_prop, p) == 0)

#define T float
#define FN(x) opk_s ## x
#define TAG(x) s_ ## x
#define EPS FLT_EPSILON
#define TINY FLT_MIN
#define HUGE_T FLT_MAX
#define TNAME "s"
#define opk_siamax opk_isamax
#include "blas_t.h"
#define T double
#define FN(x) opk_d ## x
#define TAG(x) d_ ## x
#define EPS DBL_EPSILON
#define TINY DBL_MIN
#define HUGE_T DBL_MAX
#define TNAME "d"
#define opk_diamax opk_idamax
#include "blas_t.h"

void run_case(uint64_t c) {
  int single = r_bool();
  if (PROP("C20")) { if (single) s_level1(); else d_level1(); }
  else { if (single) s_level23(c); else d_level23(c); }
}
