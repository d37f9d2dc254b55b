/* huge.c -- more than 2^31 elements: vectors (C01, C05, C06, C07), strides
   and leading dimensions (C18 to C21).  No array is really that big: the pages
   of a huge vector all share the same few physical pages (a period which is
   not a power of two) and the matrices or strided arrays are sparse reserved
   address space, of which only the pages of the elements are touched. */
#include "common.h"
#include "optimpack.h"
#include "optimpack-linalg.h"
#define IX(i, n, inc) ((inc) >= 0 ? (i)*(inc) : ((i) - ((n) - 1))*(inc))
#define ALIAS ((size_t)(1025*4096))

static size_t sparse_bytes(size_t b) { return (b + 8191)/4096*4096; }
static void* sparse(size_t bytes) {
  void* p = mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  return p == MAP_FAILED ? NULL : p;
}
static size_t alias_bytes(size_t b) { return (b + ALIAS - 1)/ALIAS*ALIAS; }
static void* alias_map(size_t bytes) {
  int fd = memfd_create("verif-huge", MFD_CLOEXEC); char* p; size_t o;
  if (fd < 0 || ftruncate(fd, ALIAS) != 0) { if (fd >= 0) close(fd); return NULL; }
  p = (char*)mmap(NULL, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == (char*)MAP_FAILED) { close(fd); return NULL; }
  for (o = 0; o < bytes; o += ALIAS) {
    if (mmap(p + o, ALIAS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(p, bytes); close(fd); return NULL; }
  }
  close(fd);
  return p;
}

#define T float
#define FN(x) opk_s ## x
#define TAG(x) s_ ## x
#define EPS FLT_EPSILON
#define TNAME "s"
#define WRAPV opk_wrap_simple_float_vector
#define NEWSPACE opk_new_simple_float_vector_space
#define ELTYPE OPK_FLOAT
#define REALMAX ((double)FLT_MAX)
#define opk_siamax opk_isamax
#include "huge_t.h"
#define T double
#define FN(x) opk_d ## x
#define TAG(x) d_ ## x
#define EPS DBL_EPSILON
#define TNAME "d"
#define WRAPV opk_wrap_simple_double_vector
#define NEWSPACE opk_new_simple_double_vector_space
#define ELTYPE OPK_DOUBLE
#define REALMAX DBL_MAX
#define opk_diamax opk_idamax
#include "huge_t.h"

void harness_init(void) { if (h_case_limit < 400) h_case_limit = 400; }
void run_case(uint64_t c) {
  int single = ! (c & 1);
  if (strcmp(h_prop, "C20") == 0) { if (single) s_level1(); else d_level1(); }
  else if (strcmp(h_prop, "C21") == 0) { if (single) s_level23(); else d_level23(); }
  else if (strcmp(h_prop, "C18") == 0 || strcmp(h_prop, "C19") == 0) { int w = atoi(h_prop + 1); if (single) s_trust(w); else d_trust(w); }
  else { int what = strcmp(h_prop, "C05") == 0 ? 5 : strcmp(h_prop, "C06") == 0 ? 6 : strcmp(h_prop, "C07") == 0 ? 7 : 1; if (single) s_huge(what); else d_huge(what); }
}
