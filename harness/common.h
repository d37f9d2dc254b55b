/* common.h -- shared infrastructure of the monitoring harnesses.
 *
 * A harness defines  void run_case(uint64_t c)  (and optionally
 * void harness_init(void), void harness_done(void)).  Cases are numbered; every
 * random choice of a case derives from (seed, case number) only, so that any
 * case can be replayed alone.  Output protocol, parsed by /verif/run.py:
 *   OBS <key> <count>          sums of observed events
 *   MAX <key> <value>          maxima of observed quantities
 *   H <hex>                    hash of a non-trivial case (for distinctness)
 *   SAMPLE <text>              a case written out
 *   VIOL <prop> <case> <sig> <text>
 *   DONE <cases>
 */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H 1

#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>

#ifndef TRUE
# define TRUE 1
#endif
#ifndef FALSE
# define FALSE 0
#endif
#define UNUSED __attribute__((unused))

/*---------------------------------------------------------------- state */
static const char* h_prop = "?";
static uint64_t h_seed = 1;
static uint64_t h_case = 0;
static const char* h_as = NULL; /* only crashes, leaks and bad releases count, reported for this property */
static int h_thorough = 0;
static int h_verbose = 0;
static volatile uint64_t* h_progress = NULL;
static long h_nviol = 0;
static int h_case_limit = 60; /* CPU seconds per case */

void run_case(uint64_t c);
void harness_init(void) __attribute__((weak));
void harness_done(void) __attribute__((weak));

/*---------------------------------------------------------------- counters */
#define H_MAXOBS 600
static struct { char key[96]; double val; int ismax; } h_obs[H_MAXOBS];
static int h_nobs = 0;
static int h_obs_find(const char* key, int ismax) {
  int i;
  for (i = 0; i < h_nobs; ++i) {
    if (h_obs[i].ismax == ismax && strcmp(h_obs[i].key, key) == 0) return i;
  }
  if (h_nobs >= H_MAXOBS) { fprintf(stderr, "too many counters\n"); exit(90); }
  snprintf(h_obs[h_nobs].key, sizeof(h_obs[0].key), "%s", key);
  h_obs[h_nobs].val = ismax ? -INFINITY : 0;
  h_obs[h_nobs].ismax = ismax;
  return h_nobs++;
}
static UNUSED void obs_n(const char* key, long n) { h_obs[h_obs_find(key, 0)].val += n; }
static UNUSED void obs(const char* key) { obs_n(key, 1); }
static UNUSED void obsf(const char* fmt, ...) {
  char buf[96]; va_list ap;
  va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  obs_n(buf, 1);
}
static UNUSED void obs_max(const char* key, double v) {
  int i = h_obs_find(key, 1);
  if (v > h_obs[i].val) h_obs[i].val = v;
}

/*---------------------------------------------------------------- hashing */
static uint64_t h_hash;
static int h_nontrivial;
static UNUSED void hash_bytes(const void* p, size_t n) {
  const unsigned char* b = (const unsigned char*)p; size_t i;
  for (i = 0; i < n; ++i) { h_hash ^= b[i]; h_hash *= 1099511628211ULL; }
}
static UNUSED void hash_d(double x) { hash_bytes(&x, sizeof(x)); }
static UNUSED void hash_l(long x) { hash_bytes(&x, sizeof(x)); }
static UNUSED void nontrivial(void) { h_nontrivial = 1; }

/*---------------------------------------------------------------- violations */
static FILE* h_out; /* standard output, whatever is done with stdout */
static UNUSED void violp(const char* prop, const char* sig, const char* fmt, ...)
  __attribute__((format(printf, 3, 4)));
static UNUSED void violp(const char* prop, const char* sig, const char* fmt, ...) {
  char buf[900]; va_list ap; char* s;
  if (h_as != NULL) {
    if (strncmp(sig, "leak", 4) != 0 && strcmp(sig, "free") != 0 && strcmp(sig, "unknown-free") != 0) { obs("functional-alarms"); return; }
    prop = h_as;
  } else if (strcmp(prop, h_prop) != 0) { obs("other-property-alarms"); return; }
  va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
  for (s = buf; *s; ++s) if (*s == '\n') *s = ' ';
  if (h_nviol < 12) {
    fprintf(h_out ? h_out : stdout, "VIOL %s %llu %s %s\n", prop, (unsigned long long)h_case, sig, buf);
    fflush(h_out ? h_out : stdout);
  }
  ++h_nviol;
}
#define viol(sig, ...) violp(h_prop, sig, __VA_ARGS__)

static int h_nsamples = 0;
static UNUSED void sample(const char* fmt, ...) {
  va_list ap;
  if (h_nsamples >= 3) return;
  ++h_nsamples;
  fprintf(h_out, "SAMPLE case %llu: ", (unsigned long long)h_case);
  va_start(ap, fmt); vfprintf(h_out, fmt, ap); va_end(ap);
  fprintf(h_out, "\n");
}
#define HARNESS_BUG(...) \
  do { dprintf(2, "HARNESS BUG %s:%d: ", __FILE__, __LINE__); \
    dprintf(2, __VA_ARGS__); dprintf(2, "\n"); _exit(91); } while (0)

/*---------------------------------------------------------------- random numbers */
static __thread uint64_t r_s[4];
static uint64_t r_split(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static UNUSED void r_init(uint64_t seed, uint64_t c) {
  uint64_t x = seed*0x2545F4914F6CDD1DULL + c*0x9E3779B97F4A7C15ULL + 0x1234567ULL;
  int i; for (i = 0; i < 4; ++i) r_s[i] = r_split(&x);
}
#define R_ROTL(x, k) (((x) << (k)) | ((x) >> (64 - (k))))
static UNUSED uint64_t r_u64(void) {
  uint64_t res = R_ROTL(r_s[1]*5, 7)*9, t = r_s[1] << 17;
  r_s[2] ^= r_s[0]; r_s[3] ^= r_s[1]; r_s[1] ^= r_s[2]; r_s[0] ^= r_s[3];
  r_s[2] ^= t; r_s[3] = R_ROTL(r_s[3], 45);
  return res;
}
static UNUSED double r_unif(void) { return (double)(r_u64() >> 11)*0x1p-53; } /* [0,1) */
static UNUSED double r_range(double a, double b) { return a + (b - a)*r_unif(); }
static UNUSED long r_int(long a, long b) { /* inclusive */
  return a + (long)(r_u64() % (uint64_t)(b - a + 1)); }
static UNUSED int r_bool(void) { return (int)(r_u64() >> 63); }
static UNUSED int r_p(double p) { return r_unif() < p; }
static UNUSED double r_norm(void) {
  double u = 1.0 - r_unif(), v = r_unif();
  return sqrt(-2*log(u))*cos(2*M_PI*v);
}
static UNUSED double r_logu(double a, double b) { /* log-uniform */
  return exp(r_range(log(a), log(b))); }

/*---------------------------------------------------------------- allocations
 * The library and the harness are linked with --wrap for the allocation
 * functions: every allocation is recorded, can be made to fail, and is filled
 * with a chosen pattern.  The harness itself uses h_alloc (not recorded). */
extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);

static long a_count = 0;      /* number of allocations since a_begin() */
static long a_fail_at = -1;   /* index of the allocation to fail (0-based) */
static int a_fail_after = 0;  /* fail also all next ones */
static long a_failed = 0;     /* number of failures injected */
static int a_fill = -1;       /* fill pattern, or -1: leave as is */
static long a_unknown_free = 0;

#define A_HUGE ((size_t)1 << 36)
#define A_HSIZE (1 << 16)
typedef struct { void* p; size_t n; long idx; } a_blk;
static a_blk* a_tab = NULL;
static long a_live = 0;
static long a_live_bytes = 0;
#ifndef NO_ALLOC_WRAP
static void a_put(void* p, size_t n) {
  size_t h;
  if (a_tab == NULL) {
    a_tab = (a_blk*)mmap(NULL, A_HSIZE*sizeof(a_blk), PROT_READ|PROT_WRITE,
                         MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
  }
  if (a_live > A_HSIZE/2) { fprintf(stderr, "allocation table full\n"); _exit(92); }
  h = ((uintptr_t)p >> 4)*0x9E3779B97F4A7C15ULL >> 48;
  while (a_tab[h].p != NULL) h = (h + 1) % A_HSIZE;
  a_tab[h].p = p; a_tab[h].n = n; a_tab[h].idx = a_count; ++a_live; a_live_bytes += n;
}
static int a_del(void* p, size_t* np) {
  size_t h, j;
  if (a_tab == NULL) return 0;
  h = ((uintptr_t)p >> 4)*0x9E3779B97F4A7C15ULL >> 48;
  while (a_tab[h].p != p) { if (a_tab[h].p == NULL) return 0; h = (h + 1) % A_HSIZE; }
  if (np) *np = a_tab[h].n;
  a_live_bytes -= a_tab[h].n; --a_live;
  a_tab[h].p = NULL; /* backward shift deletion */
  for (j = (h + 1) % A_HSIZE; a_tab[j].p != NULL; j = (j + 1) % A_HSIZE) {
    a_blk b = a_tab[j]; size_t k;
    a_tab[j].p = NULL;
    k = ((uintptr_t)b.p >> 4)*0x9E3779B97F4A7C15ULL >> 48;
    while (a_tab[k].p != NULL) k = (k + 1) % A_HSIZE;
    a_tab[k] = b;
  }
  return 1;
}
/* Number of the live block at address p, -1 if there is none. */
static UNUSED long a_index(void* p) {
  size_t h;
  if (a_tab == NULL || p == NULL) return -1;
  h = ((uintptr_t)p >> 4)*0x9E3779B97F4A7C15ULL >> 48;
  while (a_tab[h].p != p) { if (a_tab[h].p == NULL) return -1; h = (h + 1) % A_HSIZE; }
  return a_tab[h].idx;
}
static int a_should_fail(void) {
  long i = a_count++;
  if (a_fail_at >= 0 && (i == a_fail_at || (a_fail_after && i > a_fail_at))) {
    ++a_failed; errno = ENOMEM; return 1;
  }
  return 0;
}
static void a_paint(void* p, size_t n) {
#if !defined(MSAN_BUILD)
  if (a_fill >= 0) memset(p, a_fill, n);
#else
  (void)p; (void)n;
#endif
}
void* __wrap_malloc(size_t n) {
  void* p;
  if (a_should_fail()) return NULL;
  if (n > A_HUGE) { errno = ENOMEM; return NULL; } /* no such amount of memory */
  p = __real_malloc(n);
  if (p) { a_paint(p, n); a_put(p, n); }
  return p;
}
void* __wrap_calloc(size_t m, size_t n) {
  void* p;
  if (a_should_fail()) return NULL;
  if (n > 0 && m > A_HUGE/n) { errno = ENOMEM; return NULL; }
  p = __real_calloc(m, n);
  if (p) a_put(p, m*n);
  return p;
}
void __wrap_free(void* p) {
  if (p == NULL) return;
  if (! a_del(p, NULL)) ++a_unknown_free;
  __real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
  size_t old = 0; void* q;
  if (p == NULL) return __wrap_malloc(n);
  if (a_should_fail()) return NULL;
  if (! a_del(p, &old)) ++a_unknown_free;
  q = __real_realloc(p, n);
  if (q == NULL) { a_put(p, old); return NULL; }
  if (n > old) a_paint((char*)q + old, n - old);
  a_put(q, n);
  return q;
}
char* __wrap_strdup(const char* s) {
  size_t n = strlen(s) + 1; char* p = (char*)__wrap_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
#define h_alloc(n)  h_alloc_(n)
static UNUSED void* h_alloc_(size_t n) {
  void* p = __real_malloc(n ? n : 1);
  if (p == NULL) { fprintf(stderr, "harness out of memory\n"); _exit(93); }
  memset(p, 0, n); return p;
}
#define h_free(p) __real_free(p)
#else
static UNUSED void* h_alloc(size_t n) {
  void* p = calloc(n ? n : 1, 1);
  if (p == NULL) { fprintf(stderr, "harness out of memory\n"); _exit(93); }
  return p;
}
#define h_free(p) free(p)
#endif
/* Plan failures and reset the count of allocations. */
static UNUSED void a_begin(long fail_at, int after) {
  a_count = 0; a_failed = 0; a_fail_at = fail_at; a_fail_after = after;
}
static UNUSED void a_end(void) { a_fail_at = -1; a_fail_after = 0; }

/* Per-case arena for the harness: everything is released at the end of the
   case.  Each block is an exact heap block, so that ASan sees overruns. */
static void* ar_tab[20000];
static int ar_n = 0;
static UNUSED void* ar(size_t n) {
  void* p = h_alloc(n);
  if (ar_n >= 20000) HARNESS_BUG("arena full");
  ar_tab[ar_n++] = p; return p;
}
static UNUSED double* ard(size_t n) { return (double*)ar(n*sizeof(double)); }
static UNUSED float* arf(size_t n) { return (float*)ar(n*sizeof(float)); }
static void ar_release(void) { while (ar_n > 0) h_free(ar_tab[--ar_n]); }

/*---------------------------------------------------------------- helpers */
static UNUSED double dmax(double a, double b) { return a > b ? a : b; }
static UNUSED double dmin(double a, double b) { return a < b ? a : b; }
static UNUSED int same_bits(double a, double b) { return memcmp(&a, &b, sizeof(a)) == 0; }
static UNUSED int same_bitsf(float a, float b) { return memcmp(&a, &b, sizeof(a)) == 0; }
/* Same value: equal, or both NaN (-0 == +0). */
static UNUSED int same_val(double a, double b) { return a == b || (isnan(a) && isnan(b)); }

/*---------------------------------------------------------------- main */
static void h_timeout(int sig) {
  char buf[80]; int n;
  (void)sig;
  n = snprintf(buf, sizeof(buf), "\nTIMEOUT %llu\n", (unsigned long long)h_case);
  if (write(1, buf, n) < 0) {}
  _exit(97);
}
static void h_timer(int sec) {
  struct itimerval it; memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, NULL);
}
static UNUSED void h_flush_obs(void) {
  int i;
  for (i = 0; i < h_nobs; ++i) {
    if (h_obs[i].ismax) printf("MAX %s %.6g\n", h_obs[i].key, h_obs[i].val);
    else printf("OBS %s %.0f\n", h_obs[i].key, h_obs[i].val);
  }
}
int main(int argc, char** argv) {
  uint64_t start = 0, count = 1, stride = 1, i, done = 0;
  int k, timer = 1;
  h_out = stdout;
  for (k = 1; k < argc; ++k) {
#define OPT(s) (strcmp(argv[k], s) == 0 && k + 1 < argc)
    if (OPT("--prop")) h_prop = argv[++k];
    else if (OPT("--as")) h_as = argv[++k];
    else if (OPT("--seed")) h_seed = strtoull(argv[++k], NULL, 10);
    else if (OPT("--start")) start = strtoull(argv[++k], NULL, 10);
    else if (OPT("--count")) count = strtoull(argv[++k], NULL, 10);
    else if (OPT("--stride")) stride = strtoull(argv[++k], NULL, 10);
    else if (OPT("--limit")) h_case_limit = atoi(argv[++k]);
    else if (OPT("--progress")) {
      int fd = open(argv[++k], O_RDWR|O_CREAT, 0644);
      if (fd >= 0 && ftruncate(fd, 4096) == 0) {
        void* p = mmap(NULL, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) h_progress = (volatile uint64_t*)p;
      }
      if (fd >= 0) close(fd);
    }
    else if (strcmp(argv[k], "--thorough") == 0) h_thorough = 1;
    else if (strcmp(argv[k], "--verbose") == 0) h_verbose = 1;
    else if (strcmp(argv[k], "--no-timer") == 0) timer = 0;
    else { fprintf(stderr, "bad argument %s\n", argv[k]); return 94; }
  }
  signal(SIGPROF, h_timeout);
  if (harness_init) harness_init();
  for (i = 0; i < count; ++i) {
    h_case = start + i*stride;
    if (h_progress) h_progress[0] = h_case + 1;
    r_init(h_seed, h_case);
    h_hash = 14695981039346656037ULL; h_nontrivial = 0;
    if (timer) h_timer(h_case_limit);
    run_case(h_case);
    a_end();
    ar_release();
    ++done;
    if (h_nontrivial) printf("H %llx\n", (unsigned long long)h_hash);
    if (h_nviol >= 12) break;
  }
  if (timer) h_timer(0);
  if (harness_done) harness_done();
  h_flush_obs();
  printf("DONE %llu\n", (unsigned long long)done);
  fflush(stdout);
  return h_nviol > 0 ? 10 : 0;
}
#endif
