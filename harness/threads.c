/* threads.c -- distinct objects used from distinct threads (C31).
 *
 * Actors run alone first; then several threads, started together, each step
 * their own actors, interleaved, on objects and arrays of their own.  The race
 * detector watches all accesses; the traces must be those of the runs alone. */
#include "actors.h"
#include <pthread.h>
#include <sched.h>

#define MAXT 6
#define PER 3
typedef struct { int id, n; actor* a[PER]; int lim[PER]; uint64_t sched; long steps, yields; } work;
static pthread_barrier_t bar; static int ready;
static __thread work* me; static __thread int deep;
static uint64_t next(uint64_t* s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s; }
static int one(work* w) {
  int c[PER], n = 0, i;
  for (i = 0; i < w->n; ++i) if (! w->a[i]->ended && ! w->a[i]->busy) c[n++] = i;
  if (n == 0) return 0;
  i = c[next(&w->sched) % n]; ++w->steps;
  actor_step(w->a[i]); if (w->a[i]->ended || w->a[i]->nstep >= w->lim[i]) actor_finish(w->a[i]);
  return 1;
}
static void thook(actor* a) { (void)a;
  if (! me) return;
  switch (next(&me->sched) % 12) { case 0: sched_yield(); ++me->yields; break; case 1: if (deep < 2) { ++deep; one(me); --deep; } break; }
}
static void* body(void* p) {
  me = (work*)p; deep = 0; act_cur = NULL;
  pthread_barrier_wait(&bar);
  do { if (next(&me->sched) % 16 == 0) { sched_yield(); ++me->yields; } } while (one(me));
  me = NULL;
  return NULL;
}
void run_case(uint64_t c) {
  int nt = (int)r_int(2, MAXT), i, j, k; work W[MAXT]; actor* ref[MAXT][PER]; pthread_t th[MAXT]; static char what[1200]; size_t w = 0; uint64_t dup = r_u64(); int dupk = (int)(c % AK_COUNT), same = r_p(0.4);
  actor_hook = thook; opk_set_error_handler(act_handler); act_capture(1);
  for (i = 0; i < nt; ++i) {
    memset(&W[i], 0, sizeof(work)); W[i].id = i; W[i].n = (int)r_int(1, PER); W[i].sched = r_u64() | 1;
    for (j = 0; j < W[i].n; ++j) {
      int kind = j == 0 && (same || i == 0) ? dupk : (int)r_int(0, AK_COUNT - 1); uint64_t seed = j == 0 && same && r_bool() ? dup : r_u64();
      int wp = (int)r_int(0, 3), lim = (int)r_int(2, 30);
      ref[i][j] = actor_new(kind, seed, wp);
      while (ref[i][j]->nstep < lim && actor_step(ref[i][j])) {}
      actor_finish(ref[i][j]);
      W[i].a[j] = actor_new(kind, seed, (wp + 1) % 4); W[i].lim[j] = lim;
      if (w < sizeof(what) - 220) w += snprintf(what + w, sizeof(what) - w, "%s[%d: %s]", w ? ", " : "", i, ref[i][j]->what);
      obsf("thread-actor-%s", ak_name[kind]);
    }
  }
  if (c < 2) sample("%s", what);
  pthread_barrier_init(&bar, NULL, nt); (void)ready;
  for (i = 0; i < nt; ++i) if (pthread_create(&th[i], NULL, body, &W[i]) != 0) HARNESS_BUG("no thread");
  for (i = 0; i < nt; ++i) pthread_join(th[i], NULL);
  pthread_barrier_destroy(&bar);
  act_capture(0);
  for (i = 0; i < nt; ++i) {
    obs("threads"); obs_n("steps-in-threads", W[i].steps); obs_n("yields", W[i].yields); hash_l(W[i].sched);
    for (j = 0; j < W[i].n; ++j) {
      actor *a = W[i].a[j], *r = ref[i][j];
      for (k = 0; k < a->nstep && k < r->nstep; ++k) if (a->trace[k] != r->trace[k]) { viol("different", "step %d of [%s] differs in a thread, with: %s", k, r->what, what); break; }
      if (a->nstep != r->nstep) viol("different", "[%s] makes %d steps in a thread, %d alone, with: %s", r->what, a->nstep, r->nstep, what);
      obs_n("steps-compared", k); if (a->printed) obs("threads-printing"); if (a->errs) obs("threads-with-errors"); h_free(a); h_free(r);
    }
  }
  nontrivial();
}
