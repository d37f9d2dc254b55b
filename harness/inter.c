/* inter.c -- instances do not influence each other (C10).
 *
 * Several actors run one after the other, alone, then again all together, their
 * steps interleaved at random (also inside the callbacks of each other), with
 * other contents of the memory they get; all traces must be the same. */
#ifdef MSAN_BUILD
# include <sanitizer/msan_interface.h>
#endif
#include "actors.h"

#define MAXACT 7
static actor* act[MAXACT]; static int nact; static uint64_t sched[4]; static int depth, nsteps, nested; static int quit_at[MAXACT];
static opk_vspace* spaces[2][PMAXN]; static int share;
static opk_vspace* get_space(int single, long n) {
  opk_vspace** p = &spaces[single != 0][n];
  if (! share) return hv_space(single, n);
  if (*p == NULL) *p = hv_space(single, n); else obs("spaces-shared");
  return (opk_vspace*)opk_hold_object((opk_object*)*p);
}
static void spaces_drop(void) { int i, j; for (i = 0; i < 2; ++i) for (j = 0; j < PMAXN; ++j) { OPK_DROP(spaces[i][j]); spaces[i][j] = NULL; } }
static uint64_t sched_u(void) { uint64_t s[4], r; memcpy(s, r_s, sizeof(s)); memcpy(r_s, sched, sizeof(s)); r = r_u64(); memcpy(sched, r_s, sizeof(s)); memcpy(r_s, s, sizeof(s)); return r; }
static int pick_step(void) { /* one step of an actor which is not in a call */
  int c[MAXACT], n = 0, i;
  for (i = 0; i < nact; ++i) if (! act[i]->ended && ! act[i]->busy) c[n++] = i;
  if (n == 0) return 0;
  i = c[sched_u() % n]; hash_l(i); ++nsteps;
#ifndef MSAN_BUILD
  a_fill = (int)(sched_u() % 256);
#endif
  actor_step(act[i]);
  if (act[i]->ended || act[i]->nstep >= quit_at[i]) actor_finish(act[i]);
  return 1;
}
static void inter_hook(actor* a) {
  int k; (void)a;
  if (depth >= 3) return;
  k = (int)(sched_u() % 6); if (k > 2) return;
  ++depth; while (k-- > 0 && pick_step()) ++nested; --depth;
}
void run_case(uint64_t c) {
  uint64_t seeds[MAXACT]; actor* ref[MAXACT]; int i, k, lim[MAXACT], fill = (int)r_int(0, 255), wp = (int)r_int(0, 3), e0; long total = 0; static char what[1000]; size_t w = 0;
  nact = (int)r_int(2, MAXACT); share = 0; memset(spaces, 0, sizeof(spaces)); low_space_hook = get_space; depth = 0; nsteps = nested = 0; actor_hook = NULL; opk_set_error_handler(act_handler); act_capture(1);
  for (i = 0; i < nact; ++i) {
    int kind = i == 0 ? (int)(c % AK_COUNT) : r_p(0.3) ? ref[r_int(0, i - 1)]->kind : (int)r_int(0, AK_COUNT - 1), twin = -1;
    seeds[i] = r_u64();
    if (i > 0 && r_p(0.2)) { twin = (int)r_int(0, i - 1); kind = ref[twin]->kind; seeds[i] = seeds[twin]; obs("twins"); }
    ref[i] = actor_new(kind, seeds[i], wp); ref[i]->id = i; lim[i] = (int)r_int(2, r_p(0.2) ? ACT_MAXSTEP : 40);
    if (twin >= 0) lim[i] = lim[twin];
#ifndef MSAN_BUILD
    a_fill = fill;
#endif
    if (r_p(0.5)) r_unif();
    while (ref[i]->nstep < lim[i] && actor_step(ref[i])) {}
    actor_finish(ref[i]);
    obsf("actor-%s", ak_name[kind]); total += ref[i]->nstep;
    if (w < sizeof(what) - 220) w += snprintf(what + w, sizeof(what) - w, "%s[%s]", w ? ", " : "", ref[i]->what);
    if (twin >= 0) for (k = 0; k < ref[i]->nstep; ++k) if (ref[i]->trace[k] != ref[twin]->trace[k]) { viol("repeated", "step %d of [%s] differs when it is run again", k, ref[i]->what); break; }
  }
#ifndef NO_ALLOC_WRAP
  if (a_live != 0) viol("leak", "%ld blocks not released", a_live);
#endif
  if (c < 2) sample("%s", what);
  /* together */
  sched[0] = r_u64() | 1; sched[1] = r_u64(); sched[2] = r_u64(); sched[3] = r_u64(); share = r_bool(); wp = (wp + (int)r_int(1, 3)) % 4; e0 = r_bool();
  for (i = 0; i < nact; ++i) { act[i] = actor_new(ref[i]->kind, seeds[i], wp); act[i]->id = i; quit_at[i] = r_p(0.25) ? (int)r_int(1, lim[i]) : lim[i]; }
  actor_hook = inter_hook; if (e0) errno = EDOM;
  while (pick_step()) {}
  actor_hook = NULL;
  for (i = 0; i < nact; ++i) {
    if (! act[i]->ended) actor_finish(act[i]);
    if (act[i]->nstep < ref[i]->nstep && act[i]->nstep < quit_at[i]) viol("shorter", "[%s] stops after %d steps instead of %d when interleaved with %s", act[i]->what, act[i]->nstep, ref[i]->nstep, what);
    for (k = 0; k < act[i]->nstep && k < ref[i]->nstep; ++k) if (act[i]->trace[k] != ref[i]->trace[k]) {
      viol("different", "step %d of [%s] differs when interleaved with: %s", k, act[i]->what, what); break; }
    obs_n("steps-compared", k); obsf("compared-%s", ak_name[act[i]->kind]); h_free(act[i]); h_free(ref[i]);
  }
  spaces_drop(); act_capture(0);
#ifndef NO_ALLOC_WRAP
  if (a_live != 0) viol("leak", "%ld blocks not released after the interleaved runs", a_live);
#endif
  a_fill = -1;
  obs_n("interleaved-steps", nsteps); obs_n("steps-in-callbacks", nested); (void)total;
  if (nsteps > nact) nontrivial();
}
