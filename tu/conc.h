// Interleaving harness: N threads of control (coroutines), a nondeterministic scheduler that switches at
// every internal synchronisation point, and the quiescence rule for lost wake-ups.
#ifndef CONC_H
#define CONC_H
#include "sa.h"
#include <errno.h>
#define SA_MAXT 5
enum { T_READY, T_IDLE, T_WAIT, T_BLOCK, T_DONE, T_RUN, T_JOIN };
struct sa_thr { int st; int held; int timed; int woken; int result; pthread_cond_t* c; pthread_mutex_t* m; pthread_mutex_t* wm; int jn; };
static sa_thr sa_T[SA_MAXT];
static void (*sa_wait_hook)(); static void (*sa_timed_hook)(int);
static inline void sa_on_wait() { if (sa_wait_hook) sa_wait_hook(); }
static int sa_noprobe; static int sa_nt, sa_probe, sa_preempt = 1, sa_preempt_nested = 0, sa_preempt_after = 0, sa_spurious = 1, sa_timeouts = 1, sa_in_env;
static int sa_probe_timed = 1;      // 0: threads in timed waits are not probed (their timer wakes them)
static int sa_spurious_left = -1;  // number of spurious wake-ups still allowed (-1: any number)
static void (*sa_at_rest)();       // optional check made in quiescent states
static inline int sa_me() { return __sa_co_self() - 1; }
extern "C" {
void env_before_lock(pthread_mutex_t* m) {
  int i = sa_me(); if (i < 0 || !sa_preempt || sa_probe) return;
  if (sa_T[i].held && !sa_preempt_nested) return;   // nested acquisitions commute with other threads (lock discipline is decided by C25)
  sa_T[i].st = T_READY; sa_T[i].m = m; __sa_co_park(); sa_T[i].st = T_RUN; sa_T[i].m = 0;
}
void env_after_lock(pthread_mutex_t*) { int i = sa_me(); if (i >= 0) sa_T[i].held = sa_T[i].held + 1; }
void env_before_unlock(pthread_mutex_t*) { int i = sa_me(); if (i >= 0) sa_T[i].held = sa_T[i].held - 1; }
void env_after_unlock(pthread_mutex_t*) {
  int i = sa_me(); if (i < 0 || !sa_preempt_after || sa_probe) return;
  sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN;
}
void env_block(pthread_mutex_t* m) {
  int i = sa_me(); if (i < 0) { __sa_co_park(); return; }
  sa_T[i].st = T_BLOCK; sa_T[i].m = m; __sa_co_park(); sa_T[i].st = T_RUN; sa_T[i].m = 0;
}
void env_wait(pthread_cond_t* c, pthread_mutex_t* m, int timed) {
  int i = sa_me(); if (i < 0) { if (!timed) __sa_co_park(); return; }   // alone: a timed wait times out, an untimed one would last for ever
  sa_T[i].st = T_WAIT; sa_T[i].c = c; sa_T[i].woken = 0; sa_T[i].timed = timed; sa_T[i].result = 0; sa_T[i].wm = m;
  sa_on_wait();
  __sa_co_park();
  sa_T[i].st = T_RUN; sa_T[i].c = 0; sa_T[i].wm = 0; sa_T[i].timed = 0; sa_T[i].woken = 0;
}
int env_timed_result() { int i = sa_me(); if (i < 0) return ETIMEDOUT; int r = sa_T[i].result; sa_T[i].result = 0; if (sa_timed_hook) sa_timed_hook(r); return r; }
void env_notify(pthread_cond_t* c, int all) {
  int n = 0;
  for (int i = 0; i < sa_nt; i++) if (sa_T[i].st == T_WAIT && sa_T[i].c == c && !sa_T[i].woken) n = n + 1;
  if (!n) return;
  int k = all ? 0 : __sa_choose(n);
  for (int i = 0; i < sa_nt; i++) if (sa_T[i].st == T_WAIT && sa_T[i].c == c && !sa_T[i].woken) { if (all || k == 0) sa_T[i].woken = 1; k = k - 1; }
}
}
// a point between two operations of the calling thread
static inline void sa_idle() { int i = sa_me(); if (i < 0) return; sa_T[i].st = T_IDLE; __sa_co_park(); sa_T[i].st = T_RUN; }
static inline bool sa_runnable(int i) { int s = sa_T[i].st; return s == T_READY || (s == T_WAIT && sa_T[i].woken) || (s == T_BLOCK && sa_free(sa_T[i].m)) || (s == T_JOIN && sa_spawn_state[sa_T[i].jn] == 2); }
static inline bool sa_quiescent() { for (int i = 0; i < sa_nt; i++) if (sa_runnable(i)) return false; return true; }
static inline void sa_resume(int i) { if (__sa_co_resume(i + 1) == 2) sa_T[i].st = T_DONE; }
#define R_LOSTWAKE "no lost wake-up: a waiting thread that could proceed has been notified"
static void sa_slot(int i) { sa_T[i].st = T_READY; sa_T[i].held = 0; sa_T[i].timed = 0; sa_T[i].woken = 0; sa_T[i].result = 0; sa_T[i].c = 0; sa_T[i].m = 0; sa_T[i].wm = 0; sa_T[i].jn = 0; }
// threads started by the code under analysis join the scheduler as further coroutines
static void sa_spawn_tramp(void* p) { int i = (int)(long)p; sa_spawn_state[i] = 1; sa_spawn_fn[i](sa_spawn_arg[i]); sa_run_key_dtors(__sa_tid()); sa_spawn_state[i] = 2; }
extern "C" {
void env_spawned(int i) { int s = sa_nt; if (s >= SA_MAXT) __sa_stop(); sa_nt = s + 1; sa_slot(s); __sa_co_new(sa_spawn_tramp, (void*)(long)i, sa_tid_base + i + 1); }
void env_join(int i) { int k = sa_me(); while (sa_spawn_state[i] != 2) { if (k < 0) { __sa_co_park(); continue; } sa_T[k].st = T_JOIN; sa_T[k].jn = i; __sa_co_park(); sa_T[k].st = T_RUN; } }
}
// run the scheduler to a fixpoint
static void sa_run(int n, void (*fn)(void*)) {
  sa_nt = n; sa_probe = 0; __sa_opt("coarse", 1);
  sa_tid_base = n;
  for (int i = 0; i < n; i++) { sa_slot(i); __sa_co_new(fn, (void*)(long)i, i + 1); }
  while (true) {
    __sa_defer();
    bool q = sa_quiescent();
    if (q && !sa_noprobe && sa_bool()) {                      // probe: would a waiting thread get through if it looked again?
      if (sa_at_rest && sa_bool()) { sa_at_rest(); __sa_stop(); }
      int i = __sa_choose(sa_nt); if (sa_T[i].st != T_WAIT || !sa_free(sa_T[i].wm) || (sa_T[i].timed && !sa_probe_timed)) __sa_stop();
      sa_probe = 1; sa_resume(i);
      SA_ASSERT(sa_T[i].st == T_WAIT || sa_T[i].st == T_BLOCK, R_LOSTWAKE);
      __sa_stop();
    }
    int i = __sa_choose(sa_nt); int s = sa_T[i].st;
    if (s == T_DONE || (s == T_JOIN && sa_spawn_state[sa_T[i].jn] != 2) || (s == T_BLOCK && !sa_free(sa_T[i].m))) __sa_stop();
    if (s == T_WAIT && !sa_T[i].woken) {
      if (sa_T[i].timed && sa_timeouts && (!sa_spurious || sa_bool())) sa_T[i].result = ETIMEDOUT;
      else if (!sa_spurious || !sa_spurious_left) __sa_stop();
      else if (sa_spurious_left > 0) sa_spurious_left = sa_spurious_left - 1;
    }
    sa_resume(i);
  }
}
#endif
