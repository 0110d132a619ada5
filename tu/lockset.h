// C25: driver of the lock-set analysis.  Two threads perform every operation of an object in every order; a thread is only
// suspended where it waits, since the rule (every two conflicting accesses share a lock) does not depend on the schedule.
#ifndef LOCKSET_H
#define LOCKSET_H
#include "conc.h"
#define R_RELEASED "every operation returns with the locks it took released"
#define R_USER "user code is not called with a lock of the library held"
#define R_ELEM "the elements of the object are only touched under its lock"
static const void* ls_o; static long ls_n; static int ls_k, ls_in; static void (*ls_op)(int);
static inline int ls_held() { return __sa_held_in(0, 0); }
static inline void ls_user() { SA_ASSERT(ls_held() == 0, R_USER); }
static void ls_thread(void*) {
  while (true) { int k = __sa_choose(ls_k + 1); if (k == ls_k) break; ls_op(k); SA_ASSERT(ls_held() == 0, R_RELEASED); sa_idle(); }
  MUST("done");
}
#ifdef SA_LOCKORDER                                  // C36: the same histories, with the order of acquisitions observed instead of the accesses
extern "C" { extern int sa_lock_order_mode; int sa_lock_order_mode = 1; }
static void ls_watch(const void* o, long n, const char*) { (void)o; (void)n; (void)__sa_held_in(0, 0); }
#else
static void ls_watch(const void* o, long n, const char* label) { __sa_lockset(o, n, o, n, label); }
#endif
static void ls_run(int k, void (*op)(int), int threads = 2) { ls_k = k; ls_op = op; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; sa_run(threads, ls_thread); }
#endif
