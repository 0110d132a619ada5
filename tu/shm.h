// shared_mutex driven by N threads performing arbitrary legal operations
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#ifdef SA_PLAIN_SHM  // the second implementation's mutex without upgrade ownership
#include <boost/thread/v2/shared_mutex.hpp>
typedef boost::thread_v2::shared_mutex shm_t;
#else
typedef boost::shared_mutex shm_t;
#endif
#include "conc.h"
#define R_EXCL "an exclusive owner is alone: exclusive acquisition succeeds only when nobody else holds the mutex"
#define R_SH "shared ownership is granted only while nobody owns the mutex exclusively"
#define R_UP "upgrade ownership is granted only while nobody owns the mutex exclusively or for upgrade"
#define R_FAIL "an attempt fails only if another thread used the mutex during the attempt"
#define R_RESIDUE "with all threads at rest an attempt succeeds exactly when the current owners allow it (no residue of earlier attempts)"
enum { NONE, SH, EX, UP, RSH, REX, RUP, PEND };      // R*: release in progress, PEND: upgrade to exclusive in progress
static int nt, mode[SA_MAXT], inop[SA_MAXT], seen[SA_MAXT], wants_ex[SA_MAXT];
static shm_t* obj;
// a timed conversion to exclusive ownership that waits keeps new shared owners out (the second implementation; the first one does not)
#if defined BOOST_THREAD_V2_SHARED_MUTEX || defined SA_PLAIN_SHM
static const int waits_first = 1;
#else
static const int waits_first = 0;
#endif
static unsigned opmask[SA_MAXT]; static int form;
typedef boost::chrono::steady_clock::time_point TP; typedef boost::chrono::milliseconds MS;
#ifdef BOOST_THREAD_USES_DATETIME
typedef boost::posix_time::milliseconds PM;
#define TIMED(a, b) (form == 1 ? m.b(boost::system_time()) : form == 2 ? m.b(PM(5)) : form == 3 ? m.a##_for(MS(5)) : form == 4 ? m.a##_until(boost::chrono::system_clock::now()) : m.a##_until(t))
#else
#define TIMED(a, b) (form == 3 ? m.a##_for(MS(5)) : form == 4 ? m.a##_until(boost::chrono::system_clock::now()) : m.a##_until(t))
#endif
#define TIMED2(a) (form == 3 ? m.a##_for(MS(5)) : form == 4 ? m.a##_until(boost::chrono::system_clock::now()) : m.a##_until(t))
static void check_acq(int i, int want) {
  for (int k = 0; k < nt; k++) if (k != i) {
    int o = mode[k];
    if (want == EX) SA_ASSERT(o != SH && o != EX && o != UP && o != PEND, R_EXCL);
    if (want == SH) SA_ASSERT(o != EX, R_SH);
    if (want == UP) SA_ASSERT(o != EX && o != UP && o != PEND, R_UP);
    // a release still in progress must have taken effect
    if (want == EX && (o == RSH || o == REX || o == RUP)) mode[k] = NONE;
    if (want == SH && o == REX) mode[k] = NONE;
    if (want == UP && (o == REX || o == RUP)) mode[k] = NONE;
  }
  mode[i] = want;
}
static void begin(int i) {
  inop[i] = 1; seen[i] = 0;
  for (int k = 0; k < nt; k++) if (k != i) { if (inop[k]) { seen[i] = 1; seen[k] = 1; } if (mode[k]) seen[i] = 1; }
}
static void end(int i) { inop[i] = 0; seen[i] = 0; wants_ex[i] = 0; }
static void attempt(int i, bool r, int want) { if (r) { check_acq(i, want); MUST("attempt succeeds"); } else { if (sa_probe) __sa_stop(); SA_ASSERT(seen[i], R_FAIL); MUST("attempt fails"); } }
static void thread_fn(void* p) {
  int i = (int)(long)p; shm_t& m = *obj;
  boost::chrono::steady_clock::time_point t;
  while (true) {
    sa_idle();
    begin(i);
    int k = __sa_choose(9); int b = mode[i];
    int base = b == NONE ? 0 : b == SH ? 9 : b == EX ? 14 : 17;
    int lim = b == NONE ? 9 : b == SH ? 5 : b == EX ? 3 : 5;
    if (k >= lim || !(opmask[i] >> (base + k) & 1)) __sa_stop();
    switch (base + k) {
      case 0: wants_ex[i] = 1; m.lock(); check_acq(i, EX); MUST("lock"); break;
      case 1: attempt(i, m.try_lock(), EX); break;
      case 2: wants_ex[i] = 1; attempt(i, TIMED(try_lock, timed_lock), EX); break;
      case 3: m.lock_shared(); check_acq(i, SH); MUST("lock_shared"); break;
      case 4: attempt(i, m.try_lock_shared(), SH); break;
      case 5: attempt(i, TIMED(try_lock_shared, timed_lock_shared), SH); break;
#ifndef SA_PLAIN_SHM
      case 6: m.lock_upgrade(); check_acq(i, UP); MUST("lock_upgrade"); break;
      case 7: attempt(i, m.try_lock_upgrade(), UP); break;
      case 8: attempt(i, TIMED(try_lock_upgrade, timed_lock_upgrade), UP); break;
#endif
      // shared owner
      case 9: mode[i] = RSH; m.unlock_shared(); mode[i] = NONE; MUST("unlock_shared"); break;
#if defined BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS && !defined SA_PLAIN_SHM
      case 10: attempt(i, m.try_unlock_shared_and_lock(), EX); break;
      case 11: wants_ex[i] = waits_first; attempt(i, TIMED2(try_unlock_shared_and_lock), EX); break;
      case 12: attempt(i, m.try_unlock_shared_and_lock_upgrade(), UP); break;
      case 13: attempt(i, TIMED2(try_unlock_shared_and_lock_upgrade), UP); break;
#endif
      // exclusive owner
      case 14: mode[i] = REX; m.unlock(); mode[i] = NONE; MUST("unlock"); break;
#ifndef SA_PLAIN_SHM
      case 15: mode[i] = REX; m.unlock_and_lock_shared(); check_acq(i, SH); break;
      case 16: mode[i] = REX; m.unlock_and_lock_upgrade(); check_acq(i, UP); break;
      // upgrade owner
      case 17: mode[i] = RUP; m.unlock_upgrade(); mode[i] = NONE; MUST("unlock_upgrade"); break;
      case 18: mode[i] = PEND; wants_ex[i] = 1; m.unlock_upgrade_and_lock(); check_acq(i, EX); MUST("upgraded"); break;
      case 19: attempt(i, m.try_unlock_upgrade_and_lock(), EX); break;
      case 20: wants_ex[i] = waits_first; attempt(i, TIMED2(try_unlock_upgrade_and_lock), EX); break;
      case 21: m.unlock_upgrade_and_lock_shared(); check_acq(i, SH); MUST("downgraded"); break;
#endif
      default: __sa_stop();
    }
    end(i);
  }
}
// probe from outside while no operation is in progress
static void rest_check() {
  bool ex = false, up = false, any = false, wx = false, allidle = true;
  for (int k = 0; k < nt; k++) { if (mode[k] == EX) ex = true; if (mode[k] == UP || mode[k] == PEND) up = true; if (mode[k]) any = true; if (wants_ex[k]) wx = true; if (inop[k]) allidle = false; if (sa_runnable(k)) return; }
  if (wx) return;
  sa_probe = 1;
  switch (__sa_choose(3)) {
    case 0: { bool r = obj->try_lock_shared(); SA_ASSERT(r == !ex, R_RESIDUE); break; }
    case 1: { bool r = obj->try_lock(); SA_ASSERT(r == !any, R_RESIDUE); break; }
#ifndef SA_PLAIN_SHM
    default: { bool r = obj->try_lock_upgrade(); SA_ASSERT(r == !(ex || up), R_RESIDUE); break; }
#else
    default: break;
#endif
  }
  __sa_stop();
}
static void go(int n, unsigned m0, unsigned m1, unsigned m2 = 0) {
  nt = n; opmask[0] = m0; opmask[1] = m1; opmask[2] = m2;
  for (int i = 0; i < SA_MAXT; i++) mode[i] = inop[i] = seen[i] = wants_ex[i] = 0;
  shm_t m; obj = &m; sa_run(n, thread_fn);
}
#define ALL 0x3fffffu
#define B(n) (1u << (n))
#define G_EXCL (B(0) | B(1) | B(2) | B(14))
#define G_SHARED (B(3) | B(4) | B(5) | B(9))
#define G_SH2EX (B(3) | B(9) | B(10) | B(11) | B(14))
#define G_SH2UP (B(3) | B(9) | B(12) | B(13) | B(17))
#define G_UP (B(6) | B(7) | B(8) | B(17) | B(21) | B(9))
#define G_UP2EX (B(6) | B(17) | B(18) | B(19) | B(20) | B(14))
#define G_EX2 (B(0) | B(14) | B(15) | B(16) | B(9) | B(17))
