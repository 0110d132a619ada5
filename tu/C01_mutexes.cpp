// C01: exclusive mutexes - every interleaving of N threads performing arbitrary operations
// @variants: -DBOOST_THREAD_VERSION=2; -DBOOST_THREAD_VERSION=4
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include "conc.h"
#ifdef SA_THOROUGH
#define NT 3
#else
#define NT 2
#endif
#define R_EXCL "at most one owner: a lock operation succeeds only when the mutex is free (or owned by the caller, if recursive)"
#define R_TRYFAIL "a lock attempt fails only if another thread owned the mutex during the attempt"
static int owner, depth, releasing, seen_other[SA_MAXT], polling;
static void* obj;
static void acquired(int i, bool rec) {
  SA_ASSERT(owner == 0 || releasing || (rec && owner == i + 1), R_EXCL);
  if (releasing) { releasing = 0; depth = 0; }
  owner = i + 1; depth = depth + 1; for (int k = 0; k < NT; k++) if (k != i) seen_other[k] = 1;
}
static void begin(int i, bool rec) { seen_other[i] = owner != 0 && (!rec || owner != i + 1); }
static void end(int i) { seen_other[i] = 0; }
static void attempt(int i, bool r, bool rec) { if (r) { acquired(i, rec); MUST("attempt succeeds"); } else { if (sa_probe) __sa_stop(); SA_ASSERT(seen_other[i], R_TRYFAIL); MUST("attempt fails"); } }
template <class M> struct Timed { static bool go(M& m) { return m.try_lock(); } };
template <class M> static bool timed_any(M& m) {
  if (!polling) return m.try_lock_until(boost::chrono::steady_clock::now());
  switch (polling) {
#ifdef BOOST_THREAD_USES_DATETIME
    case 1: { boost::system_time t; return m.timed_lock(t); }
    case 2: return m.timed_lock(boost::posix_time::milliseconds(5));
    case 3: return m.timed_lock(boost::posix_time::time_duration(boost::posix_time::pos_infin));
    case 4: return m.timed_lock(boost::posix_time::time_duration(boost::posix_time::neg_infin));
    case 5: return m.timed_lock(boost::posix_time::time_duration(boost::posix_time::not_a_date_time));
#endif
    case 6: return m.try_lock_until(boost::chrono::system_clock::now());
    default: return m.try_lock_for(boost::chrono::milliseconds(5));
  }
}
template <> struct Timed<boost::timed_mutex> { static bool go(boost::timed_mutex& m) { return timed_any(m); } };
template <> struct Timed<boost::recursive_timed_mutex> { static bool go(boost::recursive_timed_mutex& m) { return timed_any(m); } };
template <class M, bool rec> static void thread_fn(void* p) {
  int i = (int)(long)p; M& m = *(M*)obj;
  while (true) {
    sa_idle();
    begin(i, rec);
    bool mine = owner == i + 1;
    int k = polling ? (mine ? 3 : i == 0 ? 2 : 0) : __sa_choose(4);
    if (k == 0) { if (mine && (!rec || depth == 3)) __sa_stop(); m.lock(); acquired(i, rec); MUST("lock"); }
    else if (k == 1) { if (mine && rec && depth == 3) __sa_stop(); attempt(i, m.try_lock(), rec); }
    else if (k == 2) { if (mine && (!rec || depth == 3)) __sa_stop(); attempt(i, Timed<M>::go(m), rec); }
    else {
      if (!mine) __sa_stop();
      if (depth == 1) { releasing = 1; m.unlock(); if (releasing) { releasing = 0; owner = 0; depth = 0; } MUST("unlock"); }
      else { depth = depth - 1; m.unlock(); }
    }
    end(i);
  }
}
// try_lock on a non-recursive mutex the caller owns fails without harm
template <class M, bool rec> static void go() {
  owner = depth = releasing = 0; for (int i = 0; i < SA_MAXT; i++) seen_other[i] = 0;
  M m; obj = &m; sa_run(NT, thread_fn<M, rec>);
}
ENTRY E_mutex() { go<boost::mutex, false>(); }
ENTRY E_timed_mutex() { go<boost::timed_mutex, false>(); }
ENTRY E_recursive_mutex() { go<boost::recursive_mutex, true>(); }
ENTRY E_recursive_timed_mutex() { go<boost::recursive_timed_mutex, true>(); }
#define POLL(k, name) ENTRY E_timed_mutex_##name() { polling = k; go<boost::timed_mutex, false>(); } ENTRY E_recursive_timed_mutex_##name() { polling = k; go<boost::recursive_timed_mutex, true>(); }
#ifdef BOOST_THREAD_USES_DATETIME
POLL(1, system_time)
POLL(2, relative_time)
POLL(3, relative_infinite)
POLL(4, relative_neg_infinite)
POLL(5, relative_special)
#endif
POLL(6, system_clock)
POLL(7, try_lock_for)
