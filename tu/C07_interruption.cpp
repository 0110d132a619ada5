// C07: interruption - delivered at interruption points, once per request, never while disabled, wakes blocking waits
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_PROVIDES_INTERRUPTIONS
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/shared_mutex.hpp>
typedef boost::chrono::steady_clock SC; typedef boost::chrono::system_clock RC; typedef boost::chrono::milliseconds MS;
#define R_MISS "an interruption point entered with a request pending and interruption enabled throws"
#define R_SPUR "thread_interrupted is thrown only for a pending request and only while interruption is enabled"
#define R_CLEAR "the exception consumes the request; otherwise the request stays pending"
#define R_EN "interruption_enabled() reflects the enclosing disable/restore scopes"
#define R_NOPOINT "operations that are not interruption points never throw thread_interrupted"
// pend: 0 none, 1 request being made, 2 request made, 3 consumed while still being made
static int sa_target = 1; static int pend, enabled, op, scope;
static boost::mutex* mx; static boost::condition_variable* cv; static boost::condition_variable_any* cva; static boost::thread* th; static boost::thread* other; static boost::BOOST_THREAD_FUTURE<int>* fu; static boost::shared_mutex* smx;
static bool never() { return false; }
static int waited;       // the operation blocked
static void on_wait() { if (sa_me() == sa_target) waited = 1; }
static void interrupted() {
  SA_ASSERT(pend == 1 || pend == 2, R_SPUR); SA_ASSERT(enabled, R_SPUR);
  if (pend == 2) { bool r = boost::this_thread::interruption_requested(); pend = 0; SA_ASSERT(!r, R_CLEAR); } else pend = 3;
  MUST("interrupted");
}
// an interruption point of every kind
static void point() {
  using namespace boost::this_thread;
  switch (op) {
    case 0: interruption_point(); return;
    case 1: { boost::unique_lock<boost::mutex> l(*mx); cv->wait(l); return; }
    case 2: { boost::unique_lock<boost::mutex> l(*mx); cv->wait_until(l, SC::now()); return; }
    case 3: { boost::unique_lock<boost::mutex> l(*mx); cv->wait_for(l, MS(5)); return; }
    case 4: { boost::unique_lock<boost::mutex> l(*mx); cv->wait(l, never); return; }
    case 5: { boost::unique_lock<boost::mutex> l(*mx); cv->wait_until(l, RC::now()); return; }
    case 6: { boost::unique_lock<boost::mutex> l(*mx); cva->wait(l); return; }
    case 7: { boost::unique_lock<boost::mutex> l(*mx); cva->wait_until(l, SC::now()); return; }
    case 8: { boost::unique_lock<boost::mutex> l(*mx); cva->wait(l, never); return; }
    case 9: { boost::shared_lock<boost::shared_mutex> l(*smx); cva->wait(l); return; }
    case 10: sleep_for(MS(5)); return;
    case 11: sleep_until(SC::now()); return;
    case 12: sleep_until(RC::now()); return;
    case 13: other->join(); return;
    case 14: other->try_join_for(MS(5)); return;
    case 15: other->try_join_until(RC::now()); return;
    case 16: fu->wait(); return;
    case 17: fu->wait_for(MS(5)); return;
    case 18: { boost::barrier b(2); b.wait(); return; }
#ifdef BOOST_THREAD_USES_DATETIME
    case 20: { boost::unique_lock<boost::mutex> l(*mx); cv->timed_wait(l, boost::system_time()); return; }
    case 21: { boost::unique_lock<boost::mutex> l(*mx); cv->timed_wait(l, boost::posix_time::milliseconds(5)); return; }
    case 22: { boost::unique_lock<boost::mutex> l(*mx); cva->timed_wait(l, boost::system_time(), never); return; }
    case 23: sleep(boost::posix_time::milliseconds(5)); return;
    case 24: sleep(boost::system_time()); return;
    case 25: other->timed_join(boost::posix_time::milliseconds(5)); return;
#endif
    default: __sa_stop();
  }
}
static void one() {
  int p = pend; waited = 0;
  bool lazy = op == 12 || op == 15 || op == 22 || op == 24;      // returns without blocking when its deadline has passed already
  try { point(); SA_ASSERT(!(p == 2 && enabled && (!lazy || waited)), R_MISS); if (sa_probe) __sa_stop(); }
  catch (boost::thread_interrupted&) { interrupted(); }
}
static void chk() { SA_ASSERT(boost::this_thread::interruption_enabled() == (enabled != 0), R_EN); }
static void after() {   // no interruption is lost by a scope: once enabled again the request is delivered
  if (pend == 2) { try { boost::this_thread::interruption_point(); SA_ASSERT(false, R_MISS); } catch (boost::thread_interrupted&) { interrupted(); } }
}
// acquiring a mutex is not an interruption point, however long it takes
static boost::timed_mutex* tmx; static boost::recursive_timed_mutex* rmx; static boost::upgrade_mutex* umx;
static void acquire() {
  try { switch (op) {
    case 0: mx->lock(); mx->unlock(); break;
    case 1: if (sa_bool()) { tmx->lock(); tmx->unlock(); } else if (tmx->try_lock_for(MS(5))) tmx->unlock(); break;
    case 2: if (sa_bool()) { rmx->lock(); rmx->unlock(); } else if (rmx->try_lock_until(SC::now())) rmx->unlock(); break;
    case 3: umx->lock(); umx->unlock(); break;
    case 4: umx->lock_shared(); umx->unlock_shared(); break;
    case 5: umx->lock_upgrade(); umx->unlock_upgrade(); break;
    case 6: if (umx->try_lock_for(MS(5))) umx->unlock(); break;
    case 7: if (umx->try_lock_shared_until(SC::now())) umx->unlock_shared(); break;
    case 8: if (umx->try_lock_upgrade_until(SC::now())) umx->unlock_upgrade(); break;
    case 9: umx->lock_upgrade(); umx->unlock_upgrade_and_lock(); umx->unlock(); break;
    case 10: umx->lock_upgrade(); if (umx->try_unlock_upgrade_and_lock_for(MS(5))) umx->unlock(); else umx->unlock_upgrade(); break;
#ifdef BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
    case 11: umx->lock_shared(); if (umx->try_unlock_shared_and_lock_for(MS(5))) umx->unlock(); else umx->unlock_shared(); break;
    case 12: umx->lock_shared(); if (umx->try_unlock_shared_and_lock_upgrade_for(MS(5))) umx->unlock_upgrade(); else umx->unlock_shared(); break;
#endif
#ifdef BOOST_THREAD_USES_DATETIME
    case 13: if (umx->timed_lock(boost::posix_time::milliseconds(5))) umx->unlock(); break;
    case 14: if (umx->timed_lock_shared(boost::posix_time::milliseconds(5))) umx->unlock_shared(); break;
#endif
    default: __sa_stop(); } }
  catch (boost::thread_interrupted&) { SA_ASSERT(false, R_NOPOINT); }
  MUST("acquisition over");
}
static void acquirer() { while (true) { sa_idle(); enabled = 1; chk(); acquire(); after(); } }
static void target() {
  while (true) {
    sa_idle();
    enabled = 1; chk();
    switch (scope) {
      case 0: one(); break;
      case 1: { boost::this_thread::disable_interruption d; enabled = 0; chk(); one(); chk(); }
        enabled = 1; chk(); after(); break;
      case 2: { boost::this_thread::disable_interruption d; enabled = 0; chk();
          { boost::this_thread::disable_interruption d2; chk(); if (sa_bool()) { boost::this_thread::restore_interruption r2(d2); chk(); } chk(); } chk();
          { boost::this_thread::restore_interruption r(d); enabled = 1; chk();
            one(); chk(); enabled = 1; { boost::this_thread::disable_interruption d3; enabled = 0; chk(); } enabled = 1; chk(); }
          enabled = 0; chk(); }
        enabled = 1; chk(); after(); break;
      case 3: // operations that are not interruption points
        try { using namespace boost::this_thread; 
          switch (__sa_choose(7)) { case 0: yield(); break; case 1: no_interruption_point::sleep_for(MS(5)); break; case 2: no_interruption_point::sleep_until(SC::now()); break;
            case 3: { boost::unique_lock<boost::mutex> l(*mx); if (sa_bool()) cv->notify_one(); else cv->notify_all(); cva->notify_one(); cva->notify_all(); } break;
            case 4: { boost::unique_lock<boost::shared_mutex> l(*smx); } break; case 5: (void)interruption_requested(); (void)interruption_enabled(); (void)other->joinable(); break;
            case 6: boost::this_thread::get_id(); break; } }
        catch (boost::thread_interrupted&) { SA_ASSERT(false, R_NOPOINT); }
        after(); break;
      case 4: // the state query
        { int p = pend; bool r = boost::this_thread::interruption_requested(); if (p == 2) SA_ASSERT(r, R_CLEAR); if (p == 0 && pend == 0) SA_ASSERT(!r, R_CLEAR); } after(); break;
    }
  }
}
static void other_fn() { boost::this_thread::disable_interruption d; while (true) sa_idle(); }
static void main_thread(void*) {
  if (op >= 13 && op <= 15 || op == 25) { boost::thread o(other_fn); other->swap(o); }
  boost::thread t(target); th = &t;
  while (true) {
    sa_idle();
    if (pend) continue;
    pend = 1; t.interrupt();
    if (pend == 3) pend = 0; else { pend = 2; }
  }
}
static void holder(void*) {
  int shared = op == 9 || op == 10 || op == 11 ? 1 : op == 12 ? 2 : op == 3 ? sa_bool() : 0, held = 1;
  if (op == 0) mx->lock(); else if (op == 1) tmx->lock(); else if (op == 2) rmx->lock(); else if (shared == 1) umx->lock_shared(); else if (shared == 2) umx->lock_upgrade(); else umx->lock();
  boost::thread t(acquirer); th = &t;
  while (true) {
    sa_idle();
    if (held && sa_bool()) { held = 0; if (op == 0) mx->unlock(); else if (op == 1) tmx->unlock(); else if (op == 2) rmx->unlock(); else if (shared == 1) umx->unlock_shared(); else if (shared == 2) umx->unlock_upgrade(); else umx->unlock(); continue; }
    if (pend) continue;
    pend = 1; t.interrupt();
    if (pend == 3) pend = 0; else { pend = 2; MUST("request made"); }
  }
}
static void locks(int o) {
  boost::mutex m; boost::timed_mutex t; boost::recursive_timed_mutex r; boost::upgrade_mutex u; mx = &m; tmx = &t; rmx = &r; umx = &u;
  op = o; scope = 5; pend = 0; enabled = 1; sa_noprobe = 1; sa_run(1, holder);
}
static void go(int o, int s) {
  boost::mutex m; boost::condition_variable c; boost::condition_variable_any ca; boost::shared_mutex sm; boost::thread ot; boost::promise<int> p; boost::BOOST_THREAD_FUTURE<int> f(p.get_future());
  mx = &m; cv = &c; cva = &ca; smx = &sm; other = &ot; fu = &f; op = o; scope = s; pend = 0; enabled = 1;
  sa_preempt_nested = 1; sa_preempt_after = 1; sa_wait_hook = on_wait; sa_target = (o >= 13 && o <= 15 || o == 25) ? 2 : 1;
    sa_run(1, main_thread);
}
#define E(o, name) ENTRY E_##name() { go(o, 0); } ENTRY E_##name##_disabled() { go(o, 1); } ENTRY E_##name##_restored() { go(o, 2); }
#ifdef SA_THOROUGH
#define E1 E
#else
#define E1(o, name) ENTRY E_##name() { go(o, 0); } ENTRY E_##name##_disabled() { go(o, 1); }
#endif
#define L(o, name) ENTRY E_acquire_##name() { locks(o); }
L(3, exclusive) L(4, shared) L(5, upgrade) L(6, exclusive_for) L(7, shared_until) L(8, upgrade_until) L(9, upgrade_to_exclusive) L(10, try_upgrade_to_exclusive)
#ifdef BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
L(11, shared_to_exclusive) L(12, shared_to_upgrade)
#endif
#ifdef BOOST_THREAD_USES_DATETIME
L(13, exclusive_date) L(14, shared_date)
#endif
#ifndef ONLY_SHARED
L(0, mutex) L(1, timed_mutex) L(2, recursive_mutex)
E(0, point) E(1, cv_wait) E(2, cv_wait_until) E(3, cv_wait_for) E(4, cv_wait_pred) E(5, cv_wait_system) E(6, cva_wait) E(7, cva_wait_until) E(8, cva_wait_pred) E(9, cva_wait_shared)
E(10, sleep_for) E(11, sleep_until) E(12, sleep_until_system) E1(13, join) E1(14, try_join_for)
#if BOOST_THREAD_VERSION == 2 || defined SA_THOROUGH
E1(15, try_join_until)
#endif
E(16, future_wait) E(17, future_wait_for) E(18, barrier)
#ifdef BOOST_THREAD_USES_DATETIME
E(20, timed_wait_abs) E(21, timed_wait_rel) E(22, cva_timed_wait) E1(25, timed_join) E(23, sleep_rel) E(24, sleep_abs)
#endif
ENTRY E_not_points() { go(0, 3); }
ENTRY E_requested() { go(0, 4); }
#endif
