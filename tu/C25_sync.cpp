// C25: lock-set discipline of latches, barriers and the mutexes that keep a state of their own
// @variants: -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_USES_DATETIME
// @link: thread once future
// @tlim: 200
#include "clk.h"
#include "lockset.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#ifndef ONLY_SHARED
static boost::latch* L; static boost::completion_latch* C; static boost::barrier* B; static int cnt, nops; static void count() { if (nops == 5) __sa_stop(); nops = nops + 1; }   // generation counters: histories are cut after five operations
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { (void)boost::detail::get_or_make_current_thread_data(); }
template <int K> static void op_latch(int k) { if (!boost::detail::get_current_thread_data()) warm(); count(); boost::latch& l = *L; switch (k) {
  case 0: if (!cnt) __sa_stop(); cnt = cnt - 1; l.count_down(); break; case 1: if (cnt) cnt = cnt - 1; l.try_count_down(); break; case 2: if (!cnt) __sa_stop(); cnt = cnt - 1; l.signal(); break;
  case 3: if (!cnt) __sa_stop(); cnt = cnt - 1; l.count_down_and_wait(); break; case 4: if (!cnt) __sa_stop(); cnt = cnt - 1; l.sync(); break;
  case 5: l.wait(); break; case 6: (void)l.try_wait(); break; case 7: l.wait_for(sec(1)); break; case 8: l.wait_until(at(1)); break;
  default: for (int i = 0; i < sa_nt; i++) if (sa_T[i].st == T_WAIT) __sa_stop(); l.reset(2); cnt = 2; } }
ENTRY E_latch() { boost::latch l(2); L = &l; cnt = 2; clk_on(1); sa_frozen = 1; ls_watch(&l, sizeof l, "latch"); ls_run(10, op_latch<0>); }
static void fin() { MUST("completion function"); }
static void fin_user() { ls_user(); MUST("completion function"); }
static void op_clatch(int k) { warm(); boost::completion_latch& l = *C; switch (k) {
  case 0: if (!cnt) __sa_stop(); cnt = cnt - 1; l.count_down(); break; case 1: break; case 2: if (!cnt) __sa_stop(); cnt = cnt - 1; l.signal(); break;
  case 3: if (!cnt) __sa_stop(); cnt = cnt - 1; l.count_down_and_wait(); break; case 4: if (!cnt) __sa_stop(); cnt = cnt - 1; l.sync(); break;
  case 5: l.wait(); break; case 6: (void)l.try_wait(); break; case 7: l.wait_for(sec(1)); break; case 8: l.wait_until(at(1)); break;
  case 9: for (int i = 0; i < sa_nt; i++) if (sa_T[i].st == T_WAIT) __sa_stop(); l.reset(2); cnt = 2; } }   // then() may only be called when no thread is inside the latch
ENTRY E_completion_latch() { boost::completion_latch l(2, &fin_user); C = &l; cnt = 2; clk_on(1); sa_frozen = 1; ls_watch(&l, sizeof l, "completion_latch"); ls_run(10, op_clatch); }
static void op_barrier(int k) { warm(); count(); if (k == 0) { (void)B->wait(); } else B->count_down_and_wait(); }
ENTRY E_barrier() { boost::barrier b(2); B = &b; ls_watch(&b, sizeof b, "barrier"); ls_run(2, op_barrier); }
ENTRY E_barrier_fn() { boost::barrier b(2, &fin); B = &b; ls_watch(&b, sizeof b, "barrier"); ls_run(2, op_barrier); }
#endif
template <class M> struct At { static M* m; }; template <class M> M* At<M>::m;
static void hold() { if (sa_bool()) sa_idle(); }
#ifndef ONLY_SHARED
template <class M> static void op_timed(int k) { M& m = *At<M>::m; bool got = true; switch (k) { case 0: m.lock(); break; case 1: got = m.try_lock(); break; case 2: got = m.try_lock_for(sec(1)); break; case 3: got = m.try_lock_until(at(1)); break; default: got = m.timed_lock(boost::posix_time::seconds(1)); }
  if (got) { hold(); m.unlock(); MUST("locked"); } }
ENTRY E_timed_mutex() { boost::timed_mutex m; At<boost::timed_mutex>::m = &m; clk_on(1); sa_frozen = 1; ls_watch(&m, sizeof m, "timed_mutex"); ls_run(5, op_timed<boost::timed_mutex>); }
ENTRY E_recursive_timed_mutex() { boost::recursive_timed_mutex m; At<boost::recursive_timed_mutex>::m = &m; clk_on(1); sa_frozen = 1; ls_watch(&m, sizeof m, "recursive_timed_mutex"); ls_run(5, op_timed<boost::recursive_timed_mutex>); }
#endif
typedef boost::shared_mutex SM;
static void op_shared(int k) { SM& m = *At<SM>::m; switch (k) {
  case 0: m.lock(); hold(); m.unlock(); break; case 1: if (m.try_lock()) { hold(); m.unlock(); } break; case 2: if (m.try_lock_until(at(1))) { hold(); m.unlock(); } break; case 3: if (m.try_lock_for(sec(1))) m.unlock(); break;
  case 4: m.lock_shared(); hold(); m.unlock_shared(); break; case 5: if (m.try_lock_shared()) { hold(); m.unlock_shared(); } break; case 6: if (m.try_lock_shared_until(at(1))) m.unlock_shared(); break; case 7: if (m.try_lock_shared_for(sec(1))) m.unlock_shared(); break;
  case 8: m.lock_upgrade(); hold(); m.unlock_upgrade(); break; case 9: if (m.try_lock_upgrade()) { hold(); m.unlock_upgrade(); } break; case 10: if (m.try_lock_upgrade_until(at(1))) m.unlock_upgrade(); break; case 11: if (m.try_lock_upgrade_for(sec(1))) m.unlock_upgrade(); break;
  case 12: m.lock_upgrade(); m.unlock_upgrade_and_lock(); hold(); m.unlock_and_lock_upgrade(); m.unlock_upgrade_and_lock_shared(); m.unlock_shared(); break;
  case 13: m.lock_upgrade(); if (m.try_unlock_upgrade_and_lock()) m.unlock_and_lock_shared(); else m.unlock_upgrade_and_lock_shared(); m.unlock_shared(); break;
  case 14: m.lock_upgrade(); if (m.try_unlock_upgrade_and_lock_until(at(1))) m.unlock(); else m.unlock_upgrade(); break;
  case 15: m.lock_shared(); if (m.try_unlock_shared_and_lock()) m.unlock(); else m.unlock_shared(); break; case 16: m.lock_shared(); if (m.try_unlock_shared_and_lock_until(at(1))) m.unlock(); else m.unlock_shared(); break;
  case 17: m.lock_shared(); if (m.try_unlock_shared_and_lock_upgrade()) m.unlock_upgrade(); else m.unlock_shared(); break; default: m.lock_shared(); if (m.try_unlock_shared_and_lock_upgrade_until(at(1))) m.unlock_upgrade(); else m.unlock_shared(); } }
ENTRY E_shared_mutex() { SM m; At<SM>::m = &m; clk_on(1); sa_frozen = 1; ls_watch(&m, sizeof m, "shared_mutex"); ls_run(19, op_shared); }
#ifdef ONLY_SHARED
typedef boost::thread_v2::shared_mutex PS;
static void op_plain(int k) { PS& m = *At<PS>::m; switch (k) {
  case 0: m.lock(); hold(); m.unlock(); break; case 1: if (m.try_lock()) { hold(); m.unlock(); } break; case 2: if (m.try_lock_until(at(1))) { hold(); m.unlock(); } break; case 3: if (m.try_lock_for(sec(1))) m.unlock(); break;
  case 4: m.lock_shared(); hold(); m.unlock_shared(); break; case 5: if (m.try_lock_shared()) { hold(); m.unlock_shared(); } break; case 6: if (m.try_lock_shared_until(at(1))) m.unlock_shared(); break; default: if (m.try_lock_shared_for(sec(1))) m.unlock_shared(); } }
ENTRY E_plain_shared_mutex() { PS m; At<PS>::m = &m; clk_on(1); sa_frozen = 1; ls_watch(&m, sizeof m, "thread_v2::shared_mutex"); ls_run(8, op_plain); }
#endif
#ifndef ONLY_SHARED
typedef boost::condition_variable_any CA; static CA* ca; static boost::mutex* cm;
static void op_any(int k) { warm(); if (k == 4) { ca->notify_one(); return; } if (k == 5) { ca->notify_all(); return; } boost::unique_lock<boost::mutex> l(*cm); switch (k) { case 0: ca->wait(l); break; case 1: ca->wait_for(l, sec(1)); break; case 2: ca->wait_until(l, at(1)); break; default: ca->timed_wait(l, boost::posix_time::seconds(1)); } }
ENTRY E_condition_variable_any() { CA c; boost::mutex m; ca = &c; cm = &m; clk_on(1); sa_frozen = 1; ls_watch(&c, sizeof c, "condition_variable_any"); ls_run(6, op_any); }
#endif
