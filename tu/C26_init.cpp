// C26: failures of the operating system - construction, locking, waiting, thread creation
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @flags: -fno-access-control
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/sync_queue.hpp>
#include <boost/thread/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/tss.hpp>
#define R_CTOR "a constructor whose operating system primitive cannot be made throws thread_resource_error with the system's error code, and only then"
#define R_UNDO "a constructor that fails has destroyed every primitive it made and leaks nothing"
#define R_FREE "destruction releases every primitive that construction made"
#define R_LOCK "a lock operation that fails reports lock_error with the system's error code and leaves the mutex not owned"
#define R_WAIT "a wait that fails reports condition_error with the system's error code and the lock is owned again"
#define R_THREAD "a thread that cannot be created is reported with thread_resource_error, leaves the handle unchanged and leaks nothing"
static int made[8], nfail, can, code; static void* cvi;
extern "C" void env_made(int k, int d) { made[k] = made[k] + d; SA_ASSERT(made[k] >= 0, R_FREE); }
extern "C" int env_init_fault(int k) { if (can && !nfail && k != 6 && sa_bool()) { nfail = 1; return code; } return 0; }
static int lcan, lfail; static pthread_mutex_t* lm; extern "C" int env_lock_fault(pthread_mutex_t* m) { if (lcan && m == lm && sa_bool()) { lfail = 1; lcan = 0; return code; } return 0; }
static int wcan, wfail; extern "C" int env_wait_fault(pthread_cond_t* c) { if (wcan && (void*)c == cvi && sa_bool()) { wfail = 1; wcan = 0; return code; } return 0; }
static int tcan, tfail; extern "C" int env_create_fault() { if (tcan && sa_bool()) { tfail = 1; tcan = 0; return code; } return 0; }
static int total() { int n = 0; for (int i = 0; i < 4; i++) n = n + made[i]; return n; }
static void base() { { boost::this_thread::get_id(); } code = sa_bool() ? EAGAIN : ENOMEM; }
static bool is(boost::thread_exception& e) { return e.native_error() == code; }
// --- construction: every placement of a failure among the primitives the constructor makes
template <class T> static void ctor(T* (*mk)(void*)) {
  base(); nfail = 0; alignas(T) static char buf[sizeof(T)]; int h = __sa_live_heap(), t = total(); T* p = 0; int thr = 0; can = 1;
  try { p = mk(buf); } catch (boost::thread_resource_error& e) { thr = 1; SA_ASSERT(is(e), R_CTOR); }
  can = 0; SA_ASSERT(thr == nfail, R_CTOR);
  if (thr) { MUST("reported"); } else { p->~T(); MUST("constructed"); }
  SA_ASSERT(total() == t && __sa_live_heap() == h, thr ? R_UNDO : R_FREE);
}
#define CTOR(name, T, args) static T* mk_##name(void* b) { return new (b) T args; } ENTRY E_ctor_##name() { ctor<T>(mk_##name); }
typedef boost::synchronized_value<int> SVi; typedef boost::lockable_adapter<boost::mutex> LAm; typedef boost::lockable_adapter<boost::recursive_mutex> LAr;
typedef boost::sync_queue<int> SQ; typedef boost::sync_deque<int> SD; typedef boost::sync_bounded_queue<int> SB; typedef boost::sync_priority_queue<int> SP; typedef boost::sync_timed_queue<int> ST;
CTOR(mutex, boost::mutex, ()) CTOR(timed_mutex, boost::timed_mutex, ()) CTOR(recursive_mutex, boost::recursive_mutex, ()) CTOR(recursive_timed_mutex, boost::recursive_timed_mutex, ())
CTOR(condition_variable, boost::condition_variable, ()) CTOR(condition_variable_any, boost::condition_variable_any, ()) CTOR(shared_mutex, boost::shared_mutex, ()) CTOR(barrier, boost::barrier, (2))
CTOR(latch, boost::latch, (2)) CTOR(completion_latch, boost::completion_latch, (2)) CTOR(sync_queue, SQ, ()) CTOR(sync_deque, SD, ()) CTOR(bounded_queue, SB, (3)) CTOR(priority_queue, SP, ()) CTOR(timed_queue, ST, ())
CTOR(sync_value, SVi, (3)) CTOR(lockable, LAm, ()) CTOR(lockable_recursive, LAr, ()) CTOR(thread_group, boost::thread_group, ())
// --- lock
template <class M> static void lock_(int kind) {
  base(); M m; lm = &m.m; code = sa_bool() ? EAGAIN : EINVAL; int thr = 0; lfail = 0; lcan = 1;
  if (kind == 0) { try { m.lock(); } catch (boost::lock_error& e) { thr = 1; SA_ASSERT(is(e), R_LOCK); } lcan = 0; SA_ASSERT(thr == lfail, R_LOCK); SA_ASSERT(sa_held(&m.m) == !thr, R_LOCK); if (!thr) m.unlock(); }
  else if (kind == 1) { boost::unique_lock<M> l(m, boost::defer_lock); try { l.lock(); } catch (boost::lock_error& e) { thr = 1; SA_ASSERT(is(e), R_LOCK); } lcan = 0; SA_ASSERT(thr == lfail && l.owns_lock() == !thr && sa_held(&m.m) == !thr, R_LOCK); if (thr) { l.lock(); SA_ASSERT(l.owns_lock(), R_LOCK); } }
  else { try { boost::lock_guard<M> l(m); lcan = 0; SA_ASSERT(!lfail && sa_held(&m.m), R_LOCK); } catch (boost::lock_error& e) { thr = 1; SA_ASSERT(is(e), R_LOCK); } lcan = 0; SA_ASSERT(thr == lfail, R_LOCK); }
  SA_ASSERT(sa_free(&m.m) && m.try_lock(), R_LOCK); m.unlock(); if (thr) MUST("reported"); else MUST("locked");
}
ENTRY E_lock_mutex() { lock_<boost::mutex>(__sa_choose(3)); }
ENTRY E_lock_recursive_mutex() { lock_<boost::recursive_mutex>(__sa_choose(3)); }
ENTRY E_relock_recursive_mutex() {
  base(); boost::recursive_mutex m; m.lock(); lm = &m.m; lfail = 0; lcan = 1; int thr = 0; try { m.lock(); } catch (boost::lock_error& e) { thr = 1; SA_ASSERT(is(e), R_LOCK); } lcan = 0; SA_ASSERT(thr == lfail, R_LOCK);
  if (!thr) m.unlock(); SA_ASSERT(sa_held(&m.m), R_LOCK); m.unlock(); SA_ASSERT(sa_free(&m.m), R_LOCK); if (thr) MUST("reported"); else MUST("locked");
}
// --- waits
template <class CV, class M> static void wait_() {
  base(); M m; CV c; cvi = &c.cond; int h = __sa_live_heap(), thr = 0, ret = 0; code = sa_bool() ? EINVAL : EPERM; boost::unique_lock<M> l(m); wfail = 0; wcan = 1; __sa_opt("block_ok", 1);
  try { switch (__sa_choose(3)) { case 0: c.wait(l); break; case 1: c.wait_for(l, boost::chrono::seconds(1)); break; default: c.wait_until(l, boost::chrono::steady_clock::time_point(boost::chrono::seconds(5))); } ret = 1; }
  catch (boost::condition_error& e) { thr = 1; SA_ASSERT(e.code().value() == code, R_WAIT); }
  wcan = 0; SA_ASSERT(thr == wfail && ret == !thr, R_WAIT); SA_ASSERT(l.owns_lock() && sa_held(&m.m), R_WAIT); SA_ASSERT(sa_locks_held == 1, R_WAIT);
  c.notify_all(); l.unlock(); SA_ASSERT(sa_free(&m.m) && __sa_live_heap() == h, R_WAIT); if (thr) MUST("reported"); else MUST("returned");
}
ENTRY E_wait_cv() { wait_<boost::condition_variable, boost::mutex>(); }
ENTRY E_wait_cv_any() { wait_<boost::condition_variable_any, boost::mutex>(); }
// --- thread creation
static int ran; static void body() { ran = ran + 1; }
static void thread_driver(void*) {
  base(); int h = __sa_live_heap(), t = total(), thr = 0, nt = 0; ran = 0; tfail = 0; tcan = 1;
  { boost::thread x;
    try { switch (__sa_choose(3)) { case 0: { boost::thread y(&body); x = boost::move(y); break; } case 1: { const boost::thread::attributes a; boost::thread y(a, &body); x = boost::move(y); break; } default: { x = boost::thread(&body); } } } catch (boost::thread_resource_error& e) { thr = 1; SA_ASSERT(e.native_error() == code || e.native_error() == EAGAIN, R_THREAD); }
    tcan = 0; SA_ASSERT(thr == tfail && x.joinable() == !thr, R_THREAD); SA_ASSERT(sa_nspawn == !thr, R_THREAD);
    if (!thr) { x.join(); SA_ASSERT(ran == 1, R_THREAD); MUST("created"); } else { SA_ASSERT(x.get_id() == boost::thread::id(), R_THREAD); x = boost::thread(&body); x.join(); SA_ASSERT(ran == 1, R_THREAD); MUST("reported"); } }
  SA_ASSERT(__sa_live_heap() == h && total() == t, R_THREAD);
}
ENTRY E_thread() { sa_run(1, thread_driver); }
#if BOOST_THREAD_VERSION >= 4
template <class F> static void async_(F mk) {
  base(); int h = __sa_live_heap(), t = total(), thr = 0; ran = 0; tfail = 0; tcan = 1;
  try { mk(); } catch (boost::thread_resource_error& e) { thr = 1; }
  tcan = 0; SA_ASSERT(thr == tfail && ran == !thr, R_THREAD); if (thr) MUST("reported"); else MUST("created");
  if (thr || sa_spawn_state[0] == 2) { SA_ASSERT(__sa_live_heap() == h && total() == t, R_THREAD); MUST("at rest"); }
}
static void a0() { boost::future<void> f = boost::async(boost::launch::async, &body); f.get(); }
static void d0(void*) { async_(a0); } ENTRY E_async() { sa_run(1, d0); }
static int one() { ran = ran + 1; return 1; }
static void a1() { boost::future<int> f = boost::async(boost::launch::async, &one); f.get(); }
static void d1(void*) { async_(a1); } ENTRY E_async_int() { sa_run(1, d1); }
#endif
