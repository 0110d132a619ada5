// C06: condition variables - lock given up while waiting and held after, no lost notification, predicate waits
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_THREAD_DONT_PROVIDE_INTERRUPTIONS
// @link: thread once
#include "conc.h"
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
struct Err {};
typedef boost::chrono::steady_clock SC; typedef boost::chrono::system_clock RC; typedef boost::chrono::milliseconds MS;
#define R_GIVEUP "the caller's lock is given up while it waits"
#define R_HELD "the caller holds the lock again when the wait returns or throws"
#define R_PRED "a predicate wait returns the value of the predicate, and without time-out only when it is true"
#define R_FAULT "a failing underlying wait is reported as condition_error, never as a normal return"
#define R_TMO "time-out is reported exactly when the underlying wait timed out"
// a lock type for condition_variable_any
struct Lk { boost::mutex* m; bool own; explicit Lk(boost::mutex& x) : m(&x), own(true) { m->lock(); } ~Lk() { if (own) m->unlock(); }
  void lock() { m->lock(); own = true; } void unlock() { own = false; m->unlock(); } bool owns_lock() const { return own; } };
static boost::mutex* mx; static void* cvp; static int tokens, sticky, fault, faulted, all, pthrow, preds, timedout;
static void on_wait() { SA_ASSERT(!sa_held(mx->native_handle()), R_GIVEUP); }
extern "C" int env_wait_fault(pthread_cond_t*) { if (fault && !sa_probe && sa_me() == 0 && sa_bool()) { faulted = 1; return EINVAL; } return 0; }
static bool pred() { SA_ASSERT(sa_held(mx->native_handle()), "the predicate is evaluated with the lock held"); if (pthrow && !sa_probe && sa_bool()) throw Err(); return tokens > 0; }
template <class CV> struct Lock; 
template <> struct Lock<boost::condition_variable> { typedef boost::unique_lock<boost::mutex> t; };
template <> struct Lock<boost::condition_variable_any> { typedef Lk t; };
static int form;
// one wait of the selected form; returns 1 predicate true / notified, 0 timed out, -1 plain wait returned, -2 may be either
template <class CV, class L> static int one_wait(CV& cv, L& l) {
  switch (form) {
    case 0: cv.wait(l); return -1;
    case 1: cv.wait(l, pred); SA_ASSERT(tokens > 0, R_PRED); return 1;
    case 2: { bool r = cv.wait_until(l, SC::now()) == boost::cv_status::no_timeout; SA_ASSERT(r == !timedout, R_TMO); return -1; }
    case 3: { bool r = cv.wait_until(l, SC::now(), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
    case 4: { bool r = cv.wait_for(l, MS(5)) == boost::cv_status::no_timeout; SA_ASSERT(r == !timedout, R_TMO); return -1; }
    case 5: { bool r = cv.wait_for(l, MS(5), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
    case 6: cv.wait_until(l, RC::now()); return -1;
    case 7: { bool r = cv.wait_until(l, RC::now(), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
#ifdef BOOST_THREAD_USES_DATETIME
    case 8: cv.timed_wait(l, boost::system_time()); return -1;
    case 9: { bool r = cv.timed_wait(l, boost::system_time(), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
    case 10: { bool r = cv.timed_wait(l, boost::posix_time::milliseconds(5)); SA_ASSERT(r == !timedout, R_TMO); return -1; }
    case 11: { bool r = cv.timed_wait(l, boost::posix_time::milliseconds(5), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
    case 12: { bool r = cv.timed_wait(l, boost::posix_time::time_duration(boost::posix_time::pos_infin), pred); SA_ASSERT(r && tokens > 0, R_PRED); return r; }
    case 13: cv.timed_wait(l, boost::posix_time::time_duration(boost::posix_time::pos_infin)); return -1;
    case 14: { bool r = cv.timed_wait(l, boost::posix_time::time_duration(boost::posix_time::neg_infin), pred); SA_ASSERT(r == (tokens > 0), R_PRED); return r; }
#endif
    default: __sa_stop();
  }
}
template <class CV> static void waiter(int) {
  CV& cv = *(CV*)cvp; typedef typename Lock<CV>::t L;
  L l(*mx);
  bool plain = form == 0 || form == 2 || form == 4 || form == 6 || form == 8 || form == 10 || form == 13;
  try {
    if (plain) { while (!(tokens > 0)) { timedout = 0; one_wait(cv, l); SA_ASSERT(l.owns_lock() && sa_held(mx->native_handle()), R_HELD); } }
    else { int r = one_wait(cv, l); if (!r && sa_probe) __sa_stop(); SA_ASSERT(l.owns_lock() && sa_held(mx->native_handle()), R_HELD); if (r == 0) { MUST("timed out"); return; } }
    SA_ASSERT(!faulted, R_FAULT);
    if (!sticky) tokens = tokens - 1;
    MUST("notified");
  } catch (boost::condition_error&) { SA_ASSERT(faulted, R_FAULT); SA_ASSERT(l.owns_lock() && sa_held(mx->native_handle()), R_HELD); MUST("condition_error"); }
  catch (Err&) { SA_ASSERT(l.owns_lock() && sa_held(mx->native_handle()), R_HELD); }
}
template <class CV> static void notifier() {
  CV& cv = *(CV*)cvp;
  int rounds = sticky ? 1 : 2;
  for (int k = 0; k < rounds; k++) {
    sa_idle();
    { boost::unique_lock<boost::mutex> l(*mx); tokens = tokens + 1; if (sa_bool()) { if (all) cv.notify_all(); else cv.notify_one(); l.unlock(); continue; } }
    if (all) cv.notify_all(); else cv.notify_one();
  }
}
static int nwait;
template <class CV> static void thread_fn(void* p) { int i = (int)(long)p; if (i < nwait) waiter<CV>(i); else notifier<CV>(); }
static void on_timed(int r) { timedout = r != 0; }
template <class CV> static void go(int f, int nw, int a, int s, int flt = 0, int pt = 0) {
  boost::mutex m; CV cv; mx = &m; cvp = &cv; form = f; nwait = nw; all = a; sticky = s; fault = flt; pthrow = pt; tokens = faulted = timedout = 0;
  sa_preempt_nested = 1; sa_preempt_after = 1; sa_wait_hook = on_wait; sa_timed_hook = on_timed;
  sa_run(nw + 1, thread_fn<CV>);
}
#define FORMS(T, P) \
ENTRY E_##P##_wait() { go<T>(0, 1, 0, 0, 1); } \
ENTRY E_##P##_wait_pred() { go<T>(1, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_until() { go<T>(2, 1, 0, 0, 1); } \
ENTRY E_##P##_until_pred() { go<T>(3, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_for() { go<T>(4, 1, 0, 0, 1); } \
ENTRY E_##P##_for_pred() { go<T>(5, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_system_until() { go<T>(6, 1, 0, 0, 1); } \
ENTRY E_##P##_system_until_pred() { go<T>(7, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_two_waiters_one() { go<T>(0, 2, 0, 0); } \
ENTRY E_##P##_two_waiters_all() { go<T>(0, 2, 1, 1); } \
ENTRY E_##P##_two_waiters_pred() { go<T>(1, 2, 0, 0); }
FORMS(boost::condition_variable, cv)
FORMS(boost::condition_variable_any, any)
#ifdef BOOST_THREAD_USES_DATETIME
#define DTFORMS(T, P) \
ENTRY E_##P##_timed_abs() { go<T>(8, 1, 0, 0, 1); } \
ENTRY E_##P##_timed_abs_pred() { go<T>(9, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_timed_rel() { go<T>(10, 1, 0, 0, 1); } \
ENTRY E_##P##_timed_rel_pred() { go<T>(11, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_timed_inf_pred() { go<T>(12, 1, 0, 0, 1, 1); } \
ENTRY E_##P##_timed_inf() { go<T>(13, 1, 0, 0, 1); } \
ENTRY E_##P##_timed_neg_pred() { go<T>(14, 1, 0, 0); }
DTFORMS(boost::condition_variable, cv)
DTFORMS(boost::condition_variable_any, any)
#endif
// waiting without owning the lock is refused
ENTRY E_cv_precondition() {
  boost::mutex m; boost::condition_variable cv; boost::unique_lock<boost::mutex> l(m, boost::defer_lock); bool thrown = false;
  try { if (sa_bool()) cv.wait(l); else cv.wait_until(l, SC::now()); } catch (boost::condition_error&) { thrown = true; } catch (boost::lock_error&) { thrown = true; }
  SA_ASSERT(thrown && !l.owns_lock() && sa_free(m.native_handle()), "waiting without holding the lock is refused and changes nothing");
}
