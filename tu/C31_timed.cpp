// C31: timed operations give up at their deadline - not before it, and without sleeping beyond it
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_USES_DATETIME -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS ; -DBOOST_THREAD_VERSION=4
// @link: thread once future
#include "conc.h"
#include <boost/chrono/system_clocks.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <time.h>
#include <sys/time.h>
#include <errno.h>
#define R_EARLY "a time-out is reported only when the deadline has passed"
#define R_LATE "a timed operation does not sleep beyond its deadline"
#define R_SPIN "a timed operation asks for a time in the past only when its deadline has passed"
#define R_DUE "an element of a timed queue is taken when it comes due"
#define R_SLEEP "a sleep lasts until its deadline"
// --- the clocks: one ghost time in ns, which a reading may find advanced; the system clocks run with it, at other origins
extern "C" { extern long sa_wait_sec, sa_wait_nsec; extern int sa_wait_clock; }
typedef long long ns_t;
static const ns_t G = 1000000000ll, MONO0 = 5000 * G + 250000000, REAL0 = 1600000000ll * G + 990000000, OTHER0 = 77 * G; // origins
static ns_t now_, slack, begin_, D, W; static int adv, on_, slept, eintr; static const ns_t STEP = 70000001;
static ns_t rd() { if (on_ && !sa_probe && adv && sa_bool()) { adv = adv - 1; now_ = now_ + STEP; slack = slack + STEP; } return now_; }
namespace boost { namespace chrono {
steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(nanoseconds(MONO0 + rd())); }
system_clock::time_point system_clock::now() BOOST_NOEXCEPT { return time_point(duration((REAL0 + rd()) / (G / duration::period::den))); }
} }
struct OtherClock { typedef boost::chrono::microseconds duration; typedef duration::rep rep; typedef duration::period period; typedef boost::chrono::time_point<OtherClock> time_point; static const bool is_steady = true;
  static time_point now() { return time_point(boost::chrono::microseconds((OTHER0 + rd()) / 1000)); } };
extern "C" int clock_gettime(clockid_t c, struct timespec* ts) { ns_t t = (c == CLOCK_MONOTONIC ? MONO0 : REAL0) + rd(); ts->tv_sec = t / G; ts->tv_nsec = t % G; return 0; }
extern "C" int gettimeofday(struct timeval* tv, void*) { ns_t t = REAL0 + rd(); tv->tv_sec = t / G; tv->tv_usec = t % G / 1000; return 0; }
extern "C" int nanosleep(const struct timespec* ts, struct timespec* rem) {
  ns_t d = ts->tv_sec * G + ts->tv_nsec; SA_ASSERT(ts->tv_nsec >= 0 && ts->tv_nsec < G && ts->tv_sec >= 0, R_LATE);
  if (on_) { SA_ASSERT(now_ + d <= D + slack, R_LATE); MUST("slept"); }
  if (on_ && eintr && d > 1 && sa_bool()) { eintr = eintr - 1; ns_t h = d / 2; now_ = now_ + h; if (rem) { rem->tv_sec = (d - h) / G; rem->tv_nsec = (d - h) % G; } MUST("a signal interrupts the sleep"); errno = EINTR; return -1; }
  now_ = now_ + d; return 0;
}
static void at_wait() {
  if (sa_me() != 0 || !on_) return;
  SA_ASSERT(sa_T[0].timed, R_LATE); SA_ASSERT(sa_wait_nsec >= 0 && sa_wait_nsec < G, R_LATE);
  W = sa_wait_sec * G + sa_wait_nsec - (sa_wait_clock == CLOCK_MONOTONIC ? MONO0 : REAL0);
  SA_ASSERT(W <= D + slack, R_LATE); SA_ASSERT(W > now_ || now_ >= D, R_SPIN); MUST("waited");
}
static void at_timeout(int r) { if (sa_me() == 0 && on_ && W > now_) now_ = r == ETIMEDOUT ? W : now_ + (W - now_) / 2; }
static void start(ns_t d, ns_t tick = 1) { begin_ = now_; slack = 0; D = now_ + d; D = (D + tick - 1) / tick * tick; on_ = 1; }
#ifdef BOOST_THREAD_V2_SHARED_MUTEX
static const ns_t TICK = 999;  // timed_lock with a date_time duration computes its deadline on get_system_time(), whose readings are whole microseconds
#else
static const ns_t TICK = 0;
#endif
static void ended(bool timeout) { on_ = 0; if (timeout) { SA_ASSERT(now_ >= D - TICK, R_EARLY); MUST("timed out"); } __sa_stop(); }
// --- every way to give a time.  rel: for a duration; abs: until a time point
namespace ch = boost::chrono;
#define REL(dur, n) { start(n); ended(rel(dur)); break; }
template <class R, class A> static void chrono_forms(R rel, A abs) {
  switch (__sa_choose(13)) {
    case 0: REL(ch::milliseconds(250), 250000000)
    case 1: REL(ch::nanoseconds(40000001), 40000001)
    case 2: REL(ch::nanoseconds(1), 1)
    case 3: REL(ch::seconds(0), 0)
    case 4: REL(ch::milliseconds(-5), -5000000)
    case 5: { typedef ch::duration<int, boost::ratio<1, 3> > thirds; REL(thirds(1), 333333334) }
    case 6: REL(ch::minutes(1), 60 * G)
    case 7: { start(150000000); ended(abs(ch::steady_clock::time_point(ch::nanoseconds(MONO0 + D)))); break; }
    case 8: { start(160000000); ended(abs(ch::time_point<ch::steady_clock, ch::milliseconds>(ch::milliseconds((MONO0 + D) / 1000000)))); break; }
    case 9: { start(150000000); ended(abs(ch::system_clock::time_point(ch::system_clock::duration((REAL0 + D) / (G / ch::system_clock::duration::period::den))))); break; }
    case 10: { start(160000000); ended(abs(ch::time_point<OtherClock, ch::milliseconds>(ch::milliseconds((OTHER0 + D) / 1000000)))); break; }
    case 11: { start(-10000000); ended(abs(ch::steady_clock::time_point(ch::nanoseconds(MONO0 + D)))); break; }
    default: { start(-3 * G); ended(abs(ch::system_clock::time_point(ch::system_clock::duration((REAL0 + D) / (G / ch::system_clock::duration::period::den))))); break; }
  }
}
#ifdef BOOST_THREAD_USES_DATETIME
namespace pt = boost::posix_time;
static boost::system_time sys(ns_t t) { return pt::from_time_t((REAL0 + t) / G) + pt::microseconds((REAL0 + t) % G / 1000); }
template <class R, class A> static void date_forms(R rel, A abs) {
  switch (__sa_choose(6)) {
    case 0: REL(pt::milliseconds(250), 250000000)
    case 1: REL(pt::microseconds(40001), 40001000)
    case 2: REL(pt::seconds(0), 0)
    case 3: REL(pt::microseconds(-7), -7000)
    case 4: { start(150000000); ended(abs(sys(D))); break; }
    default: { start(-2 * G); ended(abs(sys(D))); break; }
  }
}
template <class X> static void xtime_forms(X x) { start(150000000); boost::xtime t; t.sec = (REAL0 + D) / G; t.nsec = (REAL0 + D) % G; ended(x(t)); }
#endif
// run: set up by the main thread, the operation in another one
static int form; static void* O; static void (*body_)();
static void t0(void*) { body_(); }
static void go(void (*b)(), int spurious = 1) { boost::this_thread::interruption_enabled(); now_ = 0; adv = 1; eintr = 1; on_ = 0; body_ = b; sa_wait_hook = at_wait; sa_timed_hook = at_timeout; sa_noprobe = 1; sa_spurious_left = spurious; sa_run(1, t0); }
#define ob(T) (*(T*)O)
#define NOT(e) [&](auto const& t) { return !(e); }
// --- mutexes: somebody else holds it
template <class M> static void m_chrono() { M& m = ob(M); chrono_forms(NOT(m.try_lock_for(t)), NOT(m.try_lock_until(t))); }
#ifdef BOOST_THREAD_USES_DATETIME
template <class M> static void m_date() { M& m = ob(M); date_forms(NOT(m.timed_lock(t)), NOT(m.timed_lock(t))); }
static void m_xtime() { boost::timed_mutex& m = ob(boost::timed_mutex); xtime_forms(NOT(m.timed_lock(t))); }
#endif
typedef boost::timed_mutex TM; typedef boost::recursive_timed_mutex RM; typedef boost::shared_mutex SM; typedef boost::upgrade_mutex UM;
template <class M> static void held(void (*b)()) { M m; m.lock(); O = &m; go(b); }
#ifndef ONLY_SHARED
ENTRY E_timed_mutex() { held<TM>(m_chrono<TM>); }
ENTRY E_recursive_timed_mutex() { held<RM>(m_chrono<RM>); }
#endif
ENTRY E_shared_mutex() { held<SM>(m_chrono<SM>); }
// readers in the way of a writer
template <class M> static void read(void (*b)()) { M m; m.lock_shared(); O = &m; go(b); }
// the writer ahead becomes a reader while the attempt waits: still one deadline
template <class M> static void hand_t(void*) { if (sa_me() == 0) { body_(); return; } sa_idle(); ob(M).unlock_and_lock_shared(); MUST("handed over"); for (;;) sa_idle(); }
template <class M> static void handover(void (*b)()) { M m; m.lock(); O = &m; boost::this_thread::interruption_enabled(); now_ = 0; adv = 1; eintr = 0; on_ = 0; body_ = b; sa_wait_hook = at_wait; sa_timed_hook = at_timeout; sa_noprobe = 1; sa_spurious_left = 0; sa_run(2, hand_t<M>); }
ENTRY E_shared_mutex_handover() { handover<UM>(m_chrono<UM>); }
ENTRY E_shared_mutex_readers() { read<SM>(m_chrono<SM>); }
template <class M> static void sh_chrono() { M& m = ob(M); chrono_forms(NOT(m.try_lock_shared_for(t)), NOT(m.try_lock_shared_until(t))); }
static void up_chrono() { UM& m = ob(UM); chrono_forms(NOT(m.try_lock_upgrade_for(t)), NOT(m.try_lock_upgrade_until(t))); }
ENTRY E_shared_mutex_shared() { held<SM>(sh_chrono<SM>); }
ENTRY E_shared_mutex_upgrade() { held<UM>(up_chrono); }
// conversions: another shared owner (or upgrade owner) is in the way
static void cv_chrono() { UM& m = ob(UM); switch (form) {
  case 0: m.lock_upgrade(); chrono_forms(NOT(m.try_unlock_upgrade_and_lock_for(t)), NOT(m.try_unlock_upgrade_and_lock_until(t))); break;
  case 1: m.lock_shared(); chrono_forms(NOT(m.try_unlock_shared_and_lock_for(t)), NOT(m.try_unlock_shared_and_lock_until(t))); break;
  default: m.lock_shared(); chrono_forms(NOT(m.try_unlock_shared_and_lock_upgrade_for(t)), NOT(m.try_unlock_shared_and_lock_upgrade_until(t))); } }
ENTRY E_upgrade_to_exclusive() { UM m; m.lock_shared(); O = &m; form = 0; go(cv_chrono); }
ENTRY E_shared_to_exclusive() { UM m; m.lock_shared(); O = &m; form = 1; go(cv_chrono); }
ENTRY E_shared_to_upgrade() { UM m; m.lock_upgrade(); O = &m; form = 2; go(cv_chrono); }
#ifdef BOOST_THREAD_USES_DATETIME
#ifndef ONLY_SHARED
ENTRY E_timed_mutex_date() { held<TM>(m_date<TM>); }
ENTRY E_timed_mutex_xtime() { held<TM>(m_xtime); }
ENTRY E_recursive_timed_mutex_date() { held<RM>(m_date<RM>); }
#endif
static void s_date() { SM& m = ob(SM); if (form) date_forms(NOT(m.timed_lock_shared(t)), NOT(m.timed_lock_shared(t))); else date_forms(NOT(m.timed_lock(t)), NOT(m.timed_lock(t))); }
ENTRY E_shared_mutex_handover_date() { form = 0; handover<SM>(s_date); }
ENTRY E_shared_mutex_readers_date() { form = 0; read<SM>(s_date); }
ENTRY E_shared_mutex_date() { form = 0; held<SM>(s_date); }
ENTRY E_shared_mutex_shared_date() { form = 1; held<SM>(s_date); }
#endif
#ifdef ONLY_SHARED
typedef boost::thread_v2::shared_mutex PS;   // the one without upgrade ownership
ENTRY E_plain() { held<PS>(m_chrono<PS>); }
ENTRY E_plain_readers() { read<PS>(m_chrono<PS>); }
ENTRY E_plain_shared() { held<PS>(sh_chrono<PS>); }
#ifdef BOOST_THREAD_USES_DATETIME
static void ps_date() { PS& m = ob(PS); if (form) date_forms(NOT(m.timed_lock_shared(t)), NOT(m.timed_lock_shared(t))); else date_forms(NOT(m.timed_lock(t)), NOT(m.timed_lock(t))); }
ENTRY E_plain_readers_date() { form = 0; read<PS>(ps_date); }
ENTRY E_plain_date() { form = 0; held<PS>(ps_date); }
ENTRY E_plain_shared_date() { form = 1; held<PS>(ps_date); }
#endif
#endif
#ifndef ONLY_SHARED
// --- condition variables, with and without predicate; nobody notifies
static bool no() { return false; }
#define TOUT(e) [&](auto const& t) { return (e) == boost::cv_status::timeout; }
template <class C, class L> static void w_chrono(L& l) { C c; if (form) chrono_forms(NOT(c.wait_for(l, t, no)), NOT(c.wait_until(l, t, no))); else chrono_forms(TOUT(c.wait_for(l, t)), TOUT(c.wait_until(l, t))); }
static void cv1() { boost::mutex m; boost::unique_lock<boost::mutex> l(m); w_chrono<boost::condition_variable>(l); }
static void cv2() { boost::mutex m; boost::unique_lock<boost::mutex> l(m); w_chrono<boost::condition_variable_any>(l); }
ENTRY E_cv() { form = 0; go(cv1); }
ENTRY E_cv_pred() { form = 1; go(cv1); }
ENTRY E_cv_any() { form = 0; go(cv2); }
ENTRY E_cv_any_pred() { form = 1; go(cv2); }
#ifdef BOOST_THREAD_USES_DATETIME
template <class C> static void w_date() { boost::mutex m; boost::unique_lock<boost::mutex> l(m); C c;
  switch (form) { case 0: date_forms(NOT(c.timed_wait(l, t)), NOT(c.timed_wait(l, t))); break; case 1: date_forms(NOT(c.timed_wait(l, t, no)), NOT(c.timed_wait(l, t, no))); break; case 2: xtime_forms(NOT(c.timed_wait(l, t))); break; default: xtime_forms(NOT(c.timed_wait(l, t, no))); } }
ENTRY E_cv_date() { form = sa_bool() ? 0 : 2; go(w_date<boost::condition_variable>); }
ENTRY E_cv_date_pred() { form = sa_bool() ? 1 : 3; go(w_date<boost::condition_variable>); }
ENTRY E_cv_any_date() { form = sa_bool() ? 0 : 2; go(w_date<boost::condition_variable_any>); }
ENTRY E_cv_any_date_pred() { form = sa_bool() ? 1 : 3; go(w_date<boost::condition_variable_any>); }
#endif
// --- futures that do not become ready, threads that do not end, latches that stay shut
typedef boost::BOOST_THREAD_FUTURE<int> F;
#define FOUT(e) [&](auto const& t) { return (e) == boost::future_status::timeout; }
static void fut() { boost::promise<int> p; F f = p.get_future(); if (form) { boost::shared_future<int> s(boost::move(f)); chrono_forms(FOUT(s.wait_for(t)), FOUT(s.wait_until(t))); } else chrono_forms(FOUT(f.wait_for(t)), FOUT(f.wait_until(t))); }
ENTRY E_future() { form = 0; go(fut); }
ENTRY E_shared_future() { form = 1; go(fut); }
static void lat() { if (form) { boost::completion_latch l(1); chrono_forms(TOUT(l.wait_for(t)), TOUT(l.wait_until(t))); } else { boost::latch l(1); chrono_forms(TOUT(l.wait_for(t)), TOUT(l.wait_until(t))); } }
ENTRY E_latch() { form = 0; go(lat); }
ENTRY E_completion_latch() { form = 1; go(lat); }
static void forever() { boost::mutex m; boost::condition_variable c; boost::unique_lock<boost::mutex> l(m); for (;;) c.wait(l); }
static void joiner() { boost::thread t0(&forever); chrono_forms(NOT(t0.try_join_for(t)), NOT(t0.try_join_until(t))); }
ENTRY E_try_join() { go(joiner); }
#ifdef BOOST_THREAD_USES_DATETIME
static void fut_date() { boost::promise<int> p; F f = p.get_future(); if (sa_bool()) { start(250000000); ended(!f.timed_wait(pt::milliseconds(250))); } start(150000000); ended(!f.timed_wait_until(sys(D))); }
ENTRY E_future_date() { go(fut_date); }
static void join_date() { boost::thread t0(&forever); date_forms(NOT(t0.timed_join(t)), NOT(t0.timed_join(t))); }
ENTRY E_timed_join() { go(join_date); }
#endif
// --- sleeps
#define SLEPT(e) [&](auto const& t) { e; SA_ASSERT(now_ >= D, R_SLEEP); return true; }
static void sleeps() { if (form) chrono_forms(SLEPT(boost::this_thread::no_interruption_point::sleep_for(t)), SLEPT(boost::this_thread::no_interruption_point::sleep_until(t))); else chrono_forms(SLEPT(boost::this_thread::sleep_for(t)), SLEPT(boost::this_thread::sleep_until(t))); }
ENTRY E_sleep() { form = 0; go(sleeps); }
ENTRY E_sleep_nip() { form = 1; go(sleeps); }
#ifdef BOOST_THREAD_USES_DATETIME
static void sleeps_date() { if (form) date_forms(SLEPT(boost::this_thread::no_interruption_point::sleep(t)), SLEPT(boost::this_thread::no_interruption_point::sleep(t))); else date_forms(SLEPT(boost::this_thread::sleep(t)), SLEPT(boost::this_thread::sleep(t))); }
ENTRY E_sleep_date() { form = 0; go(sleeps_date); }
ENTRY E_sleep_nip_date() { form = 1; go(sleeps_date); }
#endif
// --- queues that stay empty
#define QOUT(e) [&](auto const& t) { return (e) == boost::queue_op_status::timeout; }
static void pq() { boost::sync_priority_queue<int> q; int v = 0; chrono_forms(QOUT(q.pull_for(t, v)), QOUT(q.pull_until(t, v))); }
ENTRY E_priority_queue() { go(pq); }
#define QTIMED(e) [&](auto const& t) { boost::queue_op_status r = (e); return r == boost::queue_op_status::timeout || r == boost::queue_op_status::not_ready; }
template <class C> struct at_; // the time point of a clock for a ghost time
template <> struct at_<ch::steady_clock> { static ch::steady_clock::time_point on(ns_t t) { return ch::steady_clock::time_point(ch::nanoseconds(MONO0 + t)); } };
template <> struct at_<ch::system_clock> { static ch::system_clock::time_point on(ns_t t) { return ch::system_clock::time_point(ch::system_clock::duration((REAL0 + t) / (G / ch::system_clock::duration::period::den))); } };
template <> struct at_<OtherClock> { static OtherClock::time_point on(ns_t t) { return OtherClock::time_point(ch::microseconds((OTHER0 + t) / 1000)); } };
template <class C> static void tq() { boost::sync_timed_queue<int, C> q; int v = 0; typename C::time_point tp; if (form) q.push(1, at_<C>::on(90 * G));
  auto rel = QTIMED(q.pull_for(t, v)); 
  switch (__sa_choose(6)) { case 0: REL(ch::milliseconds(250), 250000000) case 1: REL(ch::nanoseconds(40000001), 40000001) case 2: REL(ch::nanoseconds(-7), -7) case 3: REL(ch::seconds(0), 0)
    case 4: { start(150000000); tp = at_<C>::on(D); ended(QTIMED(q.pull_until(t, v))(tp)); break; } default: { start(60 * G); tp = at_<C>::on(D); ended(QTIMED(q.pull_until(t, v))(tp)); } } }
ENTRY E_timed_queue() { form = sa_bool(); go(tq<ch::steady_clock>); }
ENTRY E_timed_queue_system() { form = sa_bool(); go(tq<ch::system_clock>); }
ENTRY E_timed_queue_other() { form = sa_bool(); go(tq<OtherClock>); }
// the element comes due before the caller's deadline: the wait is for it
template <class C> static void due() { boost::sync_timed_queue<int, C> q; int v = 0; start(150000000); q.push(7, at_<C>::on(D)); q.push(8, at_<C>::on(90 * G));
  boost::queue_op_status r = boost::queue_op_status::success; switch (__sa_choose(4)) { case 0: q.pull(v); break; case 1: r = q.wait_pull(v); break; case 2: r = q.pull_for(ch::seconds(2), v); break; default: { typename C::time_point tp = at_<C>::on(now_ + 2 * G); r = q.pull_until(tp, v); } }
  SA_ASSERT(r == boost::queue_op_status::success && v == 7 && now_ >= D, R_DUE); MUST("came due"); on_ = 0; __sa_stop(); }
ENTRY E_timed_queue_due() { go(due<ch::steady_clock>); }
ENTRY E_timed_queue_due_system() { go(due<ch::system_clock>); }
ENTRY E_timed_queue_due_other() { go(due<OtherClock>); }
#endif
