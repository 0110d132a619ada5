// C10: thread exit - registered actions run exactly once, in the exiting thread, before a joiner is released
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/condition_variable.hpp>
#define R_ONCE "a function registered for thread exit runs exactly once, in the thread that registered it"
#define R_NOTYET "nothing registered for thread exit runs before the thread's function has ended"
#define R_JOIN "join returns only after every exit action of the thread has run"
#define R_TSS "a thread-specific value still set at thread exit is cleaned exactly once, a released one not at all"
#define R_NOTIFY "the lock handed over for exit-time notification is released when the thread exits, after the thread-specific data was cleaned"
#define R_READY "a result set for thread exit becomes ready when the thread exits, not before, and is the one that was set"
#define R_LEAK "no thread data or exit action remains once the thread has ended and all handles are gone"
struct Val { int v; }; 
static int reg[6], ran[6], owner[6], ended[8], kinds, nreg, handed, flag, promised, got, waited, interrupted, base, joined_, dynset, dyn_done, form;
static int cleaned[4], have[4], tssowner[4];
static boost::mutex* mx; static boost::condition_variable* cv; static boost::promise<int>* pr; static boost::BOOST_THREAD_FUTURE<int>* ft;
static int vals[4];
static void add(int k);
static void cleanup(int* p) { int k = p - vals; SA_ASSERT(have[k] && !cleaned[k] && tssowner[k] == __sa_tid(), R_TSS); SA_ASSERT(ended[__sa_tid()], R_NOTYET); cleaned[k] = 1; have[k] = 0; if (k == 0 && (kinds & 64) && sa_bool()) add(3); }
static boost::thread_specific_ptr<int>* tp; static boost::thread_specific_ptr<int>* tq;
static void action(int k);
static void act0() { action(0); } static void act1() { action(1); } static void act2() { action(2); }
struct Act { int k; Act(int x) : k(x) {} void operator()() { action(k); } };
static void add(int k) { reg[k] = 1; owner[k] = __sa_tid(); if (k == 0) boost::this_thread::at_thread_exit(&act0); else boost::this_thread::at_thread_exit(Act(k)); }
static void setval(boost::thread_specific_ptr<int>* p, int k) { have[k] = 1; tssowner[k] = __sa_tid(); p->reset(&vals[k]); }
static void action(int k) {
  SA_ASSERT(reg[k] && !ran[k] && owner[k] == __sa_tid(), R_ONCE); SA_ASSERT(ended[__sa_tid()], R_NOTYET); ran[k] = 1;
  SA_ASSERT(!handed || (mx && sa_held(mx->native_handle())), R_NOTIFY);
  if (k == 1 && sa_bool()) { add(4); }            // registered while the thread exits
  if (k == 1 && sa_bool()) { have[2] = 1; tssowner[2] = __sa_tid(); tq->reset(&vals[2]); dynset = 1; }
}
static void all_done(int tid) { for (int k = 0; k < 6; k++) if (reg[k] && owner[k] == tid) SA_ASSERT(ran[k], R_JOIN); for (int k = 0; k < 4; k++) if (tssowner[k] == tid) SA_ASSERT(!have[k], R_TSS); }
// the body of the started thread: any of the registrations, then any way to end
static void body() {
  int t = __sa_tid();
  if (kinds & 1) { if (sa_bool()) add(0); add(1); if (sa_bool()) add(2); }
  if (kinds & 2) { setval(tp, 0); if (sa_bool()) { SA_ASSERT(tp->release() == &vals[0], R_TSS); have[0] = 0; } if (sa_bool()) setval(tq, 1); }
  if (kinds & 4) { boost::unique_lock<boost::mutex> l(*mx); flag = 1; if (sa_bool()) { boost::notify_all_at_thread_exit(*cv, boost::move(l)); handed = 1; SA_ASSERT(!l.owns_lock() && sa_held(mx->native_handle()), R_NOTIFY); } else { cv->notify_all(); ended[t] = 2; } }
  if (kinds & 8) { if (form == 0) pr->set_value_at_thread_exit(42); else pr->set_exception_at_thread_exit(boost::copy_exception(Val{42})); promised = 1; SA_ASSERT(!ft->is_ready(), R_READY); }
  if (kinds & 16) { if (sa_bool()) { interrupted = 1; ended[t] = 1; throw boost::thread_interrupted(); } }
  ended[t] = 1;
}
static int tid_t;
static void spawn_body() { tid_t = __sa_tid(); body(); }
static int ready_, driver_done;
// a thread that the library did not start
struct Foreign { pthread_t h; static void* run(void*) { spawn_body(); return 0; } explicit Foreign(void (*)()) { SA_ASSERT(!pthread_create(&h, 0, &run, 0), R_JOIN); } void join() { pthread_join(h, 0); } };
template <class Th> static void driver(void*) {
  { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); base = __sa_live_heap();
  { boost::thread_specific_ptr<int> p(cleanup), q(cleanup); tp = &p; tq = &q;
    boost::mutex m; boost::condition_variable c; boost::promise<int> prom; boost::BOOST_THREAD_FUTURE<int> f = prom.get_future(); mx = &m; cv = &c; pr = &prom; ft = &f; ready_ = 1;
    int hold = sa_bool();   // the handle may be kept after the join
    { Th t(&spawn_body);
      if (kinds & 32) { // actions of this thread are its own
        add(5); have[3] = 1; tssowner[3] = __sa_tid(); tp->reset(&vals[3]); }
      int who = __sa_choose((kinds & 12) ? 3 : 1);
      if (who == 0) { t.join(); joined_ = 1; all_done(tid_t); SA_ASSERT(ended[tid_t], R_JOIN); MUST("joined"); if (handed) SA_ASSERT(sa_free(m.native_handle()), R_NOTIFY); if (promised) SA_ASSERT(f.is_ready(), R_READY); if (kinds & 32) SA_ASSERT(!ran[5] && have[3] && tp->get() == &vals[3], R_ONCE); }
      else if (who == 1) { if (!(kinds & 4)) __sa_stop(); { boost::unique_lock<boost::mutex> l(m); while (!flag) c.wait(l); if (handed) { SA_ASSERT(ended[tid_t] == 1, R_NOTIFY); all_done(tid_t); MUST("notified"); } } if (!sa_probe) t.join(); }
      else { if (!(kinds & 8)) __sa_stop(); try { int v = f.get(); SA_ASSERT(v == 42 && form == 0, R_READY); } catch (Val& v) { SA_ASSERT(v.v == 42 && form == 1, R_READY); } SA_ASSERT(promised && ended[tid_t] == 1, R_READY); all_done(tid_t); MUST("result"); if (!sa_probe) t.join(); promised = 2; }
      if (promised == 1) { if (sa_probe) __sa_stop(); try { int v = f.get(); SA_ASSERT(v == 42 && form == 0, R_READY); } catch (Val& v) { SA_ASSERT(v.v == 42 && form == 1, R_READY); } }
    }
    if (sa_probe) __sa_stop();
    ended[__sa_tid()] = 1; sa_run_key_dtors(__sa_tid()); all_done(__sa_tid());
  }
  SA_ASSERT(__sa_live_heap() <= base, R_LEAK); driver_done = 1;
  __sa_stop();
}
static void go(int k, int f = 0) { kinds = k; form = f; sa_spurious = 0; sa_preempt_after = 1; sa_run(1, driver<boost::thread>); }
static void foreign(int k, int f = 0) { kinds = k; form = f; sa_spurious = 0; sa_preempt_after = 1; sa_run(1, driver<Foreign>); }
ENTRY E_functions() { go(1 | 16); }
ENTRY E_tss() { go(2 | 16); }
ENTRY E_functions_tss() { go(1 | 2); }
ENTRY E_cleanup_registers() { go(2 | 64); }
ENTRY E_notify() { go(1 | 4); }
ENTRY E_notify_interrupted() { go(4 | 2 | 16); }
ENTRY E_value() { go(8 | 1 | 16); }
ENTRY E_exception() { go(8 | 2, 1); }
ENTRY E_all() { go(4 | 8 | 2); }
ENTRY E_foreign_notify() { foreign(1 | 4); }
ENTRY E_foreign_value() { foreign(8 | 1); }
ENTRY E_foreign_exception() { foreign(8 | 2, 1); }
ENTRY E_foreign_all() { foreign(4 | 8 | 2); }
ENTRY E_own_thread() { go(32 | 1); }
// an externally created thread: actions run through the key destructor
ENTRY E_external() {
  __sa_opt("coarse", 1);
  boost::thread_specific_ptr<int> p(cleanup), q(cleanup); tp = &p; tq = &q; kinds = 3 | 64;
  int n = __sa_live_heap();
  body(); sa_run_key_dtors(__sa_tid()); all_done(__sa_tid());
  SA_ASSERT(__sa_live_heap() <= n, R_LEAK);
}
// two threads: each runs its own actions only
static void two_driver(void*) {
  boost::thread_specific_ptr<int> p(cleanup); tp = &p;
  boost::thread t([] { add(0); setval(tp, 0); ended[__sa_tid()] = 1; }), u([] { add(2); setval(tp, 1); SA_ASSERT(tp->get() == &vals[1], R_TSS); ended[__sa_tid()] = 1; });
  if (sa_bool()) { t.join(); SA_ASSERT(ran[0] && cleaned[0], R_JOIN); u.join(); } else { u.join(); SA_ASSERT(ran[2] && cleaned[1], R_JOIN); t.join(); }
  SA_ASSERT(ran[0] && ran[2] && cleaned[0] && cleaned[1], R_JOIN); MUST("both"); ended[__sa_tid()] = 1; sa_run_key_dtors(__sa_tid());
}
ENTRY E_two_threads() { sa_spurious = 0; sa_preempt_after = 1; sa_run(1, two_driver); }
