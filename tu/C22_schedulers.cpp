// C22: scheduled executors
// @variants: -DBOOST_THREAD_VERSION=5
// @link: thread once
#include "clk.h"
#include <boost/bind/bind.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#define R_ONCE "a scheduled task runs at most once"
#define R_EARLY "a scheduled task does not run before its time"
#define R_DUE "a task whose time has come is run, or a thread sleeps no longer than to its time"
#define R_CLOSED "a closed scheduler refuses tasks and does not run them"
#define R_OPEN "an open scheduler accepts tasks"
#define R_OBS "closed() tells whether the scheduler is closed"
#define R_STOP "closing a scheduler ends its threads"
#define R_JOINED "a destroyed scheduler has joined its threads"
#define R_LEAK "nothing the scheduler allocated outlives it"
#define R_ON "a task scheduled on an executor is passed to that executor"
#define R_FAIL "a scheduled pool that cannot start its threads says so"
#define R_STUCK "nobody waits while he could proceed"
#define R_ORDER "a task is not overtaken by one with a later time"
enum { NOT, ASKED, ACC, REFUSED };
static int acc[3], runs[3], lo[3], hi[3], gclosed, done_sub, gone, ordered, dying; static void* EX;
static inline void sa_yield() { int i = sa_me(); if (i < 0 || sa_probe) return; sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
static int absorb; static void absorbing() { if (absorb) { sa_yield(); try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { MUST("a task absorbed the interruption"); } } }
struct Tk { int i; explicit Tk(int x) : i(x) {} void operator()() { SA_ASSERT(!gone, R_JOINED); SA_ASSERT(!runs[i], R_ONCE); SA_ASSERT(acc[i] == ASKED || acc[i] == ACC, R_CLOSED); SA_ASSERT(sa_now >= lo[i], R_EARLY); if (ordered) for (int k = 0; k < 3; k++) SA_ASSERT(!(acc[k] == ACC && !runs[k] && hi[k] < lo[i]), R_ORDER); runs[i] = 1; MUST("task"); absorbing(); } };
struct Mk { int i; explicit Mk(int x) : i(x) {} Mk(Mk&& o) : i(o.i) { o.i = -1; } Mk(const Mk&) = delete; void operator()() { Tk t(i); t(); } };
template <class F> static void asked(int i, F f) {
  acc[i] = ASKED; int c = gclosed; bool ok = false; try { f(); ok = true; } catch (boost::sync_queue_is_closed&) { }
  if (c == 2) SA_ASSERT(!ok, R_CLOSED); if (!gclosed) SA_ASSERT(ok, R_OPEN); if (!ok) { SA_ASSERT(!runs[i], R_CLOSED); MUST("refused"); } else MUST("accepted"); acc[i] = ok ? ACC : REFUSED;
}
static boost::chrono::steady_clock::duration dur(int s) { return boost::chrono::duration_cast<boost::chrono::steady_clock::duration>(sec(s)); }
// direct forms: 0 at, 1 after; the tasks take turns
static int form, kind;
template <class X> static void sub(X& ex, int i, int t) {
  if ((form ^ i) & 1) { lo[i] = hi[i] = t; asked(i, [&] { if (kind) { Tk k(i); ex.submit_at(k, at(t)); } else ex.submit_at(Mk(i), at(t)); }); }
  else { lo[i] = sa_now + t; hi[i] = 99; asked(i, [&] { if (!kind) { Tk k(i); ex.submit_after(k, dur(t)); } else ex.submit_after(Mk(i), dur(t)); }); hi[i] = sa_now + t; }
}
template <class X> static void shut(X& ex) { if (!gclosed) SA_ASSERT(!ex.closed(), R_OBS); gclosed = gclosed ? gclosed : 1; ex.close(); gclosed = 2; SA_ASSERT(ex.closed(), R_OBS); }
static int heap() { { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); return __sa_live_heap(); }
static void ended(int base) { gone = 1; for (int i = 0; i < sa_nspawn; i++) SA_ASSERT(sa_spawn_state[i] == 2, R_JOINED); sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("ended"); }
static void rest() {
  SA_ASSERT(!dying, R_STOP);
  int m = 99; for (int v = 0; v < 3; v++) if (acc[v] == ACC && !runs[v] && hi[v] < m) m = hi[v];
  for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); if (sa_T[i].st == T_WAIT) { SA_ASSERT(gclosed < 2, R_STOP); if (m < 99) SA_ASSERT(sa_dl[i] >= 0 && sa_dl[i] <= m, R_DUE); } } MUST("at rest");
}
static void init(int tmax) { for (int i = 0; i < 3; i++) acc[i] = runs[i] = lo[i] = hi[i] = 0; gclosed = done_sub = gone = dying = 0; ordered = 1; form = __sa_choose(2); kind = 0; absorb = 0; clk_on(tmax); sa_spurious_left = 0; sa_at_rest = rest; sa_probe_timed = 0; }
// two tasks, then wait for them, close, or destroy
static int T0 = 2, T1 = 1;
template <class X> static void finish(X& ex) {
  switch (__sa_choose(3)) { case 0: while (!runs[0] || !runs[1]) sa_idle(); MUST("both ran"); break; case 1: shut(ex); sub(ex, 2, 0); break; default: ; }
}
template <class X, int N> static void driver(void*) { int base = heap(); { X* ex = new X(N); sub(*ex, 0, T0); sub(*ex, 1, T1); finish(*ex); dying = 1; delete ex; dying = 0; } ended(base); }
struct Sch : boost::scheduler<> { Sch(int) {} };
struct Ada0 { boost::inline_executor in; }; struct Ada : Ada0, boost::scheduling_adaptor<boost::inline_executor> { Ada(int) : boost::scheduling_adaptor<boost::inline_executor>(in) { SA_ASSERT(&underlying_executor() == &in, R_ON); } };
typedef boost::scheduled_thread_pool STP;
ENTRY E_scheduler() { init(2); sa_run(1, driver<Sch, 1>); }
ENTRY E_adaptor() { init(2); sa_run(1, driver<Ada, 1>); }
ENTRY E_pool() { init(2); kind = 1; sa_run(1, driver<STP, 1>); }
template <class X> static void absorb_driver(void*) { int base = heap(); { X* ex = new X(1); sub(*ex, 0, 0); if (sa_bool()) { while (!runs[0]) sa_idle(); } dying = 1; delete ex; dying = 0; } ended(base); }
ENTRY E_absorb_adaptor() { init(1); absorb = 1; sa_run(1, absorb_driver<Ada>); }
ENTRY E_absorb_pool() { init(1); absorb = 1; sa_run(1, absorb_driver<STP>); }
ENTRY E_absorb_scheduler() { init(1); absorb = 1; sa_run(1, absorb_driver<Sch>); }
static void pool2_driver(void*) { int base = heap(); { STP* ex = new STP(2); sub(*ex, 0, 1); if (sa_bool()) { while (!runs[0]) sa_idle(); MUST("ran"); } dying = 1; delete ex; dying = 0; } ended(base); }
ENTRY E_pool_2() { init(1); ordered = 0; sa_run(1, pool2_driver); }
#ifdef SA_THOROUGH
ENTRY E_pool_2_two() { init(1); T0 = T1 = 1; ordered = 0; sa_run(1, driver<STP, 2>); }
#endif
ENTRY E_same_time() { init(2); T1 = 2; kind = 1; sa_run(1, driver<Sch, 1>); }
// closing races with submission
template <class X> static void racer(void* q) {
  if (q) { while (!EX) sa_yield(); sub(*(X*)EX, 0, 1); done_sub = 1; return; }
  X* ex = new X(1); EX = ex; shut(*ex); while (!done_sub) sa_yield(); dying = 1; delete ex; dying = 0; gone = 1; for (int i = 0; i < sa_nspawn; i++) SA_ASSERT(sa_spawn_state[i] == 2, R_JOINED); MUST("gone");
}
ENTRY E_race_scheduler() { init(1); EX = 0; sa_run(2, racer<Sch>); }
ENTRY E_race_pool() { init(1); EX = 0; sa_run(2, racer<STP>); }
// failing thread creation
static int failing; extern "C" int env_create_fault() { return failing && sa_nspawn == failing - 1 ? EAGAIN : 0; }
static void fault_driver(void*) { int base = heap(); bool r = false; try { if (failing == 2) { STP p(2); } else { Sch s(1); } } catch (boost::thread_resource_error&) { r = true; } SA_ASSERT(r, R_FAIL); ended(base); MUST("reported"); }
ENTRY E_fault_pool() { init(1); failing = 2; sa_run(1, fault_driver); }
ENTRY E_fault_scheduler() { init(1); failing = 1; sa_run(1, fault_driver); }
// executors at a time, after a delay, on another executor
static int passed;
struct Rec { bool cl; Rec() : cl(false) {} bool closed() { return cl; } void close() { cl = true; } template <class W> void submit(W&& w) { passed = passed + 1; w(); } };
static void wait_ran() { while (!runs[0]) sa_idle(); }
// the time is the one given, or the delay counted from the call
static void views_driver(void*) {
  int base = heap(); passed = 0;
  { Sch s(1); Rec r; int on = 0; bool closed = false;
    switch (__sa_choose(6)) {
      case 0: { lo[0] = hi[0] = 2; boost::at_executor<boost::scheduler<> > a = s.at(at(2)); asked(0, [&] { if (sa_bool()) { Tk t(0); a.submit(t); } else a.submit(Tk(0)); }); SA_ASSERT(&a.underlying_scheduler() == &s, R_ON); break; }
      case 1: { int n = sa_now; boost::at_executor<boost::scheduler<> > a = s.after(sec(1)); lo[0] = n + 1; hi[0] = sa_now + 1; asked(0, [&] { a.submit(Mk(0)); }); break; }
      case 2: { on = 1; lo[0] = hi[0] = 2; boost::resubmit_at_executor<boost::scheduler<>, Rec> a = s.on(r).at(at(2)); SA_ASSERT(&a.underlying_executor() == &r && &a.underlying_scheduler() == &s, R_ON); asked(0, [&] { a.submit(Tk(0)); }); break; }
      case 3: { on = 1; int n = sa_now; boost::resubmit_at_executor<boost::scheduler<>, Rec> a = s.on(r).after(sec(1)); lo[0] = n + 1; hi[0] = sa_now + 1; asked(0, [&] { Tk t(0); a.submit(t); }); break; }
      case 4: { on = 1; lo[0] = hi[0] = 1; boost::at_executor<boost::scheduler<> > a = s.at(at(1)); boost::resubmit_at_executor<boost::scheduler<>, Rec> b = a.on(r); asked(0, [&] { b.submit(Tk(0)); }); break; }
      default: { closed = true; gclosed = 2; int which = __sa_choose(5);   // whatever of the three is closed
        if (which == 0) { s.close(); boost::at_executor<boost::scheduler<> > a = s.at(at(0)); SA_ASSERT(a.closed(), R_OBS); asked(0, [&] { a.submit(Tk(0)); }); }
        else if (which == 1) { boost::at_executor<boost::scheduler<> > a = s.at(at(0)); SA_ASSERT(!a.closed(), R_OBS); a.close(); SA_ASSERT(a.closed() && !s.closed(), R_OBS); asked(0, [&] { a.submit(Tk(0)); }); }
        else { boost::resubmit_at_executor<boost::scheduler<>, Rec> a = s.on(r).at(at(0)); SA_ASSERT(!a.closed(), R_OBS); if (which == 2) s.close(); else if (which == 3) r.close(); else a.close(); SA_ASSERT(a.closed() && (which == 3 || !r.closed()) && (which == 2 || !s.closed()), R_OBS); asked(0, [&] { a.submit(Tk(0)); }); }
        gclosed = 0; MUST("closed view"); break; }
    }
    if (!closed) { if (acc[0] == ACC) wait_ran(); SA_ASSERT(passed == on, R_ON); }
  }
  ended(base);
}
ENTRY E_views() { init(2); sa_run(1, views_driver); }
// the thread that destroys a scheduler is interrupted at any moment: the destruction is no interruption point
#define R_PENDING "destroying a scheduler is not an interruption point: the request stays pending"
static int asked_int;
template <class X> static void owner() { X* ex = new X(1); dying = 1; delete ex; dying = 0; for (int i = 1; i < sa_nspawn; i++) SA_ASSERT(sa_spawn_state[i] == 2, R_JOINED); if (asked_int) { SA_ASSERT(boost::this_thread::interruption_requested(), R_PENDING); MUST("interrupted"); } }
template <class X> static void owner_driver(void*) { int base = heap(); { asked_int = 0; boost::thread t(&owner<X>); t.interrupt(); asked_int = 1; t.join(); } ended(base); }
ENTRY E_owner_scheduler() { init(1); sa_run(1, owner_driver<Sch>); }
ENTRY E_owner_adaptor() { init(1); sa_run(1, owner_driver<Ada>); }
ENTRY E_owner_pool() { init(1); sa_run(1, owner_driver<STP>); }
