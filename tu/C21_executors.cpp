// C21: executors
// @variants: -DBOOST_THREAD_VERSION=5 ; -DBOOST_THREAD_VERSION=5 -DV_FN=1
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/executors/executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/user_scheduler.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#define R_ONCE "an accepted task runs at most once"
#define R_ALL "every accepted task has run when the executor is joined or destroyed"
#define R_CLOSED "a closed executor refuses tasks and does not run them"
#define R_OPEN "an open executor accepts tasks"
#define R_OBS "closed() tells whether the executor is closed"
#define R_SERIAL "a serial executor runs one task at a time in the order of submission"
#define R_JOINED "a destroyed executor has joined its threads"
#define R_LEAK "nothing the executor allocated outlives it"
#define R_NOLOCK "tasks run without a lock of the library held"
#define R_TRY "try_executing_one tells whether it ran a task"
#define R_FAIL "a pool that cannot start its threads says so"
#define R_STUCK "nobody waits while he could proceed"
#define R_PENDING "destroying an executor is not an interruption point: the request stays pending"
enum { NOT, ASKED, ACC, REFUSED };
static int acc[4], runs[4], running, last, serial, gclosed, nolock; static void* EX;
static inline void sa_yield() { int i = sa_me(); if (i < 0 || sa_probe) return; sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
static int absorb; static void absorbing() { if (absorb) { sa_yield(); try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { MUST("a task absorbed the interruption"); } } }
static void task(int i) {
  SA_ASSERT(!runs[i], R_ONCE); SA_ASSERT(acc[i] == ASKED || acc[i] == ACC, R_CLOSED); runs[i] = 1; int k = sa_me(); if (nolock) SA_ASSERT(k < 0 || !sa_T[k].held, R_NOLOCK);
  if (serial) { SA_ASSERT(!running && last < i, R_SERIAL); running = 1; last = i; sa_yield(); running = 0; } MUST("task"); absorbing();
}
template <int I> static void fun() { task(I); }
struct Tk { int i; explicit Tk(int x) : i(x) {} void operator()() { task(i); } };
struct Mk { int i; explicit Mk(int x) : i(x) {} Mk(Mk&& o) : i(o.i) { o.i = -1; } Mk(const Mk&) = delete; void operator()() { task(i); } };
// every way to submit
template <class X> static void sub(X& ex, int i) {
  acc[i] = ASKED; int c = gclosed; bool ok = false;
  try {
#ifdef V_FN
    if (sa_bool()) { boost::executors::work w((Tk(i))); ex.submit(boost::move(w)); } else switch (i) { case 0: ex.submit(&fun<0>); break; case 1: ex.submit(&fun<1>); break; case 2: ex.submit(&fun<2>); break; default: ex.submit(&fun<3>); }
#else
    if (sa_bool()) { Tk t(i); ex.submit(t); } else ex.submit(Mk(i));
#endif
    ok = true; } catch (boost::sync_queue_is_closed&) { }
  if (c == 2) SA_ASSERT(!ok, R_CLOSED); if (!gclosed) SA_ASSERT(ok, R_OPEN);
  if (!ok) { SA_ASSERT(!runs[i], R_CLOSED); MUST("refused"); } else MUST("accepted");
  acc[i] = ok ? ACC : REFUSED;
}
template <class X> static void shut(X& ex) { if (!gclosed) SA_ASSERT(!ex.closed(), R_OBS); gclosed = gclosed ? gclosed : 1; ex.close(); gclosed = 2; SA_ASSERT(ex.closed(), R_OBS); }
static void all_ran() { for (int i = 0; i < 4; i++) SA_ASSERT(acc[i] != ACC || runs[i] == 1, R_ALL); }
#define R_STOP "closing or destroying an executor ends its threads"
#define R_NOWAIT "an attempt to run one task never waits for a task"
static int helping; static void nowait() { SA_ASSERT(!helping || sa_T[helping - 1].st != T_WAIT, R_NOWAIT); }
static void rest_all() { nowait(); for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); SA_ASSERT(sa_T[i].st != T_JOIN, R_STOP); if (gclosed == 2) SA_ASSERT(sa_T[i].st != T_WAIT, R_STOP); } }
static void init() { sa_at_rest = rest_all; for (int i = 0; i < 4; i++) acc[i] = runs[i] = 0; running = 0; last = -1; serial = 0; gclosed = 0; nolock = 1; helping = 0; }
static int heap() { { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); return __sa_live_heap(); }
static void ended(int base) { for (int i = 0; i < sa_nspawn; i++) SA_ASSERT(sa_spawn_state[i] == 2, R_JOINED); all_ran(); sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("ended"); }
template <class X> static void use(X& ex, int n) {
  sub(ex, 0); if (n > 1) sub(ex, 1);
  switch (__sa_choose(3)) { case 0: shut(ex); sub(ex, 2 > n ? 1 : n - 1 ? 2 : 1); break; case 1: shut(ex); shut(ex); break; default: ; }
}
// pools
typedef boost::basic_thread_pool Pool;
static int entered; static void at_entry(Pool&) { entered = entered + 1; } struct AtE { void operator()(Pool&) { entered = entered + 1; } };
template <int N> static void pool_driver(void*) {
  int base = heap(); entered = 0; int form = 0;
  { form = N == 1 ? __sa_choose(3) : 0; Pool* p; switch (form) { case 0: p = new Pool(N); break; case 1: p = new Pool(N, &at_entry); break; default: p = new Pool(N, AtE()); }
    use(*p, N == 1 ? 2 : 1); if (gclosed && sa_bool()) { p->join(); all_ran(); } delete p; }
  if (form) SA_ASSERT(entered == N, R_ALL);
  ended(base);
}
#if !defined V_FN || defined SA_THOROUGH
ENTRY E_pool_1() { init(); sa_run(1, pool_driver<1>); }
#endif
#if !defined V_FN || defined SA_THOROUGH
ENTRY E_pool_2() { init(); sa_spurious_left = 0; sa_run(1, pool_driver<2>); }
#endif
static void absorb_driver(void*) { int base = heap(); { Pool* p = new Pool(1); sub(*p, 0); if (sa_bool()) sub(*p, 1); if (sa_bool()) { while (!runs[0]) sa_yield(); } delete p; } ended(base); }
ENTRY E_pool_absorb() { init(); absorb = 1; sa_spurious_left = 0; sa_run(1, absorb_driver); }
// the pool's public ways to run a task in the calling thread; closed() and the other observers
static bool never() { return false; } static bool always() { return true; }
static void help_driver(void*) {
  int base = heap(); { Pool p(1); bool t; sub(p, 0); sub(p, 1); if (sa_bool()) shut(p); int r = runs[0] + runs[1]; helping = 1; t = sa_bool() ? p.try_executing_one() : p.reschedule_until(never); helping = 0; if (t) { SA_ASSERT(runs[0] + runs[1] > r, R_TRY); MUST("helped"); } }
  ended(base);
}
ENTRY E_pool_help() { init(); sa_spurious_left = 0; sa_run(1, help_driver); }
// the second of two workers cannot be started: the pool reports it and has joined the first one
static int failing; extern "C" int env_create_fault() { return failing && sa_nspawn == failing ? EAGAIN : 0; }
static void fault_driver(void*) {
  int base = heap(); bool r = false; try { switch (__sa_choose(3)) { case 0: { Pool p(2); break; } case 1: { Pool p(2, &at_entry); break; } default: { Pool p(2, AtE()); } } } catch (boost::thread_resource_error&) { r = true; } SA_ASSERT(r, R_FAIL);
  ended(base); MUST("reported");
}
ENTRY E_pool_fault() { init(); failing = 1; sa_run(1, fault_driver); }
// somebody closes the executor while another thread submits; the owner waits for both and destroys it
static int done_sub;
template <class X> static void race(X& ex, int me, int n) {
  if (me == 1) { sub(ex, 0); if (n > 1) sub(ex, 1); done_sub = 1; return; }
  shut(ex); while (!done_sub) sa_yield();
}
static void pool_race(void* q) { if (q) { while (!EX) sa_yield(); race(*(Pool*)EX, 1, 2); return; } { Pool& p = *new Pool(1); EX = &p; race(p, 0, 2); if (sa_bool()) { p.join(); all_ran(); } delete &p; } all_ran(); MUST("gone"); }
ENTRY E_pool_race() { init(); done_sub = 0; EX = 0; sa_spurious_left = 0; sa_run(2, pool_race); }
// one thread per task
static void thr_driver(void*) { int base = heap(); { boost::thread_executor ex; use(ex, 2); SA_ASSERT(!ex.try_executing_one() && !ex.reschedule_until(never), R_TRY); } ended(base); }
ENTRY E_thread() { init(); sa_run(1, thr_driver); }
static void thr_race(void* q) { typedef boost::thread_executor X; X& ex = *(X*)EX; if (q) { race(ex, 1, 1); return; } race(ex, 0, 1); delete &ex; all_ran(); MUST("gone"); }
ENTRY E_thread_race() { init(); done_sub = 0; EX = new boost::thread_executor; sa_run(2, thr_race); }
// a task that uses its executor again, up to the end of the executor's life
template <class X> struct Again { X* ex; explicit Again(X* x) : ex(x) {} void operator()() { task(0); bool r = false; acc[1] = ASKED; try { ex->submit(Tk(1)); } catch (boost::sync_queue_is_closed&) { r = true; } if (r) SA_ASSERT(ex->closed(), R_OPEN); acc[1] = r ? REFUSED : ACC; MUST("again"); } };
template <class X> static void again_driver(void*) { int base = heap(); { X ex; acc[0] = ASKED; ex.submit(Again<X>(&ex)); acc[0] = ACC; if (sa_bool()) ex.close(); } ended(base); }
struct Pool1 : Pool { Pool1() : Pool(1) {} };
ENTRY E_again_pool() { init(); sa_spurious_left = 0; sa_run(1, again_driver<Pool1>); }
ENTRY E_again_thread() { init(); sa_run(1, again_driver<boost::thread_executor>); }
ENTRY E_again_inline() { init(); sa_run(1, again_driver<boost::inline_executor>); }
// in the calling thread
static void inl_driver(void*) { int base = heap(); { boost::inline_executor ex; sub(ex, 3); SA_ASSERT(runs[3], R_ALL); use(ex, 2); all_ran(); SA_ASSERT(!ex.try_executing_one() && !ex.reschedule_until(never), R_TRY); } SA_ASSERT(!sa_nspawn, R_ALL); ended(base); }
ENTRY E_inline() { init(); acc[0] = 0; sa_run(1, inl_driver); }
static void inl_race(void* q) { typedef boost::inline_executor X; X& ex = *(X*)EX; if (q) { race(ex, 1, 2); return; } race(ex, 0, 2); delete &ex; all_ran(); MUST("gone"); }
ENTRY E_inline_race() { init(); done_sub = 0; EX = new boost::inline_executor; sa_run(2, inl_race); }
// event loop
typedef boost::loop_executor Loop; typedef boost::user_scheduler Usr;
template <class Loop> static void t_loop(void* q) {
  Loop& ex = *(Loop*)EX; int me = (int)(long)q;
  if (me == 0) { ex.loop(); SA_ASSERT(gclosed, R_ALL); if (gclosed == 2 && done_sub) all_ran(); done_sub |= 4; return; }
  if (me == 1) { sub(ex, 0); sub(ex, 1); done_sub |= 1; return; }
  if (sa_bool()) { helping = 3; bool t = ex.try_executing_one(); helping = 0; if (t) SA_ASSERT(runs[0] || runs[1], R_TRY); } shut(ex);
}
static void rest_loop() { nowait(); bool all = true; for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); if (sa_T[i].st != T_DONE) all = false; } if (gclosed == 2) SA_ASSERT(all, R_STUCK); if (all) { all_ran(); MUST("all done"); } }
ENTRY E_loop() { init(); done_sub = 0; serial = 0; Loop ex; EX = &ex; sa_at_rest = rest_loop; sa_run(3, t_loop<Loop>); }
ENTRY E_user() { init(); done_sub = 0; serial = 0; Usr ex; EX = &ex; sa_at_rest = rest_loop; sa_run(3, t_loop<Usr>); }
// event loop driven by one thread
template <class Loop> static void run_loop() {
  init(); __sa_opt("coarse", 1); int base = __sa_live_heap();
  { Loop ex; serial = 1; int n = 0, done = 0;
    while (sa_bool()) { __sa_defer();
      switch (__sa_choose(5)) {
        case 0: if (n == 3) __sa_stop(); sub(ex, n); n = n + 1; break;
        case 1: { bool pend = false; for (int i = 0; i < 3; i++) pend |= acc[i] == ACC && !runs[i]; bool t = ex.try_executing_one(); SA_ASSERT(t == pend, R_TRY); break; }
        case 2: ex.run_queued_closures(); all_ran(); MUST("queued"); break;
        case 3: { bool r = ex.reschedule_until(sa_bool() ? never : always); if (r) MUST("until"); else all_ran(); break; }
        default: if (!gclosed) { shut(ex); break; } ex.loop(); all_ran(); MUST("looped"); __sa_stop();
      } }
  }
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
ENTRY E_loop_seq() { run_loop<Loop>(); }
ENTRY E_user_seq() { run_loop<Usr>(); }
// serial executors
template <class U> static void ser_driver(void*) { int base = heap(); { U un; { boost::serial_executor ex(un); use(ex, 2); } all_ran(); } ended(base); }
ENTRY E_serial_inline() { init(); serial = 1; sa_spurious_left = 0; sa_run(1, ser_driver<boost::inline_executor>); }
#if !defined V_FN || defined SA_THOROUGH
ENTRY E_serial_pool() { init(); serial = 1; sa_spurious_left = 0; sa_run(1, ser_driver<Pool1>); }
#endif
#if !defined V_FN || defined SA_THOROUGH
ENTRY E_serial_thread() { init(); serial = 1; sa_spurious_left = 0; sa_run(1, ser_driver<boost::thread_executor>); }
#endif
template <class U> static void serc_driver(void*) { int base = heap(); { U un; { boost::serial_executor_cont ex(un); use(ex, 2); SA_ASSERT(!ex.try_executing_one(), R_TRY); } all_ran(); } ended(base); }
ENTRY E_serialc_inline() { init(); serial = 1; nolock = 0; sa_run(1, serc_driver<boost::inline_executor>); }
ENTRY E_serialc_pool() { init(); serial = 1; sa_spurious_left = 0; sa_run(1, serc_driver<Pool1>); }
ENTRY E_serialc_thread() { init(); serial = 1; sa_run(1, serc_driver<boost::thread_executor>); }
// type-erased executors
template <class A> static void erased_driver(void*) { int base = heap(); { boost::executor_adaptor<A> a; boost::executor& ex = a; use(ex, 2); ex.try_executing_one(); } ended(base); }
ENTRY E_adaptor_inline() { init(); sa_run(1, erased_driver<boost::inline_executor>); }
ENTRY E_adaptor_thread() { init(); sa_run(1, erased_driver<boost::thread_executor>); }
ENTRY E_adaptor_pool() { init(); sa_spurious_left = 0; sa_run(1, erased_driver<Pool1>); }
static void ref_driver(void*) { int base = heap(); { boost::loop_executor l; boost::generic_executor_ref ex(l); use(ex, 2); for (int i = 0; i < 2; i++) { int r = runs[0] + runs[1]; bool pend = (acc[0] == ACC) + (acc[1] == ACC) > r; bool t = sa_bool() ? ex.try_executing_one() : ex.reschedule_until(always); SA_ASSERT(t == pend && runs[0] + runs[1] == r + pend, R_TRY); } all_ran(); SA_ASSERT(l.closed() == (gclosed == 2), R_OBS); } ended(base); }
ENTRY E_ref_loop() { init(); sa_run(1, ref_driver); }
static void ref_ad_driver(void*) { int base = heap(); { boost::executor_adaptor<Loop> l; boost::generic_executor_ref ex(l); use(ex, 2); while (ex.try_executing_one()) { } all_ran(); SA_ASSERT(l.closed() == (gclosed == 2), R_OBS); } ended(base); }
ENTRY E_ref_adaptor() { init(); sa_run(1, ref_ad_driver); }
// the thread that destroys an executor is interrupted at any moment: the destruction is no interruption point
static int asked_int; template <class X> struct Make { static X* make() { return new X; } }; template <> struct Make<Pool> { static Pool* make() { return new Pool(1); } };
static boost::inline_executor* under; template <> struct Make<boost::serial_executor> { static boost::serial_executor* make() { return new boost::serial_executor(*under); } };
template <class X> static void owner() { X* ex = Make<X>::make(); sub(*ex, 0); int n = sa_nspawn; delete ex; for (int i = 1; i < n; i++) SA_ASSERT(sa_spawn_state[i] == 2, R_JOINED); all_ran(); if (asked_int) { SA_ASSERT(boost::this_thread::interruption_requested(), R_PENDING); MUST("interrupted"); } }
template <class X> static void owner_driver(void*) { int base = heap(); { boost::inline_executor u; under = &u; asked_int = 0; boost::thread t(&owner<X>); t.interrupt(); asked_int = 1; t.join(); } ended(base); }
ENTRY E_owner_pool() { init(); sa_spurious_left = 0; sa_run(1, owner_driver<Pool>); }
ENTRY E_owner_thread() { init(); sa_spurious_left = 0; sa_run(1, owner_driver<boost::thread_executor>); }
ENTRY E_owner_serial() { init(); sa_spurious_left = 0; sa_run(1, owner_driver<boost::serial_executor>); }
