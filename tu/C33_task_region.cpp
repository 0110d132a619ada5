// C33: task regions
// @variants: -DBOOST_THREAD_VERSION=5 ; -DBOOST_THREAD_VERSION=4
// @link: thread once future
#include "conc.h"
#include <unistd.h>
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#if BOOST_THREAD_VERSION > 4
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#define V_EX 1
#endif
#include <boost/thread/experimental/task_region.hpp>
#define R_ONCE "a task given to run runs exactly once"
#define R_ENDED "a region ends only when its body and all of its tasks have ended"
#define R_NORMAL "a region without failures returns normally"
#define R_FAILED "a region with a failure throws an exception_list"
#define R_LIST "the exception_list holds every exception of the body and the tasks, and nothing else"
#define R_CANCEL "after a task has failed, run and wait throw task_canceled_exception and start nothing"
#define R_OPEN "run and wait do not report a cancellation while no task has failed"
#define R_WAIT "wait returns only when every task given to run has ended, and throws what they threw"
#define R_LEAK "nothing the region allocated outlives it"
#define R_STUCK "the region ends once its tasks have ended"
namespace par = boost::experimental::parallel;
struct Boom { int i; explicit Boom(int x) : i(x) {} };
enum { OK, THROWS, CANCELS };
#define MAXT 4
static int asked[MAXT], runs[MAXT], ended[MAXT], mode[MAXT], bodymode, body_done, over, inl, waits, modes, threw[MAXT + 1];
static void init() { for (int i = 0; i < MAXT; i++) asked[i] = runs[i] = ended[i] = mode[i] = threw[i] = 0; threw[MAXT] = 0; bodymode = body_done = over = inl = waits = 0; modes = 2; }
static inline void yield_() { int i = sa_me(); if (i < 0 || sa_probe) return; sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
static int failed() { int n = 0; for (int i = 0; i < MAXT; i++) n += ended[i] && mode[i] != OK; return n; }
static void task(int i) {
  SA_ASSERT(asked[i] && !runs[i], R_ONCE); SA_ASSERT(!over, R_ENDED); runs[i] = 1; mode[i] = __sa_choose(modes); if (!inl) yield_(); SA_ASSERT(!over, R_ENDED); ended[i] = 1; MUST("task");
  if (mode[i] == THROWS) { threw[i] = 1; throw Boom(i); } if (mode[i] == CANCELS) throw par::task_canceled_exception();
}
struct Tk { int i; explicit Tk(int x) : i(x) {} void operator()() { task(i); } };
struct Mk { int i; explicit Mk(int x) : i(x) {} Mk(Mk&& o) : i(o.i) { o.i = -1; } Mk(const Mk&) = delete; void operator()() { task(i); } };
template <class H> static void run_(H& tr, int i) {
  int f = failed(); asked[i] = 1; bool c = false; try { if (i & 1) tr.run(Tk(i)); else tr.run(Mk(i)); } catch (par::task_canceled_exception&) { c = true; }
  if (c) { SA_ASSERT(failed(), R_OPEN); SA_ASSERT(!runs[i], R_CANCEL); asked[i] = 0; MUST("run: cancelled"); throw par::task_canceled_exception(); }
  if (inl) { SA_ASSERT(runs[i] && ended[i], R_ONCE); SA_ASSERT(!f, R_CANCEL); }
}
static void all_ended() { for (int i = 0; i < MAXT; i++) SA_ASSERT(!asked[i] || ended[i], R_WAIT); }
// every exception in the list is one that was thrown and that has not been seen yet (seen twice is allowed once wait has reported it)
static void check(par::exception_list const& el, int twice) {
  int got[MAXT + 1]; for (int i = 0; i <= MAXT; i++) got[i] = 0; unsigned k = 0;
  for (par::exception_list::const_iterator it = el.begin(); it != el.end(); ++it) { int i = -1; try { boost::rethrow_exception(*it); } catch (Boom& b) { i = b.i; } catch (boost::thread_interrupted&) { i = MAXT; } catch (...) { SA_ASSERT(0, R_LIST); } SA_ASSERT(i >= 0 && i <= MAXT && threw[i], R_LIST); SA_ASSERT(twice || !got[i], R_LIST); got[i] = 1; k++; }
  SA_ASSERT(k == el.size(), R_LIST); for (int i = 0; i <= MAXT; i++) SA_ASSERT(!threw[i] || got[i], R_LIST);
}
template <class H> static void wait_(H& tr) {
  int f = failed(); int how = 0;
  try { tr.wait(); } catch (par::task_canceled_exception&) { how = 1; SA_ASSERT(failed(), R_OPEN); MUST("wait: cancelled"); throw; }
  catch (par::exception_list& el) { how = 2; all_ended(); check(el, 0); waits = 1; if (inl) SA_ASSERT(!f, R_CANCEL); SA_ASSERT(el.size() > 0, R_LIST); MUST("wait: failed"); throw; }
  catch (boost::thread_interrupted&) { threw[MAXT] = 1; MUST("wait: interrupted"); throw; }
  all_ended(); if (inl) SA_ASSERT(!f, R_CANCEL); int n = 0; for (int i = 0; i <= MAXT; i++) n += threw[i]; SA_ASSERT(!n, R_WAIT); MUST("wait: passed");
}
// the body: up to two tasks, an optional wait, and a failure of its own
struct Body { int n, w, b; Body(int n_, int w_, int b_) : n(n_), w(w_), b(b_) {}
  template <class H> void operator()(H& tr) const {
    struct End { ~End() { body_done = 1; } } e;
    for (int i = 0; i < n; i++) run_(tr, i);
    if (w && sa_bool()) { wait_(tr); if (w > 1) run_(tr, n); }
    if (b && sa_bool()) { if (sa_bool()) { threw[MAXT] = 1; throw Boom(MAXT); } throw par::task_canceled_exception(); }
  } };
template <class R> static void region(R r) {
  int how = 0; try { r(); } catch (par::exception_list& el) { how = 1; over = 1; check(el, waits); SA_ASSERT(el.size() > 0, R_LIST); MUST("failed"); } catch (...) { SA_ASSERT(0, R_FAILED); }
  over = 1; SA_ASSERT(body_done, R_ENDED); for (int i = 0; i < MAXT; i++) SA_ASSERT(runs[i] == asked[i] && ended[i] == asked[i], R_ENDED);
  int n = 0; for (int i = 0; i <= MAXT; i++) n += threw[i]; SA_ASSERT((how == 1) == (n > 0), n ? R_FAILED : R_NORMAL); if (!how) MUST("returned");
}
static void rest() { SA_ASSERT(over, R_STUCK); }
static int heap() { { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); return __sa_live_heap(); }
static Body* BODY; static int interrupted; static int cores; extern "C" long sysconf(int) noexcept { return cores; }
struct Def { void operator()() const { if (sa_bool()) par::task_region(*BODY); else par::task_region_final(*BODY); } };
template <class X> struct On { X& x; explicit On(X& y) : x(y) {} void operator()() const { if (sa_bool()) par::task_region(x, *BODY); else par::task_region_final(x, *BODY); } };
static void drv_def(void*) { int base = heap(); region(Def());
#ifdef V_EX   // (the threads of async are on their own)
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK);
#endif
  MUST("over"); }
static void go(void (*d)(void*), int n, int w, int b) { Body bd(n, w, b); BODY = &bd; sa_at_rest = rest; sa_run(1, d); }
// the default executor: a thread for each task, or a pool of the library
ENTRY E_default_0() { init(); cores = 0; go(drv_def, 0, 1, 1); }
ENTRY E_default_1() { init(); cores = 0; modes = 3; sa_spurious_left = 0; go(drv_def, 1, 1, 1); }
ENTRY E_default_2() { init(); cores = 0; sa_spurious_left = 0; go(drv_def, 2, 0, 0); }
ENTRY E_default_wait() { init(); cores = 0; sa_spurious_left = 0; go(drv_def, 1, 2, 0); }
#ifdef V_EX
ENTRY E_default_cores() { init(); cores = 1; sa_spurious_left = 0; go(drv_def, 1, 0, 0); }
template <class X> static void drv_on(void*) { int base = heap(); { X x; region(On<X>(x)); } sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("over"); }
static void drv_pool(void*) { int base = heap(); { boost::basic_thread_pool x(1); region(On<boost::basic_thread_pool>(x)); } sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("over"); }
ENTRY E_inline() { init(); inl = 1; modes = 3; go(drv_on<boost::inline_executor>, 2, 1, 1); }
ENTRY E_inline_3() { init(); inl = 1; modes = 3; go(drv_on<boost::inline_executor>, 3, 0, 1); }
ENTRY E_inline_wait() { init(); inl = 1; modes = 3; go(drv_on<boost::inline_executor>, 2, 2, 1); }
ENTRY E_thread() { init(); modes = 3; sa_spurious_left = 0; go(drv_on<boost::thread_executor>, 2, 0, 0); }
ENTRY E_thread_wait() { init(); sa_spurious_left = 0; go(drv_on<boost::thread_executor>, 1, 2, 1); }
ENTRY E_pool() { init(); sa_spurious_left = 0; go(drv_pool, 2, 1, 0); }
// a region within a task of a region
struct Outer { template <class H> void operator()(H& tr) const { asked[3] = 1; tr.run([]{ SA_ASSERT(!runs[3] && !over, R_ONCE); runs[3] = 1; boost::inline_executor x; int f = 0; try { par::task_region(x, [](par::task_region_handle_gen<boost::inline_executor>& t) { inl = 1; run_(t, 0); run_(t, 1); }); } catch (par::exception_list&) { f = 1; ended[3] = 1; MUST("inner failed"); throw; } ended[3] = 1; }); body_done = 1; } };
static void drv_nested(void*) { int base = heap(); { boost::thread_executor x; int how = 0; try { par::task_region(x, Outer()); } catch (par::exception_list& el) { how = 1; check(el, 0); } over = 1; all_ended(); SA_ASSERT(how == (threw[0] || threw[1]), R_FAILED); } sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("over"); }
ENTRY E_nested() { init(); sa_spurious_left = 0; sa_at_rest = rest; sa_run(1, drv_nested); }
#endif
// the thread of the region is interrupted at any moment
static void victim() { region(Def()); }
static void drv_int(void*) { int base = heap(); { boost::thread t(victim); t.interrupt(); t.join(); } SA_ASSERT(over, R_ENDED);
#ifdef V_EX
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK);
#endif
  MUST("over"); }
ENTRY E_interrupted() { init(); cores = 0; modes = 1; sa_spurious_left = 0; go(drv_int, 1, 1, 0); }
// a list thrown by the body or a task, holding lists: each exception is listed by itself
static int leaf; static boost::exception_ptr leaf_() { int i = leaf; leaf = leaf + 1; return boost::copy_exception(Boom(i)); }
static void fill(par::exception_list& el, int depth, int n) { for (int i = 0; i < n; i++) if (depth && sa_bool()) { par::exception_list in; fill(in, depth - 1, 1 + __sa_choose(2)); el.add(boost::copy_exception(in)); MUST("list in a list"); } else el.add(leaf_()); }
struct Lists { template <class H> void operator()(H&) const { par::exception_list el; fill(el, 2, 2); throw el; } };
static void drv_lists(void*) { leaf = 0;
  try { if (sa_bool()) par::task_region(Lists()); else par::task_region_final(Lists()); SA_ASSERT(0, R_FAILED); }
  catch (par::exception_list& el) { SA_ASSERT((int)el.size() == leaf, R_LIST); int got = 0; for (par::exception_list::const_iterator it = el.begin(); it != el.end(); ++it) { int i = -1; try { boost::rethrow_exception(*it); } catch (Boom& b) { i = b.i; } catch (...) {} SA_ASSERT(i == got, R_LIST); got = got + 1; } MUST("lists"); } }
ENTRY E_lists() { init(); cores = 0; sa_spurious_left = 0; sa_run(1, drv_lists); }
