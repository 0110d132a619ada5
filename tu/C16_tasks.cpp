// C16: packaged tasks, asynchronous, deferred and submitted functions
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=5
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/work.hpp>
#endif
#define R_ONCE "the function of a task runs at most once"
#define R_CALL "an accepted invocation calls the function with the caller's arguments"
#define R_AGAIN "a second invocation throws task_already_started and calls nothing"
#define R_MOVED "a task without a function throws task_moved"
#define R_RES "the future receives what the function returned or threw"
#define R_READY "the future becomes ready with the invocation, or at thread exit if so requested"
#define R_WHO "a deferred function runs in a waiting thread, an asynchronous one in another thread"
#define R_DEFER "a deferred function does not run before somebody waits without time limit"
#define R_NOLOCK "the function is not called with a lock of the library held"
#define R_LEAK "every shared state is released with its last owner"
struct Err { int id; };
static int obj, calls, fthrow, whose, allowed; static void *pp, *ff, *exq;
static void enter() { calls = calls + 1; SA_ASSERT(calls <= allowed, R_ONCE); int k = sa_me(); SA_ASSERT(k < 0 || !sa_T[k].held, R_NOLOCK); whose = k; if (fthrow) throw Err{7}; MUST("called"); }
template <class R> struct Tr;
template <> struct Tr<int> { static int ret() { enter(); return 5; } template <class F> static bool ok(F& f) { return f.get() == 5; } };
template <> struct Tr<int&> { static int& ret() { enter(); return obj; } template <class F> static bool ok(F& f) { return &f.get() == &obj; } };
template <> struct Tr<void> { static void ret() { enter(); } template <class F> static bool ok(F& f) { f.get(); return true; } };
template <class R, class F> static void result(F& f) { bool e = false, v = false; try { v = Tr<R>::ok(f); } catch (Err& x) { e = x.id == 7; } SA_ASSERT(fthrow ? e : v, R_RES); MUST("result"); }
template <class R> static R plain() { return Tr<R>::ret(); }
template <class R> struct Fn { int tag; explicit Fn(int t = 3) : tag(t) {} R operator()() { SA_ASSERT(tag == 3, R_CALL); return Tr<R>::ret(); } };
template <class R> struct MFn { int tag; explicit MFn(int t = 3) : tag(t) {} MFn(MFn&& o) : tag(o.tag) { o.tag = 0; } MFn& operator=(MFn&& o) { tag = o.tag; o.tag = 0; return *this; } MFn(const MFn&) = delete; R operator()() { SA_ASSERT(tag == 3, R_CALL); return Tr<R>::ret(); } };
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
template <class R> struct TaskOf { typedef boost::packaged_task<R()> type; };
#else
template <class R> struct TaskOf { typedef boost::packaged_task<R> type; };
#endif
template <class R> static typename TaskOf<R>::type make() {
  typedef typename TaskOf<R>::type T;
  switch (__sa_choose(3)) { case 0: return T(&plain<R>); case 1: { Fn<R> f; return T(f); } default: return T(MFn<R>()); }
}
static void init() { calls = whose = 0; allowed = 1; fthrow = sa_bool(); }
// every history of one task by one thread
template <class R> static void seq() {
  init(); __sa_opt("coarse", 1); typedef typename TaskOf<R>::type T; int base = __sa_live_heap();
  { T t[2]; boost::BOOST_THREAD_FUTURE<R> f; t[0] = make<R>(); int at = 0, started = 0, have = 0; allowed = 0;
    while (sa_bool()) { __sa_defer();
      switch (__sa_choose(6)) {
        case 0: { int i = __sa_choose(2); int r = 0; int c = calls; allowed = started || i != at ? 0 : 1; calls = 0;
          try { t[i](); r = 1; } catch (boost::task_already_started&) { r = 2; } catch (boost::task_moved&) { r = 3; } catch (boost::future_error& e) { r = e.code() == boost::system::make_error_code(boost::future_errc::no_state) ? 3 : 4; }
          if (i != at) { SA_ASSERT(r == 3 && !calls, R_MOVED); MUST("moved"); calls = c; break; }
          if (started) { SA_ASSERT(r == 2 && !calls, R_AGAIN); MUST("again"); calls = c; break; }
          SA_ASSERT(r == 1 && calls == 1, R_CALL); started = 1; break; }
        case 1: if (have) __sa_stop(); f = t[at].get_future(); have = 1; break;
        case 2: t[1 - at] = boost::move(t[at]); at = 1 - at; break;
        case 3: t[0].swap(t[1]); at = 1 - at; break;
        case 4: { T n(boost::move(t[at])); SA_ASSERT(n.valid() && !t[at].valid(), R_MOVED); t[at] = boost::move(n); break; }
        default: { bool r = false; if (!have || !started) { if (have) SA_ASSERT(f.valid() && !f.is_ready(), R_READY); break; } SA_ASSERT(f.is_ready(), R_READY); result<R>(f); f = boost::BOOST_THREAD_FUTURE<R>(); have = 2; started = 2; __sa_stop(); }
      }
      SA_ASSERT(t[at].valid() && !t[1 - at].valid(), R_MOVED);
    }
  }
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
ENTRY E_seq_int() { seq<int>(); }
ENTRY E_seq_ref() { seq<int&>(); }
ENTRY E_seq_void() { seq<void>(); }
// reset permits exactly one more call
template <class R> static void reset_() {
  init(); typename TaskOf<R>::type t(make<R>());
  for (int i = 0; i < 2; i++) { calls = 0; boost::BOOST_THREAD_FUTURE<R> f = t.get_future(); t(); SA_ASSERT(calls == 1 && f.is_ready(), R_CALL); bool again = false; try { t(); } catch (boost::task_already_started&) { again = true; } SA_ASSERT(again && calls == 1, R_AGAIN); result<R>(f); if (!i) t.reset(); }
  MUST("twice");
}
ENTRY E_reset_void() { fthrow = 0; reset_<void>(); }
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK && defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
// arguments reach the function unchanged
struct Mv { int v; explicit Mv(int x) : v(x) {} Mv(Mv&& o) : v(o.v) { o.v = -1; } Mv(const Mv&) = delete; };
static int two(int a, Mv m) { SA_ASSERT(a == 4 && m.v == 6, R_CALL); enter(); return 5; }
static void two_v(int a, int* r) { SA_ASSERT(a == 4 && r == &obj, R_CALL); enter(); }
ENTRY E_args() {
  init(); { boost::packaged_task<int(int, Mv)> t(&two); boost::future<int> f = t.get_future(); t(4, Mv(6)); SA_ASSERT(calls == 1 && f.is_ready(), R_CALL); result<int>(f); }
  calls = 0; { boost::packaged_task<void(int, int*)> t(&two_v); boost::future<void> f = t.get_future(); t(4, &obj); SA_ASSERT(calls == 1 && f.is_ready(), R_CALL); result<void>(f); } MUST("args");
}
#endif
// make_ready_at_thread_exit: called now, ready when the thread ends
static int in_thread_ready;
template <class R> static void exit_thread() {
  typename TaskOf<R>::type& t = *(typename TaskOf<R>::type*)pp; boost::BOOST_THREAD_FUTURE<R>& f = *(boost::BOOST_THREAD_FUTURE<R>*)ff;
  t.make_ready_at_thread_exit(); SA_ASSERT(calls == 1, R_CALL); SA_ASSERT(!f.is_ready(), R_READY);
  bool r = false; try { if (sa_bool()) t(); else t.make_ready_at_thread_exit(); } catch (boost::task_already_started&) { r = true; } catch (boost::promise_already_satisfied&) { r = true; } SA_ASSERT(r && calls == 1, R_AGAIN); SA_ASSERT(!f.is_ready(), R_READY); MUST("at exit");
}
template <class R> static void exit_driver(void*) {
  { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); int base = __sa_live_heap();
  { typename TaskOf<R>::type t(make<R>()); boost::BOOST_THREAD_FUTURE<R> f = t.get_future(); pp = &t; ff = &f; { boost::thread th(&exit_thread<R>); th.join(); } SA_ASSERT(f.is_ready(), R_READY); result<R>(f); }
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
template <class R> static void at_exit() { init(); sa_run(1, exit_driver<R>); }
ENTRY E_exit_int() { at_exit<int>(); }
ENTRY E_exit_ref() { at_exit<int&>(); }
ENTRY E_exit_void() { at_exit<void>(); }
// two threads invoke, a third waits
static int accepted, refused;
template <class R> static void t_inv(void* q) {
  typename TaskOf<R>::type& t = *(typename TaskOf<R>::type*)pp; int i = (int)(long)q;
  if (i < 2) { try { t(); SA_ASSERT(!accepted, R_AGAIN); accepted = 1; MUST("accepted"); } catch (boost::task_already_started&) { SA_ASSERT(!refused, R_CALL); refused = 1; MUST("refused"); } return; }
  boost::BOOST_THREAD_FUTURE<R>& f = *(boost::BOOST_THREAD_FUTURE<R>*)ff; result<R>(f); SA_ASSERT(calls == 1, R_ONCE);
}
template <class R> static void conc() { init(); accepted = refused = 0; typename TaskOf<R>::type t(make<R>()); pp = &t; boost::BOOST_THREAD_FUTURE<R> f = t.get_future(); ff = &f; sa_run(3, t_inv<R>); }
ENTRY E_conc_int() { conc<int>(); }
ENTRY E_conc_void() { conc<void>(); }
// asynchronous launch
template <class R, class F> static void after(F& f) { SA_ASSERT(f.valid(), R_READY); if (sa_bool()) { f.wait(); SA_ASSERT(f.is_ready() && calls == 1, R_ONCE); } result<R>(f); SA_ASSERT(calls == 1, R_ONCE); SA_ASSERT(whose != 0, R_WHO); }
template <class R> static void async_driver(void*) {
  { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); int base = __sa_live_heap();
  { boost::BOOST_THREAD_FUTURE<R> f;
    switch (__sa_choose(4)) { case 0: f = boost::async(boost::launch::async, &plain<R>); break; case 1: { Fn<R> n; f = boost::async(boost::launch::async, n); break; } case 2: f = boost::async(boost::launch::async, MFn<R>()); break; default: f = boost::async(&plain<R>); }
    if (sa_bool()) after<R>(f); }
  for (int i = 0; i < sa_nspawn; i++) env_join(i);
  SA_ASSERT(calls == 1, R_ONCE); sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("done");
}
template <class R> static void async_() { init(); sa_run(1, async_driver<R>); }
ENTRY E_async_int() { async_<int>(); }
ENTRY E_async_ref() { async_<int&>(); }
ENTRY E_async_void() { async_<void>(); }
#if defined BOOST_THREAD_PROVIDES_VARIADIC_THREAD
static int add(int a, int b) { SA_ASSERT(a == 2 && b == 3, R_CALL); enter(); return a + b; }
struct Obj { int z; int m(int k) { SA_ASSERT(z == 9 && k == 1, R_CALL); enter(); return 5; } };
static void args_driver(void*) {
  boost::launch l = boost::launch::async; bool d = sa_bool(); if (d) l = boost::launch::deferred; Obj o = {9};
  boost::future<int> f = sa_bool() ? boost::async(l, &add, 2, 3) : boost::async(l, &Obj::m, &o, 1); if (d) SA_ASSERT(!calls, R_DEFER); result<int>(f); SA_ASSERT(calls == 1, R_ONCE);
}
ENTRY E_async_args() { init(); sa_run(1, args_driver); }
// deferred launch: two threads share the future
template <class R> static void t_def(void* q) {
  boost::shared_future<R> f(*(boost::shared_future<R>*)ff);
  if (sa_bool()) { bool before = calls; boost::future_status s = f.wait_for(boost::chrono::milliseconds(1)); if (!sa_probe) { if (s == boost::future_status::ready) SA_ASSERT(calls == 1, R_READY); if (s == boost::future_status::deferred) SA_ASSERT(!before, R_DEFER); } MUST("asked"); }
  SA_ASSERT((calls == 0) || whose >= 0, R_DEFER);
  if (sa_bool()) f.wait();
  result<R>(f); SA_ASSERT(calls == 1 && whose >= 0, R_ONCE);
}
template <class R> static void deferred() { init(); boost::future<R> u; switch (__sa_choose(3)) { case 0: u = boost::async(boost::launch::deferred, &plain<R>); break; case 1: { Fn<R> n; u = boost::async(boost::launch::deferred, n); break; } default: u = boost::async(boost::launch::deferred, MFn<R>()); } SA_ASSERT(!calls, R_DEFER); boost::shared_future<R> f(u.share()); ff = &f; sa_run(2, t_def<R>); }
ENTRY E_deferred_int() { deferred<int>(); }
ENTRY E_deferred_ref() { deferred<int&>(); }
ENTRY E_deferred_void() { deferred<void>(); }
template <class R> static void never() {
  init(); int base = __sa_live_heap();
  { boost::future<R> u = boost::async(boost::launch::deferred, &plain<R>); 
    SA_ASSERT(u.wait_for(boost::chrono::milliseconds(1)) == boost::future_status::deferred && u.wait_until(boost::chrono::system_clock::now()) == boost::future_status::deferred && !u.is_ready() && !calls, R_DEFER);
    if (sa_bool()) { if (sa_bool()) { boost::exception_ptr e = u.get_exception_ptr(); SA_ASSERT(!e == !fthrow, R_RES); } SA_ASSERT(calls <= 1, R_ONCE); result<R>(u); SA_ASSERT(calls == 1 && whose == -1, R_WHO); }
  }
  SA_ASSERT(calls == 0 || calls == 1, R_DEFER); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("never");
}
ENTRY E_never_int() { never<int>(); }
ENTRY E_never_ref() { never<int&>(); }
ENTRY E_never_void() { never<void>(); }
ENTRY E_dropped() { init(); { boost::future<int> u = boost::async(boost::launch::deferred, &plain<int>); boost::shared_future<int> s; if (sa_bool()) s = u.share(); } SA_ASSERT(!calls, R_DEFER); MUST("dropped"); }
#endif
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
// submission to an executor
struct Queue { boost::executors::work w[2]; int n, cl; Queue() : n(0), cl(0) {} void close() { cl = 1; } bool closed() { return cl; }
  template <class C> void submit(BOOST_THREAD_FWD_REF(C) c) { w[n] = boost::executors::work(boost::forward<C>(c)); n = n + 1; } bool try_executing_one() { return false; } };
template <class R> static void t_ex(void* q) {
  Queue& e = *(Queue*)exq;
  if ((long)q == 1) { while (!e.n) sa_idle(); e.w[0](); e.w[0] = boost::executors::work(); return; }
  boost::future<R> f; switch (__sa_choose(3)) { case 0: f = boost::async(e, &plain<R>); break; case 1: { Fn<R> n; f = boost::async(e, n); break; } default: f = boost::async(e, MFn<R>()); }
  SA_ASSERT(e.n == 1, R_ONCE); result<R>(f); SA_ASSERT(calls == 1 && whose == 1, R_ONCE);
}
template <class R> static void ex() { init(); Queue e; exq = &e; sa_run(2, t_ex<R>); }
ENTRY E_executor_int() { ex<int>(); }
ENTRY E_executor_void() { ex<void>(); }
#endif
