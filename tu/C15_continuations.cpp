// C15: continuations and unwrapping
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=5
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/work.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#endif
#define R_ONCE "a continuation runs at most once"
#define R_RAN "a continuation whose antecedent became ready has run"
#define R_AFTER "a continuation runs only once its antecedent is ready"
#define R_NOLOCK "a continuation is not called with a lock of the library held"
#define R_ARG "the continuation receives the antecedent's result"
#define R_RES "the returned future receives what the continuation returned or threw"
#define R_HANDLE "then leaves the antecedent handle invalid and returns a valid future"
#define R_LEAK "every shared state is released with its last owner"
#define R_UNWRAP "unwrapping yields the inner result, the outer exception, or broken_promise for a missing inner future"
#define R_WHEREIN "a deferred task runs in the thread that waits for its future or for a deferred continuation of it"
#define R_WHERE "a deferred continuation runs in the thread that waits for its future"
struct Err { int id; };
static int obj; static int ran, ran2, set_, deferred_, exc, cthrow, broke, waiting; static void *pp, *qq, *ff, *exq, *rr;
template <class T> struct Tr;
template <> struct Tr<int> { static void set(boost::promise<int>& p) { p.set_value(5); } template <class F> static bool ok(F& f) { return f.get() == 5; } static int ret() { return 5; } };
template <> struct Tr<int&> { static void set(boost::promise<int&>& p) { p.set_value(obj); } template <class F> static bool ok(F& f) { return &f.get() == &obj; } static int& ret() { return obj; } };
template <> struct Tr<void> { static void set(boost::promise<void>& p) { p.set_value(); } template <class F> static bool ok(F& f) { f.get(); return true; } static void ret() {} };
template <> struct Tr<boost::future<int> > { static void set(boost::promise<boost::future<int> >& p) { p.set_value(boost::make_ready_future(5)); } template <class F> static bool ok(F& f) { boost::future<int> g = f.get(); return g.get() == 5; } };
static void enter() { SA_ASSERT(!ran, R_ONCE); ran = 1; SA_ASSERT(set_, R_AFTER); SA_ASSERT(sa_me() < 0 || !sa_T[sa_me()].held, R_NOLOCK); if (deferred_) SA_ASSERT(sa_me() <= 0 && waiting, R_WHERE); }
template <class A, class F> static void arg(F& f) {
  SA_ASSERT(f.valid() && f.is_ready(), R_AFTER);
  bool e = false, b = false, v = false; try { v = Tr<A>::ok(f); } catch (Err& x) { e = x.id == 7; } catch (boost::broken_promise&) { b = true; }
  SA_ASSERT(broke ? b : exc ? e : v, R_ARG);
}
template <class A, class R, class F> struct Cont { typedef R result_type; R operator()(F f) const { enter(); arg<A>(f); MUST("ran"); if (cthrow) throw Err{8}; return Tr<R>::ret(); } };
template <class R, class F> static void result(F& g) {
  waiting = 1;
  bool e = false, v = false; try { v = Tr<R>::ok(g); } catch (Err& x) { e = x.id == 8; }
  SA_ASSERT(cthrow ? e : v, R_RES); SA_ASSERT(ran, R_RAN); MUST("result");
}
template <class A> static void settle(boost::promise<A>& p) {
  set_ = 1;
  if (broke) { boost::promise<A> d(boost::move(p)); }
  else if (exc) p.set_exception(Err{7}); else Tr<A>::set(p);
}
static int pol;  // 0 async 1 deferred 2 sync 3 none 4 inherit 5 default 6 executor
static void reset(int p) { ran = ran2 = set_ = waiting = 0; pol = p; deferred_ = p == 1; exc = sa_bool(); broke = exc ? 0 : sa_bool(); cthrow = sa_bool(); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
struct Queue { // an executor under the test's control: the second thread runs what was submitted
  boost::executors::work w[2]; int n, cl; Queue() : n(0), cl(0) {}
  void close() { cl = 1; } bool closed() { return cl; }
  template <class C> void submit(BOOST_THREAD_FWD_REF(C) c) { w[n] = boost::executors::work(boost::forward<C>(c)); n = n + 1; }
  bool try_executing_one() { return false; }
};
#endif
template <class R, class F, class C> static boost::future<R> attach(F& f, C c) {
  switch (pol) {
    case 0: return f.then(boost::launch::async, boost::move(c));
    case 1: return f.then(boost::launch::deferred, boost::move(c));
    case 2: return f.then(boost::launch::sync, boost::move(c));
    case 3: return f.then(boost::launch::none, boost::move(c));
    case 4: return f.then(boost::launch::inherit, boost::move(c));
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
    case 6: return f.then(*(Queue*)exq, boost::move(c));
#endif
    default: return f.then(boost::move(c));
  }
}
static void drop() { sa_run_key_dtors(__sa_tid()); }
// --- one continuation, attached before, while or after the antecedent is satisfied by another thread
template <class A, class R> static void t_one(void* q) {
  if ((long)q == 1) { settle(*(boost::promise<A>*)pp); return; }
  boost::future<A>& f = *(boost::future<A>*)ff;
  boost::future<R> g = attach<R>(f, Cont<A, R, boost::future<A> >());
  SA_ASSERT(!f.valid() && g.valid(), R_HANDLE);
  sa_idle();
  if (deferred_) SA_ASSERT(!ran && g.wait_for(boost::chrono::milliseconds(1)) == boost::future_status::deferred, R_WHERE);
  result<R>(g);
}
static void rest_one() { if (set_ && !deferred_ && pol != 6) { bool all = true; for (int i = 1; i < sa_nt; i++) if (sa_T[i].st != T_DONE) all = false; if (all && sa_T[0].st != T_READY) SA_ASSERT(ran || sa_T[0].st == T_DONE, R_RAN); } }
template <class A, class R> static void one(int p) {
  reset(p); sa_preempt_after = 0; boost::promise<A> P; pp = &P; boost::future<A> f = P.get_future(); ff = &f; sa_at_rest = rest_one;
  sa_run(2, t_one<A, R>);
}
ENTRY E_one_async() { one<int, int>(0); }
ENTRY E_one_async_void() { one<void, void>(0); }
ENTRY E_one_async_ref() { one<int&, int>(0); }
ENTRY E_one_deferred() { one<int, int>(1); }
ENTRY E_one_deferred_void() { one<int, void>(1); }
ENTRY E_one_sync() { one<int, int>(2); }
ENTRY E_one_sync_void() { one<void, void>(2); }
ENTRY E_one_none() { one<int, int>(3); }
ENTRY E_one_inherit() { one<int, int>(4); }
ENTRY E_one_default() { one<int, int>(5); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
template <class A, class R> static void t_exec(void* q) {
  if ((long)q != 2) return t_one<A, R>(q);
  Queue& e = *(Queue*)exq; while (!e.n) sa_idle(); SA_ASSERT(e.n == 1, R_ONCE); e.w[0](); e.w[0] = boost::executors::work(); e.n = 5;
}
template <class A, class R> static void exec() { reset(6); Queue e; exq = &e; boost::promise<A> P; pp = &P; boost::future<A> f = P.get_future(); ff = &f; sa_run(3, t_exec<A, R>); }
ENTRY E_one_executor() { exec<int, int>(); }
ENTRY E_one_executor_void() { exec<void, void>(); }
#endif
// --- shared futures: several continuations on one state
template <class A, class F> struct Cont2 { typedef int result_type; int operator()(F f) const { SA_ASSERT(!ran2, R_ONCE); ran2 = 1; SA_ASSERT(set_, R_AFTER); SA_ASSERT(!sa_T[sa_me()].held, R_NOLOCK); arg<A>(f); MUST("ran 2"); return 9; } };
template <class A, class R> static void t_shared(void* q) {
  if ((long)q == 1) { settle(*(boost::promise<A>*)pp); return; }
  boost::shared_future<A>& f = *(boost::shared_future<A>*)ff;
  if ((long)q == 2) { boost::future<int> h = f.then(boost::launch::sync, Cont2<A, boost::shared_future<A> >()); SA_ASSERT(f.valid(), R_HANDLE); SA_ASSERT(h.get() == 9 && ran2, R_RES); return; }
  boost::future<R> g = attach<R>(f, Cont<A, R, boost::shared_future<A> >());
  SA_ASSERT(f.valid() && g.valid(), R_HANDLE);
  if (deferred_) SA_ASSERT(!ran, R_WHERE);
  result<R>(g);
}
template <class A, class R> static void shared(int p, int n) {
  reset(p); boost::promise<A> P; pp = &P; boost::shared_future<A> f(P.get_future()); ff = &f; sa_at_rest = rest_one;
  sa_run(n, t_shared<A, R>);
}
ENTRY E_shared_async() { shared<int, int>(0, 2); }
ENTRY E_shared_deferred() { shared<int, int>(1, 2); }
ENTRY E_shared_sync() { shared<int, int>(2, 2); }
ENTRY E_shared_inherit() { shared<int, void>(4, 2); }
ENTRY E_shared_default() { shared<void, int>(5, 2); }
ENTRY E_shared_two() { shared<int, int>(2, 3); }
// --- chains: the second continuation sees the outcome of the first
template <class F> struct Second { typedef int result_type; int operator()(F f) const {
  SA_ASSERT(!ran2, R_ONCE); ran2 = 1; SA_ASSERT(ran, R_AFTER); SA_ASSERT(f.is_ready(), R_AFTER); int k = sa_me(); SA_ASSERT(k < 0 || !sa_T[k].held, R_NOLOCK);
  bool e = false, v = false; try { v = f.get() == 5; } catch (Err& x) { e = x.id == 8; } SA_ASSERT(cthrow ? e : v, R_ARG); return 6; } };
static int pol2;
static void t_chain(void* q) {
  if ((long)q == 1) { settle(*(boost::promise<int>*)pp); return; }
  boost::future<int>& f = *(boost::future<int>*)ff;
  boost::future<int> g = attach<int>(f, Cont<int, int, boost::future<int> >());
  pol = pol2; boost::future<int> h = attach<int>(g, Second<boost::future<int> >());
  SA_ASSERT(!g.valid() && h.valid(), R_HANDLE); waiting = 1;
  SA_ASSERT(h.get() == 6 && ran && ran2, R_RES); MUST("result");
}
static void chain(int p, int p2) { reset(p); pol2 = p2; boost::promise<int> P; pp = &P; boost::future<int> f = P.get_future(); ff = &f; sa_run(2, t_chain); }
ENTRY E_chain_sync() { chain(2, 2); }
ENTRY E_chain_deferred() { chain(1, 1); }
ENTRY E_chain_deferred_default() { chain(1, 5); }
ENTRY E_chain_mixed() { chain(2, 1); }
#ifdef SA_THOROUGH
ENTRY E_chain_async() { chain(0, 0); }
ENTRY E_chain_async_sync() { chain(0, 2); }
#endif
// --- ready antecedents and life time, one thread
template <class A, class R> static void ready_driver(void*) {
  { boost::this_thread::get_id(); } drop(); int base = __sa_live_heap();
  { boost::promise<A> P; boost::future<A> f = P.get_future(); bool early = sa_bool(); if (early) settle(P);
    { boost::future<R> g = attach<R>(f, Cont<A, R, boost::future<A> >());
      if (!early) settle(P);
      if (!deferred_ && sa_bool()) { if (sa_bool()) g.wait(); result<R>(g); } else if (deferred_) { if (sa_bool()) result<R>(g); else SA_ASSERT(!ran, R_WHERE); }
    }
  }
  for (int i = 0; i < sa_nspawn; i++) env_join(i);
  SA_ASSERT(deferred_ ? ran == waiting : ran, R_RAN);
  drop(); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("done");
}
template <class A, class R> static void ready(int p) { reset(p); broke = 0; sa_run(1, ready_driver<A, R>); }
ENTRY E_ready_sync() { ready<int, int>(2); }
ENTRY E_ready_async() { ready<int, int>(0); }
ENTRY E_ready_async_void() { ready<int, void>(0); }
ENTRY E_ready_deferred() { ready<int, int>(1); }
ENTRY E_ready_deferred_void() { ready<void, void>(1); }
ENTRY E_ready_default() { ready<void, int>(5); }
// --- fallback_to: the value, or the given alternative
ENTRY E_fallback() {
  bool e = sa_bool(); boost::promise<int> p; boost::future<int> f = p.get_future(); if (e) p.set_exception(Err{1}); else p.set_value(4); int nine = 9;
  sa_preempt = 0; sa_probe = 0; boost::future<int> g = sa_bool() ? f.fallback_to(9) : f.fallback_to(const_cast<const int&>(nine)); 
  for (int i = 0; i < sa_nspawn; i++) sa_run_spawned(i);
  SA_ASSERT(g.get() == (e ? 9 : 4), R_RES);
}
// --- unwrap
template <class A> static void t_unwrap(void* q) {
  boost::promise<boost::future<A> >& P = *(boost::promise<boost::future<A> >*)pp; boost::promise<A>& Q = *(boost::promise<A>*)qq;
  switch ((long)q) {
    case 1: { int k = cthrow; // 0 inner future 1 outer exception 2 missing inner 3 broken outer
      if (k == 1) P.set_exception(Err{8}); else if (k == 2) P.set_value(boost::future<A>()); else if (k == 3) { boost::promise<boost::future<A> > d(boost::move(P)); } else P.set_value(boost::move(*(boost::future<A>*)rr)); return; }
    case 2: if (cthrow == 0) settle(Q); return;
    default: {
      boost::future<boost::future<A> >& f = *(boost::future<boost::future<A> >*)ff;
      boost::future<A> g; if (ran2) g = f.unwrap(); else { boost::future<A> h(boost::move(f)); g = boost::move(h); }
      SA_ASSERT(!f.valid() && g.valid(), R_HANDLE);
      bool e7 = false, e8 = false, b = false, v = false; try { v = Tr<A>::ok(g); } catch (Err& x) { e7 = x.id == 7; e8 = x.id == 8; } catch (boost::broken_promise&) { b = true; }
      SA_ASSERT(cthrow == 1 ? e8 : cthrow >= 2 ? b : !set_ ? false : broke ? b : exc ? e7 : v, R_UNWRAP); MUST("unwrapped");
    }
  }
}
template <class A> static void unwrap() {
  reset(0); cthrow = __sa_choose(4); if (cthrow) exc = broke = 0; ran2 = sa_bool(); boost::promise<boost::future<A> > P; boost::promise<A> Q; pp = &P; qq = &Q; boost::future<A> in = Q.get_future(); rr = &in; boost::future<boost::future<A> > f = P.get_future(); ff = &f;
  sa_run(3, t_unwrap<A>);
}
ENTRY E_unwrap_int() { unwrap<int>(); }
ENTRY E_unwrap_void() { unwrap<void>(); }
ENTRY E_unwrap_then() { // a continuation on an unwrapped future
  reset(2); broke = 0; cthrow = 0; boost::promise<boost::future<int> > P; boost::promise<int> Q; bool first = sa_bool();
  boost::future<int> g = P.get_future().unwrap(); boost::future<int> h = attach<int>(g, Cont<int, int, boost::future<int> >());
  boost::future<int> in = Q.get_future(); if (first) settle(Q); P.set_value(boost::move(in)); if (!first) { SA_ASSERT(!ran, R_AFTER); settle(Q); }
  SA_ASSERT(ran && h.is_ready() && h.get() == 5, R_RAN); MUST("done");
}

// --- a future of a future as the antecedent
typedef boost::future<int> FI;
ENTRY E_nested_async() { one<FI, int>(0); }
ENTRY E_nested_deferred() { one<FI, int>(1); }
ENTRY E_nested_sync() { one<FI, void>(2); }
ENTRY E_nested_none() { one<FI, int>(3); }
ENTRY E_nested_inherit() { one<FI, int>(4); }
ENTRY E_nested_default() { one<FI, void>(5); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
ENTRY E_nested_executor() { exec<FI, int>(); }
// --- shared futures with an executor
template <class A, class R> static void t_sexec(void* q) { if ((long)q != 2) return t_shared<A, R>(q); Queue& e = *(Queue*)exq; while (!e.n) sa_idle(); SA_ASSERT(e.n == 1, R_ONCE); e.w[0](); e.w[0] = boost::executors::work(); e.n = 5; }
template <class A, class R> static void sexec() { reset(6); Queue e; exq = &e; boost::promise<A> P; pp = &P; boost::shared_future<A> f(P.get_future()); ff = &f; sa_run(3, t_sexec<A, R>); }
ENTRY E_shared_executor() { sexec<int, int>(); }
ENTRY E_shared_executor_void() { sexec<void, void>(); }
// --- the continuation inherits the executor of its antecedent: 4 inherit, 5 default, 7 launch::executor
#define R_INHERIT "a continuation with the policy of its antecedent runs where the antecedent ran"
static int five() { set_ = 1; return 5; } static int inpol;
template <class F> static boost::future<int> inh(F& f) { Cont<int, int, F> c; return inpol == 4 ? f.then(boost::launch::inherit, boost::move(c)) : inpol == 5 ? f.then(boost::move(c)) : f.then(boost::launch::executor, boost::move(c)); }
template <class F> static void inherit_ex() {
  reset(6); exc = broke = 0; inpol = sa_bool() ? 4 : 5 + 2 * sa_bool(); Queue e; bool early = sa_bool(); F f(boost::async(e, &five)); SA_ASSERT(e.n == 1, R_INHERIT);
  if (early) { e.w[0](); SA_ASSERT(f.is_ready(), R_AFTER); } boost::future<int> g = inh(f); if (!early) { SA_ASSERT(e.n == 1 && !ran, R_AFTER); e.w[0](); }
  SA_ASSERT(e.n == 2 && !ran && sa_nspawn == 0, R_INHERIT); SA_ASSERT(!g.is_ready(), R_RES); e.w[1](); SA_ASSERT(ran && g.is_ready(), R_RAN); result<int>(g); e.w[0] = boost::executors::work(); e.w[1] = boost::executors::work(); MUST("inherited");
}
ENTRY E_inherit_executor() { inherit_ex<boost::future<int> >(); }
ENTRY E_inherit_executor_shared() { inherit_ex<boost::shared_future<int> >(); }
#endif
// --- the continuation inherits the deferred policy of its antecedent
static int dfive() { SA_ASSERT(waiting, R_WHEREIN); set_ = 1; return 5; }
template <class F> static void inherit_def() {
  reset(1); exc = broke = 0; F f(boost::async(boost::launch::deferred, &dfive)); boost::future<int> g; { Cont<int, int, F> c; g = sa_bool() ? f.then(boost::launch::inherit, boost::move(c)) : f.then(boost::move(c)); }
  SA_ASSERT(!set_ && !ran && sa_nspawn == 0, R_WHERE); if (sa_bool()) { result<int>(g); MUST("deferred"); } else MUST("never asked");
}
ENTRY E_inherit_deferred() { sa_preempt = 0; inherit_def<boost::future<int> >(); }
ENTRY E_inherit_deferred_shared() { sa_preempt = 0; inherit_def<boost::shared_future<int> >(); }
