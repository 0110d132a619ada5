// C12: a promise is satisfied at most once; its future gets exactly that result
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @variants_thorough: -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET ; -DBOOST_THREAD_VERSION=5
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#define R_TWICE "a second attempt to satisfy the promise throws promise_already_satisfied and changes nothing"
#define R_FIRST "the first attempt to satisfy the promise succeeds"
#define R_READY "the future is ready exactly when the result has been stored and published"
#define R_VALUE "what get delivers is exactly the value or exception that was set"
#define R_FAILED "a failed attempt to store a value leaves the promise unsatisfied"
#define R_LEAK "nothing remains allocated once the promise and the futures are gone"
struct CopyErr {}; struct MyErr { int id; };
static int throwing;
struct V { int id; explicit V(int i) : id(i) {}
  V(const V& o) : id(o.id) { if (throwing && sa_bool()) { throwing = 2; throw CopyErr(); } } V(V&& o) : id(o.id) { if (throwing && sa_bool()) { throwing = 2; throw CopyErr(); } o.id = -1; }
  V& operator=(const V&) = default; };
struct M { int id; explicit M(int i) : id(i) {} M(M&& o) : id(o.id) { o.id = -1; } M& operator=(M&& o) { id = o.id; o.id = -1; return *this; } M(const M&) = delete; };
static int objs[3];
template <class T> struct Tr;
template <> struct Tr<V> { typedef boost::promise<V> P; typedef boost::BOOST_THREAD_FUTURE<V> F;
  static void set(P& p, int id) { int k = __sa_choose(3); if (k == 0) { V v(id); p.set_value(v); } else if (k == 1) p.set_value(V(id));
    else p.emplace(id); }
  static void setd(P& p, int id) { if (sa_bool()) { V v(id); p.set_value_deferred(v); } else p.set_value_deferred(V(id)); }
  static void sete(P& p, int id) { if (sa_bool()) { V v(id); p.set_value_at_thread_exit(v); } else p.set_value_at_thread_exit(V(id)); }
  static int get(F& f) { int t = throwing; throwing = 0; int r = f.get().id; throwing = t; return r; }
  static int gets(boost::shared_future<V>& f) { return f.get().id; } };
template <> struct Tr<M> { typedef boost::promise<M> P; typedef boost::BOOST_THREAD_FUTURE<M> F;
  static void set(P& p, int id) { if (sa_bool()) p.set_value(M(id)); else p.emplace(id); }
  static void setd(P& p, int id) { p.set_value_deferred(M(id)); }
  static void sete(P& p, int id) { p.set_value_at_thread_exit(M(id)); }
  static int get(F& f) { return f.get().id; } static int gets(boost::shared_future<M>& f) { return f.get().id; } };
template <> struct Tr<int&> { typedef boost::promise<int&> P; typedef boost::BOOST_THREAD_FUTURE<int&> F;
  static void set(P& p, int id) { p.set_value(objs[id]); } static void setd(P& p, int id) { p.set_value_deferred(objs[id]); } static void sete(P& p, int id) { p.set_value_at_thread_exit(objs[id]); }
  static int get(F& f) { return (int)(&f.get() - objs); } static int gets(boost::shared_future<int&>& f) { return (int)(&f.get() - objs); } };
template <> struct Tr<void> { typedef boost::promise<void> P; typedef boost::BOOST_THREAD_FUTURE<void> F;
  static void set(P& p, int) { p.set_value(); } static void setd(P& p, int) { p.set_value_deferred(); } static void sete(P& p, int) { p.set_value_at_thread_exit(); }
  static int get(F& f) { f.get(); return 1; } static int gets(boost::shared_future<void>& f) { f.get(); return 1; } };
template <class P> static void exc(P& p, int id) { if (sa_bool()) p.set_exception(boost::copy_exception(MyErr{id})); else p.set_exception(MyErr{id}); }
template <class P> static void excd(P& p, int id) { if (sa_bool()) p.set_exception_deferred(boost::copy_exception(MyErr{id})); else p.set_exception_deferred(MyErr{id}); }
template <class P> static void exce(P& p, int id) { if (sa_bool()) p.set_exception_at_thread_exit(boost::copy_exception(MyErr{id})); else p.set_exception_at_thread_exit(MyErr{id}); }
// stat: 0 unsatisfied, 1/2 value/exception set but not published, 3/4 published
static int stat, sid, base;
static void* pp;
// one attempt to satisfy: returns true if it was accepted
template <class T> static bool attempt(typename Tr<T>::P& p, int k, int id) {
  if (throwing) throwing = 1;
  try { switch (k) { case 0: Tr<T>::set(p, id); break; case 1: exc(p, id); break; case 2: Tr<T>::setd(p, id); break; case 3: excd(p, id); break; case 4: Tr<T>::sete(p, id); break; default: exce(p, id); } return true; }
  catch (boost::promise_already_satisfied&) { SA_ASSERT(stat, R_FIRST); return false; }
  catch (CopyErr&) { SA_ASSERT(throwing == 2, R_FAILED); MUST("failed store"); return false; }
}
template <class T> static void try_one(typename Tr<T>::P& p, int k, int id) {
  bool r = attempt<T>(p, k, id); bool second = stat != 0;
  if (r) { SA_ASSERT(!second, R_TWICE); stat = (k == 0) ? 3 : k == 1 ? 4 : (k & 1) ? 2 : 1; sid = id; MUST("satisfied"); }
  else if (second) MUST("refused");
}
template <class T> static void check(typename Tr<T>::F& f) {
  SA_ASSERT(f.is_ready() == (stat >= 3), R_READY); SA_ASSERT(f.has_value() == (stat == 3), R_READY); SA_ASSERT(f.has_exception() == (stat == 4), R_READY);
  if (stat < 3) { SA_ASSERT(f.wait_until(boost::chrono::steady_clock::now()) == boost::future_status::timeout, R_READY); }
  else SA_ASSERT(f.wait_until(boost::chrono::steady_clock::now()) == boost::future_status::ready, R_READY);
}
template <class T> static void finish(typename Tr<T>::F& f) {
  if (sa_bool()) { boost::exception_ptr e = f.get_exception_ptr(); SA_ASSERT(!e == (stat == 3), R_VALUE); }
  if (sa_bool()) { // read through a shared future, twice
    boost::shared_future<T> s(boost::move(f)); boost::shared_future<T> s2(s);
    for (int i = 0; i < 2; i++) try { int v = Tr<T>::gets(i ? s : s2); SA_ASSERT(stat == 3 && v == sid, R_VALUE); } catch (MyErr& e) { SA_ASSERT(stat == 4 && e.id == sid, R_VALUE); }
    return;
  }
  try { int v = Tr<T>::get(f); SA_ASSERT(stat == 3 && v == sid, R_VALUE); MUST("value"); } catch (MyErr& e) { SA_ASSERT(stat == 4 && e.id == sid, R_VALUE); MUST("exception"); }
}
template <class T> struct One { static const bool ids = true; }; template <> struct One<void> { static const bool ids = false; };
// every history of attempts by one thread
template <class T> static void seq() {
  stat = sid = 0; base = __sa_live_heap(); __sa_opt("coarse", 1);
  { typename Tr<T>::P p; typename Tr<T>::F f; bool obtained = false;
    if (sa_bool()) { f = p.get_future(); obtained = true; }
    while (sa_bool()) {
      __sa_defer();
      int id = One<T>::ids ? 1 + __sa_choose(2) : 1;
      int k = __sa_choose(6);
      if (k < 4) try_one<T>(p, k, id);
      else if (k == 4) { if (!obtained) { f = p.get_future(); obtained = true; } else __sa_stop(); }
      else { if (stat != 1 && stat != 2) __sa_stop(); p.notify_deferred(); stat += 2; }
      if (obtained) check<T>(f);
    }
    if (stat < 3 || !obtained) { stat = -1; }
    else { finish<T>(f); }
  }
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
// attempts in a thread that ends: results set for thread exit become ready at its end, further attempts are refused before and after
template <class T> static void in_thread() {
  typename Tr<T>::P& p = *(typename Tr<T>::P*)pp;
  for (int i = 0; i < 3; i++) { if (!sa_bool()) break; int id = One<T>::ids ? 1 + i % 2 : 1; int k = __sa_choose(4); if (k > 1) k = k + 2; try_one<T>(p, k, id); }
}
template <class T> static void exit_driver(void*) {
  { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid());
  stat = sid = 0; base = __sa_live_heap();
  { typename Tr<T>::P p; pp = &p; typename Tr<T>::F f; bool early = sa_bool(); if (early) f = p.get_future();
    if (sa_bool()) try_one<T>(p, __sa_choose(2), 1);
    { boost::thread t(&in_thread<T>); t.join(); }
    if (stat == 1 || stat == 2) stat += 2;
    if (!early) f = p.get_future();
    check<T>(f);
    if (sa_bool()) { try_one<T>(p, __sa_choose(4), 2 - (One<T>::ids ? 0 : 1)); check<T>(f); }
    if (stat >= 3) finish<T>(f);
  }
  sa_run_key_dtors(__sa_tid());
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
template <class T> static void at_exit() { sa_run(1, exit_driver<T>); }
// concurrent attempts and waiters
static int accepted, wform; static void* ff;
template <class T> static void thread_fn(void* q) {
  int i = (int)(long)q;
  if (i < 2) { typename Tr<T>::P& p = *(typename Tr<T>::P*)pp; int id = One<T>::ids ? i + 1 : 1; sa_idle(); if (i == 1 && wform & 8) return; int k = __sa_choose(2);
    try { if (k) p.set_exception(MyErr{id}); else Tr<T>::set(p, id); SA_ASSERT(!accepted, R_TWICE); accepted = 1; stat = k ? 4 : 3; sid = id; MUST("accepted"); }
    catch (boost::promise_already_satisfied&) { MUST("refused"); } }
  else { boost::shared_future<T>& f = *(boost::shared_future<T>*)ff;
    switch (wform & 7) {
      case 1: f.wait(); break;
      case 2: { bool r = f.wait_for(boost::chrono::milliseconds(5)) == boost::future_status::ready; if (!r) { if (sa_probe) __sa_stop(); MUST("timed out"); return; } break; }
#ifdef BOOST_THREAD_USES_DATETIME
      case 3: { bool r = f.timed_wait(boost::posix_time::milliseconds(5)); if (!r) { if (sa_probe) __sa_stop(); return; } break; }
      case 4: { bool r = f.timed_wait_until(boost::system_time()); if (!r) { if (sa_probe) __sa_stop(); return; } break; }
#endif
      case 5: { bool r = f.wait_until(boost::chrono::system_clock::now()) == boost::future_status::ready; if (!r) { if (sa_probe) __sa_stop(); return; } break; }
      default: ;
    }
    bool rdy = f.is_ready(); SA_ASSERT(rdy || (wform & 7) == 0, R_READY);
    try { int v = Tr<T>::gets(f); if (accepted) SA_ASSERT(stat == 3 && v == sid, R_VALUE); MUST("got"); } catch (MyErr& e) { if (accepted) SA_ASSERT(stat == 4 && e.id == sid, R_VALUE); MUST("got exception"); }
  }
}
template <class T> static void conc(int n, int w) {
  stat = sid = accepted = 0; wform = w;
  static typename Tr<T>::P* P0; typename Tr<T>::P p; pp = &p; boost::shared_future<T> f(p.get_future()); ff = &f; sa_preempt_nested = 0; sa_preempt_after = 1;
  sa_run(n, thread_fn<T>);
}
ENTRY E_seq_value() { seq<V>(); }
ENTRY E_seq_value_throwing() { throwing = 1; seq<V>(); }
ENTRY E_seq_moveonly() { seq<M>(); }
ENTRY E_seq_ref() { seq<int&>(); }
ENTRY E_seq_void() { seq<void>(); }
ENTRY E_exit_value() { at_exit<V>(); }
ENTRY E_exit_moveonly() { at_exit<M>(); }
ENTRY E_exit_ref() { at_exit<int&>(); }
ENTRY E_exit_void() { at_exit<void>(); }
ENTRY E_conc_value() { conc<V>(3, 0); }
ENTRY E_conc_void() { conc<void>(3, 1); }
ENTRY E_conc_ref() { conc<int&>(3, 0); }
ENTRY E_conc_timed() { conc<int&>(3, 2); }
#ifdef BOOST_THREAD_USES_DATETIME
ENTRY E_conc_timed_wait() { conc<int&>(3, 3); }
ENTRY E_conc_timed_wait_until() { conc<int&>(3, 4); }
#endif
ENTRY E_conc_system() { conc<int&>(3, 5); }
ENTRY E_conc_two_waiters() { conc<int&>(4, 8); }
ENTRY E_conc_two_waiters_void() { conc<void>(4, 9); }
