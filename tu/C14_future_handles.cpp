// C14: future handles - validity, single retrieval, errors
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @variants_thorough: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET ; -DBOOST_THREAD_VERSION=5
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#define R_VALID "a handle is valid exactly while it owns a shared state whose result was not retrieved"
#define R_NOSTATE "get and wait on a handle without state throw future_uninitialized"
#define R_VALUE "get delivers the result of the state the handle owns"
#define R_OR "get_or delivers the result, or the given alternative if there is none"
#define R_SHARED "a shared future delivers the same result every time"
#define R_ONCE "a provider hands out its future at most once"
#define R_LEAK "every shared state is released with its last owner"
struct Err { int id; };
template <class T> struct Tr;
struct M { int id; explicit M(int i = 0) : id(i) {} M(M&& o) : id(o.id) { o.id = -1; } M& operator=(M&& o) { id = o.id; o.id = -1; return *this; } M(const M&) = delete; };
static int objs[4];
template <> struct Tr<M> { static void set(boost::promise<M>& p, int id) { p.set_value(M(id)); } static int get(boost::BOOST_THREAD_FUTURE<M>& f) { return f.get().id; } static int gets(const boost::shared_future<M>& f) { return f.get().id; }
  static int get_or(boost::BOOST_THREAD_FUTURE<M>& f) { return f.get_or(M(9)).id; } static int gets_or(const boost::shared_future<M>& f) { M m(9); return f.get_or(boost::move(m)).id; } static const bool or_ = true; };
template <> struct Tr<int> { static void set(boost::promise<int>& p, int id) { p.set_value(id); } static int get(boost::BOOST_THREAD_FUTURE<int>& f) { return f.get(); } static int gets(const boost::shared_future<int>& f) { return f.get(); }
  static int get_or(boost::BOOST_THREAD_FUTURE<int>& f) { int nine = 9; return sa_bool() ? f.get_or(9) : f.get_or(const_cast<const int&>(nine)); } static int gets_or(const boost::shared_future<int>& f) { return f.get_or(9); } };
template <> struct Tr<int&> { static void set(boost::promise<int&>& p, int id) { p.set_value(objs[id]); } static int get(boost::BOOST_THREAD_FUTURE<int&>& f) { return &f.get() - objs; } static int gets(const boost::shared_future<int&>& f) { return &f.get() - objs; }
  static int get_or(boost::BOOST_THREAD_FUTURE<int&>&) { __sa_stop(); } static int gets_or(const boost::shared_future<int&>&) { __sa_stop(); } };
template <> struct Tr<void> { static void set(boost::promise<void>& p, int) { p.set_value(); } static int get(boost::BOOST_THREAD_FUTURE<void>& f) { f.get(); return 0; } static int gets(const boost::shared_future<void>& f) { f.get(); return 0; }
  static int get_or(boost::BOOST_THREAD_FUTURE<void>&) { __sa_stop(); } static int gets_or(const boost::shared_future<void>&) { __sa_stop(); } };
template <class H> static bool refuses(H& h) { // operations on a handle without state
  bool t = false;
  switch (__sa_choose(4)) {
    case 0: try { h.get(); } catch (boost::future_uninitialized&) { t = true; } break;
    case 1: try { h.wait(); } catch (boost::future_uninitialized&) { t = true; } break;
    case 2: try { h.wait_for(boost::chrono::milliseconds(1)); } catch (boost::future_uninitialized&) { t = true; } break;
    default:
#ifdef BOOST_THREAD_USES_DATETIME
      try { h.timed_wait(boost::posix_time::milliseconds(1)); } catch (boost::future_uninitialized&) { t = true; } break;
#else
      try { h.wait_until(boost::chrono::system_clock::now()); } catch (boost::future_uninitialized&) { t = true; } break;
#endif
  }
  return t && !h.is_ready() && !h.has_value() && !h.has_exception() && h.get_state() == boost::future_state::uninitialized && !h.get_exception_ptr();
}
template <class T> struct World {
  boost::BOOST_THREAD_FUTURE<T> u[2]; boost::shared_future<T> s[2]; int hu[2], hs[2], got[2], isexc[2], unique[2];
  static const bool vd = sizeof(typename boost::conditional<boost::is_void<T>::value, char, long>::type) == 1;
  void result(int h, bool ok, int v, int e) { int want = vd ? 0 : h + 1; if (isexc[h]) SA_ASSERT(!ok && e == h, R_VALUE); else SA_ASSERT(ok && v == want, R_VALUE); }
  void check() {
    for (int i = 0; i < 2; i++) { SA_ASSERT(u[i].valid() == (hu[i] >= 0 && !got[hu[i]]), R_VALID); SA_ASSERT(s[i].valid() == (hs[i] >= 0 && !got[hs[i]]), R_VALID); }
  }
  void run(int excs) {
    for (int k = 0; k < 2; k++) { got[k] = 0; hs[k] = -1; isexc[k] = (excs >> k) & 1; boost::promise<T> p; u[k] = p.get_future(); hu[k] = k; if (isexc[k]) p.set_exception(Err{k}); else Tr<T>::set(p, vd ? 0 : k + 1); }
    while (sa_bool()) {
      __sa_defer();
      int i = __sa_choose(2), j = __sa_choose(2);
      switch (__sa_choose(13)) {
        case 0: if (i == j) __sa_stop(); u[i] = boost::move(u[j]); hu[i] = hu[j]; hu[j] = -1; break;
        case 1: { boost::BOOST_THREAD_FUTURE<T> n(boost::move(u[i])); SA_ASSERT(!u[i].valid(), R_VALID); if (i != j) { int k = hu[j]; hu[j] = hu[i]; hu[i] = k; n.swap(u[j]); u[i] = boost::move(n); } else { hu[i] = -1; } break; }
        case 2: if (hu[i] >= 0 && got[hu[i]]) __sa_stop(); if (sa_bool()) s[j] = boost::shared_future<T>(boost::move(u[i])); else s[j] = boost::move(u[i]); hs[j] = hu[i]; hu[i] = -1; MUST("shared"); break;
        case 3: if (hu[i] >= 0 && got[hu[i]]) __sa_stop(); s[j] = u[i].share(); hs[j] = hu[i]; hu[i] = -1; break;
        case 4: if (i == j) __sa_stop(); s[i] = s[j]; hs[i] = hs[j]; break;
        case 5: { boost::shared_future<T> c(s[i]); SA_ASSERT(c.valid() == (hs[i] >= 0), R_VALID); s[j] = c; hs[j] = hs[i]; break; }
        case 6: if (i == j) __sa_stop(); s[i] = boost::move(s[j]); hs[i] = hs[j]; hs[j] = -1; break;
        case 7: { boost::shared_future<T> c(boost::move(s[i])); SA_ASSERT(!s[i].valid(), R_VALID); c.swap(s[j]); if (i != j) { s[i] = boost::move(c); int k = hs[i]; hs[i] = hs[j]; hs[j] = k; } break; }
        case 8: { int h = hu[i]; if (h < 0) { SA_ASSERT(refuses(u[i]), R_NOSTATE); MUST("no state"); break; } if (got[h]) { bool t = false; try { u[i].get(); } catch (boost::future_uninitialized&) { t = true; } SA_ASSERT(t, R_NOSTATE); MUST("got twice"); break; }
          int v = -9, e = -9; bool ok = false; try { v = Tr<T>::get(u[i]); ok = true; } catch (Err& x) { e = x.id; } result(h, ok, v, e);
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
          got[h] = 1;
#else
          u[i] = boost::BOOST_THREAD_FUTURE<T>(); hu[i] = -1;
#endif
          MUST("get"); break; }
        case 9: { int h = hs[i]; if (h < 0) { SA_ASSERT(refuses(s[i]), R_NOSTATE); break; } for (int n = 0; n < 2; n++) { int v = -9, e = -9; bool ok = false; try { v = Tr<T>::gets(s[i]); ok = true; } catch (Err& x) { e = x.id; } int want = vd ? 0 : h + 1; if (isexc[h]) SA_ASSERT(!ok && e == h, R_SHARED); else SA_ASSERT(ok && v == want, R_SHARED); } MUST("shared get"); break; }
        case 10: { int h = hu[i]; if (boost::is_reference<T>::value || vd) __sa_stop(); if (h >= 0 && got[h]) __sa_stop(); bool t = false; int v = -9; try { v = Tr<T>::get_or(u[i]); } catch (boost::future_uninitialized&) { t = true; }
          if (h < 0) { SA_ASSERT(t, R_NOSTATE); break; } SA_ASSERT(!t && v == (isexc[h] ? 9 : h + 1), R_OR);
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
          got[h] = 1;
#else
          u[i] = boost::BOOST_THREAD_FUTURE<T>(); hu[i] = -1;
#endif
          break; }
        case 11: { int h = hs[i]; if (boost::is_reference<T>::value || vd) __sa_stop(); bool t = false; int v = -9; try { v = Tr<T>::gets_or(s[i]); } catch (boost::future_uninitialized&) { t = true; }
          if (h < 0) { SA_ASSERT(t, R_NOSTATE); break; } SA_ASSERT(!t && v == (isexc[h] ? 9 : h + 1), R_OR); break; }
        case 12: { int h = hu[i]; if (h < 0 || got[h]) __sa_stop(); u[i].wait(); SA_ASSERT(u[i].is_ready() && u[i].has_exception() == (isexc[h] != 0) && u[i].has_value() == !isexc[h] && u[i].valid() && u[i].get_state() == boost::future_state::ready, R_VALID); break; }
      }
      check();
    }
  }
};
template <class T> static void handles(int e) { __sa_opt("coarse", 1); int base = __sa_live_heap(); { World<T> w; w.run(e); } SA_ASSERT(__sa_live_heap() == base, R_LEAK); }
ENTRY E_int() { handles<int>(0); }
ENTRY E_int_exc() { handles<int>(2); }
ENTRY E_ref() { handles<int&>(1); }
ENTRY E_void() { handles<void>(1); }
#ifdef SA_THOROUGH
ENTRY E_moveonly() { handles<M>(2); }
ENTRY E_ref_values() { handles<int&>(0); }
ENTRY E_void_values() { handles<void>(0); }
#endif
// move-only result read through a unique future: exactly once
ENTRY E_moveonly_once() {
  int base = __sa_live_heap();
  { boost::promise<M> p; boost::BOOST_THREAD_FUTURE<M> f = p.get_future(), g; bool exc = sa_bool(); if (exc) p.set_exception(Err{1}); else p.set_value(M(4));
    if (sa_bool()) { g = boost::move(f); } else g.swap(f);
    SA_ASSERT(!f.valid() && g.valid(), R_VALID);
    bool orr = sa_bool(); int v = -9; bool thrown = false; try { v = orr ? Tr<M>::get_or(g) : g.get().id; } catch (Err&) { thrown = true; }
    SA_ASSERT(thrown == (exc && !orr) && (thrown || v == (exc ? 9 : 4)), R_VALUE);
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
    SA_ASSERT(!g.valid(), R_VALID); bool t = false; try { if (sa_bool()) g.get(); else g.get_or(M(1)); } catch (boost::future_uninitialized&) { t = true; } SA_ASSERT(t, R_NOSTATE);
#endif
  }
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> Task;
#else
typedef boost::packaged_task<int> Task;
#endif
static int five() { return 5; }
// providers: at most one future each, none from a provider that was moved from
template <class P> struct Mk; template <> struct Mk<Task> { static Task make() { return Task(&five); } static const bool lazy = false; };
#ifdef BOOST_THREAD_PROVIDES_PROMISE_LAZY
#define LAZY true
#else
#define LAZY false
#endif
template <class T> struct Mk<boost::promise<T> > { static boost::promise<T> make() { return boost::promise<T>(); } static const bool lazy = LAZY; };
template <class P> static void provider() {
  __sa_opt("coarse", 1);
  { P p(Mk<P>::make()), q; int st[2] = {1, Mk<P>::lazy || !boost::is_same<P, Task>::value ? 1 : 0};   // 0 no state, 1 fresh, 2 handed out
    while (sa_bool()) { __sa_defer(); int i = __sa_choose(2); P& a = i ? q : p; P& b = i ? p : q;
      switch (__sa_choose(4)) {
        case 0: { int r = 0; try { a.get_future(); r = 1; } catch (boost::future_already_retrieved&) { r = 2; } catch (boost::future_error& e) { r = e.code() == boost::system::make_error_code(boost::future_errc::no_state) ? 3 : 4; }
          SA_ASSERT(r == (st[i] == 1 ? 1 : st[i] == 2 ? 2 : 3), R_ONCE); if (r == 1) { st[i] = 2; MUST("handed out"); } break; }
        case 1: a = boost::move(b); st[i] = st[1 - i]; st[1 - i] = Mk<P>::lazy ? 1 : 0; break;
        case 2: a.swap(b); { int k = st[0]; st[0] = st[1]; st[1] = k; } break;
        case 3: { P n(boost::move(a)); a = boost::move(n); break; }
      } }
  }
}
ENTRY E_provider_value() { provider<boost::promise<int> >(); }
ENTRY E_provider_ref() { provider<boost::promise<int&> >(); }
ENTRY E_provider_void() { provider<boost::promise<void> >(); }
ENTRY E_provider_task() { provider<Task>(); }
// operations on a provider that gave its state away are refused, not undefined
#ifndef BOOST_THREAD_PROVIDES_PROMISE_LAZY
template <class T> struct Set { static void go(boost::promise<T>& p, int k) { T v(1); switch (k) { case 0: p.set_value(v); break; case 1: p.set_value(T(1)); break; case 2: p.emplace(1); break; case 3: p.set_value_deferred(v); break; default: p.set_value_at_thread_exit(v); } } };
template <> struct Set<int&> { static void go(boost::promise<int&>& p, int k) { switch (k) { case 0: case 1: case 2: p.set_value(objs[0]); break; case 3: p.set_value_deferred(objs[0]); break; default: p.set_value_at_thread_exit(objs[0]); } } };
template <> struct Set<void> { static void go(boost::promise<void>& p, int k) { switch (k) { case 0: case 1: case 2: p.set_value(); break; case 3: p.set_value_deferred(); break; default: p.set_value_at_thread_exit(); } } };
template <class T> static void cb(boost::promise<T>&) {}
template <class T> static void moved() {
  boost::promise<T> p; boost::promise<T> q(boost::move(p)); bool t = false; int k = __sa_choose(10);
  try { if (k < 5) Set<T>::go(p, k); else if (k == 5) p.set_exception(Err{1}); else if (k == 6) p.set_exception_deferred(Err{1}); else if (k == 7) p.set_exception_at_thread_exit(boost::copy_exception(Err{1})); else if (k == 8) p.notify_deferred(); else p.set_wait_callback(cb<T>); }
  catch (boost::future_error& e) { t = e.code() == boost::system::make_error_code(boost::future_errc::no_state); }
  SA_ASSERT(t, R_NOSTATE); boost::BOOST_THREAD_FUTURE<T> f = q.get_future(); SA_ASSERT(!f.is_ready(), R_VALID); MUST("refused");
}
ENTRY E_moved_value() { moved<int>(); }
ENTRY E_moved_ref() { moved<int&>(); }
ENTRY E_moved_void() { moved<void>(); }
#endif
ENTRY E_task_moved() {
  Task p(&five); Task q; if (sa_bool()) { Task r(boost::move(p)); q = boost::move(r); } else q.swap(p);
  bool t = false; try { switch (__sa_choose(4)) { case 0: p(); break; case 1: p.make_ready_at_thread_exit(); break; case 2: p.get_future(); break; default: p.reset(); } } catch (boost::task_moved&) { t = true; } catch (boost::future_error& e) { t = e.code() == boost::system::make_error_code(boost::future_errc::no_state); }
  SA_ASSERT(t && !p.valid() && q.valid(), R_NOSTATE); MUST("refused");
}
// the stand-alone makers give ready futures
ENTRY E_makers() {
  switch (__sa_choose(6)) {
    case 0: { boost::BOOST_THREAD_FUTURE<int> f = boost::make_ready_future(5); SA_ASSERT(f.valid() && f.is_ready() && f.get() == 5, R_VALUE); break; }
    case 1: { boost::BOOST_THREAD_FUTURE<void> f = boost::make_ready_future(); SA_ASSERT(f.valid() && f.has_value(), R_VALUE); f.get(); break; }
    case 2: { boost::shared_future<int> f = boost::make_shared_future(5); SA_ASSERT(f.valid() && f.is_ready() && f.get() == 5, R_VALUE); break; }
    case 3: { boost::shared_future<void> f = boost::make_shared_future(); SA_ASSERT(f.valid() && f.has_value() && !f.has_exception(), R_VALUE); f.get(); break; }
    case 4: { boost::BOOST_THREAD_FUTURE<int> f = boost::make_exceptional_future<int>(Err{3}); SA_ASSERT(f.has_exception(), R_VALUE); try { f.get(); SA_ASSERT(false, R_VALUE); } catch (Err& e) { SA_ASSERT(e.id == 3, R_VALUE); } break; }
    default: { int x; boost::BOOST_THREAD_FUTURE<int&> f = boost::make_ready_future(boost::ref(x)); SA_ASSERT(&f.get() == &x, R_VALUE); }
  }
  MUST("made");
}
