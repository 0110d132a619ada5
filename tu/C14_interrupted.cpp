// C14: a retrieval that is interrupted while it waits retrieves nothing: the handle keeps its state
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/future.hpp>
#define R_VALID "a handle is valid exactly while it owns a shared state whose result was not retrieved"
#define R_VALUE "get delivers the result of the state the handle owns"
struct M { int id; explicit M(int i = 0) : id(i) {} M(M&& o) : id(o.id) { o.id = -1; } M& operator=(M&& o) { id = o.id; o.id = -1; return *this; } M(const M&) = delete; };
static int obj;
typedef boost::BOOST_THREAD_FUTURE<int> FI;
template <class T> struct Tr;
template <> struct Tr<int> { static void set(boost::promise<int>& p) { p.set_value(3); } template <class F> static bool get(F& f) { return f.get() == 3; } template <class F> static bool get_or(F& f) { return f.get_or(9) == 3; } };
template <> struct Tr<M> { static void set(boost::promise<M>& p) { p.set_value(M(3)); } template <class F> static bool get(F& f) { return f.get().id == 3; } template <class F> static bool get_or(F& f) { return f.get_or(M(9)).id == 3; } };
template <> struct Tr<int&> { static void set(boost::promise<int&>& p) { p.set_value(obj); } template <class F> static bool get(F& f) { return &f.get() == &obj; } template <class F> static bool get_or(F& f) { return get(f); } };
template <> struct Tr<void> { static void set(boost::promise<void>& p) { p.set_value(); } template <class F> static bool get(F& f) { f.get(); return true; } template <class F> static bool get_or(F& f) { return get(f); } };
template <class F> static bool is_shared(F&) { return false; } template <class T> static bool is_shared(boost::shared_future<T>&) { return true; }
template <class T, class F> static void retrieve(F& f, int how) {
  bool ok = false, cut = false;
  try { if (how == 1) ok = Tr<T>::get_or(f); else ok = Tr<T>::get(f); } catch (boost::thread_interrupted&) { cut = true; }
  if (cut) {
    MUST("interrupted"); SA_ASSERT(f.valid(), R_VALID);
    if (sa_bool()) f.wait();
    ok = Tr<T>::get(f); MUST("retrieved after all"); }
  SA_ASSERT(ok, R_VALUE);
#ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
  SA_ASSERT(f.valid() == is_shared(f), R_VALID);
#else
  SA_ASSERT(f.valid(), R_VALID);
#endif
}
template <class T, class F> struct W { static F* f; static int how; static void run() { retrieve<T>(*f, how); } static boost::promise<T>* p; static void setter(void* a); }; template <class T, class F> F* W<T, F>::f; template <class T, class F> int W<T, F>::how; template <class T, class F> boost::promise<T>* W<T, F>::p;
template <class T, class F> void W<T, F>::setter(void*) {
  boost::promise<T> pr; F fu(pr.get_future()); f = &fu; boost::thread t(&W::run); t.interrupt(); sa_idle(); Tr<T>::set(pr); t.join(); MUST("done"); __sa_stop(); }
template <class T, class F> static void go(int how) { W<T, F>::how = how; sa_spurious_left = 0; sa_run(1, W<T, F>::setter); }
#define E(n, T) ENTRY E_get_##n() { go<T, boost::BOOST_THREAD_FUTURE<T> >(0); } ENTRY E_or_##n() { go<T, boost::BOOST_THREAD_FUTURE<T> >(1); } ENTRY E_shared_##n() { go<T, boost::shared_future<T> >(0); }
E(int, int) E(ref, int&) E(void, void)
ENTRY E_get_moveonly() { go<M, boost::BOOST_THREAD_FUTURE<M> >(0); } ENTRY E_or_moveonly() { go<M, boost::BOOST_THREAD_FUTURE<M> >(1); }
#ifdef BOOST_THREAD_PROVIDES_FUTURE_UNWRAP
static boost::future<FI>* of;
static void nested() {
  bool cut = false; FI r;
  try { r = of->get(); } catch (boost::thread_interrupted&) { cut = true; }
  if (cut) { MUST("interrupted"); SA_ASSERT(of->valid(), R_VALID); r = of->get(); }
  MUST("inner future"); SA_ASSERT(!of->valid() && r.get() == 3, R_VALUE);
}
static void outer(void*) { boost::promise<FI> pr; boost::future<FI> fu(pr.get_future()); of = &fu; boost::thread t(&nested); t.interrupt(); sa_idle(); boost::promise<int> q; q.set_value(3); pr.set_value(q.get_future()); t.join(); MUST("done"); __sa_stop(); }
ENTRY E_get_nested() { sa_spurious_left = 0; sa_run(1, outer); }
#endif
