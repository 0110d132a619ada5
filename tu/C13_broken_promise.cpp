// C13: abandoned promises and tasks break their futures, satisfied or moved-from ones do not
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <new>
#define R_BROKEN "a future whose provider was abandoned unsatisfied is ready with broken_promise"
#define R_KEEP "a provider that was satisfied or gave its state away breaks nothing"
#define R_VALUE "a satisfied future delivers its value"
#define R_LEAK "nothing remains allocated once providers and futures are gone"
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> Task;
#else
typedef boost::packaged_task<int> Task;
#endif
static int obj; static int five() { return 5; }
template <class P> struct Tr;
template <> struct Tr<boost::promise<int> > { typedef int T; static const bool lazy = true; static void make(void* m) { ::new (m) boost::promise<int>(); } static void sat(boost::promise<int>& p) { p.set_value(5); } static void pend(boost::promise<int>& p) { p.set_value_deferred(5); } static int get(boost::BOOST_THREAD_FUTURE<int>& f) { return f.get(); } };
template <> struct Tr<boost::promise<int&> > { typedef int& T; static const bool lazy = true; static void make(void* m) { ::new (m) boost::promise<int&>(); } static void sat(boost::promise<int&>& p) { p.set_value(obj); } static void pend(boost::promise<int&>& p) { p.set_value_deferred(obj); } static int get(boost::BOOST_THREAD_FUTURE<int&>& f) { return &f.get() == &obj ? 5 : 0; } };
template <> struct Tr<boost::promise<void> > { typedef void T; static const bool lazy = true; static void make(void* m) { ::new (m) boost::promise<void>(); } static void sat(boost::promise<void>& p) { p.set_value(); } static void pend(boost::promise<void>& p) { p.set_value_deferred(); } static int get(boost::BOOST_THREAD_FUTURE<void>& f) { f.get(); return 5; } };
template <> struct Tr<Task> { typedef int T; static const bool lazy = false; static void make(void* m) { if (sa_bool()) ::new (m) Task(&five); else ::new (m) Task([] { return 5; }); } static void sat(Task& p) { p(); } static void pend(Task& p) { __sa_stop(); } static int get(boost::BOOST_THREAD_FUTURE<int>& f) { return f.get(); } };
// st: 0 no provider yet, 1 unsatisfied, 2 satisfied, 3 broken, 4 stored but not yet published
template <class P> struct World {
  typedef typename Tr<P>::T T; typedef boost::BOOST_THREAD_FUTURE<T> F;
  union Slot { char c[sizeof(P)]; long long al; } mem[2]; int alive[2], holds[2]; int st[2]; int ob[2]; F f[2];
  P& p(int i) { return *(P*)mem[i].c; }
  void drop(int s) { if (s >= 0 && st[s] == 1) st[s] = 3; }
  void check() { for (int s = 0; s < 2; s++) if (st[s] && ob[s]) {
      if (st[s] == 3) { SA_ASSERT(f[s].is_ready() && f[s].has_exception(), R_BROKEN); }
      else { SA_ASSERT(f[s].is_ready() == (st[s] == 2) && !f[s].has_exception(), R_KEEP); } } }
  void run() {
    for (int i = 0; i < 2; i++) { Tr<P>::make(mem[i].c); alive[i] = 1; holds[i] = i; st[i] = 1; ob[i] = i || sa_bool(); if (ob[i]) f[i] = p(i).get_future(); }
    while (sa_bool()) {
      __sa_defer();
      int i = __sa_choose(2), j = 1 - i;
      switch (__sa_choose(8)) {
        case 0: if (!alive[i] || holds[i] < 0 || st[holds[i]] != 1) __sa_stop(); Tr<P>::sat(p(i)); st[holds[i]] = 2; break;
        case 1: if (!alive[i] || holds[i] < 0 || st[holds[i]] != 1) __sa_stop(); Tr<P>::pend(p(i)); st[holds[i]] = 4; break;
        case 2: if (!alive[i]) __sa_stop(); { int s = holds[i]; p(i).~P(); alive[i] = 0; holds[i] = -1; drop(s); MUST("destroyed"); } break;
        case 3: if (!alive[0] || !alive[1]) __sa_stop(); { int s = holds[i]; p(i) = boost::move(p(j)); holds[i] = holds[j]; holds[j] = -1; drop(s); MUST("move assigned"); } break;
        case 4: if (alive[i] || !alive[j]) __sa_stop(); ::new (mem[i].c) P(boost::move(p(j))); alive[i] = 1; holds[i] = holds[j]; holds[j] = -1; MUST("move constructed"); break;
        case 5: if (!alive[0] || !alive[1] || i) __sa_stop(); { if (sa_bool()) p(0).swap(p(1)); else boost::swap(p(0), p(1)); int s = holds[0]; holds[0] = holds[1]; holds[1] = s; } break;
        case 7: if (!alive[i] || holds[i] || ob[0]) __sa_stop(); ob[0] = 1; f[0] = p(i).get_future(); MUST("future asked for later"); break;
        case 6: if (!alive[i]) __sa_stop(); { int s = holds[i]; P n; if (sa_bool()) n = boost::move(p(i)); else { P m(boost::move(p(i))); n = boost::move(m); } check(); holds[i] = -1; drop(s); } break;
      }
      check();
    }
    for (int i = 0; i < 2; i++) if (alive[i]) { p(i).~P(); drop(holds[i]); }
    check();
    for (int s = 0; s < 2; s++) if (ob[s] && (st[s] == 2 || st[s] == 3)) {
      try { int v = Tr<P>::get(f[s]); SA_ASSERT(st[s] == 2 && v == 5, R_VALUE); MUST("value"); } catch (boost::broken_promise&) { SA_ASSERT(st[s] == 3, R_KEEP); MUST("broken"); } }
  }
};
template <class P> static void seq() { __sa_opt("coarse", 1); int base = __sa_live_heap(); { World<P> w; w.run(); } SA_ASSERT(__sa_live_heap() == base, R_LEAK); }
// a provider nobody asked for a future, or whose future is gone, can be destroyed in any state
template <class P> static void noask() {
  int base = __sa_live_heap();
  { P q; union { char c[sizeof(P)]; long long al; } m; Tr<P>::make(m.c); P& p = *(P*)m.c;
    if (sa_bool()) { if (sa_bool()) p.get_future(); else { boost::shared_future<typename Tr<P>::T> f(p.get_future()); } }
    if (sa_bool()) Tr<P>::sat(p);
    if (sa_bool()) q = boost::move(p);
    p.~P(); MUST("destroyed"); }
  SA_ASSERT(__sa_live_heap() == base, R_LEAK);
}
// a thread blocked on the future is woken by the abandonment, whichever form it takes
static void* pp; static void* ff; static int form;
template <class P> static void thread_fn(void* q) {
  int i = (int)(long)q; typedef typename Tr<P>::T T;
  if (i == 0) { sa_idle(); P* p = (P*)pp; if (form == 0) delete p; else if (form == 1) { P o; *p = boost::move(o); } else { P o(boost::move(*p)); } MUST("abandoned"); }
  else { boost::BOOST_THREAD_FUTURE<T>& f = *(boost::BOOST_THREAD_FUTURE<T>*)ff; if (i == 2) { f.wait(); SA_ASSERT(f.is_ready(), R_BROKEN); return; }
    try { Tr<P>::get(f); SA_ASSERT(false, R_BROKEN); } catch (boost::broken_promise&) { MUST("broken"); } }
}
template <class P> static void conc(int n, int fo) {
  form = fo; void* m = ::operator new(sizeof(P)); Tr<P>::make(m); pp = m; boost::BOOST_THREAD_FUTURE<typename Tr<P>::T> f(((P*)m)->get_future()); ff = &f; sa_preempt_after = 1; sa_run(n, thread_fn<P>);
}
typedef boost::promise<int> PI; typedef boost::promise<int&> PR; typedef boost::promise<void> PV;
ENTRY E_seq_value() { seq<PI>(); }
ENTRY E_seq_ref() { seq<PR>(); }
ENTRY E_seq_void() { seq<PV>(); }
ENTRY E_seq_task() { seq<Task>(); }
ENTRY E_noask_value() { noask<PI>(); }
ENTRY E_noask_ref() { noask<PR>(); }
ENTRY E_noask_void() { noask<PV>(); }
ENTRY E_noask_task() { noask<Task>(); }
#define CONC(P, n) ENTRY E_wake_##n() { conc<P>(2, __sa_choose(3)); }
CONC(PI, value)
CONC(PR, ref)
CONC(PV, void)
CONC(Task, task)
ENTRY E_wake_two() { conc<PI>(3, 0); }
