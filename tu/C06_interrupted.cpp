// C06: a waiter that ends by an interruption does not use up a notification that another waiter needs
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#include "clk.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/condition_variable.hpp>
typedef boost::mutex M; typedef boost::unique_lock<M> L;
template <class C> struct Cv { static C* c; static int form; }; template <class C> C* Cv<C>::c; template <class C> int Cv<C>::form;
static M* m; static int avail, got, gone;
static bool there() { return avail > 0; }
template <class C> static void take(int form) {
  C& c = *Cv<C>::c;
  try { L l(*m);
    switch (form) { case 0: while (!avail) c.wait(l); break; case 1: c.wait(l, &there); break; case 2: if (!c.wait_for(l, sec(9), &there)) return; break; default: while (!avail) if (c.wait_until(l, at(9)) == boost::cv_status::timeout) break; if (!avail) return; }
    avail = avail - 1; got = got + 1; MUST("served");
  } catch (boost::thread_interrupted&) { gone = gone + 1; MUST("interrupted"); }
}
template <class C> static void first() { take<C>(Cv<C>::form); }
template <class C> static void second() { take<C>(0); }
template <class C> static void drive(void*) {
  M mm; C cc; m = &mm; Cv<C>::c = &cc; avail = got = gone = 0;
  boost::thread a(&first<C>), b(&second<C>);
  if (sa_bool()) { { L l(mm); avail = 1; cc.notify_one(); } a.interrupt(); } else { a.interrupt(); { L l(mm); avail = 1; } cc.notify_one(); }
  a.join(); MUST("first ended"); b.join(); MUST("both ended");
}
template <class C> static void go(int form) { Cv<C>::form = form; clk_on(1); sa_frozen = 1; sa_spurious_left = 0; sa_timeouts = 0; sa_run(1, drive<C>); }
ENTRY E_cv_wait() { go<boost::condition_variable>(0); }
ENTRY E_cv_pred() { go<boost::condition_variable>(1); }
ENTRY E_cv_for() { go<boost::condition_variable>(2); }
ENTRY E_cv_until() { go<boost::condition_variable>(3); }
ENTRY E_any_wait() { go<boost::condition_variable_any>(0); }
ENTRY E_any_pred() { go<boost::condition_variable_any>(1); }
ENTRY E_any_for() { go<boost::condition_variable_any>(2); }
ENTRY E_any_until() { go<boost::condition_variable_any>(3); }
