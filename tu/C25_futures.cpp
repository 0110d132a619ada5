// C25: lock-set discipline of the shared states of futures; callbacks run without the state's lock
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @link: thread once future
// @tlim: 250
#include "clk.h"
#include "lockset.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/future.hpp>
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { (void)boost::detail::get_or_make_current_thread_data(); }
typedef boost::BOOST_THREAD_FUTURE<int> F; typedef boost::shared_future<int> SF; typedef boost::promise<int> P;
static P* p; static SF* sf[2]; static int nset, nthen, thrown;
struct Err { };
template <class X> static void tryit(X x) { try { x(); } catch (boost::future_error&) {} catch (Err&) {} catch (boost::thread_interrupted&) {} }
static void watch(const void* st, const char* label) { ls_watch(st, sizeof(boost::detail::shared_state<int>), label); }
static int cont(SF f) { ls_user(); (void)f.is_ready(); MUST("continuation"); return 1; }
// operations on a shared future by either thread
static void op_sf(int k) {
  warm(); SF& f = *sf[sa_me() & 1];
  switch (k) {
    case 0: tryit([&] { (void)f.get(); }); break;
    case 1: tryit([&] { f.wait(); }); break;
    case 2: (void)f.wait_for(sec(1)); break;
    case 3: (void)f.wait_until(at(1)); break;
    case 4: (void)f.is_ready(); break;
    case 5: (void)f.has_value(); break;
    case 6: (void)f.has_exception(); break;
    case 7: (void)f.get_state(); break;
    case 8: (void)f.valid(); break;
    case 9: (void)f.get_exception_ptr(); break;
    case 10: { SF g(f); (void)g.is_ready(); } break;
    case 11: tryit([&] { SF& g = f; SF o(f); boost::wait_for_any(g, o); }); break;
    case 12: tryit([&] { (void)f.get_or(3); }); break;
    case 13: tryit([&] { boost::wait_for_all(f, f); }); break;
#if BOOST_THREAD_VERSION >= 4
    case 14: if (nthen) __sa_stop(); nthen = 1; tryit([&] { (void)f.then(boost::launch::sync, &cont).valid(); }); break;
#endif
  }
}
static void op_p(int k) {
  if (k < 15) { op_sf(k); return; } warm(); if (nset) __sa_stop();
  switch (k) {
    case 15: nset = 1; tryit([] { p->set_value(7); }); break;
    case 16: nset = 1; tryit([] { p->set_exception(boost::copy_exception(Err())); }); break;
    case 17: nset = 1; delete p; p = 0; break;
#if BOOST_THREAD_VERSION >= 4
    case 18: nset = 1; tryit([] { p->set_value_at_thread_exit(7); }); break;
    default: nset = 1; tryit([] { p->set_exception_at_thread_exit(boost::copy_exception(Err())); }); break;
#endif
  }
}
static void setup() { nset = nthen = 0; clk_on(1); sa_frozen = 1; p = new P; F f(p->get_future()); SF* a = new SF(f.share()); sf[0] = a; sf[1] = new SF(*a); watch(a->future_.get(), "shared state"); }
ENTRY E_promise() { warm(); setup(); ls_run(20, op_p); }
// tasks: one thread runs the task, both observe
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> T;
#else
typedef boost::packaged_task<int> T;
#endif
static T* t; static int fthrow;
static int fn() { ls_user(); MUST("called"); if (sa_bool()) throw Err(); if (sa_bool()) sa_idle(); return 4; }
static void op_t(int k) {
  if (k < 15) { op_sf(k); return; } warm(); if (nset) __sa_stop();
  switch (k) {
    case 15: nset = 1; tryit([] { (*t)(); }); break;
#if BOOST_THREAD_VERSION >= 4
    case 16: nset = 1; tryit([] { t->make_ready_at_thread_exit(); }); break;
#endif
    default: nset = 1; delete t; t = 0; break;
  }
}
static void share(F f, const char* label) { nset = nthen = 0; clk_on(1); sa_frozen = 1; SF* a = new SF(f.share()); sf[0] = a; sf[1] = new SF(*a); watch(a->future_.get(), label); }
ENTRY E_task() { warm(); t = new T(&fn); share(t->get_future(), "task state"); ls_run(18, op_t); }
// a callback registered for waiting is run by one waiter
static void cb(P& x) { ls_user(); MUST("wait callback"); if (!nset) { nset = 1; x.set_value(3); } }
ENTRY E_callback() { warm(); nset = nthen = 0; clk_on(1); sa_frozen = 1; p = new P; p->set_wait_callback(&cb); F f(p->get_future()); SF* a = new SF(f.share()); sf[0] = a; sf[1] = new SF(*a); watch(a->future_.get(), "shared state"); ls_run(18, op_p); }
#if BOOST_THREAD_VERSION >= 4
ENTRY E_deferred() { warm(); share(boost::async(boost::launch::deferred, &fn), "deferred state"); ls_run(15, op_sf); }
static void go_async(void*) { }
static void d_async(void* a) { if (!(long)a) { warm(); share(boost::async(boost::launch::async, &fn), "async state"); } else if (!sf[0]) __sa_stop(); ls_thread(a); }
ENTRY E_async() { sf[0] = 0; ls_k = 15; ls_op = op_sf; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; nset = nthen = 0; sa_run(2, d_async); }
static F* par; static void op_cont(int k) { if (k < 15) op_sf(k); else { warm(); if (nset) __sa_stop(); nset = 1; if (k == 15) tryit([] { p->set_value(7); }); else tryit([] { p->set_exception(boost::copy_exception(Err())); }); } }
static int c2(F f) { ls_user(); MUST("continuation"); return f.get() + 1; }
ENTRY E_continuation() { warm(); p = new P; F f(p->get_future()); int w = __sa_choose(2); share(f.then(w ? boost::launch::sync : boost::launch::deferred, &c2), "continuation state"); ls_run(17, op_cont); }
static boost::future<F>* outer; static boost::promise<F>* po;
static void op_unwrap(int k) { if (k < 15) op_sf(k); else { warm(); if (k == 15) { if (nset) __sa_stop(); nset = 1; tryit([] { p->set_value(7); }); } else { if (!po) __sa_stop(); boost::promise<F>* q = po; po = 0; tryit([&] { q->set_value(p->get_future()); }); } } }
ENTRY E_unwrap() { warm(); p = new P; po = new boost::promise<F>; boost::future<F> f(po->get_future()); share(F(boost::move(f)), "unwrapping state"); ls_run(17, op_unwrap); }
#endif
