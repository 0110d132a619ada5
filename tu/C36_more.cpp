// C36: order of lock acquisitions of the operations that involve several objects
// @variants: -DBOOST_THREAD_VERSION=4
// @link: thread once future
// @tlim: 250
#define SA_LOCKORDER
#include "clk.h"
#include "lockset.h"
#include <vector>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/thread_guard.hpp>
#include <boost/thread/detail/thread_group.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/shared_mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/tss.hpp>
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { (void)boost::detail::get_or_make_current_thread_data(); }
struct Err { };
template <class X> static void tryit(X x) { try { x(); } catch (boost::future_error&) {} catch (Err&) {} catch (boost::thread_interrupted&) {} }
typedef boost::future<int> F; typedef boost::shared_future<int> SF; typedef boost::promise<int> P;
// waiting for several futures, in either order
static P* p[2]; static SF* f[2]; static int nset[2];
static void op_any(int k) {
  warm(); SF a(*f[0]), b(*f[1]);
  switch (k) {
    case 0: tryit([&] { (void)boost::wait_for_any(a, b); }); break; case 1: tryit([&] { (void)boost::wait_for_any(b, a); }); break; case 2: { SF r[2] = {b, a}; tryit([&] { (void)boost::wait_for_any(r, r + 2); }); } break;
    case 3: tryit([&] { (void)boost::wait_for_any(a, b, a); }); break; case 4: tryit([&] { boost::wait_for_all(b, a); }); break; case 5: case 6: if (nset[k - 5]) __sa_stop(); nset[k - 5] = 1; if (sa_bool()) p[k - 5]->set_value(1); else p[k - 5]->set_exception(boost::copy_exception(Err())); break;
    default: (void)a.is_ready(); } }
ENTRY E_wait_any() { warm(); for (int i = 0; i < 2; i++) { nset[i] = 0; p[i] = new P; f[i] = new SF(p[i]->get_future().share()); } ls_run(8, op_any); }
static int nwhen; static void op_when(int k) {
  warm(); SF a(*f[0]), b(*f[1]);
  switch (k) {
    case 0: case 1: if (nset[k]) __sa_stop(); nset[k] = 1; p[k]->set_value(1); break;
    case 2: if (nwhen) __sa_stop(); nwhen = 1; (void)boost::when_any(a, b).valid(); break; case 3: if (nwhen) __sa_stop(); nwhen = 1; (void)boost::when_all(b, a).valid(); break;
    default: (void)a.is_ready(); } }
ENTRY E_when() { warm(); nwhen = 0; for (int i = 0; i < 2; i++) { nset[i] = 0; p[i] = new P; f[i] = new SF(p[i]->get_future().share()); } ls_run(5, op_when); }
// two values or mutexes, in either order
typedef boost::synchronized_value<int> V; static V* v; static V* w; static boost::mutex* m; static boost::mutex* n;
static void op_two(int k) {
  switch (k) {
    case 0: v->swap(*w); break; case 1: w->swap(*v); break; case 2: *v = *w; break; case 3: *w = *v; break; case 4: (void)(*v == *w); break; case 5: (void)(*w < *v); break; case 6: (void)boost::synchronize(*v, *w); break; case 7: (void)boost::synchronize(*w, *v); break;
    case 8: boost::lock(*m, *n); m->unlock(); n->unlock(); break; case 9: boost::lock(*n, *m); m->unlock(); n->unlock(); break; case 10: if (boost::try_lock(*m, *n) == -1) { m->unlock(); n->unlock(); } break;
    default: { boost::unique_lock<boost::mutex> l[2] = {boost::unique_lock<boost::mutex>(k & 1 ? *m : *n, boost::defer_lock), boost::unique_lock<boost::mutex>(k & 1 ? *n : *m, boost::defer_lock)}; boost::lock(l, l + 2); } } }
ENTRY E_two_values() { V a(1), b(2); v = &a; w = &b; boost::mutex x, y; m = &x; n = &y; ls_run(13, op_two); }
// thread groups
static boost::thread_group* g; static int made; static void in_group() { MUST("in the group"); sa_idle(); }
static void op_group(int k) {
  warm(); switch (k) { case 0: if (made) __sa_stop(); made = 1; (void)g->create_thread(&in_group); break; case 1: tryit([] { g->join_all(); }); break; case 2: g->interrupt_all(); break; case 3: (void)g->size(); break; case 4: (void)g->is_this_thread_in(); break;
    case 5: if (made) __sa_stop(); made = 1; g->add_thread(new boost::thread(&in_group)); break; default: (void)g->is_thread_in(0); } }
static void d_group(void* a) { if (!(long)a) { warm(); g = new boost::thread_group; } else if (!g) __sa_stop(); ls_thread(a); }
ENTRY E_group() { g = 0; made = 0; clk_on(1); sa_frozen = 1; ls_k = 7; ls_op = op_group; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; sa_run(2, d_group); }
// what happens at the end of a thread
static boost::mutex* xm; static boost::condition_variable* xc; static boost::thread_specific_ptr<int>* ts; static P* xp; static SF* xf; static boost::packaged_task<int()>* xt; static boost::thread* xh; static int ended;
static void atx() { MUST("at-exit function"); ended = 1; } static int job() { return 3; }
static void cleanup(int* q) { delete q; MUST("cleanup"); }
static void leaving() {
  MUST("inside"); if (sa_bool()) boost::this_thread::at_thread_exit(&atx); if (sa_bool()) ts->reset(new int(1));
  switch (__sa_choose(4)) { case 0: xp->set_value_at_thread_exit(1); break; case 1: xp->set_exception_at_thread_exit(boost::copy_exception(Err())); break; case 2: xt->make_ready_at_thread_exit(); break; default: break; }
  if (sa_bool()) { boost::unique_lock<boost::mutex> l(*xm); boost::notify_all_at_thread_exit(*xc, boost::move(l)); }
}
static void op_exit(int k) {
  warm(); SF a(*xf), b(*f[0]);
  switch (k) { case 0: tryit([&] { a.wait(); }); break; case 1: tryit([&] { (void)b.get(); }); break; case 2: tryit([&] { (void)boost::wait_for_any(a, b); }); break; case 3: tryit([&] { boost::wait_for_any(b, a); }); break;
    case 4: { boost::unique_lock<boost::mutex> l(*xm); if (!ended) xc->wait(l); } break; case 5: xh->interrupt(); break; case 6: if (xh->joinable()) xh->join(); break; case 7: { boost::unique_lock<boost::mutex> l(*xm); if (!ended) xc->wait_for(l, sec(1)); } break;
    default: if (nwhen) __sa_stop(); nwhen = 1; (void)a.then(boost::launch::sync, [](SF z) { (void)z.is_ready(); MUST("continuation"); return 1; }).valid(); } }
static void d_exit(void*) {
  warm(); boost::mutex a; boost::condition_variable c; xm = &a; xc = &c; boost::thread_specific_ptr<int> t(&cleanup); ts = &t; xp = new P; xf = new SF(xp->get_future().share()); xt = new boost::packaged_task<int()>(&job); f[0] = new SF(xt->get_future().share());
  boost::thread h(&leaving); xh = &h; while (sa_bool()) { op_exit(__sa_choose(9)); SA_ASSERT(ls_held() == 0, R_RELEASED); sa_idle(); } MUST("done"); __sa_stop(); }
ENTRY E_exit() { nwhen = ended = 0; clk_on(1); sa_frozen = 1; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; sa_run(1, d_exit); }
