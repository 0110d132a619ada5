// C26: an allocation fails (every allocation the operation makes, one at a time)
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @flags: -fno-access-control
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/lock_types.hpp>
#include <boost/thread/sync_queue.hpp>
#include <boost/thread/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#if BOOST_THREAD_VERSION >= 5
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#endif
#define R_REPORT "an operation one of whose allocations fails throws bad_alloc, and one whose allocations succeed does not"
#define R_LEAK "an operation that fails for lack of memory leaks nothing"
#define R_LOCKS "an operation that fails for lack of memory holds no lock"
#define R_STATE "an operation that fails for lack of memory leaves its objects as they were"
#define R_RETRY "the operation succeeds when it is tried again"
#define R_RUN "user code handed to an operation that failed does not run, and to one that succeeded runs once"
static int ran, live; struct Fn { int k; Fn(int i = 1) : k(i) { live = live + 1; } Fn(const Fn& o) : k(o.k) { live = live + 1; } ~Fn() { live = live - 1; } void operator()() { ran = ran + 1; } };
static int heap() { return __sa_live_heap(); }
// runs f with one allocation failing (or none): 1 = it failed and reported that
template <class F> static int oom(F f) {
  int h = sa_locks_held, l = live; __sa_opt("oom_tid", __sa_tid()); __sa_opt("oom", 1); int r = 0; try { f(); } catch (std::bad_alloc&) { r = 1; } bool inj = __sa_getopt("oom") == 0; __sa_opt("oom", 0);
  SA_ASSERT(r == inj, R_REPORT); SA_ASSERT(sa_locks_held == h, R_LOCKS); if (r) SA_ASSERT(live == l, R_LEAK); if (r) MUST("failed"); else MUST("succeeded"); return r;
}
static void yield_() { int i = sa_me(); sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
static void settle() { for (int i = 0; i < sa_nspawn; i++) while (sa_spawn_state[i] != 2) yield_(); }
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { boost::detail::get_or_make_current_thread_data(); }
#define DRIVE(name) static void d_##name(); static void dd_##name(void*) { d_##name(); } ENTRY E_##name() { ran = live = 0; sa_run(1, dd_##name); } static void d_##name()
// --- threads
DRIVE(thread) {
  warm(); int h = heap(); { boost::thread t; Fn f; int r = oom([&] { boost::thread x(f); t.swap(x); });
    if (r) { SA_ASSERT(!t.joinable() && !sa_nspawn && !ran, R_STATE); SA_ASSERT(heap() == h, R_LEAK); boost::thread x(f); t.swap(x); }
    SA_ASSERT(t.joinable(), R_RETRY); t.join(); SA_ASSERT(ran == 1, R_RUN); }
  settle(); SA_ASSERT(heap() == h && !live, R_LEAK);
}
DRIVE(at_thread_exit) { bool w = sa_bool(); int h0 = heap(); if (w) warm(); int h = heap(); { Fn f; int r = oom([&] { boost::this_thread::at_thread_exit(f); }); SA_ASSERT(!ran, R_RUN);
    if (r) { if (w) SA_ASSERT(heap() == h, R_LEAK); boost::this_thread::at_thread_exit(f); } }
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(ran == 1, R_RUN); SA_ASSERT(heap() == h0 && !live, R_LEAK); }
static int cleaned[3]; static int slots[3]; static void clean(int* p) { cleaned[p - slots] = cleaned[p - slots] + 1; }
DRIVE(tss) { bool w = sa_bool(); int h0 = heap(); if (w) warm(); { boost::thread_specific_ptr<int> t(&clean); bool had = sa_bool(); cleaned[0] = cleaned[1] = 0; if (had) t.reset(&slots[0]); int h = heap();
    int r = oom([&] { t.reset(&slots[1]); });
    if (r) { SA_ASSERT(t.get() == (had ? &slots[0] : 0) && !cleaned[0] && !cleaned[1], R_STATE); if (w) SA_ASSERT(heap() == h, R_LEAK); t.reset(&slots[1]); }
    SA_ASSERT(t.get() == &slots[1] && cleaned[0] == had && !cleaned[1], R_RETRY); t.reset(); SA_ASSERT(cleaned[1] == 1, R_RUN); }
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(heap() == h0, R_LEAK); }
static boost::mutex* nm; static boost::condition_variable* nc; static void notifier() {
  for (int i = 0; i < 1; i++) { boost::unique_lock<boost::mutex> l(*nm); int r = 0; __sa_opt("oom_tid", __sa_tid()); __sa_opt("oom", 1); try { boost::notify_all_at_thread_exit(*nc, boost::move(l)); } catch (std::bad_alloc&) { r = 1; } SA_ASSERT(r == !__sa_getopt("oom"), R_REPORT); __sa_opt("oom", 0); if (r) MUST("failed"); else MUST("succeeded");
    if (r) { SA_ASSERT(sa_free(&nm->m), R_LOCKS); boost::unique_lock<boost::mutex> l2(*nm); boost::notify_all_at_thread_exit(*nc, boost::move(l2)); } SA_ASSERT(!sa_free(&nm->m), R_RETRY); } }
DRIVE(notify_at_exit) { warm(); int h = heap(); { boost::mutex m; boost::condition_variable c; nm = &m; nc = &c; boost::thread t(&notifier); t.join(); SA_ASSERT(sa_free(&m.m), R_RETRY); } settle(); SA_ASSERT(heap() == h, R_LEAK); }
// --- queues
template <class Q> static unsigned long qsize(Q& q) { return q.size(); }
template <class Q, class P, class G> static void queue_(P push, G pull) {
  warm(); int h = heap(); { Q q; if (sa_bool()) push(q, 1); unsigned long n = q.size(); int h1 = heap(); int r = oom([&] { push(q, 2); });
    SA_ASSERT(q.size() == n + !r, R_STATE); if (r) { SA_ASSERT(heap() == h1, R_LEAK); push(q, 2); } SA_ASSERT(q.size() == n + 1, R_RETRY);
    int a = pull(q), b = n ? pull(q) : 0; SA_ASSERT(n ? a + b == 3 : a == 2, R_STATE); SA_ASSERT(q.empty(), R_STATE); q.close(); }
  SA_ASSERT(heap() == h, R_LEAK);
}
typedef boost::sync_queue<int> SQ; typedef boost::sync_deque<int> SD; typedef boost::sync_priority_queue<int> SP; typedef boost::sync_timed_queue<int> ST;
DRIVE(sync_queue) { queue_<SQ>([](SQ& q, int v) { if (sa_bool()) q.push(v); else q.try_push(v); }, [](SQ& q) { int v = 0; q.pull(v); return v; }); }
DRIVE(sync_deque) { queue_<SD>([](SD& q, int v) { if (sa_bool()) q.push_back(v); else q.try_push_back(v); }, [](SD& q) { int v = 0; q.pull_front(v); return v; }); }
DRIVE(priority_queue) { queue_<SP>([](SP& q, int v) { if (sa_bool()) q.push(v); else q.try_push(v); }, [](SP& q) { int v = 0; q.pull(v); return v; }); }
DRIVE(bounded_ctor) { int h = heap(); int r = oom([&] { boost::sync_bounded_queue<int> q(2); }); SA_ASSERT(heap() == h, R_LEAK); (void)r; }
// --- futures
static int one() { ran = ran + 1; return 7; }
DRIVE(promise) {
  warm(); int h = heap(); { boost::promise<int> p; boost::BOOST_THREAD_FUTURE<int> f; int h1 = heap(); int r = oom([&] { f = p.get_future(); }); if (r) { SA_ASSERT(heap() == h1 && !f.valid(), R_LEAK); f = p.get_future(); }
    SA_ASSERT(f.valid() && !f.is_ready(), R_RETRY); int h2 = heap(); r = oom([&] { p.set_value(7); }); if (r) { SA_ASSERT(heap() == h2 && !f.is_ready(), R_STATE); p.set_value(7); } SA_ASSERT(f.get() == 7, R_RETRY); }
  SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(promise_ctor) { warm(); int h = heap(); alignas(8) char b1[64], b2[64]; typedef boost::promise<int> P; P* p = 0; static_assert(sizeof(P) <= 64, ""); oom([&] { p = new (b1) P; }); if (p) { boost::BOOST_THREAD_FUTURE<int> f = p->get_future(); p->~P(); } (void)b2; SA_ASSERT(heap() == h, R_LEAK); }
struct MyE {}; struct Big { int a[4]; Big(int i = 0) { a[0] = i; a[1] = a[2] = a[3] = 0; } };
DRIVE(set_value) { warm(); int h = heap(); { boost::promise<Big> p; boost::BOOST_THREAD_FUTURE<Big> f = p.get_future(); int h2 = heap(); Big b(7); int r = oom([&] { if (sa_bool()) p.set_value(b); else p.set_value(Big(7)); }); if (r) { SA_ASSERT(heap() == h2 && !f.is_ready(), R_STATE); p.set_value(b); } SA_ASSERT(f.get().a[0] == 7, R_RETRY); }
  SA_ASSERT(heap() == h, R_LEAK); }
// setting a result that is published when the thread ends
static boost::promise<Big>* gp; static boost::promise<void>* gv; static int gk; static boost::exception_ptr ge;
static void exit_setter() { Big b(7); int r = oom([&] { switch (gk) { case 0: gp->set_value_at_thread_exit(b); break; case 1: gp->set_value_at_thread_exit(Big(7)); break; case 2: gv->set_value_at_thread_exit(); break; default: gp->set_exception_at_thread_exit(ge); } });
  if (r) { switch (gk) { case 0: gp->set_value_at_thread_exit(b); break; case 1: gp->set_value_at_thread_exit(Big(7)); break; case 2: gv->set_value_at_thread_exit(); break; default: gp->set_exception_at_thread_exit(ge); } } }
DRIVE(set_at_exit) { warm(); int h = heap(); { boost::promise<Big> p; boost::promise<void> v; gp = &p; gv = &v; gk = __sa_choose(4); boost::exception_ptr e1; if (gk == 3) e1 = boost::copy_exception(MyE()); ge = e1; boost::BOOST_THREAD_FUTURE<Big> f = p.get_future(); boost::BOOST_THREAD_FUTURE<void> g = v.get_future(); { boost::thread t(&exit_setter); t.join(); }
    if (gk == 2) SA_ASSERT(g.is_ready() && g.has_value(), R_RETRY); else SA_ASSERT(f.is_ready() && f.has_value() == (gk < 2), R_RETRY); if (gk < 2) SA_ASSERT(f.get().a[0] == 7, R_RETRY); if (gk == 2) p.set_value(Big(1)); else v.set_value(); ge = boost::exception_ptr(); }
  settle(); SA_ASSERT(heap() == h, R_LEAK); }
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> PT;
#else
typedef boost::packaged_task<int> PT;
#endif
static PT* gt; static int ginj; static void exit_task() { __sa_opt("oom_tid", __sa_tid()); __sa_opt("oom", 1); gt->make_ready_at_thread_exit(); ginj = __sa_getopt("oom") == 0; __sa_opt("oom", 0); }
DRIVE(task_at_exit) { warm(); int h = heap(); { PT t(&one); gt = &t; boost::BOOST_THREAD_FUTURE<int> f = t.get_future(); { boost::thread th(&exit_task); th.join(); } SA_ASSERT(f.is_ready() && ran == 1, R_STATE); int r = 0; try { SA_ASSERT(f.get() == 7, R_STATE); } catch (std::bad_alloc&) { r = 1; } SA_ASSERT(r == ginj, R_REPORT); if (r) MUST("failed"); else MUST("succeeded"); } settle(); SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(task) { warm(); int h = heap(); { 
#if defined BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
    typedef boost::packaged_task<int()> T;
#else
    typedef boost::packaged_task<int> T;
#endif
    T t; int h1 = heap(); int r = oom([&] { T x(&one); t = boost::move(x); }); if (r) { SA_ASSERT(heap() == h1 && !t.valid(), R_LEAK); T x(&one); t = boost::move(x); }
    boost::BOOST_THREAD_FUTURE<int> f = t.get_future(); int h2 = heap(); r = oom([&] { T y(boost::move(t)); t = boost::move(y); }); SA_ASSERT(!r && heap() == h2, R_REPORT); t(); SA_ASSERT(ran == 1 && f.get() == 7, R_RUN); 
    int h3 = heap(); r = oom([&] { t.reset(); }); if (r) { SA_ASSERT(heap() == h3, R_LEAK); t.reset(); } f = t.get_future(); t(); SA_ASSERT(ran == 2 && f.get() == 7, R_RETRY); }
  SA_ASSERT(heap() == h, R_LEAK); }
#if BOOST_THREAD_VERSION >= 4
typedef boost::future<int> Fi;
DRIVE(async) { warm(); int h = heap(); { Fi f; int r = oom([&] { Fi g = boost::async(boost::launch::async, &one); f = boost::move(g); }); if (r) { SA_ASSERT(!ran && !sa_nspawn, R_RUN); SA_ASSERT(heap() == h, R_LEAK); f = boost::async(boost::launch::async, &one); } SA_ASSERT(f.get() == 7 && ran == 1, R_RETRY); } settle(); SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(deferred) { warm(); int h = heap(); { Fi f; int r = oom([&] { Fi g = boost::async(boost::launch::deferred, &one); f = boost::move(g); }); SA_ASSERT(!ran, R_RUN); if (r) { SA_ASSERT(heap() == h, R_LEAK); f = boost::async(boost::launch::deferred, &one); } SA_ASSERT(f.get() == 7 && ran == 1, R_RETRY); } SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(make_ready) { warm(); int h = heap(); { Fi f; int r = oom([&] { Fi g = sa_bool() ? boost::make_ready_future(7) : boost::make_exceptional_future<int>(boost::exception_ptr()); f = boost::move(g); }); if (r) SA_ASSERT(heap() == h && !f.valid(), R_LEAK); else SA_ASSERT(f.is_ready(), R_RETRY); } SA_ASSERT(heap() == h, R_LEAK); }
static int cont(Fi f) { ran = ran + 1; return f.get() + 1; }
static void then_(int pol, bool ready) { warm(); int h = heap(); { boost::promise<int> p; Fi f = p.get_future(), g; if (ready) p.set_value(7);
    int r = oom([&] { Fi x = pol == 0 ? f.then(boost::launch::async, &cont) : pol == 1 ? f.then(boost::launch::deferred, &cont) : pol == 2 ? f.then(boost::launch::sync, &cont) : f.then(&cont); g = boost::move(x); });
    if (!r) { if (!ready) p.set_value(7); SA_ASSERT(g.get() == 8 && ran == 1, R_RUN); }
    else { SA_ASSERT(!g.valid(), R_STATE); if (!ready) p.set_value(7); settle(); SA_ASSERT(!ran, R_RUN); SA_ASSERT(f.valid() && f.get() == 7, R_STATE); } }
  settle(); SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(then_async) { then_(0, false); } DRIVE(then_deferred) { then_(1, false); } DRIVE(then_sync) { then_(2, false); } DRIVE(then_default) { then_(3, false); }
// the promise is satisfied while a continuation that needs no memory is attached
static int cont2(Fi) { ran = ran + 1; return 8; }
DRIVE(set_with_continuation) { warm(); int h = heap(); { boost::promise<int> p; Fi f = p.get_future(); Fi g = sa_bool() ? f.then(boost::launch::sync, &cont2) : f.then(boost::launch::deferred, &cont2); int r = oom([&] { p.set_value(7); }); SA_ASSERT(!r, R_REPORT); SA_ASSERT(g.get() == 8 && ran == 1, R_RUN); } SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(then_async_ready) { then_(0, true); } DRIVE(then_deferred_ready) { then_(1, true); } DRIVE(then_sync_ready) { then_(2, true); }
// (nothing to allocate)
DRIVE(share) { warm(); int h = heap(); { boost::promise<int> p; Fi f = p.get_future(); boost::shared_future<int> s; int r = oom([&] { s = f.share(); }); SA_ASSERT(!r, R_REPORT); p.set_value(7); SA_ASSERT(s.get() == 7, R_RETRY); } SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(when_all) { warm(); int h = heap(); { boost::promise<int> p, q; Fi a = p.get_future(), b = q.get_future(); bool any = sa_bool(); int ok = 0; typedef boost::csbl::tuple<Fi, Fi> Tu; boost::future<Tu> g; int r = oom([&] { boost::future<Tu> x = any ? boost::when_any(boost::move(a), boost::move(b)) : boost::when_all(boost::move(a), boost::move(b)); g = boost::move(x); });
    p.set_value(7); q.set_value(8); (void)ok; if (!r) { Tu t = g.get(); SA_ASSERT(boost::csbl::get<0>(t).get() == 7, R_RETRY); } } settle(); SA_ASSERT(heap() == h, R_LEAK); }
// --- executors
namespace ex = boost::executors; typedef ex::basic_thread_pool BTP; typedef ex::loop_executor LE; typedef ex::thread_executor TE; typedef ex::serial_executor SE; typedef ex::serial_executor_cont SC; typedef boost::generic_executor_ref GE;
template <class E> static void submit_(E& e, int k, Fn& f) { switch (k) { case 0: e.submit(f); break; case 1: e.submit(Fn(1)); break; default: { ex::work w((Fn(1))); e.submit(boost::move(w)); } } }
DRIVE(pool_ctor) { warm(); int h = heap(); { alignas(BTP) static char b[sizeof(BTP)]; BTP* p = 0; int r = oom([&] { p = new (b) BTP(1); }); if (r) { settle(); SA_ASSERT(heap() == h, R_LEAK); } else p->~BTP(); } settle(); SA_ASSERT(heap() == h, R_LEAK); }
DRIVE(pool_submit) { warm(); int h = heap(); { BTP p(1); Fn f; int k = __sa_choose(3); int r = oom([&] { submit_(p, k, f); }); if (r) { submit_(p, k, f); } p.close(); p.join(); SA_ASSERT(ran == 1, R_RUN); } settle(); SA_ASSERT(heap() == h && !live, R_LEAK); }
DRIVE(loop_submit) { warm(); int h = heap(); { LE p; Fn f; int k = __sa_choose(3); int h1 = heap(); int r = oom([&] { submit_(p, k, f); }); if (r) { SA_ASSERT(heap() == h1, R_LEAK); SA_ASSERT(!p.try_executing_one(), R_STATE); submit_(p, k, f); } SA_ASSERT(!ran, R_RUN); p.close(); p.loop(); SA_ASSERT(ran == 1, R_RUN); } SA_ASSERT(heap() == h && !live, R_LEAK); }
DRIVE(thread_submit) { warm(); int h = heap(); { TE p; Fn f; int k = __sa_choose(2); int h1 = heap(); int r = oom([&] { if (k) p.submit(Fn(1)); else p.submit(f); }); if (r) { SA_ASSERT(!sa_nspawn && !ran, R_RUN); (void)h1; if (k) p.submit(Fn(1)); else p.submit(f); } p.close(); } SA_ASSERT(ran == 1, R_RUN); settle(); SA_ASSERT(heap() == h && !live, R_LEAK); }
DRIVE(serial_submit) { warm(); int h = heap(); { LE u; { SE p(u); Fn f; int r = oom([&] { if (sa_bool()) p.submit(f); else p.submit(Fn(1)); }); if (r) { SA_ASSERT(!ran, R_RUN); p.submit(f); } while (!ran) { u.run_queued_closures(); yield_(); } u.close(); } SA_ASSERT(ran == 1, R_RUN); } settle(); SA_ASSERT(heap() == h && !live, R_LEAK); }
DRIVE(serial_cont_submit) { warm(); int h = heap(); { LE u; { SC p(u); Fn f; int r = oom([&] { p.submit(f); }); if (r) { SA_ASSERT(!ran, R_RUN); p.submit(f); } while (!ran) { u.run_queued_closures(); yield_(); } u.run_queued_closures(); u.close(); } SA_ASSERT(ran == 1, R_RUN); } settle(); SA_ASSERT(heap() == h && !live, R_LEAK); }
DRIVE(generic_ref) { warm(); int h = heap(); { LE u; int h1 = heap(); { GE* g = 0; alignas(GE) static char b[sizeof(GE)]; int r = oom([&] { g = new (b) GE(u); }); if (r) { SA_ASSERT(heap() == h1, R_LEAK); g = new (b) GE(u); } Fn f; r = oom([&] { g->submit(f); }); if (r) { SA_ASSERT(!u.try_executing_one(), R_STATE); g->submit(f); } u.close(); u.loop(); SA_ASSERT(ran == 1, R_RUN); g->~GE(); } } SA_ASSERT(heap() == h && !live, R_LEAK); }
#endif
