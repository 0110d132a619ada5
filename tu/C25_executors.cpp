// C25: lock-set discipline of the executors; submitted closures run without a lock of the library
// @variants: -DBOOST_THREAD_VERSION=5
// @link: thread once future
// @tlim: 250
#include "clk.h"
#include "lockset.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/executors/executor.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
static int subs, lim; template <class E> struct At { static E* e; }; template <class E> E* At<E>::e;
static void task() { ls_user(); MUST("closure"); if (sa_bool()) sa_idle(); }
struct Fn { void operator()() const { task(); } };
struct Reent { };
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { (void)boost::detail::get_or_make_current_thread_data(); }
template <class X> static void tryit(X x) { try { x(); } catch (boost::sync_queue_is_closed&) {} catch (boost::thread_interrupted&) {} }
template <class E> static void op_common(int k) { E& e = *At<E>::e; warm(); if (k < 2) { if (subs == lim) __sa_stop(); subs = subs + 1; }
  switch (k) { case 0: tryit([&] { e.submit(&task); }); break; case 1: tryit([&] { e.submit(Fn()); }); break; case 2: e.close(); break; default: (void)e.closed(); } }
template <class E> static void go(E& e, const char* l, int k, void (*op)(int), int n, int t = 2) { At<E>::e = &e; subs = 0; lim = n; clk_on(1); sa_frozen = 1; ls_watch(&e, sizeof e, l); ls_run(k, op, t); }
typedef boost::executors::inline_executor IE; typedef boost::executors::loop_executor LE; typedef boost::executors::thread_executor TE; typedef boost::executors::basic_thread_pool BP; typedef boost::executors::serial_executor SE; typedef boost::executors::serial_executor_cont SC_;
ENTRY E_inline() { IE e; go(e, "inline_executor", 4, op_common<IE>, 2); }
static void op_loop(int k) { LE& e = *At<LE>::e; if (k < 4) op_common<LE>(k); else { warm(); switch (k) { case 4: (void)e.try_executing_one(); break; case 5: e.run_queued_closures(); break; case 6: { (void)e.reschedule_until([] { return sa_bool(); }); } break; default: if (!e.closed()) __sa_stop(); e.loop(); } } }
ENTRY E_loop() { LE e; go(e, "loop_executor", 8, op_loop, 2); }
ENTRY E_thread() { TE e; go(e, "thread_executor", 4, op_common<TE>, 2); }
static void op_pool(int k) { BP& e = *At<BP>::e; if (k < 4) op_common<BP>(k); else { warm(); switch (k) { case 4: (void)e.try_executing_one(); break; default: (void)e.schedule_one_or_yield(); } } }
static void d_pool(void* a) { if (!(long)a) { warm(); BP* e = new BP(1); At<BP>::e = e; ls_watch(e, sizeof *e, "basic_thread_pool"); } else if (!At<BP>::e) __sa_stop(); ls_thread(a); }
template <class E> static void spawned(void (*d)(void*), int k, void (*op)(int), int n) { At<E>::e = 0; subs = 0; lim = n; clk_on(1); sa_frozen = 1; ls_k = k; ls_op = op; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; sa_run(2, d); }
ENTRY E_pool() { spawned<BP>(d_pool, 6, op_pool, 2); }
static LE* under;
static void op_serial(int k) { SE& e = *At<SE>::e; if (k < 4) op_common<SE>(k); else { warm(); switch (k) { case 4: (void)under->try_executing_one(); break; default: (void)e.underlying_executor(); } } }
static void d_serial(void* a) { if (!(long)a) { warm(); under = new LE; SE* e = new SE(*under); At<SE>::e = e; ls_watch(e, sizeof *e, "serial_executor"); } else if (!At<SE>::e) __sa_stop(); ls_thread(a); }
ENTRY E_serial() { spawned<SE>(d_serial, 6, op_serial, 1); }
static void op_scont(int k) { SC_& e = *At<SC_>::e; if (k < 4) op_common<SC_>(k); else { warm(); (void)under->try_executing_one(); } }
ENTRY E_serial_cont() { warm(); under = new LE; SC_* e = new SC_(*under); go(*e, "serial_executor_cont", 5, op_scont, 2); }
// time ordered executors
struct S : boost::executors::detail::scheduled_executor_base<> { void run() { this->loop(); } }; typedef boost::executors::scheduler<> SCH;
static void op_sched(int k) { S& e = *At<S>::e; warm(); if (k < 2) { if (subs == lim) __sa_stop(); subs = subs + 1; }
  switch (k) { case 0: tryit([&] { e.submit_at(Fn(), at(1)); }); break; case 1: tryit([&] { e.submit_after(Fn(), sec(0)); }); break; case 2: e.close(); break; case 3: (void)e.closed(); break; default: e.run(); } }
ENTRY E_scheduled() { S* e = new S; go(*e, "scheduled executor", 5, op_sched, 1); }
