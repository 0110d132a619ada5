// C35: values, arguments and callables handed to the library arrive as they were given, and variables of the caller keep their content
// @variants: -DBOOST_THREAD_VERSION=5 ; -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @variants_thorough: -DBOOST_THREAD_VERSION=3 ; -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
// @link: thread once future
#include "clk.h"
#include <vector>
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/thread/once.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/sync_queue.hpp>
#include <boost/thread/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#include <boost/thread/scoped_thread.hpp>
#define V BOOST_THREAD_VERSION
#if V >= 5
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/user_scheduler.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/serial_executor_cont.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
#endif
#define R_SAME "what is handed over arrives as it was given"
#define R_KEPT "a variable given as a value keeps its content"
#define R_CALL "a callable handed over is called with the content it was given"
#define R_BACK "an element a queue did not take stays with the caller"
// witnesses: moved-from objects are marked
struct Tr { int v; Tr() : v(0) {} explicit Tr(int x) : v(x) {} Tr(const Tr& o) : v(o.v) {} Tr(Tr&& o) : v(o.v) { o.v = -1; } Tr& operator=(const Tr& o) { v = o.v; return *this; }
  Tr& operator=(Tr&& o) { if (this != &o) { v = o.v; o.v = -1; } return *this; } friend bool operator<(const Tr& a, const Tr& b) { return a.v < b.v; } friend bool operator==(const Tr& a, const Tr& b) { return a.v == b.v; } void m(Tr x) { SA_ASSERT(x.v == 1, R_SAME); v = v + 1; } };
struct MO { int v; MO() : v(0) {} explicit MO(int x) : v(x) {} MO(MO&& o) : v(o.v) { o.v = -1; } MO& operator=(MO&& o) { v = o.v; o.v = -1; return *this; } };
struct Ex { Tr t; };
static int calls, seen_;
struct Fn { Tr t; Fn() : t(50) {}
  void operator()() { SA_ASSERT(t.v == 50, R_CALL); calls = calls + 1; }
  void operator()(Tr a, const Tr& b, MO c) { SA_ASSERT(t.v == 50, R_CALL); SA_ASSERT(a.v == 1 && b.v == 2 && c.v == 3, R_SAME); calls = calls + 1; }
  int operator()(Tr a, const Tr& b) { SA_ASSERT(t.v == 50, R_CALL); SA_ASSERT(a.v == 1 && b.v == 2, R_SAME); calls = calls + 1; return 5; }
};
struct FI { Tr t; FI() : t(50) {} int operator()() { SA_ASSERT(t.v == 50, R_CALL); calls = calls + 1; return 4; } };
struct FU { Tr t; FU() : t(50) {} unsigned operator()() { SA_ASSERT(t.v == 50, R_CALL); calls = calls + 1; return 1; } };
struct FC { Tr t; FC() : t(50) {} template <class F> int operator()(F f) { SA_ASSERT(t.v == 50, R_CALL); SA_ASSERT(f.get() == 9, R_SAME); calls = calls + 1; return 6; } };
struct FM { MO t; FM() : t(50) {} void operator()() { SA_ASSERT(t.v == 50, R_CALL); calls = calls + 1; } };
static void byref(Tr& x) { x.v = x.v + 1; calls = calls + 1; }
#define KEPT(x, n) SA_ASSERT((x).v == n, R_KEPT)
#define KF SA_ASSERT(f.t.v == 50, R_KEPT); CALLED
#define CALLED SA_ASSERT(calls == 1, R_CALL); calls = 0; MUST("called")
#define ARG Tr a(1), b(2); const Tr ca(1)
// the form is chosen, then the case ends
template <class T> static void gives(boost::BOOST_THREAD_FUTURE<T>& f, int n) { SA_ASSERT(f.get().v == n, R_SAME); MUST("arrived"); }
// with threads of the library: run as thread 0
static void (*body_)(); static void t0(void*) { body_(); }
static void go(void (*b)()) { clk_on(1); sa_frozen = 1; sa_noprobe = 1; sa_spurious_left = 0; sa_preempt = 0; body_ = b; sa_run(1, t0); }
#define THREADED(name) static void b_##name(); ENTRY E_##name() { go(b_##name); } static void b_##name()
THREADED(thread) { ARG; Fn f; const boost::thread::attributes at;
  switch (__sa_choose(13)) {
    case 0: { boost::thread t(f); t.join(); KF; break; }
    case 1: { boost::thread t(at, f); t.join(); KF; break; }
    case 2: { boost::thread t((Fn())); t.join(); CALLED; break; }
    case 3: { boost::thread_group g; g.create_thread(f); g.join_all(); KF; break; }
    case 4: { boost::thread t(&byref, boost::ref(a)); t.join(); CALLED; SA_ASSERT(a.v == 2, R_SAME); break; }
    case 5: { boost::thread t(&Tr::m, &a, ca); t.join(); SA_ASSERT(a.v == 2 && ca.v == 1, R_SAME); break; }
    case 6: { boost::thread t(&Tr::m, b, ca); t.join(); KEPT(b, 2); KEPT(ca, 1); break; }
    case 7: { if (sa_bool()) { boost::scoped_thread<> t(f); t.join(); } else { boost::strict_scoped_thread<> t(f); } KF; break; }
    case 8: { boost::thread t([&] { boost::this_thread::at_thread_exit(f); SA_ASSERT(!calls, R_CALL); }); t.join(); KF; break; }
    case 9: { boost::thread t([&] { struct L { Fn* f; void operator()() { (*f)(); } } l = {&f}; boost::this_thread::at_thread_exit(l); }); t.join(); KF; break; }
#if V >= 4
    case 10: { boost::thread t(f, a, b, MO(3)); t.join(); KF; KEPT(a, 1); KEPT(b, 2); break; }
    case 11: { boost::thread t(at, f, ca, b, MO(3)); t.join(); KF; KEPT(ca, 1); KEPT(b, 2); break; }
    case 12: { if (sa_bool()) { boost::scoped_thread<> t(f, a, b, MO(3)); t.join(); } else { boost::strict_scoped_thread<> t(f, a, b, MO(3)); } KF; KEPT(a, 1); KEPT(b, 2); break; }
#else
    case 10: { boost::thread t(f, a, b); t.join(); KF; KEPT(a, 1); KEPT(b, 2); break; }
#endif
    default: __sa_stop();
  } MUST("arrived"); __sa_stop(); }
THREADED(async) { ARG;
  switch (__sa_choose(7)) {
    case 0: { FI f; auto r = boost::async(f); SA_ASSERT(r.get() == 4, R_SAME); KF; break; }
    case 1: { FI f; boost::launch l = boost::launch::async; auto r = boost::async(l, f); SA_ASSERT(r.get() == 4, R_SAME); KF; break; }
#if V >= 4
    case 2: { Fn f; auto r = boost::async(boost::launch::async, f, a, b); SA_ASSERT(r.get() == 5, R_SAME); KF; KEPT(a, 1); KEPT(b, 2); break; }
    case 3: { Fn f; auto r = boost::async(boost::launch::deferred, f, ca, b); SA_ASSERT(r.get() == 5, R_SAME); KF; KEPT(ca, 1); KEPT(b, 2); break; }
    case 4: { Fn f; auto r = boost::async(f, a, b); SA_ASSERT(r.get() == 5, R_SAME); KF; KEPT(a, 1); KEPT(b, 2); break; }
    case 5: { Fn f; auto r = boost::async(boost::launch::async, f, Tr(1), boost::move(b), MO(3)); r.get(); KF; break; }
    case 6: { auto r = boost::async(boost::launch::deferred, [](MO m) { SA_ASSERT(m.v == 3, R_SAME); return MO(7); }, MO(3)); SA_ASSERT(r.get().v == 7, R_SAME); break; }
#endif
    default: __sa_stop();
  } MUST("arrived"); __sa_stop(); }
THREADED(exit) { ARG; boost::promise<Tr> p; auto f = p.get_future();
  switch (__sa_choose(3)) {
    case 0: { boost::thread t([&] { p.set_value_at_thread_exit(a); }); t.join(); KEPT(a, 1); break; }
    case 1: { boost::thread t([&] { p.set_value_at_thread_exit(Tr(1)); }); t.join(); break; }
    default: { boost::thread t([&] { p.set_value_at_thread_exit(ca); }); t.join(); KEPT(ca, 1); }
  } gives(f, 1); __sa_stop(); }
#ifdef BOOST_THREAD_PROVIDES_SIGNATURE_PACKAGED_TASK
typedef boost::packaged_task<int()> Task;
#else
typedef boost::packaged_task<int> Task;
#endif
ENTRY E_tasks() { ARG;
  switch (__sa_choose(8)) {
    case 0: { FI f; Task p(f); auto r = p.get_future(); p(); SA_ASSERT(r.get() == 4, R_SAME); KF; break; }
    case 1: { const FI f; Task p(f); auto r = p.get_future(); p(); SA_ASSERT(r.get() == 4, R_SAME); KF; break; }
    case 2: { FI f; Task p(boost::move(f)); auto r = p.get_future(); p(); SA_ASSERT(r.get() == 4, R_SAME); CALLED; break; }
    case 3: { FI f; Task q(f); Task p(boost::move(q)); Task u; u = boost::move(p); auto r = u.get_future(); u(); SA_ASSERT(r.get() == 4, R_SAME); KF; break; }
#if V >= 4
    case 4: { Fn f; boost::packaged_task<int(Tr, const Tr&)> p(f); p(a, b); SA_ASSERT(p.get_future().get() == 5, R_SAME); KF; KEPT(a, 1); KEPT(b, 2); break; }
    case 5: { Fn f; boost::packaged_task<int(Tr, const Tr&)> p(f); p(Tr(1), ca.v == 1 ? b : a); SA_ASSERT(p.get_future().get() == 5, R_SAME); KF; KEPT(b, 2); break; }
    case 6: { boost::packaged_task<MO(MO)> p([](MO m) { SA_ASSERT(m.v == 3, R_SAME); return m; }); p(MO(3)); SA_ASSERT(p.get_future().get().v == 3, R_SAME); break; }
    case 7: { Fn f; boost::packaged_task<void(Tr, const Tr&, MO)> p(f); p(ca, b, MO(3)); p.get_future().get(); KF; KEPT(ca, 1); KEPT(b, 2); break; }
#endif
    default: __sa_stop();
  } MUST("arrived"); }
ENTRY E_promise() { ARG; boost::promise<Tr> p; auto f = p.get_future();
  switch (__sa_choose(7)) {
    case 0: p.set_value(a); KEPT(a, 1); break;
    case 1: p.set_value(ca); KEPT(ca, 1); break;
    case 2: p.set_value(boost::move(a)); break;
    case 3: p.emplace(1); break;
    case 4: p.emplace(a); KEPT(a, 1); break;
    case 5: { Ex e; e.t.v = 1; p.set_exception(e); KEPT(e.t, 1); try { f.get(); SA_ASSERT(false, R_SAME); } catch (Ex& x) { SA_ASSERT(x.t.v == 1, R_SAME); MUST("exception arrived"); } return; }
    default: { const Ex e = {Tr(1)}; p.set_exception(boost::copy_exception(e)); KEPT(e.t, 1); try { f.get(); SA_ASSERT(false, R_SAME); } catch (const Ex& x) { SA_ASSERT(x.t.v == 1, R_SAME); } return; }
  }
  if (sa_bool()) { gives(f, 1); return; }
  // every reading of a shared future finds the value
  boost::shared_future<Tr> s = f.share(), s2 = s; Tr x = s.get(); Tr y = boost::move(s).get(); Tr z = s2.get_or(b); SA_ASSERT(x.v == 1 && y.v == 1 && z.v == 1 && s2.get().v == 1, R_SAME); KEPT(b, 2); MUST("shared"); }
ENTRY E_makers() { ARG; MO m; const MO* r; boost::exception_ptr ep = boost::copy_exception(Ex{Tr(1)});
  switch (__sa_choose(16)) {
    case 0: { auto f = boost::make_future(a); KEPT(a, 1); gives(f, 1); break; }
    case 1: { auto f = boost::make_future(Tr(1)); gives(f, 1); break; }
    case 2: { auto f = boost::make_ready_future(a); KEPT(a, 1); gives(f, 1); break; }
    case 3: { auto f = boost::make_ready_future(ca); KEPT(ca, 1); gives(f, 1); break; }
    case 4: { auto f = boost::make_ready_future<Tr>(a); KEPT(a, 1); gives(f, 1); break; }
    case 5: { auto f = boost::make_ready_future<Tr>(1); gives(f, 1); break; }
    case 6: { auto f = boost::make_ready_future<MO>(1); gives(f, 1); break; }
    case 7: { auto f = boost::make_ready_future(MO(1)); gives(f, 1); break; }
    case 8: { auto f = boost::make_ready_no_decay_future<Tr>(a); KEPT(a, 1); gives(f, 1); break; }
    case 9: { auto f = boost::make_shared_future(a); KEPT(a, 1); SA_ASSERT(f.get().v == 1 && f.get().v == 1, R_SAME); break; }
    case 10: { auto f = boost::make_shared_future(ca); KEPT(ca, 1); SA_ASSERT(f.get().v == 1, R_SAME); break; }
    case 11: { auto f = boost::make_ready_future<Tr&>(a); SA_ASSERT(&f.get() == &a, R_SAME); break; }
    case 12: { auto f = boost::make_exceptional_future<int>(ep); try { f.get(); SA_ASSERT(false, R_SAME); } catch (Ex& x) { SA_ASSERT(x.t.v == 1, R_SAME); } break; }
    case 13: { Ex e; e.t.v = 1; auto f = boost::make_exceptional_future<int>(e); KEPT(e.t, 1); try { f.get(); SA_ASSERT(false, R_SAME); } catch (Ex& x) { SA_ASSERT(x.t.v == 1, R_SAME); } break; }
    case 14: { try { throw Ex{Tr(1)}; } catch (...) { auto f = boost::make_exceptional_future<int>(); try { f.get(); SA_ASSERT(false, R_SAME); } catch (Ex& x) { SA_ASSERT(x.t.v == 1, R_SAME); } } break; }
    default: {
#ifdef BOOST_THREAD_USES_MOVE
      boost::make_future().get();
#endif
      auto f = boost::make_future(ca); KEPT(ca, 1); gives(f, 1); break; }
  } (void)m; (void)r; MUST("made"); }
// get_or: the alternative is taken exactly if there is no value
ENTRY E_alternative() { ARG; boost::promise<Tr> p; auto f = p.get_future(); bool has = sa_bool(); if (has) p.set_value(b); else p.set_exception(Ex{Tr(4)}); int w = has ? 2 : 1;
  switch (__sa_choose(5)) {
    case 0: { Tr r = f.get_or(a); KEPT(a, 1); SA_ASSERT(r.v == w, R_SAME); break; }
    case 1: { Tr r = f.get_or(ca); KEPT(ca, 1); SA_ASSERT(r.v == w, R_SAME); break; }
    case 2: { Tr r = f.get_or(boost::move(a)); SA_ASSERT(r.v == w, R_SAME); if (has) KEPT(a, 1); break; }
    case 3: { auto s = f.share(); Tr r = s.get_or(a); KEPT(a, 1); SA_ASSERT(r.v == w, R_SAME); Tr q = s.get_or(ca); SA_ASSERT(q.v == w, R_SAME); KEPT(ca, 1); break; }
    case 4: { auto s = f.share(); Tr r = s.get_or(Tr(1)); SA_ASSERT(r.v == w, R_SAME); break; }
    default: __sa_stop();
  } MUST("taken"); }
// a result of another type is converted
struct Conv { int v; operator Tr() const { return Tr(v); } };
ENTRY E_convert() { boost::promise<Tr> p; auto s = p.get_future().share(); p.set_exception(Ex{Tr(4)}); Conv c = {8}; Tr r = sa_bool() ? s.get_or(c) : s.get_or(Conv{8}); SA_ASSERT(r.v == 8 && c.v == 8, R_SAME); MUST("converted"); }
#if V >= 4
static void fb_setup(boost::promise<Tr>& p, bool has) { if (has) p.set_value(Tr(2)); else p.set_exception(Ex{Tr(4)}); }
THREADED(fallback_l) { Tr a(1); boost::promise<Tr> p; bool has = sa_bool(); fb_setup(p, has); auto g = p.get_future().fallback_to(a); KEPT(a, 1); gives(g, has ? 2 : 1); MUST("arrived"); __sa_stop(); }
THREADED(fallback_c) { const Tr ca(1); boost::promise<Tr> p; bool has = sa_bool(); fb_setup(p, has); auto g = p.get_future().fallback_to(ca); KEPT(ca, 1); gives(g, has ? 2 : 1); MUST("arrived"); __sa_stop(); }
THREADED(fallback_r) { boost::promise<Tr> p; bool has = sa_bool(); fb_setup(p, has); auto g = p.get_future().fallback_to(Tr(1)); gives(g, has ? 2 : 1); MUST("arrived"); __sa_stop(); }
#define THEN(x) { auto g = x; SA_ASSERT(g.get() == 6, R_SAME); CALLED; break; }
THREADED(then) {
  switch (__sa_choose(4)) {
    case 0: THEN(boost::make_ready_future(9).then(FC()))
    case 1: THEN(boost::make_ready_future(9).then(boost::launch::async, FC()))
    case 2: THEN(boost::make_ready_future(9).then(boost::launch::deferred, FC()))
    default: THEN(boost::make_ready_future(9).then(boost::launch::sync, FC()))
  } MUST("arrived"); __sa_stop(); }
THREADED(then_shared) { boost::shared_future<int> s = boost::make_ready_future(9).share();
  switch (__sa_choose(4)) {
    case 0: THEN(s.then(FC()))
    case 1: THEN(s.then(boost::launch::async, FC()))
    case 2: THEN(s.then(boost::launch::deferred, FC()))
    default: THEN(s.then(boost::launch::sync, FC()))
  } SA_ASSERT(s.valid() && s.get() == 9, R_KEPT); MUST("arrived"); __sa_stop(); }
// combined futures: unique ones move in, shared ones stay valid; order and results are kept
typedef boost::shared_future<int> SF; typedef boost::BOOST_THREAD_FUTURE<int> F;
template <class G> static void two(G& h) { SA_ASSERT(boost::csbl::get<0>(h).get() == 9 && boost::csbl::get<1>(h).get() == 8, R_SAME); }
template <class G> static void twov(G& h) { SA_ASSERT(h.size() == 2, R_SAME); SA_ASSERT(h[0].get() == 9 && h[1].get() == 8, R_SAME); }
THREADED(combine) { SF s = boost::make_ready_future(9).share(), u = boost::make_ready_future(8).share();
  switch (__sa_choose(8)) {
    case 0: { auto g = boost::when_all(s, u); SA_ASSERT(s.valid() && u.valid(), R_KEPT); auto h = g.get(); two(h); break; }
    case 1: { auto g = boost::when_any(s, u); SA_ASSERT(s.valid() && u.valid(), R_KEPT); auto h = g.get(); two(h); break; }
    case 2: { std::vector<SF> v; v.push_back(s); v.push_back(u); auto g = boost::when_all(v.begin(), v.end()); SA_ASSERT(v[0].valid() && v[1].valid(), R_KEPT); auto h = g.get(); twov(h); SA_ASSERT(v[0].get() == 9 && v[1].get() == 8, R_KEPT); break; }
    case 3: { std::vector<SF> v; v.push_back(s); v.push_back(u); auto g = boost::when_any(v.begin(), v.end()); SA_ASSERT(v[0].valid() && v[1].valid(), R_KEPT); auto h = g.get(); twov(h); SA_ASSERT(v[0].get() == 9 && v[1].get() == 8, R_KEPT); break; }
    case 4: { F a = boost::make_ready_future(9); auto g = boost::when_all(boost::move(a), u); SA_ASSERT(!a.valid() && u.valid(), R_KEPT); auto h = g.get(); two(h); break; }
    case 5: { F b = boost::make_ready_future(8); auto g = boost::when_any(s, boost::move(b)); SA_ASSERT(!b.valid() && s.valid(), R_KEPT); auto h = g.get(); two(h); break; }
    case 6: { std::vector<F> v; v.push_back(boost::make_ready_future(9)); v.push_back(boost::make_ready_future(8)); auto g = boost::when_all(v.begin(), v.end()); SA_ASSERT(!v[0].valid() && !v[1].valid(), R_KEPT); auto h = g.get(); twov(h); break; }
    default: { std::vector<F> v; v.push_back(boost::make_ready_future(9)); v.push_back(boost::make_ready_future(8)); auto g = boost::when_any(v.begin(), v.end()); auto h = g.get(); twov(h); break; }
  } SA_ASSERT(s.get() == 9 && u.get() == 8, R_KEPT); MUST("arrived"); __sa_stop(); }
#endif
// callables of barriers and once flags
ENTRY E_callables() { ARG;
  switch (__sa_choose(8)) {
    case 0: { Fn f; boost::barrier x(1, f); x.wait(); KF; break; }
    case 1: { Fn f; boost::barrier x(1, boost::move(f)); x.wait(); CALLED; break; }
    case 2: { FU f; boost::barrier x(1, f); x.wait(); KF; break; }
    case 3: { boost::barrier x(1, FU()); x.wait(); CALLED; break; }
    case 4: { boost::once_flag o = BOOST_ONCE_INIT; Fn f; boost::call_once(o, f); KF; break; }
    case 5: { boost::once_flag o = BOOST_ONCE_INIT; boost::call_once(o, Fn()); CALLED; break; }
    case 6: { boost::once_flag o = BOOST_ONCE_INIT; Fn f; boost::call_once(o, f, a, b); KF; KEPT(a, 1); KEPT(b, 2); break; }
    default: { boost::once_flag o = BOOST_ONCE_INIT; boost::call_once(o, &byref, boost::ref(a)); CALLED; SA_ASSERT(a.v == 2, R_SAME); break; }
  } MUST("arrived"); }
static void done(boost::completion_latch& l) { struct W { boost::completion_latch* l; void operator()() { l->wait(); } } w = {&l}; boost::thread t(w); l.count_down(); t.join(); }
THREADED(latch) { Fn f; const Fn c;
  switch (__sa_choose(3)) { case 0: { boost::completion_latch l(1, f); done(l); break; } case 1: { boost::completion_latch l(1, c); done(l); break; } default: { boost::completion_latch l(1, Fn()); done(l); } }
  KF; SA_ASSERT(c.t.v == 50, R_KEPT); MUST("arrived"); __sa_stop(); }
typedef boost::synchronized_value<Tr> SV;
ENTRY E_sync_value() { ARG;
  switch (__sa_choose(9)) {
    case 0: { SV s(a); KEPT(a, 1); SA_ASSERT(s->v == 1, R_SAME); break; }
    case 1: { SV s(Tr(1)); SA_ASSERT(s->v == 1, R_SAME); break; }
    case 2: { SV s(a); s = b; KEPT(b, 2); SA_ASSERT(s->v == 2, R_SAME); break; }
    case 3: { SV s(a); s = Tr(3); SA_ASSERT(s->v == 3, R_SAME); break; }
    case 4: { SV s(a); Tr x(7); if (sa_bool()) s.swap(x); else boost::swap(s, x); SA_ASSERT(x.v == 1 && s->v == 7, R_SAME); break; }
    case 5: { SV s(a), t(b); if (sa_bool()) s.swap(t); else boost::swap(s, t); SA_ASSERT(s->v == 2 && t->v == 1, R_SAME); break; }
    case 6: { SV s(a), t(b); s = t; SV u(s); SA_ASSERT(s->v == 2 && t->v == 2 && u->v == 2, R_KEPT); break; }
    case 7: { SV s(a), t(b); s = boost::move(t); SV u(boost::move(s)); SA_ASSERT(u->v == 2, R_SAME); break; }
    default: { SV s(a); Tr x = s.get(), y = static_cast<Tr>(s); SA_ASSERT(x.v == 1 && y.v == 1 && s->v == 1, R_KEPT); break; }
  } MUST("arrived"); }
// queues: try, nonblocking and waiting forms, from variables and temporaries; elements not taken stay with the caller
typedef boost::queue_op_status st_t;
template <class Q> static void q_fillpush_back(Q& q, Tr& a, const Tr& ca) {
  switch (__sa_choose(8)) { case 0: q.push_back(a); break; case 1: q.push_back(ca); break; case 2: q.push_back(Tr(1)); break; case 3: q.try_push_back(a); break; case 4: q.try_push_back(Tr(1)); break;
    case 5: q.nonblocking_push_back(a); break; case 6: q.wait_push_back(a); break; default: q.wait_push_back(Tr(1)); } KEPT(a, 1); KEPT(ca, 1); }
template <class Q> static void q_takepush_back(Q& q) { Tr x;
  switch (__sa_choose(5)) { case 0: x = q.pull_front(); break; case 1: q.pull_front(x); break; case 2: q.try_pull_front(x); break; case 3: q.nonblocking_pull_front(x); break; default: q.wait_pull_front(x); } SA_ASSERT(x.v == 1, R_SAME); MUST("taken"); }
template <class Q> static void q_refusepush_back(Q& q, bool closed) { Tr k(7); bool ok = true;
  switch (__sa_choose(4)) { case 0: if (!closed) __sa_stop(); try { q.push_back(boost::move(k)); } catch (boost::sync_queue_is_closed&) { ok = false; } break; case 1: ok = q.try_push_back(boost::move(k)) == st_t::success; break;
    case 2: ok = q.nonblocking_push_back(boost::move(k)) == st_t::success; break; default: if (!closed) __sa_stop(); ok = q.wait_push_back(boost::move(k)) == st_t::success; }
  SA_ASSERT(!ok && k.v == 7, R_BACK); MUST("refused"); }
template <class Q> static void q_allpush_back(Q& q) { ARG; if (sa_bool()) { q_fillpush_back(q, a, ca); q_takepush_back(q); } else { q.close(); q_refusepush_back(q, true); } }
template <class Q> static void q_fillpush(Q& q, Tr& a, const Tr& ca) {
  switch (__sa_choose(8)) { case 0: q.push(a); break; case 1: q.push(ca); break; case 2: q.push(Tr(1)); break; case 3: q.try_push(a); break; case 4: q.try_push(Tr(1)); break;
    case 5: q.nonblocking_push(a); break; case 6: q.wait_push(a); break; default: q.wait_push(Tr(1)); } KEPT(a, 1); KEPT(ca, 1); }
template <class Q> static void q_takepush(Q& q) { Tr x;
  switch (__sa_choose(5)) { case 0: x = q.pull(); break; case 1: q.pull(x); break; case 2: q.try_pull(x); break; case 3: q.nonblocking_pull(x); break; default: q.wait_pull(x); } SA_ASSERT(x.v == 1, R_SAME); MUST("taken"); }
template <class Q> static void q_refusepush(Q& q, bool closed) { Tr k(7); bool ok = true;
  switch (__sa_choose(4)) { case 0: if (!closed) __sa_stop(); try { q.push(boost::move(k)); } catch (boost::sync_queue_is_closed&) { ok = false; } break; case 1: ok = q.try_push(boost::move(k)) == st_t::success; break;
    case 2: ok = q.nonblocking_push(boost::move(k)) == st_t::success; break; default: if (!closed) __sa_stop(); ok = q.wait_push(boost::move(k)) == st_t::success; }
  SA_ASSERT(!ok && k.v == 7, R_BACK); MUST("refused"); }
template <class Q> static void q_allpush(Q& q) { ARG; if (sa_bool()) { q_fillpush(q, a, ca); q_takepush(q); } else { q.close(); q_refusepush(q, true); } }
ENTRY E_sync_queue() { boost::sync_queue<Tr> q; q_allpush(q); }
ENTRY E_sync_deque() { boost::sync_deque<Tr> q; q_allpush_back(q); }
ENTRY E_bounded_queue() { boost::sync_bounded_queue<Tr> q(1); if (sa_bool()) q_allpush_back(q); else { q.push_back(Tr(1)); q_refusepush_back(q, false); } }
ENTRY E_queue_adaptor() { boost::queue_adaptor<boost::sync_queue<Tr> > q; ARG; switch (__sa_choose(3)) { case 0: q.push(a); break; case 1: q.try_push(a); break; default: q.wait_push(ca); } KEPT(a, 1); KEPT(ca, 1); SA_ASSERT(q.pull().v == 1, R_SAME); q.close(); Tr k(7); q.try_push(boost::move(k)); SA_ASSERT(k.v == 7, R_BACK); MUST("taken"); }
ENTRY E_deque_adaptor() { boost::deque_adaptor<boost::sync_deque<Tr> > q; ARG; switch (__sa_choose(3)) { case 0: q.push_back(a); break; case 1: q.try_push_back(a); break; default: q.wait_push_back(ca); } KEPT(a, 1); KEPT(ca, 1); SA_ASSERT(q.pull_front().v == 1, R_SAME); q.close(); Tr k(7); q.try_push_back(boost::move(k)); SA_ASSERT(k.v == 7, R_BACK); MUST("taken"); }
ENTRY E_priority_queue() { boost::sync_priority_queue<Tr> q; ARG;
  if (sa_bool()) { switch (__sa_choose(4)) { case 0: q.push(a); break; case 1: q.push(Tr(1)); break; case 2: q.try_push(ca); break; default: q.try_push(Tr(1)); } KEPT(a, 1); KEPT(ca, 1); Tr x;
    switch (__sa_choose(4)) { case 0: x = q.pull(); break; case 1: q.pull(x); break; case 2: q.try_pull(x); break; default: q.wait_pull(x); } SA_ASSERT(x.v == 1, R_SAME); }
  else { q.close(); Tr k(7); if (sa_bool()) { try { q.push(boost::move(k)); } catch (boost::sync_queue_is_closed&) {} } else q.try_push(boost::move(k)); SA_ASSERT(k.v == 7, R_BACK); }
  MUST("taken"); }
ENTRY E_timed_queue() { clk_on(1); sa_frozen = 1; boost::sync_timed_queue<Tr> q; ARG;
  switch (__sa_choose(4)) { case 0: q.push(a, at(0)); break; case 1: q.push(ca, sec(0)); break; case 2: q.try_push(a, at(0)); break; default: q.push(Tr(1), at(0)); } KEPT(a, 1); KEPT(ca, 1); Tr x;
  switch (__sa_choose(4)) { case 0: x = q.pull(); break; case 1: q.pull(x); break; case 2: q.try_pull(x); break; default: q.wait_pull(x); } SA_ASSERT(x.v == 1, R_SAME); MUST("taken"); }
#if V >= 5
template <class E> static void sub(E& ex, Fn& f) { switch (__sa_choose(3)) { case 0: ex.submit(f); break; case 1: ex.submit(Fn()); break; default: { Fn g(f); ex.submit(boost::move(g)); } } }
// each thread of a pool runs the function given for its start
struct AtEntry { Tr t; AtEntry() : t(60) {} void operator()(boost::executors::basic_thread_pool&) const { SA_ASSERT(t.v == 60, R_SAME); calls = calls + 1; } };
THREADED(pool_entry) { AtEntry h; const AtEntry c;
  switch (__sa_choose(4)) { case 0: { boost::executors::basic_thread_pool e(2, h); break; } case 1: { boost::executors::basic_thread_pool e(2, c); break; } case 2: { boost::executors::basic_thread_pool e(2, AtEntry()); break; } default: { AtEntry m; boost::executors::basic_thread_pool e(2, boost::move(m)); } }
  KEPT(h.t, 60); KEPT(c.t, 60); SA_ASSERT(calls == 2, R_CALL); MUST("entered"); __sa_stop(); }
THREADED(executors) { Fn f; boost::executors::inline_executor in; boost::executors::loop_executor lp;
  switch (__sa_choose(10)) {
    case 0: sub(in, f); break;
    case 1: sub(lp, f); lp.run_queued_closures(); break;
    case 2: { boost::executors::generic_executor_ref r(lp); sub(r, f); lp.run_queued_closures(); break; }
    case 3: { boost::executor_adaptor<boost::executors::inline_executor> e; if (sa_bool()) sub(e, f); else { boost::executor& b = e; sub(b, f); } break; }
    case 4: { boost::executors::thread_executor e; sub(e, f); break; }
    case 5: { boost::executors::basic_thread_pool e(1); sub(e, f); e.close(); e.join(); break; }
    case 6: { boost::executors::serial_executor_cont e(in); sub(e, f); break; }
    case 7: { boost::executors::serial_executor e(in); sub(e, f); break; }
    case 8: { boost::user_scheduler us; sub(us, f); us.run_queued_closures(); break; }
    default: { FM m; lp.submit(boost::move(m)); lp.run_queued_closures(); break; }
  } KF; MUST("arrived"); __sa_stop(); }
THREADED(executor_async) { ARG; boost::executors::inline_executor in; Fn f;
  switch (__sa_choose(3)) {
    case 0: { auto r = boost::async(in, f, a, b); SA_ASSERT(r.get() == 5, R_SAME); KF; KEPT(a, 1); KEPT(b, 2); break; }
    case 1: { auto r = boost::async(in, f); r.get(); KF; break; }
    default: { auto g = boost::make_ready_future(9).then(in, FC()); SA_ASSERT(g.get() == 6, R_SAME); CALLED; }
  } MUST("arrived"); __sa_stop(); }
struct Sch : boost::executors::detail::scheduled_executor_base<> { template <class D> boost::executors::at_executor<Sch> at(D const& d) { return boost::executors::at_executor<Sch>(*this, d); } void run() { this->_workq.pull()(); } };
ENTRY E_schedulers() { clk_on(1); sa_frozen = 1; Sch s; Fn f; boost::executors::inline_executor in;
  switch (__sa_choose(5)) {
    case 0: if (sa_bool()) s.submit_at(f, ::at(0)); else s.submit_after(f, boost::chrono::duration_cast<boost::chrono::steady_clock::duration>(sec(0))); break;
    case 1: { boost::executors::at_executor<Sch> e(s, ::at(0)); sub(e, f); break; }
    case 2: { boost::executors::resubmit_at_executor<Sch, boost::executors::inline_executor> e(s, in, ::at(0)); sub(e, f); break; }
    case 3: { boost::executors::at_executor<Sch> e(s, ::at(0)); e.on(in).submit(f); break; }
    default: { boost::executors::scheduler_executor_wrapper<Sch, boost::executors::inline_executor> w(s, in); if (sa_bool()) w.at(::at(0)).submit(f); else { const Fn c; w.after(sec(0)).submit(c); SA_ASSERT(c.t.v == 50, R_KEPT); } break; }
  } s.run(); KF; MUST("arrived"); }
#endif
