// C09: thread handles - every started thread joined or detached at most once, join after completion, exact ownership
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#define R_JOINABLE "a handle is joinable exactly while it owns a started thread that was not joined, detached or moved away"
#define R_DONE "join returns only after the thread's function has finished"
#define R_ENDED "join and successful timed joins, also by a second joiner, return only after the thread was joined with the system"
#define R_JOINED "a successful join releases the thread exactly once (pthread_join), a detach exactly once (pthread_detach)"
#define R_RUN "the thread function runs exactly once with the given arguments"
#define R_FAIL "a failed start throws thread_resource_error and leaves nothing behind"
#define R_NOTJ "operations on a handle that is not joinable are reported and change nothing"
#define R_SELF "joining oneself is reported as a deadlock instead of blocking"
#define R_TMO "a timed join returns true exactly when it joined the thread"
#define R_LEAK "no thread data remains once all handles are gone and all threads have ended"
#define R_DTOR "destroying or overwriting a joinable handle terminates (or detaches, by configuration)"
#define R_ID "ids identify the thread: equal to the id seen inside, distinct between threads, not-any-thread for an empty handle"
#include <functional>
#if BOOST_THREAD_VERSION >= 4
#define REF std::ref
#else
#define REF boost::ref
#endif
typedef boost::chrono::milliseconds MS;
static int runs[4], nstart, canfail, base, driver_done, failing;
static int owner[2];                 // which started thread handle k owns, -1: none
static int released[4];              // 0 no, 1 joined, 2 detached
static boost::thread::id inside[4];
extern "C" int env_create_fault() { if (canfail && sa_bool()) { failing = 1; return 11; } return 0; }
struct Arg { int v; Arg(int x) : v(x) {} Arg(const Arg& o) : v(o.v) {} };
static void body(int k) { SA_ASSERT(!runs[k], R_RUN); runs[k] = 1; inside[k] = boost::this_thread::get_id(); MUST("runs"); sa_T[sa_me()].st = T_READY; __sa_co_park(); sa_T[sa_me()].st = T_RUN; runs[k] = 2; }
static void fn0() { body(0); } static void fn1(int k) { body(k); } static void fn2(int k, const Arg& a) { SA_ASSERT(a.v == 7, R_RUN); body(k); }
struct Fun { int k; constexpr explicit Fun(int x) : k(x) {} void operator()() { body(k); } void mem(int k2, Arg a) { SA_ASSERT(a.v == 9, R_RUN); body(k2); } };
struct MoveFun { int k; explicit MoveFun(int x) : k(x) {} MoveFun(MoveFun&& o) : k(o.k) { o.k = -1; } MoveFun(const MoveFun&) = delete; void operator()() { SA_ASSERT(k >= 0, R_RUN); body(k); } };
static Fun funs[4] = {Fun(0), Fun(1), Fun(2), Fun(3)};
static int form, maxn;
static void start(boost::thread& t, int h) {
  int k = nstart; int n = sa_nspawn; failing = 0;
  try {
    switch (form) {
      case 0: { boost::thread x(&fn1, k); t = boost::move(x); break; }
      case 1: { Fun f(k); boost::thread x(f); t.swap(x); break; }
      case 2: { boost::thread x(&fn2, k, Arg(7)); swap(t, x); break; }
      case 3: { boost::thread x(boost::move(MoveFun(k))); t = boost::move(x); break; }
      case 4: { boost::thread x(&Fun::mem, &funs[k], k, Arg(9)); t.swap(x); break; }
      case 5: { boost::thread x(REF(funs[k])); boost::thread y(boost::move(x)); SA_ASSERT(!x.joinable() && y.joinable(), R_JOINABLE); t.swap(y); break; }
      case 6: { boost::thread::attributes a; a.set_stack_size(100000); const boost::thread::attributes& ca = a; Fun f(k); boost::thread x(ca, f); t.swap(x); break; }
      case 7: { boost::thread x([=] { body(k); }); t.swap(x); break; }
    }
    SA_ASSERT(!failing, R_FAIL); SA_ASSERT(sa_nspawn == n + 1, R_RUN);
    owner[h] = k; nstart = k + 1;
  } catch (boost::thread_resource_error&) { SA_ASSERT(failing && sa_nspawn == n, R_FAIL); MUST("start fails"); }
}
static boost::thread* hs[2];
static void check(int h) {
  SA_ASSERT(hs[h]->joinable() == (owner[h] >= 0), R_JOINABLE);
  boost::thread::id i = hs[h]->get_id();
  SA_ASSERT((i == boost::thread::id()) == (owner[h] < 0), R_ID);
  SA_ASSERT(i != boost::this_thread::get_id(), R_ID);
  if (owner[h] >= 0 && runs[owner[h]]) SA_ASSERT(i == inside[owner[h]], R_ID);
  if (owner[0] >= 0 && owner[1] >= 0) SA_ASSERT(hs[0]->get_id() != hs[1]->get_id(), R_ID);
}
static void joined(int k) { SA_ASSERT(runs[k] == 2, R_DONE); SA_ASSERT(sa_spawn_state[k] == 2 && sa_spawn_join[k] && !sa_spawn_detach[k], R_JOINED); released[k] = 1; }
static void expect_terminate(bool yes) { __sa_opt("terminate_ok", yes); }
static void op(int h) {
  boost::thread& t = *hs[h]; boost::thread& u = *hs[1 - h]; int k = owner[h];
  switch (__sa_choose(10)) {
    case 0: if (k >= 0 || nstart >= maxn) __sa_stop(); start(t, h); break;
    case 1: try { t.join(); SA_ASSERT(k >= 0, R_NOTJ); joined(k); owner[h] = -1; MUST("join"); } catch (boost::thread_resource_error& e) { SA_ASSERT(k < 0, R_NOTJ); MUST("join refused"); } break;
    case 2: { try { bool r = t.try_join_for(MS(5)); SA_ASSERT(k >= 0, R_NOTJ); SA_ASSERT(r == (sa_spawn_join[k] != 0), R_TMO); if (r) { joined(k); owner[h] = -1; MUST("try_join joins"); } else { MUST("try_join gives up"); } } catch (boost::thread_resource_error&) { SA_ASSERT(k < 0, R_NOTJ); } break; }
    case 3: t.detach(); if (k >= 0) { SA_ASSERT(sa_spawn_detach[k] && !sa_spawn_join[k], R_JOINED); released[k] = 2; } owner[h] = -1; break;
    case 4: t.swap(u); owner[h] = owner[1 - h]; owner[1 - h] = k; break;
    case 5: { // move assignment onto an empty or joinable handle
#ifdef BOOST_THREAD_PROVIDES_THREAD_MOVE_ASSIGN_CALLS_TERMINATE_IF_JOINABLE
      bool term = k >= 0; expect_terminate(term); t = boost::move(u); SA_ASSERT(!term, R_DTOR); expect_terminate(false);
#else
      t = boost::move(u); if (k >= 0) { SA_ASSERT(sa_spawn_detach[k], R_DTOR); released[k] = 2; }
#endif
      owner[h] = owner[1 - h]; owner[1 - h] = -1; break; }
    case 6: { boost::thread x(boost::move(t)); SA_ASSERT(!t.joinable() && x.joinable() == (k >= 0), R_JOINABLE); t = boost::move(x); break; }
    case 7: { if (k < 0) __sa_stop(); int n = released[k];   // destruction of a joinable handle
#ifdef BOOST_THREAD_PROVIDES_THREAD_DESTRUCTOR_CALLS_TERMINATE_IF_JOINABLE
      expect_terminate(true); { boost::thread x(boost::move(t)); } SA_ASSERT(false, R_DTOR);
#else
      { boost::thread x(boost::move(t)); } SA_ASSERT(sa_spawn_detach[k] && !sa_spawn_join[k], R_DTOR); released[k] = 2; owner[h] = -1;
#endif
      break; }
#ifdef BOOST_THREAD_USES_DATETIME
    case 8: { try { bool r = t.timed_join(boost::posix_time::milliseconds(5)); SA_ASSERT(k >= 0, R_NOTJ); SA_ASSERT(r == (sa_spawn_join[k] != 0), R_TMO); if (r) { joined(k); owner[h] = -1; } } catch (boost::thread_resource_error&) { SA_ASSERT(k < 0, R_NOTJ); } break; }
#endif
    case 9: { try { bool r = t.try_join_until(boost::chrono::system_clock::now()); SA_ASSERT(k >= 0, R_NOTJ); SA_ASSERT(r == (sa_spawn_join[k] != 0), R_TMO); if (r) { joined(k); owner[h] = -1; } } catch (boost::thread_resource_error&) { SA_ASSERT(k < 0, R_NOTJ); } break; }
    default: __sa_stop();
  }
  check(h); check(1 - h);
}
static void driver(void*) {
  { boost::this_thread::get_id(); }
  sa_run_key_dtors(__sa_tid()); base = __sa_live_heap();
  { boost::thread a, b; hs[0] = &a; hs[1] = &b;
    while (true) { sa_idle(); if (sa_bool()) break; op(nstart == 0 ? 0 : __sa_choose(2)); }
    for (int h = 0; h < 2; h++) if (owner[h] >= 0) { int k = owner[h]; if (hs[h]->joinable()) { hs[h]->detach(); released[k] = 2; } }
  }
  for (int k = 0; k < nstart; k++) SA_ASSERT(released[k] && (sa_spawn_join[k] != 0) == (released[k] == 1) && (sa_spawn_detach[k] != 0) == (released[k] == 2), R_JOINED);
  sa_run_key_dtors(__sa_tid()); driver_done = 1;
}
static void rest() {
  if (!driver_done) return; for (int k = 0; k < nstart; k++) { if (sa_spawn_state[k] != 2) return; SA_ASSERT(runs[k] == 2, R_RUN); }
  for (int k = 0; k < 4; k++) inside[k] = boost::thread::id();
  SA_ASSERT(__sa_live_heap() <= base, R_LEAK); MUST("all gone");
}
static void go(int f, int cf, int n = 1) { form = f; maxn = n; canfail = cf; owner[0] = owner[1] = -1; sa_at_rest = rest; sa_spurious = 0; sa_run(1, driver); }
ENTRY E_fn_arg() { go(0, 0); }
ENTRY E_functor() { go(1, 0, 2); }
ENTRY E_two_args() { go(2, 1); }
ENTRY E_move_only() { go(3, 1, 1); }
ENTRY E_member() { go(4, 0); }
ENTRY E_ref_moved() { go(5, 0); }
ENTRY E_attributes() { go(6, 1); }
ENTRY E_lambda() { go(7, 1); }
// a thread that tries to join itself
static boost::thread* self;
static int selfready;
static void self_body() { while (!selfready) sa_idle(); boost::thread& t = *self; bool thrown = false; try { if (sa_bool()) t.join(); else t.try_join_for(MS(5)); } catch (boost::thread_resource_error& e) { thrown = true; } SA_ASSERT(thrown && t.joinable(), R_SELF); selfready = 2; }
static void self_driver(void*) { boost::thread t(self_body); self = &t; selfready = 1; while (selfready != 2) sa_idle(); t.join(); MUST("joined afterwards"); }
ENTRY E_self_join() { selfready = 0; sa_run(1, self_driver); }
// started detached by attributes
static void det_driver(void*) { { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); base = __sa_live_heap();
  { boost::thread::attributes a; pthread_attr_setdetachstate(a.native_handle(), PTHREAD_CREATE_DETACHED); const boost::thread::attributes& ca = a; Fun f(0); boost::thread t(ca, f); nstart = 1; SA_ASSERT(!t.joinable(), R_JOINABLE); }
  SA_ASSERT(!sa_spawn_join[0], R_JOINED); released[0] = 2; sa_run_key_dtors(__sa_tid()); driver_done = 1; }
ENTRY E_detached_attribute() { canfail = 0; sa_at_rest = rest; sa_run(1, det_driver); }
// two threads join one handle
static boost::thread* shared; static int ready2, jmode;
static void jn(void* p) { int i = (int)(long)p; if (i == 0) { boost::thread t(&fn1, 0); shared->swap(t); ready2 = 1; } else while (!ready2) sa_idle(); try { if (shared->joinable()) { if (i == jmode) shared->join(); else while (!shared->try_join_for(MS(5))) { if (sa_probe) __sa_stop(); } SA_ASSERT(runs[0] == 2, R_DONE); SA_ASSERT(sa_spawn_state[0] == 2 && sa_spawn_join[0], R_ENDED); } } catch (boost::thread_resource_error&) { SA_ASSERT(sa_spawn_join[0], R_NOTJ); } }
static void two_joiners(int j) { jmode = j; boost::thread t; shared = &t; ready2 = 0; sa_preempt_after = 1; sa_run(2, jn); }
ENTRY E_two_joiners() { two_joiners(1); }
ENTRY E_two_joiners_timed_second() { two_joiners(0); }
ENTRY E_two_joiners_timed() { two_joiners(2); }
