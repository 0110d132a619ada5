// C27: scoped threads and thread guards
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/scoped_thread.hpp>
#include <boost/thread/thread_guard.hpp>
#define R_POLICY "the policy is applied exactly once to the thread owned at destruction or assignment"
#define R_MOVED "a moved-from scoped thread owns nothing"
#define R_OWN "a scoped thread owns the thread it was given or started"
#define R_FWD "operations are those of the owned thread"
#define R_JOINED "a joining policy returns only when the thread has ended"
#define R_INT "an interruption pending for the destroying thread neither escapes nor is lost"
#define R_DETACH "a detaching policy detaches the thread once and does not wait"
#define R_EXC "the policy is applied when the scope is left by an exception"
#define R_IDLE "a thread that is not joinable is left alone"
struct Boom { };
static int pol_calls, pol_id, live_id[4], calls, last_call, last_id, nstart;   // live_id: 1 owned by somebody
// a recording thread type
struct Mock { typedef int id; typedef int native_handle_type; int i;
  Mock() noexcept : i(0) {} explicit Mock(int k, int) : i(k) {} template <class F, class = decltype(std::declval<F&>()())> explicit Mock(F f) : i(f()) { nstart = nstart + 1; } template <class F> Mock(F f, int* p) : i(f() + *p) { nstart = nstart + 1; }
  Mock(Mock&& o) noexcept : i(o.i) { o.i = 0; } Mock& operator=(Mock&& o) noexcept { SA_ASSERT(&o == this || !live_id[i] || !i, R_POLICY); int t = o.i; o.i = 0; i = t; return *this; } Mock(const Mock&) = delete; Mock& operator=(const Mock&) = delete; void swap(Mock& o) noexcept { int t = i; i = o.i; o.i = t; }
  void rec(int c) { calls = calls + 1; last_call = c; last_id = i; }
  bool joinable() const noexcept { return i != 0; } void join() { rec(1); i = 0; } void detach() { rec(2); i = 0; } void interrupt() { rec(3); } bool interruption_requested() const noexcept { return i == 2; } int get_id() const noexcept { return i; } int native_handle() noexcept { return i + 10; }
  template <class D> bool try_join_for(const D& d) { rec(4); return d.count() == 5; } template <class D> bool try_join_until(const D& d) { rec(5); return d.time_since_epoch().count() == 5; } static unsigned hardware_concurrency() noexcept { return 7; } static unsigned physical_concurrency() noexcept { return 8; } };
template <bool B> struct Pol { void operator()(Mock& t) { pol_calls = pol_calls + 1; pol_id = t.i; if (t.i) { SA_ASSERT(live_id[t.i], R_POLICY); live_id[t.i] = 0; } } };
typedef boost::scoped_thread<Pol<true>, Mock> ST; typedef boost::strict_scoped_thread<Pol<true>, Mock> SST; typedef boost::thread_guard<Pol<true>, Mock> TG;
static int next_id; static int fnew() { return next_id; } struct Fnew { int operator()() { return next_id; } };
static ST make(int k) {
  live_id[k] = 1; next_id = k; int n = nstart;
  switch (__sa_choose(4)) { case 0: { Mock m(k, 0); ST s(boost::move(m)); SA_ASSERT(m.i == 0, R_OWN); return s; } case 1: { ST s((Fnew())); SA_ASSERT(nstart == n + 1, R_OWN); return s; } case 2: { int z = 0; ST s(&fnew, &z); SA_ASSERT(nstart == n + 1, R_OWN); return s; } default: { ST s(&fnew); return s; } }
}
ENTRY E_history() {
  __sa_opt("coarse", 1); calls = pol_calls = nstart = 0; for (int i = 0; i < 4; i++) live_id[i] = 0; int own[2] = {0, 0};
  try {
    ST h[2];
    while (sa_bool()) { __sa_defer(); pol_calls = 0; calls = 0; nstart = 0; pol_id = -1; int i = __sa_choose(2), o = 1 - i;
      switch (__sa_choose(8)) {
        case 0: { int k = 1; while (k < 3 && live_id[k]) k = k + 1; if (live_id[k]) __sa_stop(); ST s(make(k)); int was = own[i]; pol_calls = 0; h[i] = boost::move(s); SA_ASSERT(pol_calls == 1 && pol_id == was, R_POLICY); own[i] = k; SA_ASSERT(!s.joinable() && s.get_id() == 0, R_MOVED); MUST("given"); break; }
        case 1: { int was = own[i]; h[i] = boost::move(h[o]); SA_ASSERT(pol_calls == 1 && pol_id == was, R_POLICY); own[i] = own[o]; own[o] = 0; MUST("assigned"); break; }
        case 2: { ST t(boost::move(h[i])); SA_ASSERT(t.get_id() == own[i] && h[i].get_id() == 0 && pol_calls == 0, R_MOVED); if (sa_bool()) { t.swap(h[i]); } else swap(t, h[i]); SA_ASSERT(t.get_id() == 0 && h[i].get_id() == own[i] && pol_calls == 0, R_OWN); break; }
        case 3: if (sa_bool()) h[0].swap(h[1]); else swap(h[0], h[1]); { int t = own[0]; own[0] = own[1]; own[1] = t; } SA_ASSERT(pol_calls == 0 && calls == 0, R_POLICY); break;
        case 4: { ST t(boost::move(h[i])); int was = own[i]; own[i] = 0; pol_calls = 0; t.~ST(); SA_ASSERT(pol_calls == 1 && pol_id == was, R_POLICY); new (&t) ST; MUST("destroyed"); break; }
        case 5: if (!own[i]) __sa_stop(); h[i].join(); SA_ASSERT(calls == 1 && last_call == 1 && last_id == own[i] && pol_calls == 0, R_FWD); live_id[own[i]] = 0; own[i] = 0; break;
        case 6: if (!own[i]) __sa_stop(); h[i].detach(); SA_ASSERT(calls == 1 && last_call == 2 && last_id == own[i] && pol_calls == 0, R_FWD); live_id[own[i]] = 0; own[i] = 0; break;
        default: if (sa_bool()) throw Boom(); 
          h[i].interrupt(); SA_ASSERT(calls == 1 && last_call == 3 && last_id == own[i], R_FWD); SA_ASSERT(h[i].interruption_requested() == (own[i] == 2), R_FWD); SA_ASSERT(h[i].native_handle() == own[i] + 10 && ST::hardware_concurrency() == 7, R_FWD);
          { int d = __sa_choose(2) + 5; bool r = h[i].try_join_for(boost::chrono::seconds(d)); SA_ASSERT(r == (d == 5) && last_call == 4 && last_id == own[i], R_FWD); r = h[i].try_join_until(boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(d))); SA_ASSERT(r == (d == 5) && last_call == 5 && last_id == own[i] && calls == 3 && pol_calls == 0, R_FWD); }
      }
      for (int k = 0; k < 2; k++) SA_ASSERT(h[k].get_id() == own[k] && h[k].joinable() == (own[k] != 0), R_OWN);
    }
    pol_calls = 0; h[0] = ST(); SA_ASSERT(pol_calls == 2, R_POLICY); own[0] = 0; pol_calls = 0;
  } catch (Boom&) { pol_calls = 2; MUST("exception"); }
  SA_ASSERT(pol_calls == 2, R_POLICY); for (int i = 1; i < 4; i++) SA_ASSERT(!live_id[i], R_POLICY); MUST("end");
}
// a policy that fails while an assignment applies it: each thread is still treated once in the end
static int fail; struct FPol { void operator()(Mock& t) { if (fail && t.i && boost::this_thread::interruption_enabled()) { fail = 0; throw Boom(); } Pol<true>()(t); } }; typedef boost::scoped_thread<FPol, Mock> FT;
ENTRY E_assign_fails() {
  calls = pol_calls = 0; for (int i = 0; i < 4; i++) live_id[i] = 0; fail = 0; bool threw = false;
  { Mock m1(1, 0); FT a(boost::move(m1)); live_id[1] = 1; { Mock m2(2, 0); FT b(boost::move(m2)); live_id[2] = 1; fail = sa_bool(); try { a = boost::move(b); } catch (Boom&) { threw = true; }
    if (threw) { SA_ASSERT(live_id[1] && live_id[2] && a.get_id() == 1, R_EXC); } else { SA_ASSERT(!live_id[1] && live_id[2] && a.get_id() == 2 && b.get_id() == 0, R_POLICY); MUST("assigned"); } }
    if (threw) SA_ASSERT(!live_id[2], R_EXC); }
  SA_ASSERT(!live_id[1] && !live_id[2], R_POLICY); MUST("end");
}
template <class G, int KIND> static void strict() {
  calls = pol_calls = 0; for (int i = 0; i < 4; i++) live_id[i] = 0; bool thr = sa_bool(), none = sa_bool() && KIND; int k = none ? 0 : 1; if (k) live_id[1] = 1; next_id = 1; bool in = false;
  try { Mock m(k, 0);
    if (KIND == 2) { TG g(m); SA_ASSERT(m.i == k && pol_calls == 0, R_OWN); in = true; if (thr) throw Boom(); }
    else if (KIND == 1) { SST g(boost::move(m)); SA_ASSERT(m.i == 0 && pol_calls == 0, R_OWN); in = true; if (thr) throw Boom(); }
    else if (sa_bool()) { SST g((Fnew())); SA_ASSERT(pol_calls == 0, R_OWN); in = true; if (thr) throw Boom(); } else { int z = 0; SST g(&fnew, &z); in = true; if (thr) throw Boom(); }
    SA_ASSERT(!thr, R_EXC); } catch (Boom&) { SA_ASSERT(thr, R_EXC); MUST("exception"); }
  SA_ASSERT(in && pol_calls == 1 && pol_id == k && calls == 0, R_POLICY); MUST("applied");
}
ENTRY E_strict_fun() { strict<SST, 0>(); } ENTRY E_strict_thread() { strict<SST, 1>(); } ENTRY E_guard() { strict<TG, 2>(); }
// --- the policies on real threads
static int ran, stage, intr, loops; static boost::thread* me_t;
static inline void sa_yield() { int i = sa_me(); sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
static void body() { bool i = false; do { sa_yield(); try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { i = true; } } while (loops && !i); if (i) intr = 1; ran = 1; MUST("ran"); }
enum { JOIN, DETACH, DETACH1, INTJOIN };
template <class P, int K, int W> static void policy_driver(void*) {
  ran = intr = 0; loops = 0; bool thr = sa_bool(), pend = false, early = false; { boost::this_thread::get_id(); }
  if (stage) { stage = 2; while (stage != 3) sa_yield(); pend = true; }      // an interruption of this thread is pending
  try {
    loops = K == INTJOIN;
    if (W == 0) { boost::scoped_thread<P> s(&body); if (K != DETACH && sa_bool()) { loops = 0; boost::this_thread::disable_interruption d; s.join(); early = true; } if (thr) throw Boom(); }
    else if (W == 1) { boost::strict_scoped_thread<P> s((boost::thread(&body))); if (thr) throw Boom(); }
    else if (W == 2) { boost::thread t(&body); { boost::thread_guard<P> s(t); if (thr) throw Boom(); } SA_ASSERT(!t.joinable(), R_POLICY); }
    else { boost::scoped_thread<P> a(&body), b; b = boost::move(a); SA_ASSERT(!a.joinable() && b.joinable(), R_MOVED); if (thr) throw Boom(); }
  } catch (Boom&) { SA_ASSERT(thr, R_EXC); }
  if (K == JOIN || K == INTJOIN || early) { SA_ASSERT(ran && sa_spawn_join[0] == 1 && !sa_spawn_detach[0], R_JOINED); } else { SA_ASSERT(!sa_spawn_join[0] && sa_spawn_detach[0] == 1, R_DETACH); }
  if (K != INTJOIN) SA_ASSERT(!intr, R_POLICY); else if (!early) SA_ASSERT(intr, R_POLICY);
  if (pend) SA_ASSERT(boost::this_thread::interruption_requested(), R_INT); MUST("policy");
}
static void (*drv)(void*);
static void t_outer(void*) { boost::thread t(drv, (void*)0); if (stage) { while (stage != 2) sa_yield(); t.interrupt(); stage = 3; } t.join(); MUST("outer"); }
template <class P, int K, int W> static void policy() { stage = 0; sa_run(1, policy_driver<P, K, W>); }
#define POL(n, P, K) ENTRY E_##n##_scoped() { policy<P, K, 0>(); } ENTRY E_##n##_strict() { policy<P, K, 1>(); } ENTRY E_##n##_guard() { policy<P, K, 2>(); } ENTRY E_##n##_moved() { policy<P, K, 3>(); }
POL(join, boost::join_if_joinable, JOIN)
POL(detach_if, boost::detach_if_joinable, DETACH1)
POL(interrupt, boost::interrupt_and_join_if_joinable, INTJOIN)
POL(detach, boost::detach, DETACH)
// a pending interruption of the thread that leaves the scope
template <class P, int K, int W> static void inner(void*) {
  ran = intr = 0; loops = 0; stage = 2; while (stage != 3) sa_yield();
  if (W == 0) { boost::scoped_thread<P> s(&body); } else if (W == 1) { boost::strict_scoped_thread<P> s((boost::thread(&body))); } else { boost::thread t(&body); { boost::thread_guard<P> s(t); } }
  SA_ASSERT(ran && sa_spawn_join[1] == 1, R_JOINED); SA_ASSERT(boost::this_thread::interruption_requested(), R_INT); SA_ASSERT(boost::this_thread::interruption_enabled(), R_INT); MUST("inner");
}
template <class P, int K, int W> static void pending() { stage = 1; drv = inner<P, K, W>; sa_run(1, t_outer); }
ENTRY E_pending_scoped() { pending<boost::join_if_joinable, JOIN, 0>(); }
ENTRY E_pending_strict() { pending<boost::join_if_joinable, JOIN, 1>(); }
ENTRY E_pending_guard() { pending<boost::join_if_joinable, JOIN, 2>(); }
ENTRY E_pending_interrupt() { pending<boost::interrupt_and_join_if_joinable, INTJOIN, 0>(); }
ENTRY E_pending_interrupt_guard() { pending<boost::interrupt_and_join_if_joinable, INTJOIN, 2>(); }
