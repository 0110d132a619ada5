// C17: waiting for any or all of several futures
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once future
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <vector>
#define R_ANY "waiting for any returns a ready future of the set"
#define R_ALL "waiting for all returns only when all are ready"
#define R_FREE "threads waiting for futures do not block each other for ever"
#define R_WHEN_ALL "when_all is ready only when all inputs are, and delivers every input in order"
#define R_WHEN_ANY "when_any is ready only when an input is, and delivers every input in order"
#define R_EMPTY "an empty set is handled at once"
#define R_MOVE "when_all and when_any take the inputs over"
#define R_LEAK "every shared state is released with its last owner"
struct Err { int id; };
typedef boost::BOOST_THREAD_FUTURE<int> F; typedef boost::BOOST_THREAD_FUTURE<void> FV; typedef boost::shared_future<int> S;
static int set_[3], bad[3], form, nset; static void *P[3], *fut[3]; static int dup_, empt;
static void settle(int i) { boost::promise<int>& p = *(boost::promise<int>*)P[i]; set_[i] = 1; if (bad[i]) p.set_exception(Err{i}); else p.set_value(i); }
static void rest() { for (int i = 0; i < sa_nt; i++) SA_ASSERT(sa_T[i].st != T_BLOCK, R_FREE); }
static void back(int n) { if (sa_probe) { } SA_ASSERT(n >= 0 && n < 3 && set_[n], R_ANY); MUST("any"); }
// --- wait_for_any / wait_for_all on unique futures, promises satisfied by other threads
static void waiter() {
  F& a = *(F*)fut[0]; F& b = *(F*)fut[1]; F& c = *(F*)fut[2];
  switch (form) {
    case 0: { int n = boost::wait_for_any(a, b); back(n); SA_ASSERT((n ? b : a).is_ready(), R_ANY); break; }
    case 1: { int n = boost::wait_for_any(a, b, c); back(n); break; }
    case 2: { F v[3] = {boost::move(a), boost::move(b), boost::move(c)}; F* r = boost::wait_for_any(v, v + 3); SA_ASSERT(r != v + 3 && r->valid() && r->is_ready(), R_ANY); back(r - v); break; }
    case 3: { boost::wait_for_all(a, b); SA_ASSERT(set_[0] && set_[1] && a.is_ready() && b.is_ready(), R_ALL); MUST("all"); break; }
    case 4: { boost::wait_for_all(a, b, c); SA_ASSERT(set_[0] && set_[1] && set_[2], R_ALL); MUST("all"); break; }
    default: { F v[2] = {boost::move(a), boost::move(b)}; boost::wait_for_all(v, v + 2); SA_ASSERT(set_[0] && set_[1] && v[0].is_ready() && v[1].is_ready(), R_ALL); MUST("all"); break; }
  }
}
static void t_any(void* q) { int i = (int)(long)q; if (i) { if (i == 2 && nset == 1) return; settle(i - 1); } else waiter(); }
static void any(int f, int ns, int nt = 3) {
  form = f; nset = ns; sa_at_rest = rest; for (int i = 0; i < 3; i++) { set_[i] = 0; bad[i] = 0; } bad[1] = sa_bool();
  boost::promise<int> p[3]; F u[3]; for (int i = 0; i < 3; i++) { P[i] = &p[i]; u[i] = p[i].get_future(); fut[i] = &u[i]; }
  sa_preempt_after = 1; sa_run(nt, t_any);
}
ENTRY E_any2() { any(0, 2); }
ENTRY E_any2_one() { any(0, 1, 2); }
ENTRY E_any3() { any(1, 2); }
ENTRY E_any_range() { any(2, 2); }
ENTRY E_all2() { any(3, 2); }
ENTRY E_all3() { any(4, 2, 4); }
ENTRY E_all_range() { any(5, 2); }
// --- missing states in the set, already ready inputs
ENTRY E_any_holes() {
  boost::promise<int> p; P[0] = P[1] = P[2] = &p; F f[3]; int k = __sa_choose(3); for (int i = 0; i < 3; i++) { set_[i] = bad[i] = 0; } f[k] = p.get_future(); settle(k);
  if (sa_bool()) { F* r = boost::wait_for_any(f, f + 3); SA_ASSERT(r == f + k, R_ANY); } else { int n = boost::wait_for_any(f[0], f[1], f[2]); SA_ASSERT(n == k, R_ANY); } MUST("found");
}
ENTRY E_any_empty() { F f[1]; F* r = boost::wait_for_any(f, f); SA_ASSERT(r == f, R_EMPTY); boost::wait_for_all(f, f); MUST("empty"); }
static void cb(boost::promise<int>& p) { __sa_note("cb"); p.set_value(1); }
ENTRY E_any_callback() { // a lazily computed future is asked for its value
  boost::promise<int> p, q; F a = p.get_future(), b = q.get_future(); q.set_wait_callback(cb); int n; if (sa_bool()) n = boost::wait_for_any(a, b); else { F v[2] = {boost::move(a), boost::move(b)}; n = boost::wait_for_any(v, v + 2) - v; } SA_ASSERT(n == 1, R_ANY); MUST("callback");
}
// --- four and five futures: one becomes ready, or all but one are, and the last one becomes ready while the waiter waits
static int many_n, many_k, many_form, many_late; static boost::promise<int>* mp; static F* mf;
static void many_any() {
  F* f = mf; int n = -1;
  switch (many_form) { case 0: { F* r = boost::wait_for_any(f, f + many_n); n = r - f; break; } default: n = many_n == 4 ? boost::wait_for_any(f[0], f[1], f[2], f[3]) : boost::wait_for_any(f[0], f[1], f[2], f[3], f[4]); }
  SA_ASSERT(n == many_k && set_[0] && f[n].is_ready(), R_ANY); MUST("any of many");
}
static void many_all() {
  F* f = mf;
  switch (many_form) { case 0: boost::wait_for_all(f, f + many_n); break; default: if (many_n == 4) boost::wait_for_all(f[0], f[1], f[2], f[3]); else boost::wait_for_all(f[0], f[1], f[2], f[3], f[4]); }
  SA_ASSERT(set_[0], R_ALL); for (int i = 0; i < many_n; i++) SA_ASSERT(f[i].is_ready(), R_ALL); MUST("all of many");
}
static void t_many_any(void* q) { if (q) { set_[0] = 1; mp[many_k].set_value(1); } else many_any(); }
static void t_many_all(void* q) { if (q) { set_[0] = 1; mp[many_k].set_value(1); } else many_all(); }
template <bool all> static void many(int n, int frm) {
  many_n = n; many_k = __sa_choose(n); many_form = frm; sa_at_rest = rest; set_[0] = 0; sa_spurious_left = 0;
  boost::promise<int> p[5]; F f[5]; for (int i = 0; i < n; i++) f[i] = p[i].get_future(); mp = p; mf = f;
  if (all) for (int i = 0; i < n; i++) if (i != many_k) p[i].set_value(0);
  sa_preempt_after = 1; sa_run(2, all ? t_many_all : t_many_any);
}
ENTRY E_any_4() { many<false>(4, 1); }
ENTRY E_any_5() { many<false>(5, 1); }
ENTRY E_any_range_4() { many<false>(4, 0); }
ENTRY E_any_range_5() { many<false>(5, 0); }
ENTRY E_all_4() { many<true>(4, 1); }
ENTRY E_all_5() { many<true>(5, 1); }
ENTRY E_all_range_5() { many<true>(5, 0); }
// --- several waiters on shared states, in different orders, with repetitions
static void t_shared(void* q) {
  int i = (int)(long)q; if (i == 2) { settle(0); return; }
  S a(*(S*)fut[i]), b(*(S*)fut[1 - i]); S c(dup_ ? a : b);
  int n; if (form) { S v[3] = {a, b, c}; n = boost::wait_for_any(v, v + (dup_ ? 3 : 2)) - v; } else n = dup_ ? boost::wait_for_any(a, b, c) : boost::wait_for_any(a, b);
  S& r = n == 0 ? a : n == 1 ? b : c; SA_ASSERT(r.is_ready() && set_[0], R_ANY); MUST("any");
}
static void shared(int f, int d, int nested) {
  form = f; dup_ = d; sa_at_rest = rest; for (int i = 0; i < 3; i++) set_[i] = bad[i] = 0;
  boost::promise<int> p[2]; S s[2]; for (int i = 0; i < 2; i++) { P[i] = &p[i]; s[i] = S(p[i].get_future()); fut[i] = &s[i]; }
  sa_preempt_nested = nested; sa_preempt_after = 0; sa_run(3, t_shared);
}
ENTRY E_shared_values() { shared(0, 0, 1); }
ENTRY E_shared_range() { shared(1, 0, 1); }
ENTRY E_shared_dup() { shared(0, 1, 0); }
ENTRY E_shared_dup_range() { shared(1, 1, 0); }
// --- a waiter that gives up leaves nothing behind
static void t_int() { try { waiter(); MUST("waited"); } catch (boost::thread_interrupted&) { MUST("interrupted"); } }
static void int_driver(void*) {
  { boost::thread t(&t_int); sa_idle(); bool first = sa_bool(); if (first) settle(0); t.interrupt(); t.join(); if (!first) { settle(0); settle(1); } MUST("joined"); }
}
#ifdef BOOST_THREAD_PROVIDES_INTERRUPTIONS
static void given_up(int f) {
  form = f; for (int i = 0; i < 3; i++) { set_[i] = bad[i] = 0; }
  boost::promise<int> p[3]; F u[3]; for (int i = 0; i < 3; i++) { P[i] = &p[i]; u[i] = p[i].get_future(); fut[i] = &u[i]; }
  sa_spurious = 0; sa_run(1, int_driver);
}
ENTRY E_interrupted() { given_up(0); }
ENTRY E_interrupted_range() { given_up(2); }
#endif
#ifdef BOOST_THREAD_PROVIDES_FUTURE_WHEN_ALL_WHEN_ANY
// --- when_all and when_any
static int wf, inputs; // form
static int later() { set_[1] = 1; return 1; }
template <class G> static void check_input(G& g, int i, const char* rule) { SA_ASSERT(g.valid(), rule); if (g.is_ready()) { SA_ASSERT(set_[i], rule); bool e = false; int v = -1; try { v = g.get(); } catch (Err& x) { e = x.id == i; } SA_ASSERT(bad[i] ? e : v == i, rule); } }
static void check_void(FV& g, const char* rule) { SA_ASSERT(g.valid(), rule); }
template <class G> static void t_when(void* q) {
  int i = (int)(long)q; if (i) { if (i > 2) return; if (i == 2 && empt) return; settle(i - 1); return; }
  G& a = *(G*)fut[0]; G& b = *(G*)fut[1];
  bool all = wf < 2; const char* rule = all ? R_WHEN_ALL : R_WHEN_ANY;
  if (wf % 2) {
    G v[2] = {G(boost::move(a)), G(boost::move(b))}; std::vector<G> w; w.push_back(boost::move(v[0])); w.push_back(boost::move(v[1]));
    boost::future<boost::csbl::vector<G> > r = all ? boost::when_all(w.begin(), w.end()) : boost::when_any(w.begin(), w.end());
    SA_ASSERT(!w[0].valid() && !w[1].valid() && r.valid(), R_MOVE);
    boost::csbl::vector<G> x = r.get(); SA_ASSERT(x.size() == 2, rule);
    if (all) SA_ASSERT(set_[0] && set_[1] && x[0].is_ready() && x[1].is_ready(), rule); else SA_ASSERT(x[0].is_ready() || x[1].is_ready(), rule);
    check_input(x[0], 0, rule); check_input(x[1], 1, rule);
  } else {
    boost::future<boost::csbl::tuple<G, G> > r = all ? boost::when_all(boost::move(a), boost::move(b)) : boost::when_any(boost::move(a), boost::move(b));
    SA_ASSERT(!a.valid() && !b.valid() && r.valid(), R_MOVE);
    boost::csbl::tuple<G, G> x = r.get(); G& x0 = boost::csbl::get<0>(x); G& x1 = boost::csbl::get<1>(x);
    if (all) SA_ASSERT(set_[0] && set_[1] && x0.is_ready() && x1.is_ready(), rule); else SA_ASSERT(x0.is_ready() || x1.is_ready(), rule);
    check_input(x0, 0, rule); check_input(x1, 1, rule);
  }
  MUST("when");
}
static void at_rest_when() { rest(); if (set_[0] && set_[1]) { bool d = true; for (int i = 1; i < sa_nt; i++) if (sa_T[i].st != T_DONE) d = false; (void)d; } }
template <class G> static void when(int f, int one) { wf = f; empt = one; sa_at_rest = at_rest_when; for (int i = 0; i < 3; i++) set_[i] = bad[i] = 0; bad[0] = sa_bool();
  boost::promise<int> p[2]; G u[2]; for (int i = 0; i < 2; i++) { P[i] = &p[i]; u[i] = G(p[i].get_future()); fut[i] = &u[i]; } sa_preempt_after = 0; sa_run(3, t_when<G>); }
ENTRY E_when_all_tuple() { when<F>(0, 0); }
ENTRY E_when_all_vector() { when<F>(1, 0); }
ENTRY E_when_any_tuple() { when<F>(2, 0); }
ENTRY E_when_any_vector() { when<F>(3, 0); }
ENTRY E_when_any_tuple_one() { when<F>(2, 1); }
ENTRY E_when_any_vector_one() { when<F>(3, 1); }
#ifdef SA_THOROUGH
ENTRY E_when_all_shared() { when<S>(1, 0); }
ENTRY E_when_any_shared() { when<S>(3, 0); }
#endif
// ready and deferred inputs, everything in one thread
static int later_runs; static int later5() { later_runs = later_runs + 1; set_[1] = 1; return 1; }
static void t_ready(void*) {
  { boost::this_thread::get_id(); } sa_run_key_dtors(__sa_tid()); int base = __sa_live_heap();
  { boost::promise<int> p[2]; P[0] = &p[0]; P[1] = &p[1]; F a = p[0].get_future(), b; bool def = sa_bool(); bool all = sa_bool(); if (all || sa_bool()) settle(0); if (def) b = boost::async(boost::launch::deferred, &later5); else { b = p[1].get_future(); settle(1); }
    if (sa_bool()) { std::vector<F> w; w.push_back(boost::move(a)); w.push_back(boost::move(b)); boost::future<boost::csbl::vector<F> > r = all ? boost::when_all(w.begin(), w.end()) : boost::when_any(w.begin(), w.end());
      boost::csbl::vector<F> x = r.get(); SA_ASSERT(x.size() == 2 && x[0].valid() && x[1].valid(), R_WHEN_ALL); if (all) SA_ASSERT(x[0].is_ready() && x[1].is_ready() && x[1].get() == 1, R_WHEN_ALL); else SA_ASSERT(x[0].is_ready() || x[1].is_ready(), R_WHEN_ANY); }
    else { boost::future<boost::csbl::tuple<F, F> > r = all ? boost::when_all(boost::move(a), boost::move(b)) : boost::when_any(boost::move(a), boost::move(b));
      boost::csbl::tuple<F, F> x = r.get(); F& x0 = boost::csbl::get<0>(x); F& x1 = boost::csbl::get<1>(x); SA_ASSERT(x0.valid() && x1.valid(), R_WHEN_ALL); if (all) SA_ASSERT(x0.is_ready() && x1.is_ready() && x1.get() == 1, R_WHEN_ALL); else SA_ASSERT(x0.is_ready() || x1.is_ready(), R_WHEN_ANY); }
    SA_ASSERT(later_runs <= 1, R_WHEN_ALL);
  }
  for (int i = 0; i < sa_nspawn; i++) env_join(i);
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() == base, R_LEAK); MUST("done");
}
ENTRY E_when_ready() { later_runs = 0; for (int i = 0; i < 3; i++) set_[i] = bad[i] = 0; sa_run(1, t_ready); }
// three inputs: which one becomes ready first (any) or last (all) is arbitrary
template <bool all, bool tup> static void t_three(void* q) {
  if (q) { set_[many_k] = 1; mp[many_k].set_value(many_k); return; }
  F* f = mf; const char* rule = all ? R_WHEN_ALL : R_WHEN_ANY; F x[3];
  if (tup) { boost::future<boost::csbl::tuple<F, F, F> > r = all ? boost::when_all(boost::move(f[0]), boost::move(f[1]), boost::move(f[2])) : boost::when_any(boost::move(f[0]), boost::move(f[1]), boost::move(f[2])); boost::csbl::tuple<F, F, F> t = r.get(); x[0] = boost::move(boost::csbl::get<0>(t)); x[1] = boost::move(boost::csbl::get<1>(t)); x[2] = boost::move(boost::csbl::get<2>(t)); }
  else { std::vector<F> w; for (int i = 0; i < 3; i++) w.push_back(boost::move(f[i])); boost::future<boost::csbl::vector<F> > r = all ? boost::when_all(w.begin(), w.end()) : boost::when_any(w.begin(), w.end()); boost::csbl::vector<F> t = r.get(); SA_ASSERT(t.size() == 3, rule); for (int i = 0; i < 3; i++) x[i] = boost::move(t[i]); }
  SA_ASSERT(set_[many_k] && x[many_k].is_ready(), rule);
  for (int i = 0; i < 3; i++) { SA_ASSERT(x[i].valid() && x[i].is_ready() == (all || i == many_k), rule); if (x[i].is_ready()) SA_ASSERT(x[i].get() == i, rule); }
  MUST("three");
}
template <bool all, bool tup> static void three() {
  many_k = __sa_choose(3); sa_at_rest = rest; sa_spurious_left = 0; sa_spurious = 0; for (int i = 0; i < 3; i++) set_[i] = 0;
  boost::promise<int> p[3]; F f[3]; for (int i = 0; i < 3; i++) f[i] = p[i].get_future(); mp = p; mf = f;
  if (all) for (int i = 0; i < 3; i++) if (i != many_k) p[i].set_value(i);
  sa_preempt_after = 0; sa_run(2, t_three<all, tup>);
}
ENTRY E_when_all_three() { three<true, false>(); }
ENTRY E_when_all_three_tuple() { three<true, true>(); }
ENTRY E_when_any_three() { three<false, false>(); }
ENTRY E_when_any_three_tuple() { three<false, true>(); }
ENTRY E_when_empty() {
  std::vector<F> w; boost::future<boost::csbl::vector<F> > r = sa_bool() ? boost::when_all(w.begin(), w.end()) : boost::when_any(w.begin(), w.end()); SA_ASSERT(r.is_ready() && r.get().empty(), R_EMPTY);
  boost::future<boost::csbl::tuple<> > t = sa_bool() ? boost::when_all() : boost::when_any(); SA_ASSERT(t.is_ready() && t.has_value(), R_EMPTY); MUST("empty");
}
#endif
