// shared by C18 and C19: one face for every concurrent queue type, and the reference queue
#ifndef QUEUES_H
#define QUEUES_H
#include "conc.h"
#define BOOST_THREAD_QUEUE_KEEP_OLD
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#undef BOOST_THREAD_QUEUE_VIEWS_HPP
#include <boost/thread/concurrent_queues/deque_views.hpp>
#define R_FIFO "elements are delivered exactly once and in the order they were accepted"
#define R_CLOSED "a closed queue refuses pushes, delivers what it had accepted and then reports closed"
#define R_RESULT "the result of a push or pull tells what happened"
#define R_KEEP "a refused push leaves the argument with the caller"
#define R_OBS "size, empty, full and closed report the queue exactly"
#define R_THROW "a throwing copy leaves the queue as it was"
#define R_UNLOCK "every operation leaves the queue unlocked"
#define R_LIVE "the queue holds no elements beyond those it reports"
#define R_BUSY "non-blocking operations report busy instead of waiting for the lock"
#define R_STUCK "nobody waits while he could proceed"
struct Boom { };
static int el_live, el_arm;                 // number of live elements, 1 = copies may throw
static inline void el_maybe() { if (el_arm && sa_bool()) { el_arm = 2; throw Boom(); } }
struct El { int v; El() : v(-1) { el_live = el_live + 1; } El(int x) : v(x) { el_live = el_live + 1; } El(const El& o) : v(o.v) { el_maybe(); el_live = el_live + 1; } El(El&& o) noexcept : v(o.v) { o.v = -2; el_live = el_live + 1; }
  El& operator=(const El& o) { el_maybe(); v = o.v; return *this; } El& operator=(El&& o) { el_maybe(); v = o.v; o.v = -2; return *this; } ~El() { el_live = el_live - 1; } };
enum { OK, CLOSED, EMPTY, FULL, BUSY, THROWN };
typedef boost::queue_op_status st_t;
static inline int code(st_t s) { return s == st_t::success ? OK : s == st_t::closed ? CLOSED : s == st_t::empty ? EMPTY : s == st_t::full ? FULL : s == st_t::busy ? BUSY : 99; }
// push forms: 0 throwing, 1 try, 2 non-blocking, 3 wait, 4 stream; pull forms: 0 reference, 1 value, 2 try, 3 non-blocking, 4 wait, 5 stream, 6.. old
#define FACE_PUSH(P) \
  int push(int f, bool rv, El& e) { try { switch (f) { \
    case 0: if (rv) q.P(boost::move(e)); else q.P((const El&)e); return OK; \
    case 1: return code(rv ? q.try_##P(boost::move(e)) : q.try_##P((const El&)e)); \
    case 2: return code(rv ? q.nonblocking_##P(boost::move(e)) : q.nonblocking_##P((const El&)e)); \
    case 3: return code(rv ? q.wait_##P(boost::move(e)) : q.wait_##P((const El&)e)); \
    default: return stream(rv, e); } } catch (boost::sync_queue_is_closed&) { return f == 0 || f == 4 ? CLOSED : 98; } }
#define FACE_PULL(P) \
  int pull(int f, int& v) { El e; try { int r = OK; switch (f) { \
    case 0: q.P(e); break; \
    case 1: { El x(q.P()); v = x.v; return OK; } \
    case 2: r = code(q.try_##P(e)); break; \
    case 3: r = code(q.nonblocking_##P(e)); break; \
    case 4: r = code(q.wait_##P(e)); break; \
    default: unstream(e); break; } if (r == OK) v = e.v; return r; } catch (boost::sync_queue_is_closed&) { return f == 0 || f == 1 || f == 5 ? CLOSED : 98; } }
#define FACE_STREAM int stream(bool rv, El& e) { if (rv) q << boost::move(e); else q << (const El&)e; return OK; } void unstream(El& e) { q >> e; }
#define FACE_NOSTREAM(PU, PL) int stream(bool rv, El& e) { if (rv) q.PU(boost::move(e)); else q.PU((const El&)e); return OK; } void unstream(El& e) { q.PL(e); }
#define FACE_OBS(C) bool empty() { return q.empty(); } bool full() { return q.full(); } int size() { return q.size(); } bool closed() { return q.closed(); } void close() { q.close(); } enum { cap = C }; int drain(int*) { return -1; }
// a container with canonical contents
template <class T> struct Mini { typedef std::size_t size_type; typedef T value_type; T* p[3]; int n; Mini() : n(0) {} ~Mini() { for (int i = 0; i < n; i++) delete p[i]; } Mini(Mini&& o) : n(o.n) { for (int i = 0; i < n; i++) p[i] = o.p[i]; o.n = 0; }
  bool empty() const { return n == 0; } size_type size() const { return n; } T& front() { return *p[0]; } void pop_front() { delete p[0]; for (int i = 1; i < n; i++) p[i - 1] = p[i]; n = n - 1; }
  void push_back(const T& x) { if (n == 3) __sa_stop(); p[n] = new T(x); n = n + 1; } void push_back(T&& x) { if (n == 3) __sa_stop(); p[n] = new T(boost::move(x)); n = n + 1; } };
typedef boost::sync_queue<El, Mini<El> > SQ; typedef boost::sync_deque<El, Mini<El> > SD;
typedef boost::sync_queue<El> SQd; typedef boost::sync_deque<El> SDd; typedef boost::sync_bounded_queue<El> BQ;
#define FACE_DRAIN int drain(int* o) { typename Q::underlying_queue_type c = q.underlying_queue(); int n = 0; while (!c.empty()) { if (n == 4) __sa_stop(); o[n] = c.front().v; n = n + 1; c.pop_front(); } return n; }
template <class Q, int C = 99> struct FQb { Q q; FACE_PUSH(push) FACE_PULL(pull) FACE_STREAM FACE_OBS(C) };
template <class Q, int C = 99> struct FDb { Q q; FACE_PUSH(push_back) FACE_PULL(pull_front) FACE_STREAM FACE_OBS(C) };
template <class Q, int C = 99> struct FQ : FQb<Q, C> { using FQb<Q, C>::q; FACE_DRAIN };
template <class Q, int C = 99> struct FD : FDb<Q, C> { using FDb<Q, C>::q; FACE_DRAIN };
template <class Q> struct FA { boost::queue_adaptor<Q> qq; boost::queue_base<El>& q; FA() : q(qq) {} FACE_PUSH(push) FACE_PULL(pull) FACE_NOSTREAM(push, pull) FACE_OBS(99) };
template <class Q> struct FDA { boost::deque_adaptor<Q> qq; boost::deque_base<El>& q; FDA() : q(qq) {} FACE_PUSH(push_back) FACE_PULL(pull_front) FACE_NOSTREAM(push_back, pull_front) FACE_OBS(99) };
template <class Q> struct FV1 { Q qq; boost::queue_back_view<Q> q; FV1() : q(qq) {} FACE_PUSH(push) FACE_OBS(99) int stream(bool rv, El& e) { if (rv) q.push(boost::move(e)); else q.push((const El&)e); return OK; } };
template <class Q> struct FV2 { boost::queue_front_view<Q> q; FV2(Q& qq) : q(qq) {} FACE_PULL(pull) void unstream(El& e) { q.pull(e); } FACE_OBS(99) };
template <class Q> struct FV : FV1<Q> { FV2<Q> f; FV() : f(this->qq) {} int pull(int k, int& v) { return f.pull(k, v); } bool empty() { bool a = this->q.empty(); SA_ASSERT(a == f.empty(), R_OBS); return a; } bool full() { SA_ASSERT(!f.full(), R_OBS); return this->q.full(); }
  int size() { int a = this->q.size(); SA_ASSERT(a == f.size(), R_OBS); return a; } bool closed() { bool a = this->q.closed(); SA_ASSERT(a == f.closed(), R_OBS); return a; } void close() { if (sa_bool()) this->q.close(); else f.close(); } };
template <class Q> struct FW1 { Q qq; boost::deque_back_view<Q> q; FW1() : q(qq) {} FACE_PUSH(push) FACE_OBS(99) int stream(bool rv, El& e) { if (rv) q.push(boost::move(e)); else q.push((const El&)e); return OK; } };
template <class Q> struct FW2 { boost::deque_front_view<Q> q; FW2(Q& qq) : q(qq) {} FACE_PULL(pull) void unstream(El& e) { q.pull(e); } FACE_OBS(99) };
template <class Q> struct FW : FW1<Q> { FW2<Q> f; FW() : f(this->qq) {} int pull(int k, int& v) { return f.pull(k, v); } bool empty() { bool a = this->q.empty(); SA_ASSERT(a == f.empty(), R_OBS); return a; } bool full() { SA_ASSERT(!f.full(), R_OBS); return this->q.full(); }
  int size() { int a = this->q.size(); SA_ASSERT(a == f.size(), R_OBS); return a; } bool closed() { bool a = this->q.closed(); SA_ASSERT(a == f.closed(), R_OBS); return a; } void close() { if (sa_bool()) this->q.close(); else f.close(); } };
template <int C> struct FB { BQ q; FB() : q(C) {} FACE_PUSH(push_back) FACE_PULL(pull_front) FACE_STREAM FACE_OBS(C) };
static int gq[4], gn, gclosed;              // reference queue
// every history of operations by one thread: nothing may block
template <class A> static void history(int maxn, int nv, int arm, int pushes = 0) {
  int np = 0;
  __sa_opt("coarse", 1); gn = 0; gclosed = 0; el_live = 0; el_arm = 0;
  { A a; int base = el_live;
  while (sa_bool()) {
    __sa_defer();
    int k = __sa_choose(4); el_arm = arm ? sa_bool() : 0;
    if (k == 0) { if (pushes) { if (np == pushes) __sa_stop(); np = np + 1; } int f = __sa_choose(5); bool rv = sa_bool(); if (gn >= maxn && !gclosed && A::cap > maxn) __sa_stop(); bool full = gn == A::cap; if (full && !gclosed && f != 1 && f != 2) __sa_stop();
      int v = __sa_choose(nv); El e(v); int r;
      try { r = a.push(f, rv, e); if (el_arm == 2) el_arm = 0; SA_ASSERT(r == (gclosed ? CLOSED : full ? FULL : OK), gclosed ? R_CLOSED : R_RESULT); if (r == OK) { gq[gn] = v; gn = gn + 1; MUST("pushed"); if (!rv) SA_ASSERT(e.v == v, R_KEEP); } else { SA_ASSERT(e.v == v, R_KEEP); MUST("refused"); } }
      catch (Boom&) { SA_ASSERT(el_arm == 2, R_THROW); } }
    else if (k == 1) { int f = __sa_choose(6); if (gn == 0 && !gclosed && f != 2 && f != 3) __sa_stop(); int v = -7;
      try { int r = a.pull(f, v); SA_ASSERT(r == (gn ? OK : gclosed ? CLOSED : EMPTY), gclosed ? R_CLOSED : R_RESULT); if (r == OK) { SA_ASSERT(v == gq[0], R_FIFO); for (int i = 1; i < gn; i++) gq[i - 1] = gq[i]; gn = gn - 1; MUST("pulled"); } else MUST("nothing"); }
      catch (Boom&) { SA_ASSERT(el_arm == 2, R_THROW); if (f == 1) __sa_stop(); /* the form that returns a value needs non-throwing moves */ } }
    else if (k == 2) { a.close(); gclosed = 1; }
    else { el_arm = 0; int o[4]; int n = a.drain(o); if (n >= 0) { SA_ASSERT(n == gn, R_FIFO); for (int i = 0; i < n; i++) SA_ASSERT(o[i] == gq[i], R_FIFO); gn = 0; MUST("drained"); } }
    el_arm = 0;
    SA_ASSERT(sa_locks_held == 0, R_UNLOCK);
    SA_ASSERT(a.size() == gn && a.empty() == (gn == 0) && a.full() == (gn == A::cap) && a.closed() == (gclosed == 1), R_OBS);
    SA_ASSERT(A::cap != 99 || el_live == base + gn, R_LIVE);
    for (int i = gn; i < 4; i++) gq[i] = 0;
  } }
  SA_ASSERT(el_live == 0, R_LIVE); MUST("end");
}
#define MUST_ARM
// --- interleavings
static int acc[5], nprod, ncons, pf, pl, mixed, two, twc, twp; static void* QA;
template <class A> static void t_q(void* q) {
  int i = (int)(long)q; A& a = *(A*)QA;
  if (i < ncons) { for (int k = 0; k <= twc; k++) { int v = 0; int r = a.pull(mixed ? (i ? 4 : 0) : pl, v); if (r == OK) { SA_ASSERT(v >= 1 && v < 5 && acc[v] == 1, R_FIFO); acc[v] = 2; if (two) SA_ASSERT(v == 1 || acc[1] == 2, R_FIFO); MUST("consumed"); } else if (r == EMPTY) SA_ASSERT(pl == 2 || pl == 3, R_RESULT); else SA_ASSERT(r == CLOSED && gclosed, R_CLOSED); } return; }
  i -= ncons;
  if (i < nprod) { for (int k = 0; k <= twp; k++) { int v = i + 1 + k; El e(v); acc[v] = 1; int c = gclosed; int r = a.push(mixed ? (i ? 3 : 0) : pf, (i + k) & 1, e); if (r == OK) SA_ASSERT(c < 2, R_CLOSED); else { SA_ASSERT(acc[v] == 1, R_CLOSED); if (r == FULL) SA_ASSERT(pf == 1 || pf == 2, R_RESULT); else SA_ASSERT(r == CLOSED && gclosed, R_CLOSED); SA_ASSERT(e.v == v, R_KEEP); acc[v] = 0; } } return; }
  gclosed = 1; a.close(); gclosed = 2;
}
template <class A> static void rest_q() {
  A& a = *(A*)QA; bool all = true; for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); if (sa_T[i].st != T_DONE) all = false; }
  if (all) { int n = 0; for (int v = 1; v < 5; v++) n += acc[v] == 1; SA_ASSERT(a.size() == n && (n <= A::cap), R_OBS); MUST("all done"); }
}
// c consumers, p producers, cl: somebody closes the queue; tw: two operations per thread (1), per consumer (2), per producer (3)
template <class A> static void conc(int c, int p, int cl, int tw, int f, int l) {
  A a; QA = &a; ncons = c; nprod = p; two = tw & 1; twc = tw == 1 || tw == 2; twp = tw == 1 || tw == 3; pf = f; pl = l; mixed = f < 0; gclosed = 0; el_arm = 0; for (int i = 0; i < 5; i++) acc[i] = 0;
  sa_at_rest = rest_q<A>; if (A::cap < 90) sa_spurious_left = 1; sa_run(c + p + cl, t_q<A>);
}
// the lock is taken by somebody else
static int busy_on; extern "C" int env_lock_fault(pthread_mutex_t*) { return busy_on ? EBUSY : 0; }
template <class A> static void busy(int pull3 = 3, int push3 = 2) {
  A a; El e(1); bool has = sa_bool(), cl = sa_bool(); if (has) a.push(0, false, e); if (cl) a.close(); El x(5); int v = -7;
  busy_on = 1; bool pu = sa_bool(); int r = pu ? a.push(push3, sa_bool(), x) : a.pull(pull3, v); busy_on = 0;
  SA_ASSERT(r == BUSY, R_BUSY); SA_ASSERT(x.v == 5 && v == -7, R_KEEP); SA_ASSERT(a.size() == has && a.closed() == cl && sa_locks_held == 0, R_OBS); MUST("busy");
}
#endif
