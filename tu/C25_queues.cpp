// C25: lock-set discipline of the concurrent queues
// @variants: -DBOOST_THREAD_VERSION=5
// @link: thread once future
// @tlim: 200
#include "clk.h"
#include "lockset.h"
#define BOOST_THREAD_QUEUE_KEEP_OLD
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
// an element inside the queue is only copied, moved and destroyed under the queue's lock
static const void* qp; static long qn;
struct Boom {}; static int arm;
static void maybe() { if (arm && sa_bool()) throw Boom(); }
static void touched() { SA_ASSERT(!qp || __sa_held_in(qp, qn), R_ELEM); MUST("touched"); }
static void el(const void* a) { if (__sa_on_heap(a)) touched(); }
struct El { int v; El() : v(0) { el(this); } El(int x) : v(x) { el(this); } El(const El& o) : v(o.v) { el(this); el(&o); maybe(); } El(El&& o) noexcept : v(o.v) { el(this); el(&o); } El& operator=(const El& o) { el(this); el(&o); maybe(); v = o.v; return *this; }
  El& operator=(El&& o) noexcept { el(this); el(&o); v = o.v; return *this; } ~El() { el(this); } bool operator<(const El& o) const { el(this); el(&o); return v < o.v; } };
template <class T> struct Mini { typedef std::size_t size_type; typedef T value_type; int n; T e[3]; Mini() : n(0) {} Mini(Mini&& o) : n(o.n) { o.n = 0; }
  bool empty() const { touched(); return n == 0; } size_type size() const { touched(); return n; } T& front() { touched(); return e[0]; } void pop_front() { touched(); n = n - 1; }
  void push_back(const T& x) { touched(); if (n == 2) __sa_stop(); e[n] = x; n = n + 1; } void push_back(T&& x) { touched(); if (n == 2) __sa_stop(); e[n] = boost::move(x); n = n + 1; } };
typedef boost::sync_queue<El, Mini<El> > SQ; typedef boost::sync_deque<El, Mini<El> > SD; typedef boost::sync_bounded_queue<El> BQ; typedef boost::sync_priority_queue<El> PQ; typedef boost::sync_timed_queue<El> TQ;
template <class Q> struct At { static Q* q; }; template <class Q> Q* At<Q>::q;
#define TRY(x) try { arm = 1; x; } catch (Boom&) {} catch (boost::sync_queue_is_closed&) {} arm = 0
template <class Q> static void op_queue(int k) { Q& q = *At<Q>::q; El e(1), d; switch (k) {
  case 0: TRY(q.push((const El&)e)); break; case 1: TRY(q.push(boost::move(e))); break; case 2: TRY(q.try_push((const El&)e)); break; case 3: TRY(q.try_push(boost::move(e))); break;
  case 4: TRY(q.nonblocking_push((const El&)e)); break; case 5: TRY(q.nonblocking_push(boost::move(e))); break; case 6: TRY(q.wait_push((const El&)e)); break; case 7: TRY(q.wait_push(boost::move(e))); break;
  case 8: TRY(q.pull(d)); break; case 9: TRY(d = q.pull()); break; case 10: TRY(q.try_pull(d)); break; case 11: TRY(q.nonblocking_pull(d)); break; case 12: TRY(q.wait_pull(d)); break;
  case 13: q.close(); break; case 14: (void)q.closed(); break; case 15: (void)q.empty(); break; case 16: (void)q.size(); break; case 17: (void)q.full(); break; case 18: TRY(q.underlying_queue()); break;
  case 19: TRY(q << e); break; default: TRY(q >> d); } }
template <class Q> static void op_deque(int k) { Q& q = *At<Q>::q; El e(1), d; switch (k) {
  case 0: TRY(q.push_back((const El&)e)); break; case 1: TRY(q.push_back(boost::move(e))); break; case 2: TRY(q.try_push_back((const El&)e)); break; case 3: TRY(q.try_push_back(boost::move(e))); break;
  case 4: TRY(q.nonblocking_push_back((const El&)e)); break; case 5: TRY(q.nonblocking_push_back(boost::move(e))); break; case 6: TRY(q.wait_push_back((const El&)e)); break; case 7: TRY(q.wait_push_back(boost::move(e))); break;
  case 8: TRY(q.pull_front(d)); break; case 9: TRY(d = q.pull_front()); break; case 10: TRY(q.try_pull_front(d)); break; case 11: TRY(q.nonblocking_pull_front(d)); break; case 12: TRY(q.wait_pull_front(d)); break;
  case 13: q.close(); break; case 14: (void)q.closed(); break; case 15: (void)q.empty(); break; case 16: (void)q.size(); break; case 17: (void)q.full(); break;
  case 18: TRY(q << e); break; default: TRY(q >> d); } }
static void op_drain(int k) { if (k < 18) op_deque<SD>(k); else if (k == 18) { TRY(At<SD>::q->underlying_queue()); } else op_deque<SD>(k - 1); }
template <class Q> static void run(Q& q, const char* label, int k, void (*op)(int)) { At<Q>::q = &q; qp = &q; qn = sizeof q; arm = 0; ls_watch(&q, sizeof q, label); ls_run(k, op); }
ENTRY E_queue() { SQ q; run(q, "sync_queue", 21, op_queue<SQ>); }
ENTRY E_deque() { SD q; run(q, "sync_deque", 21, op_drain); }
ENTRY E_bounded() { BQ q(2); run(q, "sync_bounded_queue", 20, op_deque<BQ>); }
static void op_prio(int k) { PQ& q = *At<PQ>::q; El e(1), d; if (k < 4 && q.size() > 1) __sa_stop(); switch (k) {
  case 0: TRY(q.push((const El&)e)); break; case 1: TRY(q.push(boost::move(e))); break; case 2: TRY(q.try_push((const El&)e)); break; case 3: TRY(q.try_push(boost::move(e))); break;
  case 4: TRY(q.pull(d)); break; case 5: TRY(d = q.pull()); break; case 6: TRY(q.try_pull(d)); break; case 7: TRY(q.nonblocking_pull(d)); break; case 8: TRY(q.wait_pull(d)); break;
  case 9: q.close(); break; case 10: (void)q.closed(); break; case 11: (void)q.empty(); break; case 12: (void)q.size(); break; case 13: (void)q.full(); break; case 14: TRY(q.pull_until(at(1), d)); break; default: TRY(q.pull_for(sec(1), d)); } }
static void op_timed(int k) { TQ& q = *At<TQ>::q; El e(1), d; if (k < 4 && q.size() > 0) __sa_stop(); switch (k) {
  case 0: TRY(q.push((const El&)e, at(1))); break; case 1: TRY(q.push(boost::move(e), sec(0))); break; case 2: TRY(q.try_push((const El&)e, at(0))); break; case 3: TRY(q.try_push(boost::move(e), sec(1))); break;
  case 4: TRY(q.pull(d)); break; case 5: TRY(d = q.pull()); break; case 6: TRY(q.try_pull(d)); break; case 7: TRY(q.nonblocking_pull(d)); break; case 8: TRY(q.wait_pull(d)); break;
  case 9: q.close(); break; case 10: (void)q.closed(); break; case 11: (void)q.empty(); break; case 12: (void)q.size(); break; case 13: (void)q.full(); break; case 14: TRY(q.pull_until(at(1), d)); break; default: TRY(q.pull_for(sec(1), d)); } }
ENTRY E_priority() { PQ q; clk_on(1); sa_frozen = 1; run(q, "sync_priority_queue", 16, op_prio); }
ENTRY E_timed() { TQ q; clk_on(1); sa_frozen = 1; run(q, "sync_timed_queue", 16, op_timed); }
