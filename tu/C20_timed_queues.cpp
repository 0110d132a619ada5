// C20: priority queue and timed queue
// @variants: -DBOOST_THREAD_VERSION=5
// @variants_thorough: -DBOOST_THREAD_VERSION=2
// @link: thread once
#include "clk.h"
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
#define R_MAX "a priority queue delivers a maximal element"
#define R_ONCE "every accepted element is delivered exactly once"
#define R_CLOSED "a closed queue refuses pushes and is reported as closed"
#define R_RESULT "the result of a push or pull tells what happened"
#define R_OBS "size, empty, full and closed report the queue exactly"
#define R_UNLOCK "every operation leaves the queue unlocked"
#define R_BUSY "non-blocking operations report busy instead of waiting for the lock"
#define R_EARLY "a timed queue never delivers an element before its time"
#define R_FIRST "a timed queue delivers the element with the earliest time first"
#define R_TIMEOUT "a timed pull gives up only when its deadline has passed"
#define R_OVERSLEEP "a waiting puller wakes at the earliest time in the queue"
#define R_STUCK "nobody waits while he could proceed"
#define R_LIVE "a queue holds exactly the elements it reports"
static int el_live, uid;
struct El { int v; El() : v(-1) { el_live = el_live + 1; } El(int x) : v(x) { el_live = el_live + 1; } El(const El& o) : v(o.v) { el_live = el_live + 1; } El(El&& o) noexcept : v(o.v) { o.v = -2; el_live = el_live + 1; }
  El& operator=(const El& o) { v = o.v; return *this; } El& operator=(El&& o) noexcept { v = o.v; o.v = -2; return *this; } ~El() { el_live = el_live - 1; } bool operator<(const El& o) const { return v < o.v; } };
enum { OK, CLOSED, EMPTY, BUSY, TIMEOUT, NOTREADY };
typedef boost::queue_op_status st_t;
static int code(st_t s) { return s == st_t::success ? OK : s == st_t::closed ? CLOSED : s == st_t::empty ? EMPTY : s == st_t::busy ? BUSY : s == st_t::timeout ? TIMEOUT : s == st_t::not_ready ? NOTREADY : 99; }
static int cnt[4], gn, gclosed, busy_on; extern "C" int env_lock_fault(pthread_mutex_t*) { return busy_on ? EBUSY : 0; }
static int dls;  // deadline used by timed pulls
typedef boost::sync_priority_queue<El> PQ; typedef boost::sync_timed_queue<El> TQ;
// pull forms: 0 reference, 1 value, 2 try, 3 non-blocking, 4 wait, 5 until, 6 for
template <class Q> static int do_pull(Q& q, int f, int& v) { El e; int r = OK; try { switch (f) { case 0: q.pull(e); break; case 1: { El x(q.pull()); v = x.v; return OK; } case 2: r = code(q.try_pull(e)); break; case 3: r = code(q.nonblocking_pull(e)); break; case 4: r = code(q.wait_pull(e)); break;
  case 5: r = code(q.pull_until(at(dls), e)); break; default: { sa_frozen = 1; r = code(q.pull_for(sec(dls - sa_now), e)); break; } } if (r == OK) v = e.v; return r; } catch (boost::sync_queue_is_closed&) { return f < 2 ? CLOSED : 98; } }
static int do_push(PQ& q, int f, El& e) { try { switch (f) { case 0: q.push((const El&)e); return OK; case 1: q.push(boost::move(e)); return OK; case 2: return code(q.try_push((const El&)e)); default: return code(q.try_push(boost::move(e))); } } catch (boost::sync_queue_is_closed&) { return f < 2 ? CLOSED : 98; } }
static int maxv() { for (int i = 3; i >= 0; i--) if (cnt[i]) return i; return -1; }
ENTRY E_prio_history() {
  __sa_opt("coarse", 1); gn = 0; gclosed = 0; for (int i = 0; i < 4; i++) cnt[i] = 0; el_live = 0; clk_on(1); dls = 1; sa_frozen = 1;
  { PQ q; 
  while (sa_bool()) {
    __sa_defer(); int k = __sa_choose(3);
    if (k == 0) { int f = __sa_choose(4), v = __sa_choose(3); if (gn >= 3 && !gclosed) __sa_stop(); El e(v); int r = do_push(q, f, e); SA_ASSERT(r == (gclosed ? CLOSED : OK), R_CLOSED); if (r == OK) { cnt[v] = cnt[v] + 1; gn = gn + 1; } else SA_ASSERT(e.v == v, R_CLOSED); MUST("push"); }
    else if (k == 1) { int f = __sa_choose(7); if (!gn && !gclosed && f != 2 && f != 3 && f < 5) __sa_stop(); int v = -7; if (f >= 5) { sa_now = sa_bool() ? 2 : 0; }
      int r = do_pull(q, f, v); int want = gn ? OK : gclosed ? CLOSED : f < 5 ? EMPTY : TIMEOUT; sa_now = 0; sa_frozen = 1; SA_ASSERT(r == want, R_RESULT); if (r == OK) { SA_ASSERT(v == maxv(), R_MAX); cnt[v] = cnt[v] - 1; gn = gn - 1; MUST("pull"); } }
    else { q.close(); gclosed = 1; }
    SA_ASSERT(sa_locks_held == 0, R_UNLOCK); SA_ASSERT((int)q.size() == gn && q.empty() == (gn == 0) && !q.full() && q.closed() == (gclosed == 1), R_OBS); SA_ASSERT(el_live == gn, R_LIVE);
  } }
  SA_ASSERT(el_live == 0, R_LIVE); MUST("end");
}
ENTRY E_prio_busy() { PQ q; bool has = sa_bool(), cl = sa_bool(); if (has) q.push(El(1)); if (cl) q.close(); busy_on = 1; int v = -7; int r = do_pull(q, 3, v); busy_on = 0; SA_ASSERT(r == BUSY && v == -7 && q.size() == has && sa_locks_held == 0, R_BUSY); MUST("busy"); }
ENTRY E_timed_busy() { TQ q; clk_on(0); bool has = sa_bool(), cl = sa_bool(); if (has) q.push(El(1), at(0)); if (cl) q.close(); busy_on = 1; int v = -7; int r = do_pull(q, 3, v); busy_on = 0; SA_ASSERT(r == BUSY && v == -7 && q.size() == has && sa_locks_held == 0, R_BUSY); MUST("busy"); }
// --- one priority queue, several threads
static int acc[5], ncons, nprod, pl, pf; static void* QA;
static void t_prio(void* p) {
  int i = (int)(long)p; PQ& q = *(PQ*)QA;
  if (i < ncons) { int v = 0; int r = do_pull(q, pl, v); if (r == OK) { SA_ASSERT(v > 0 && v < 5 && acc[v] == 1, R_ONCE); acc[v] = 2; MUST("consumed"); } else if (r == TIMEOUT) { if (sa_probe) __sa_stop(); SA_ASSERT(pl >= 5 && sa_now >= dls, R_TIMEOUT); MUST("timeout"); } else if (r == EMPTY) SA_ASSERT(pl == 2, R_RESULT); else SA_ASSERT(r == CLOSED && gclosed, R_CLOSED); return; }
  i -= ncons; if (i < nprod) { int v = i + 1; El e(v); acc[v] = 1; int c = gclosed; int r = do_push(q, (pf + i) & 3, e); if (r == OK) SA_ASSERT(c < 2, R_CLOSED); else { SA_ASSERT(r == CLOSED && gclosed && acc[v] == 1 && e.v == v, R_CLOSED); acc[v] = 0; } return; }
  gclosed = 1; q.close(); gclosed = 2;
}
static void rest_prio() { PQ& q = *(PQ*)QA; bool all = true; for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); if (sa_T[i].st != T_DONE) all = false; } if (all) { int n = 0; for (int v = 1; v < 5; v++) n += acc[v] == 1; SA_ASSERT((int)q.size() == n, R_OBS); MUST("all done"); } }
static void prio(int c, int p, int cl, int f, int l) { PQ q; QA = &q; ncons = c; nprod = p; pf = f; pl = l; gclosed = 0; clk_on(1); dls = 1; for (int i = 0; i < 5; i++) acc[i] = 0; sa_at_rest = rest_prio; sa_run(c + p + cl, t_prio); }
ENTRY E_prio_pull() { prio(2, 2, 0, 0, 0); }
ENTRY E_prio_value() { prio(1, 2, 1, 2, 1); }
ENTRY E_prio_wait() { prio(2, 1, 1, 1, 4); }
ENTRY E_prio_until() { prio(2, 1, 1, 0, 5); }
ENTRY E_prio_try() { prio(1, 2, 1, 3, 2); }
// --- timed queue. element v is due at tm[v]
static int tm_[5], due[5];
static int do_tpush(TQ& q, int f, El& e, int t) { try { switch (f) { case 0: q.push((const El&)e, at(t)); return OK; case 1: q.push(boost::move(e), at(t)); return OK; case 2: return code(q.try_push((const El&)e, at(t))); case 3: return code(q.try_push(boost::move(e), at(t)));
  case 4: q.push((const El&)e, sec(t - sa_now)); return OK; case 5: q.push(boost::move(e), sec(t - sa_now)); return OK; case 6: return code(q.try_push((const El&)e, sec(t - sa_now))); default: return code(q.try_push(boost::move(e), sec(t - sa_now))); } } catch (boost::sync_queue_is_closed&) { return (f & 2) ? 98 : CLOSED; } }
static int first_due() { int m = 99; for (int v = 1; v < 5; v++) if (acc[v] == 1 && tm_[v] < m) m = tm_[v]; return m; }
#ifdef SA_THOROUGH
#define NEL 3
#else
#define NEL 2
#endif
ENTRY E_timed_history() {
  __sa_opt("coarse", 1); gclosed = 0; clk_on(3); sa_frozen = 1; for (int i = 0; i < 5; i++) acc[i] = tm_[i] = 0; gn = 0; el_live = 0;
  { TQ q;
  while (sa_bool()) {
    __sa_defer(); int k = __sa_choose(4);
    if (k == 0) { int v = 1; while (v <= NEL && acc[v]) v = v + 1; if (v > NEL) __sa_stop(); int f = __sa_choose(8), t = 1 + __sa_choose(2); El e(v); int r = do_tpush(q, f, e, t); SA_ASSERT(r == (gclosed ? CLOSED : OK), R_CLOSED); if (r == OK) { acc[v] = 1; tm_[v] = t; gn = gn + 1; MUST("push"); } }
    else if (k == 1) { int f = __sa_choose(7); bool ready = first_due() <= sa_now; if (!ready && !gclosed && f != 2 && f != 3 && f < 5) __sa_stop(); int v = -7; dls = __sa_choose(2); if (f >= 5 && !ready && !gclosed && dls > sa_now) __sa_stop();
      int r = do_pull(q, f, v); sa_frozen = 1; int want = ready ? OK : gclosed ? CLOSED : f < 5 ? (gn ? NOTREADY : EMPTY) : gn ? NOTREADY : TIMEOUT; SA_ASSERT(r == want, R_RESULT); if (r == OK) { SA_ASSERT(v > 0 && v < 5 && acc[v] == 1, R_ONCE); SA_ASSERT(tm_[v] <= sa_now, R_EARLY); SA_ASSERT(tm_[v] == first_due(), R_FIRST); acc[v] = 0; tm_[v] = 0; gn = gn - 1; MUST("pull"); } }
    else if (k == 2) { q.close(); gclosed = 1; } else if (sa_now < 3) sa_now = sa_now + 1;
    SA_ASSERT(sa_locks_held == 0, R_UNLOCK); SA_ASSERT((int)q.size() == gn && q.empty() == (gn == 0) && !q.full() && q.closed() == (gclosed == 1), R_OBS); SA_ASSERT(el_live == gn, R_LIVE);
  } }
  SA_ASSERT(el_live == 0, R_LIVE); MUST("end");
}
static void t_timed(void* p) {
  int i = (int)(long)p; TQ& q = *(TQ*)QA;
  if (i < ncons) { int v = 0; int r = do_pull(q, pl, v); if (r == OK) { SA_ASSERT(v > 0 && v < 5 && acc[v] == 1, R_ONCE); SA_ASSERT(tm_[v] <= sa_now, R_EARLY); acc[v] = 2; MUST("consumed"); }
    else if (r == TIMEOUT || r == NOTREADY) { SA_ASSERT(pl >= 5 && sa_now >= dls, R_TIMEOUT); MUST("timeout"); } else SA_ASSERT(r == CLOSED && gclosed, R_CLOSED); return; }
  i -= ncons; if (i < nprod) { int v = i + 1; El e(v); acc[v] = 1; int c = gclosed; int r = do_tpush(q, (pf + i) & 3, e, tm_[v]); if (r == OK) { SA_ASSERT(c < 2, R_CLOSED); due[v] = 1; } else { SA_ASSERT(r == CLOSED && gclosed && acc[v] == 1, R_CLOSED); acc[v] = 0; } return; }
  gclosed = 1; q.close(); gclosed = 2;
}
// in a quiescent state every sleeping puller will wake by itself no later than the earliest accepted element's time
static void rest_timed() { TQ& q = *(TQ*)QA; bool all = true; int m = 99; for (int v = 1; v < 5; v++) if (acc[v] == 1 && due[v] && tm_[v] < m) m = tm_[v];
  for (int i = 0; i < sa_nt; i++) { SA_ASSERT(sa_T[i].st != T_BLOCK, R_STUCK); if (sa_T[i].st != T_DONE) all = false; if (sa_T[i].st == T_WAIT) { SA_ASSERT(!gclosed, R_STUCK); if (m < 99) SA_ASSERT(sa_dl[i] >= 0 && sa_dl[i] <= m, R_OVERSLEEP); if (pl >= 5) SA_ASSERT(sa_dl[i] >= 0 && sa_dl[i] <= dls, R_TIMEOUT); MUST("asleep"); } }
  if (all) { int n = 0; for (int v = 1; v < 5; v++) n += acc[v] == 1; SA_ASSERT((int)q.size() == n, R_OBS); MUST("all done"); } }
static void timed(int c, int p, int cl, int f, int l, int t1, int t2) { TQ q; QA = &q; ncons = c; nprod = p; pf = f; pl = l; gclosed = 0; clk_on(3); dls = 2; for (int i = 0; i < 5; i++) acc[i] = due[i] = 0; tm_[1] = t1; tm_[2] = t2; sa_at_rest = rest_timed; sa_probe_timed = 0; sa_run(c + p + cl, t_timed); }
ENTRY E_timed_pull() { timed(1, 2, 0, 0, 0, 2, 1); }
ENTRY E_timed_pull_same() { timed(1, 2, 0, 2, 0, 2, 2); }
ENTRY E_timed_value() { timed(1, 2, 0, 0, 1, 2, 1); }
ENTRY E_timed_wait() { timed(1, 2, 0, 3, 4, 2, 1); }
ENTRY E_timed_wait_close() { timed(1, 1, 1, 3, 4, 1, 1); }
ENTRY E_timed_pullers() { timed(2, 1, 1, 1, 4, 2, 1); }
ENTRY E_timed_two_two() { timed(2, 2, 0, 1, 0, 2, 1); }
ENTRY E_timed_until() { timed(1, 2, 0, 0, 5, 3, 1); }
ENTRY E_timed_until_close() { timed(1, 1, 1, 0, 5, 1, 1); }
ENTRY E_timed_for() { timed(1, 2, 0, 0, 6, 3, 1); }
// --- a system clock that may be set back
typedef boost::chrono::system_clock YC; typedef boost::sync_timed_queue<El, YC> YQ; static YC::time_point yat(int s) { return YC::time_point(boost::chrono::duration_cast<YC::duration>(sec(s))); }
static void t_sys(void* p) {
  int i = (int)(long)p; YQ& q = *(YQ*)QA; if (i == 1) { El e(1); acc[1] = 1; q.push(e, yat(tm_[1])); return; }
  El e; int r = OK; switch (pl) { case 0: q.pull(e); break; case 4: r = code(q.wait_pull(e)); break; case 5: r = code(q.pull_until(yat(dls), e)); break; case 6: r = code(q.pull_for(sec(1), e)); break; default: r = code(q.try_pull(e)); }
  if (r == OK) { SA_ASSERT(e.v == 1 && acc[1] == 1, R_ONCE); SA_ASSERT(tm_[1] <= sa_sys_max, R_EARLY); acc[1] = 2; MUST("consumed"); } else if (pl == 2) SA_ASSERT(r == EMPTY || r == NOTREADY, R_RESULT); else { SA_ASSERT(r == TIMEOUT || r == NOTREADY, R_RESULT); SA_ASSERT(pl == 6 || (pl == 5 && sa_sys_max >= dls), R_TIMEOUT); MUST("timeout"); }
}
static void sysq(int l, int d) { YQ q; QA = &q; pl = l; clk_on(2); sa_back = 1; sa_sys_max = 0; dls = d; acc[1] = 0; tm_[1] = 2; sa_probe_timed = 0; sa_run(2, t_sys); }
ENTRY E_sys_until() { sysq(5, 1); }
ENTRY E_sys_until_late() { sysq(5, 2); }
ENTRY E_sys_wait() { sysq(4, 2); }
ENTRY E_sys_for() { sysq(6, 2); }
ENTRY E_sys_pull() { sysq(0, 2); }
// --- linearisability of the priority queue
#define LN_FULL 97
#include "lin.h"
struct FP { PQ q; int push(int f, bool rv, El& e) { return do_push(q, (f & 1) * 2 + rv, e); } int pull(int f, int& v) { return do_pull(q, f, v); } int size() { return (int)q.size(); } void close() { q.close(); } };
ENTRY E_lin_prio_push() { lin<FP, 0, 4>(99, 1); }
ENTRY E_lin_prio_pull() { lin<FP, 8, 13>(99, 1); }
// the timed queue: every element is due already, the later pushed the earlier
struct FT { TQ q; FT() { clk_on(4); sa_now = 4; sa_frozen = 1; dls = 4; } int push(int f, bool rv, El& e) { return do_tpush(q, (f & 3) * 2 + rv, e, 4 - e.v); } int pull(int f, int& v) { return do_pull(q, f, v); } int size() { return (int)q.size(); } void close() { q.close(); } };
ENTRY E_lin_timed_push() { lin<FT, 0, 8>(99, 1); }
ENTRY E_lin_timed_pull() { lin<FT, 8, 13>(99, 1); }
