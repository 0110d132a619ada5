// C24: latches
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @link: thread once
#include "clk.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#define R_OPEN "a latch opens exactly when its count reaches zero"
#define R_EARLY "nobody passes a closed latch"
#define R_LATE "an open latch lets everybody pass at once"
#define R_TRY "a try tells whether the latch is open"
#define R_TIMEOUT "a timed wait reports a time-out only when its deadline has passed and the latch is closed"
#define R_ALL "when the latch opens, every waiting thread is woken"
#define R_RESET "reset closes the latch again with the given count"
#define R_FUN "the completion function runs once per completion, after the waiting threads have left"
#define R_UNLOCK "every operation leaves the latch unlocked"
static boost::latch* L; static int cnt0, lo, hi, nd, done, form[5];   // lo: count-downs finished, hi: count-downs begun
static bool may_open() { return hi >= cnt0; } static bool is_open() { return lo >= cnt0; }
enum { WAIT, FOR, UNTIL, TRY, DOWN, SIGNAL, TRYDOWN, DOWNWAIT, SYNC, SUNTIL };
static void op(int f) {
  switch (f) {
    case WAIT: L->wait(); SA_ASSERT(may_open(), R_EARLY); MUST("passed"); break;
    case FOR: case UNTIL: case SUNTIL: { int d = sa_now + 1; if (f == UNTIL) d = 1; bool o = is_open(); boost::cv_status s = f == FOR ? L->wait_for(sec(1)) : f == UNTIL ? L->wait_until(at(1)) : L->wait_until(boost::chrono::system_clock::time_point(boost::chrono::duration_cast<boost::chrono::system_clock::duration>(sec(1))));
      if (s == boost::cv_status::no_timeout) { SA_ASSERT(may_open(), R_EARLY); MUST("timed: passed"); } else { if (sa_probe) __sa_stop(); SA_ASSERT(!o, R_LATE); if (f == SUNTIL) d = 1; SA_ASSERT(sa_now >= d, R_TIMEOUT); MUST("timed: out"); } break; }
    case TRY: { bool o = is_open(); bool r = L->try_wait(); if (r) SA_ASSERT(may_open(), R_TRY); else SA_ASSERT(!o, R_TRY); break; }
    case DOWN: hi = hi + 1; L->count_down(); lo = lo + 1; break;
    case SIGNAL: hi = hi + 1; L->signal(); lo = lo + 1; break;
    case TRYDOWN: { hi = hi + 1; int a = lo; bool r = L->try_count_down(); if (r) SA_ASSERT(may_open(), R_OPEN); lo = lo + 1; if (!r) SA_ASSERT(a < cnt0 - 1 || nd > cnt0, R_OPEN); break; }
    case DOWNWAIT: hi = hi + 1; L->count_down_and_wait(); SA_ASSERT(may_open(), R_EARLY); lo = lo + 1; MUST("passed"); break;
    case SYNC: hi = hi + 1; L->sync(); SA_ASSERT(may_open(), R_EARLY); lo = lo + 1; break;
  }
}
static void t_op(void* q) { op(form[(int)(long)q]); done = done + 1; }
static void rest() { int d = 0; for (int i = 0; i < sa_nt; i++) { int f = form[i]; if (f >= DOWN && f < DOWNWAIT) d++; if (f == DOWNWAIT || f == SYNC) d++; }
  bool open = d >= cnt0; if (open) { SA_ASSERT(done == sa_nt, R_ALL); MUST("all released"); } else for (int i = 0; i < sa_nt; i++) if (form[i] == WAIT) SA_ASSERT(sa_T[i].st == T_WAIT, R_EARLY); }
static void many(int c, int k, int a, int b, int d, int e, int g = -1) { boost::latch l(c); L = &l; cnt0 = c; lo = hi = done = 0; nd = 0; clk_on(2); sa_frozen = 1; form[0] = a; form[1] = b; form[2] = d; form[3] = e; form[4] = g; for (int i = 0; i < k; i++) if (form[i] >= DOWN && form[i] < SUNTIL) nd++; sa_probe_timed = 0; sa_at_rest = rest; sa_run(k, t_op); }
ENTRY E_wait_1() { many(1, 3, WAIT, WAIT, DOWN, -1); }
ENTRY E_wait_2() { many(2, 4, WAIT, WAIT, DOWN, SIGNAL); }
ENTRY E_wait_3() { many(3, 4, WAIT, DOWN, TRYDOWN, SIGNAL); }
ENTRY E_never() { many(2, 3, WAIT, DOWN, TRY, -1); }
ENTRY E_timed() { many(1, 3, FOR, UNTIL, DOWN, -1); }
ENTRY E_timed_2() { many(2, 4, FOR, WAIT, DOWN, DOWN); }
ENTRY E_timed_never() { many(2, 3, FOR, UNTIL, DOWN, -1); }
ENTRY E_timed_system() { many(1, 3, SUNTIL, WAIT, SIGNAL, -1); }
ENTRY E_try() { many(2, 4, TRY, TRY, DOWN, DOWN); }
ENTRY E_try_down() { many(1, 3, TRYDOWN, TRYDOWN, WAIT, -1); }
ENTRY E_try_down_2() { many(2, 4, TRYDOWN, TRYDOWN, WAIT, TRYDOWN); }
ENTRY E_sync() { many(2, 3, DOWNWAIT, SYNC, WAIT, -1); }
ENTRY E_sync_3() { many(3, 4, DOWNWAIT, SYNC, DOWN, FOR); }
ENTRY E_five() { sa_spurious_left = 0; many(2, 5, WAIT, DOWNWAIT, WAIT, DOWN, FOR); }
ENTRY E_zero() { many(0, 4, WAIT, TRY, FOR, TRYDOWN); }
// any count: one count-down opens it exactly when the count was one; the parks of the main thread are the waits
static long count() { int k = __sa_choose(4); if (k == 3) return __sa_range(3, 0x7fffffffffffffffl); return k; }
ENTRY E_any_count() {
  long c = count(); clk_on(2); sa_frozen = 1; boost::latch l(c);
  if (sa_bool()) { long d = count(); l.reset(d); c = d; MUST("reset"); }
  SA_ASSERT(l.try_wait() == (c == 0), R_TRY);
  if (c == 0) { l.wait(); SA_ASSERT(l.wait_for(sec(1)) == boost::cv_status::no_timeout && l.try_count_down() && l.try_wait(), R_LATE); MUST("open"); return; }
  SA_ASSERT(l.wait_for(sec(1)) == boost::cv_status::timeout, R_EARLY); SA_ASSERT(l.wait_until(at(sa_now + 1)) == boost::cv_status::timeout, R_EARLY);
  switch (__sa_choose(3)) { case 0: l.count_down(); break; case 1: l.signal(); break; default: SA_ASSERT(l.try_count_down() == (c == 1), R_OPEN); }
  SA_ASSERT(l.try_wait() == (c == 1), R_OPEN); if (c == 1) { l.wait(); l.wait(); if (sa_bool()) { l.reset(1); SA_ASSERT(!l.try_wait(), R_RESET); MUST("reused"); } MUST("opened"); return; }
  l.count_down(); SA_ASSERT(l.try_wait() == (c == 2), R_OPEN); SA_ASSERT(sa_locks_held == 0, R_UNLOCK); MUST("twice");
}
// the latch is used again
static int round_;
static void t_again(void* q) {
  int me = (int)(long)q;
  if (me == 0) { L->wait(); SA_ASSERT(hi >= 1, R_EARLY); L->reset(1); lo = hi = 0; round_ = 1; L->wait(); SA_ASSERT(hi >= 1, R_RESET); done = done + 1; MUST("second round"); return; }
  hi = 1; L->count_down(); while (!round_) { sa_T[me].st = T_READY; __sa_co_park(); sa_T[me].st = T_RUN; if (sa_probe) __sa_stop(); } hi = 1; L->count_down(); done = done + 1;
}
static void rest_again() { SA_ASSERT(done == 2, R_ALL); }
ENTRY E_again() { boost::latch l(1); L = &l; lo = hi = done = round_ = 0; sa_at_rest = rest_again; sa_run(2, t_again); }
// --- completion latch: k threads wait, c count down
static boost::completion_latch* C; static int funs;
static void left() { for (int i = 0; i < sa_nt; i++) SA_ASSERT(sa_T[i].st != T_WAIT, R_FUN); }
static void fn() { SA_ASSERT(!funs && hi >= cnt0, R_FUN); left(); SA_ASSERT(C->try_wait(), R_TRY); funs = 1; MUST("function"); } static void fn2() { SA_ASSERT(funs == 1 && hi >= cnt0, R_FUN); left(); funs = 2; MUST("second function"); }
static void comp_op(int f) {
  switch (f) {
    case WAIT: C->wait(); SA_ASSERT(may_open(), R_EARLY); MUST("passed"); break;
    case FOR: case UNTIL: { bool o = is_open(); int d = f == FOR ? sa_now + 1 : 1; boost::cv_status s = f == FOR ? C->wait_for(sec(1)) : C->wait_until(at(1));
      if (s == boost::cv_status::no_timeout) { SA_ASSERT(may_open(), R_EARLY); MUST("timed: passed"); } else { if (sa_probe) __sa_stop(); SA_ASSERT(!o, R_LATE); SA_ASSERT(sa_now >= d, R_TIMEOUT); MUST("timed: out"); C->wait(); SA_ASSERT(may_open(), R_EARLY); } break; }
    case TRY: { bool o = is_open(); if (C->try_wait()) { SA_ASSERT(may_open(), R_TRY); MUST("try: open"); } else { SA_ASSERT(!o, R_TRY); MUST("try: closed"); C->wait(); } break; }
    case DOWN: hi = hi + 1; C->count_down(); lo = lo + 1; break;
    case SIGNAL: hi = hi + 1; C->signal(); lo = lo + 1; break;
    case DOWNWAIT: hi = hi + 1; C->count_down_and_wait(); SA_ASSERT(may_open(), R_EARLY); lo = lo + 1; break;
    case SYNC: hi = hi + 1; C->sync(); SA_ASSERT(may_open(), R_EARLY); lo = lo + 1; break;
  }
}
static void t_comp(void* q) { comp_op(form[(int)(long)q]); done = done + 1; }
// everybody is released as soon as the count is zero and somebody waits (a count-down to zero waits for the first of them)
static void rest_comp() { SA_ASSERT(done == sa_nt, R_ALL); SA_ASSERT(funs == 1, R_FUN); MUST("complete"); }
static void rest_shut() { SA_ASSERT(!funs, R_FUN); for (int i = 0; i < sa_nt; i++) if (form[i] == WAIT) SA_ASSERT(sa_T[i].st == T_WAIT, R_EARLY); MUST("shut"); }
static void comp(int c, int k, int a, int b, int d = -1, int e = -1) { boost::completion_latch l(c, &fn); C = &l; cnt0 = c; lo = hi = done = funs = nd = 0; clk_on(2); sa_frozen = 1; form[0] = a; form[1] = b; form[2] = d; form[3] = e; for (int i = 0; i < k; i++) if (form[i] >= DOWN && form[i] < SUNTIL) nd++; sa_probe_timed = 0; sa_at_rest = nd >= c ? rest_comp : rest_shut; sa_run(k, t_comp); }
ENTRY E_completion_1() { comp(1, 2, WAIT, sa_bool() ? DOWN : SIGNAL); }
ENTRY E_completion_2() { comp(2, 3, WAIT, DOWN, SIGNAL); }
ENTRY E_completion_waiters() { comp(1, 3, WAIT, WAIT, DOWN); }
ENTRY E_completion_for() { comp(1, 2, FOR, DOWN); }
ENTRY E_completion_for_wait() { comp(1, 3, FOR, WAIT, DOWN); }
ENTRY E_completion_until() { comp(1, 2, UNTIL, DOWN); }
ENTRY E_completion_until_for() { comp(1, 3, UNTIL, FOR, SIGNAL); }
ENTRY E_completion_try() { comp(1, 2, TRY, DOWN); }
ENTRY E_completion_try_wait() { comp(1, 3, TRY, WAIT, DOWN); }
ENTRY E_completion_down_wait() { comp(2, 2, DOWNWAIT, SYNC); }
ENTRY E_completion_down_wait_3() { comp(2, 3, DOWNWAIT, SYNC, WAIT); }
ENTRY E_completion_shut() { comp(2, 3, WAIT, FOR, DOWN); }
// one thread: a closed latch is found closed, a latch whose count is zero open
ENTRY E_completion_any_count() {
  long c = count(); clk_on(2); sa_frozen = 1; boost::completion_latch l(c);
  if (sa_bool()) { long d = count(); l.reset(d); c = d; MUST("reset"); }
  SA_ASSERT(l.try_wait() == (c == 0), R_TRY);
  if (c == 0) { l.wait(); SA_ASSERT(l.wait_for(sec(1)) == boost::cv_status::no_timeout && l.wait_until(at(1)) == boost::cv_status::no_timeout && l.try_wait(), R_LATE); MUST("open"); return; }
  SA_ASSERT(l.wait_for(sec(1)) == boost::cv_status::timeout, R_EARLY); SA_ASSERT(l.wait_until(at(sa_now + 1)) == boost::cv_status::timeout, R_EARLY);
  if (c > 1) { l.count_down(); SA_ASSERT(!l.try_wait(), R_TRY); MUST("not yet"); } SA_ASSERT(sa_locks_held == 0, R_UNLOCK);
}
static void fn0() { SA_ASSERT(!funs && hi >= 1, R_FUN); funs = 1; }
static void rest_late() { SA_ASSERT(done == 2 && funs == 1, R_ALL); }
// a thread that comes when the latch is open passes; reset closes it
static void t_late(void* q) {
  if (q) { hi = hi + 1; C->count_down(); lo = lo + 1; done = done + 1; return; }
  C->wait(); SA_ASSERT(hi >= 1, R_EARLY); switch (__sa_choose(4)) { case 0: C->wait(); break; case 1: SA_ASSERT(C->try_wait(), R_LATE); break; case 2: SA_ASSERT(C->wait_for(sec(1)) == boost::cv_status::no_timeout, R_LATE); break; default: SA_ASSERT(C->wait_until(at(1)) == boost::cv_status::no_timeout, R_LATE); }
  C->reset(1); SA_ASSERT(!C->try_wait(), R_RESET); done = done + 1; MUST("late");
}
// the latch is used again, after reset
static void t_twice(void* q) {
  int me = (int)(long)q;
  if (me == 0) { C->wait(); SA_ASSERT(hi >= 1, R_EARLY); C->reset(1); lo = hi = 0; round_ = 1; SA_ASSERT(!C->try_wait() || hi >= 1, R_RESET); switch (__sa_choose(3)) { case 0: C->wait(); break; case 1: if (C->wait_for(sec(1)) == boost::cv_status::timeout) { if (sa_probe) __sa_stop(); C->wait(); } break; default: if (!C->try_wait()) C->wait(); } SA_ASSERT(hi >= 1, R_RESET); done = done + 1; MUST("second round"); return; }
  hi = 1; C->count_down(); while (!round_) { sa_T[me].st = T_READY; __sa_co_park(); sa_T[me].st = T_RUN; if (sa_probe) __sa_stop(); } hi = 1; C->count_down(); done = done + 1;
}
static void rest_twice() { SA_ASSERT(done == 2, R_ALL); }
ENTRY E_completion_again() { boost::completion_latch l(1); C = &l; lo = hi = done = round_ = 0; clk_on(2); sa_frozen = 1; sa_probe_timed = 0; sa_at_rest = rest_twice; sa_run(2, t_twice); }
ENTRY E_completion_late() { boost::completion_latch l(1, &fn0); C = &l; cnt0 = 1; lo = hi = done = funs = nd = 0; clk_on(2); sa_frozen = 1; sa_probe_timed = 0; sa_at_rest = rest_late; sa_run(2, t_late); }
