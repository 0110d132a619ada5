// C23: barriers
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/barrier.hpp>
#define R_TOGETHER "a thread leaves a barrier only when all of its generation have arrived"
#define R_ONE "exactly one thread of each generation is told that it completed it"
#define R_FUN "the completion function runs once per generation, before anybody of it is released"
#define R_NEXT "the barrier starts the next generation with the right number at once"
#define R_ZERO "a count of zero is rejected"
#define R_ALL "when the configured number has arrived, everybody is released"
#define R_LEAK "a barrier leaves nothing behind"
static int n, gens, arrived[4], left[4], trues[4], funs, done, kind; static boost::barrier* B;
static void fn() { int g = funs; SA_ASSERT(g < gens && arrived[g] == n && left[g] == 0, R_FUN); funs = g + 1; MUST("completion"); }
static unsigned fnu() { fn(); return n; }
struct Fv { void operator()() { fn(); } }; struct Fu { unsigned operator()() { fn(); return n; } };
static void t_wait(void*) {
  for (int g = 0; g < gens; g++) {
    arrived[g] = arrived[g] + 1; bool r = false;
    if (kind & 1) { if (sa_bool()) r = B->wait(); else { B->count_down_and_wait(); trues[g] = trues[g] + 100; } } else r = B->wait();
    SA_ASSERT(arrived[g] == n, R_TOGETHER); if (kind & 2) SA_ASSERT(funs > g, R_FUN);
    if (r) { SA_ASSERT(trues[g] % 100 == 0, R_ONE); trues[g] = trues[g] + 1; MUST("told"); } else MUST("not told");
    left[g] = left[g] + 1;
    if (left[g] == n) SA_ASSERT(trues[g] == 1 || trues[g] >= 100, R_ONE);
  }
  done = done + 1;
}
static void rest() { SA_ASSERT(done == n, R_ALL); MUST("all done"); }
static void go(boost::barrier& b, int threads, int g, int k) { B = &b; gens = g; funs = done = 0; kind = k; for (int i = 0; i < 4; i++) arrived[i] = left[i] = trues[i] = 0; sa_at_rest = rest; sa_run(threads, t_wait); }
ENTRY E_plain_1() { n = 1; boost::barrier b(1); go(b, 1, 3, 0); }
ENTRY E_plain_2() { n = 2; boost::barrier b(2); go(b, 2, 3, 1); }
ENTRY E_plain_3() { n = 3; boost::barrier b(3); go(b, 3, 2, 0); }
ENTRY E_plain_5() { n = 5; boost::barrier b(5); sa_spurious_left = 0; go(b, 5, 1, 0); }
ENTRY E_void_functor() { n = 2; Fv f; if (sa_bool()) { boost::barrier b(2, f); go(b, 2, 2, 2); } else { boost::barrier b(2, Fv()); go(b, 2, 2, 2); } }
ENTRY E_uint_functor() { n = 2; Fu f; if (sa_bool()) { boost::barrier b(2, f); go(b, 2, 2, 2); } else { boost::barrier b(2, Fu()); go(b, 2, 2, 2); } }
ENTRY E_void_pointer() { n = 2; boost::barrier b(2, &fn); go(b, 2, 2, 2); }
ENTRY E_uint_pointer() { n = 3; boost::barrier b(3, &fnu); go(b, 3, 1, 2); }
ENTRY E_null_void() { n = 2; boost::barrier b(2, (void (*)())0); go(b, 2, 2, 0); }
ENTRY E_null_uint() { n = 2; boost::barrier b(2, (unsigned (*)())0); go(b, 2, 2, 0); }
// the completion function changes the number of parties
static int cnt[4], out, told, per[3];
static unsigned change() { int g = funs; SA_ASSERT(out <= (g > 0 ? cnt[0] : 0) + (g > 1 ? cnt[1] : 0), R_FUN); funs = g + 1; return cnt[g + 1]; }
static int sum() { int s = 0; for (int i = 0; i < funs; i++) s += cnt[i]; return s; }
static void t_change(void* q) {
  int me = (int)(long)q;
  for (int k = 0; k < per[me]; k++) { bool r = B->wait(); out = out + 1; SA_ASSERT(out <= sum(), R_TOGETHER); if (r) { told = told + 1; SA_ASSERT(told <= funs, R_ONE); } }
  done = done + 1;
}
static void rest_change() { SA_ASSERT(out == sum(), R_ALL); if (done == sa_nt) { SA_ASSERT(funs == 3 && told == 3 && out == cnt[0] + cnt[1] + cnt[2], R_NEXT); MUST("all done"); } }
static void changing(int a, int b, int c, int p, int q, int r) { cnt[0] = a; cnt[1] = b; cnt[2] = c; cnt[3] = 7; per[0] = p; per[1] = q; per[2] = r; out = told = funs = done = 0; sa_at_rest = rest_change; boost::barrier bar(a, &change); B = &bar; sa_run(3, t_change); }
ENTRY E_change_up() { changing(1, 2, 3, 2, 2, 2); }
ENTRY E_change_down() { changing(3, 2, 1, 1, 2, 3); }
ENTRY E_zero() {
  bool r = false; try { switch (__sa_choose(6)) { case 0: { boost::barrier b(0); break; } case 1: { boost::barrier b(0, &fn); break; } case 2: { boost::barrier b(0, &fnu); break; } case 3: { boost::barrier b(0, Fv()); break; } case 4: { Fu f; boost::barrier b(0, f); break; } default: { Fv f; boost::barrier b(0, f); } } }
  catch (boost::thread_exception& e) { r = e.code().value() == EINVAL; } SA_ASSERT(r, R_ZERO); MUST("rejected");
}
ENTRY E_leak() { int base = __sa_live_heap(); { n = 1; gens = 2; for (int i = 0; i < 4; i++) arrived[i] = left[i] = 0; funs = 0; Fv f; boost::barrier b(1, f); for (int i = 0; i < 2; i++) { arrived[i] = 1; SA_ASSERT(b.wait() && funs == i + 1, R_NEXT); } } SA_ASSERT(__sa_live_heap() == base, R_LEAK); }
