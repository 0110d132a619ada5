// C28: thread groups
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @flags: -fno-access-control
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/thread_only.hpp>
#include <boost/thread/detail/thread_group.hpp>
#define R_MEMBERS "size and membership are exactly those of the threads created or added and not removed"
#define R_DESTROY "the group destroys exactly the threads it contains, with itself"
#define R_ONCE "a thread created by the group runs its function once"
#define R_JOIN "join_all returns only when every joinable member has ended and been joined once"
#define R_SKIP "members that are no longer joinable are skipped"
#define R_SELF "a member that joins the group does not wait for itself"
#define R_INT "interrupt_all interrupts every member and no other thread"
#define R_LOCK "the member list is read under the group's shared lock and changed under its exclusive lock"
#define R_CONC "concurrent operations leave the group as some sequential order of them would"
#define R_FAIL "a failed creation leaves the group unchanged"
typedef boost::thread_group G;
static G* cur; static int fail_now, canfail;
extern "C" int env_create_fault() { if (canfail && sa_bool()) { fail_now = 1; return 11; } return 0; }
extern "C" void env_atomic(void*, int k) {
  if (!cur) return; bool ex = cur->m.state.exclusive, sh = cur->m.state.shared_count > 0;
  SA_ASSERT((k & 2) ? ex : (ex || sh), R_LOCK); MUST("access");
}
static int ran[4], got_int[4], stopit; static void nobody() { }
static void idle() { int i = sa_me(); sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
// --- histories of one thread (the member threads stay unfinished throughout)
static boost::thread* h[3]; static int in[3], dup_ok;
static void check(G& g) {
  unsigned n = 0; for (int i = 0; i < 3; i++) { if (in[i]) n = n + 1; SA_ASSERT(!__sa_freed(h[i]) || !h[i], R_DESTROY); }
  SA_ASSERT(g.size() == n, R_MEMBERS); for (int i = 0; i < 3; i++) SA_ASSERT(g.is_thread_in(h[i]) == (h[i] && in[i]), R_MEMBERS); SA_ASSERT(!g.is_this_thread_in() && !g.is_thread_in(0), R_MEMBERS);
}
ENTRY E_history() {
  __sa_opt("coarse", 1); canfail = 0; cur = 0; for (int i = 0; i < 3; i++) { h[i] = 0; in[i] = 0; } { boost::this_thread::get_id(); }
  { G* gp = new G; G& g = *gp; cur = &g; __sa_atomic_hook(&g.threads, sizeof g.threads);
    while (sa_bool()) { __sa_defer(); int i = __sa_choose(3);
      if (sa_nspawn > 3) __sa_stop();
      switch (__sa_choose(5)) {
        case 0: if (h[i]) __sa_stop(); h[i] = g.create_thread(&nobody); SA_ASSERT(h[i]->joinable(), R_MEMBERS); in[i] = 1; MUST("create"); break;
        case 1: if (h[i]) __sa_stop(); h[i] = new boost::thread(&nobody); break;
        case 2: if (!h[i] || in[i]) __sa_stop(); g.add_thread(h[i]); in[i] = 1; MUST("add"); break;
        case 3: g.remove_thread(h[i]); in[i] = 0; MUST("remove"); break;
        default: g.add_thread(0); g.remove_thread(0); break;
      }
      check(g);
    }
    check(g); cur = 0; int sp = sa_nspawn; for (int k = 0; k < 3; k++) { if (k < sp) SA_ASSERT(!sa_spawn_detach[k] && !sa_spawn_join[k], R_DESTROY); }
    for (int k = 0; k < 3; k++) if (h[k] && in[k]) h[k]->detach();
    delete gp; }
  for (int i = 0; i < 3; i++) if (h[i]) SA_ASSERT((__sa_freed(h[i]) != 0) == (in[i] != 0), R_DESTROY); MUST("destroyed");
}
ENTRY E_create_fails() {
  cur = 0; canfail = 0; G g; cur = &g; __sa_atomic_hook(&g.threads, sizeof g.threads); boost::thread* a = sa_bool() ? g.create_thread(&nobody) : 0; int n = a != 0; bool oom = sa_bool(); canfail = !oom; fail_now = 0; boost::thread* p = 0; int thr = 0, sp = sa_nspawn;
  if (oom) { __sa_opt("oom", 1); }
  try { p = g.create_thread(&nobody); } catch (boost::thread_resource_error&) { thr = 1; } catch (std::bad_alloc&) { thr = 2; } 
  if (oom) { __sa_opt("oom", 0); } canfail = 0;
  if (oom) { SA_ASSERT(thr != 1, R_FAIL); if (!thr) SA_ASSERT(p, R_FAIL); } else SA_ASSERT((thr == 1) == (fail_now != 0), R_FAIL);
  if (thr) { SA_ASSERT(sa_nspawn == sp, R_FAIL); MUST("failed"); } else { n = n + 1; SA_ASSERT(g.is_thread_in(p) && sa_nspawn == sp + 1, R_MEMBERS); MUST("ok"); }
  SA_ASSERT((int)g.size() == n, R_FAIL); SA_ASSERT(!a || g.is_thread_in(a), R_FAIL); cur = 0; SA_ASSERT(!g.m.state.exclusive && !g.m.state.shared_count, R_LOCK);
  if (a) a->detach(); if (p) p->detach();
}
// --- joining and interrupting
static int mode, joined_all, outside; static G* gg;
struct Body { int k; Body(int x) : k(x) {} void operator()() const { SA_ASSERT(!ran[k], R_ONCE); ran[k] = 1; idle();
  if (mode == 1) { try { boost::this_thread::interruption_point(); } catch (boost::thread_interrupted&) { got_int[k] = 1; } while (!stopit) idle(); }
  if (mode == 2 && k == 0) { try { gg->join_all(); SA_ASSERT(false, R_SELF); } catch (boost::thread_resource_error& e) { SA_ASSERT(e.code().value() == EDEADLK, R_SELF); MUST("self"); } }
  ran[k] = 2; } };
static void reset() { cur = 0; canfail = 0; joined_all = outside = 0; stopit = 0; for (int i = 0; i < 4; i++) ran[i] = got_int[i] = 0; { boost::this_thread::get_id(); } }
static void d_join(void*) {
  reset(); { G g; gg = &g; int n = 0; boost::thread* t[2] = {0, 0};
    for (int i = 0; i < 2; i++) { if (sa_bool()) t[i] = g.create_thread(Body(i)); else { t[i] = new boost::thread(Body(i)); g.add_thread(t[i]); } }
    int c = __sa_choose(4); bool det = false; if (c == 1) { t[0]->join(); SA_ASSERT(ran[0] == 2, R_JOIN); } else if (c == 2) { t[1]->detach(); det = true; } else if (c == 3) { g.remove_thread(t[0]); n = 1; }
    g.join_all(); SA_ASSERT(n || ran[0] == 2, R_JOIN); SA_ASSERT(det || ran[1] == 2, R_JOIN);
    for (int i = 0; i < 2; i++) SA_ASSERT(t[i]->joinable() == (n && i == 0), R_JOIN);
    for (int i = 0; i < 2; i++) SA_ASSERT(sa_spawn_join[i] == ((n && i == 0) || (det && i == 1) ? 0 : 1), R_SKIP);
    SA_ASSERT(g.size() == (n ? 1u : 2u), R_MEMBERS); g.join_all(); for (int i = 0; i < 2; i++) SA_ASSERT(sa_spawn_join[i] <= 1, R_SKIP); if (n) { t[0]->join(); SA_ASSERT(ran[0] == 2, R_JOIN); delete t[0]; } MUST("joined"); }
}
ENTRY E_join() { mode = 0; sa_run(1, d_join); }
static void d_join_empty(void*) { reset(); G g; g.join_all(); g.interrupt_all(); SA_ASSERT(g.size() == 0, R_MEMBERS); MUST("empty"); }
ENTRY E_join_empty() { mode = 0; sa_run(1, d_join_empty); }
static void d_int(void*) {
  reset(); { G g; boost::thread* t[2]; t[0] = g.create_thread(Body(0)); t[1] = new boost::thread(Body(1)); bool add = sa_bool(); if (add) g.add_thread(t[1]); g.interrupt_all(); 
    SA_ASSERT(t[0]->interruption_requested() || got_int[0], R_INT); if (add) SA_ASSERT(t[1]->interruption_requested() || got_int[1], R_INT); else SA_ASSERT(!t[1]->interruption_requested() && !got_int[1], R_INT);
    SA_ASSERT(!boost::this_thread::interruption_requested(), R_INT); stopit = 1; g.join_all(); if (!add) { t[1]->join(); SA_ASSERT(!got_int[1], R_INT); delete t[1]; } MUST("interrupted"); }
}
ENTRY E_interrupt() { mode = 1; sa_run(1, d_int); }
static void d_self(void*) {
  reset(); { G g; gg = &g; boost::thread* t = g.create_thread(Body(0)); (void)t; while (ran[0] != 2) idle(); SA_ASSERT(g.size() == 1, R_SELF); g.join_all(); MUST("done"); }
}
ENTRY E_self() { mode = 2; sa_run(1, d_self); }
// member operations of a running thread see it as a member
static void inb() { SA_ASSERT(gg->is_this_thread_in() == (outside == 0), R_MEMBERS); ran[0] = 2; MUST("inside"); }
static void d_inside(void*) { reset(); { G g; gg = &g; boost::thread* x = 0; if (sa_bool()) { outside = 1; x = new boost::thread(&inb); boost::thread* y = g.create_thread(&nobody); (void)y; } else { g.create_thread(&inb); } g.join_all(); if (x) { x->join(); delete x; } SA_ASSERT(ran[0] == 2, R_JOIN); } }
ENTRY E_inside() { mode = 0; sa_run(1, d_inside); }
// --- two threads using a group at once
static int opk[2]; static boost::thread *pre, *mine[2]; static int done2, started;
static void t_op(void* a) {
  int k = (int)(long)a; G& g = *gg; unsigned n;
  if (k == 0) { pre = new boost::thread(&nobody); g.add_thread(pre); started = 1; } else while (!started) idle();
  switch (opk[k]) { case 0: mine[k] = g.create_thread(&nobody); break; case 1: mine[k] = new boost::thread(&nobody); g.add_thread(mine[k]); break; case 2: g.remove_thread(pre); break; case 3: n = g.size(); SA_ASSERT(n <= 3, R_CONC); break; default: g.is_thread_in(pre); break; }
  done2 = done2 + 1; if (done2 < 2) return;
  bool rm = opk[0] == 2 || opk[1] == 2; n = rm ? 0 : 1; for (int i = 0; i < 2; i++) if (mine[i]) { n = n + 1; SA_ASSERT(g.is_thread_in(mine[i]), R_CONC); } SA_ASSERT(g.is_thread_in(pre) == !rm, R_CONC); SA_ASSERT(g.size() == n, R_CONC); MUST("both");
}
template <int A, int B> static void conc() { reset(); G g; gg = &g; cur = &g; sa_preempt_after = 1; sa_spurious_left = 0; __sa_atomic_hook(&g.threads, sizeof g.threads); started = 0; opk[0] = A; opk[1] = B; mine[0] = mine[1] = 0; done2 = 0; sa_run(2, t_op); }
#ifdef SA_THOROUGH
ENTRY E_conc_create() { conc<0, 0>(); }
#endif
 ENTRY E_conc_create_remove() { conc<0, 2>(); } ENTRY E_conc_add_size() { conc<1, 3>(); } ENTRY E_conc_add_remove() { conc<1, 2>(); } ENTRY E_conc_remove2() { conc<2, 2>(); } ENTRY E_conc_read() { conc<4, 2>(); } ENTRY E_conc_add_read() { conc<1, 4>(); }
