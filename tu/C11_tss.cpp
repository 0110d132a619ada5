// C11: thread-specific pointers - get/reset/release/destroy histories over several pointers and threads
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/tss.hpp>
#define R_GET "get returns what the same thread last set in the same pointer, null when nothing was set"
#define R_CLEAN "the cleanup function runs exactly once on a value that is replaced, reset or left at thread exit, in the thread that set it"
#define R_KEEP "a value that is kept, released or belongs to another thread or pointer is never cleaned"
#define R_EXIT "at thread exit every remaining value has been cleaned"
#define R_NOCL "a pointer without cleanup function never cleans"
#define R_LEAK "no bookkeeping remains after the values are gone"
// values: vals[p][k] for pointer p; state of each: 0 fresh, 1 set, 2 cleaned, 3 released
static int vals[4][3]; static int st[4][3], who[4][3]; static int cur[4][4]; // cur[p][tid]: index of the value set, -1 none
static int incleanup, expect;
static int idx(int* v) { return (int)(v - &vals[0][0]); }
static void clean_p(int* v, int p) {
  int i = idx(v); SA_ASSERT(v && i / 3 == p, R_KEEP); int k = i % 3; int t = __sa_tid();
  SA_ASSERT(st[p][k] == 1 && who[p][k] == t, R_CLEAN);
  SA_ASSERT(expect == p * 3 + k || expect == 100 || expect == 200 + p, R_KEEP);
  st[p][k] = 2; if (cur[p][t] == k) cur[p][t] = -1;
  if (incleanup && p == 0) { SA_ASSERT(1, R_CLEAN); }
}
static void clean0(int* v) { clean_p(v, 0); } static void clean1(int* v) { clean_p(v, 1); }
static boost::thread_specific_ptr<int>* ptr[4]; static int np, alive[4];
static void check() { int t = __sa_tid(); for (int p = 0; p < np; p++) if (alive[p]) { int k = cur[p][t]; SA_ASSERT(ptr[p]->get() == (k < 0 ? (int*)0 : &vals[p][k]), R_GET); if (k >= 0) SA_ASSERT(ptr[p]->operator->() == &vals[p][k] && &**ptr[p] == &vals[p][k], R_GET); } }
static void fold() { for (int p = 0; p < np; p++) for (int k = 0; k < 3; k++) { if (st[p][k] != 1) { st[p][k] = 0; who[p][k] = 0; } } }
static void op() {
  int t = __sa_tid(); int p = np == 1 ? 0 : __sa_choose(np); if (!alive[p]) __sa_stop(); int k = cur[p][t];
  switch (__sa_choose(5)) {
    case 0: { int n = __sa_choose(2); if (st[p][n] == 1 && n != k) __sa_stop();   // set a fresh value, or the same one again
      int old = k; expect = (k >= 0 && n != k) ? p * 3 + k : -1; if (p == 2) expect = -1; st[p][n] = 1; who[p][n] = t;
      ptr[p]->reset(&vals[p][n]); if (old >= 0 && old != n) { if (p != 2) SA_ASSERT(st[p][old] == 2, R_CLEAN); else st[p][old] = 0; }
      cur[p][t] = n; SA_ASSERT(st[p][n] == 1, R_KEEP); break; }
    case 1: { expect = k >= 0 && p != 2 ? p * 3 + k : -1; ptr[p]->reset(); if (k >= 0) { if (p != 2) SA_ASSERT(st[p][k] == 2, R_CLEAN); else st[p][k] = 0; } cur[p][t] = -1; break; }
    case 2: { expect = -1; int* v = ptr[p]->release(); SA_ASSERT(v == (k < 0 ? (int*)0 : &vals[p][k]), R_GET); if (k >= 0) st[p][k] = 3; cur[p][t] = -1; break; }
    case 3: { expect = -1; int* v = ptr[p]->get(); SA_ASSERT(v == (k < 0 ? (int*)0 : &vals[p][k]), R_GET); break; }
    case 4: { // destroy the pointer: the calling thread's value is cleaned, others are untouched
      if (np < 2) __sa_stop();
      expect = k >= 0 && p != 2 ? p * 3 + k : -1; alive[p] = 0; delete ptr[p]; if (k >= 0) { if (p != 2) SA_ASSERT(st[p][k] == 2, R_CLEAN); } cur[p][t] = -1; break; }
  }
  expect = -1; check(); fold();
}
static void init(int n) { np = n; for (int p = 0; p < 4; p++) for (int t = 0; t < 4; t++) cur[p][t] = -1; expect = -1; for (int p = 0; p < n; p++) { ptr[p] = p == 0 ? new boost::thread_specific_ptr<int>(clean0) : p == 1 ? new boost::thread_specific_ptr<int>(clean1) : new boost::thread_specific_ptr<int>((void (*)(int*))0); alive[p] = 1; } }
static void thread_end() { int t = __sa_tid(); expect = 100; sa_run_key_dtors(t); expect = -1; for (int p = 0; p < np; p++) for (int k = 0; k < 3; k++) if (alive[p] && p != 2 && who[p][k] == t) SA_ASSERT(st[p][k] != 1, R_EXIT); for (int p = 0; p < np; p++) { cur[p][t] = -1; if (alive[p]) SA_ASSERT(ptr[p]->get() == 0, R_GET); } }
static void seq(int n) {
  __sa_opt("coarse", 1); init(n); int b = __sa_live_heap() - n; check();
  while (sa_bool()) { __sa_defer(); op(); }
  thread_end();
  for (int p = 0; p < n; p++) if (alive[p]) delete ptr[p];
  sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() <= b, R_LEAK); MUST("end");
}
ENTRY E_one() { seq(1); }
ENTRY E_two() { seq(2); }
ENTRY E_with_null_cleanup() { seq(3); }
// default constructed pointer deletes
struct Cnt { int* n; explicit Cnt(int* x) : n(x) {} ~Cnt() { *n = *n + 1; } };
ENTRY E_default_deleter() {
  int n = 0; int b = __sa_live_heap();
  { boost::thread_specific_ptr<Cnt> p; p.reset(new Cnt(&n)); SA_ASSERT(n == 0, R_KEEP); p.reset(new Cnt(&n)); SA_ASSERT(n == 1, R_CLEAN); p.reset(p.get()); SA_ASSERT(n == 1, R_KEEP); Cnt* c = p.release(); SA_ASSERT(n == 1 && c && !p.get(), R_KEEP); delete c; p.reset(new Cnt(&n)); n = 0; if (sa_bool()) { sa_run_key_dtors(__sa_tid()); SA_ASSERT(n == 1, R_EXIT); } }
  SA_ASSERT(n == 1, R_CLEAN); sa_run_key_dtors(__sa_tid()); SA_ASSERT(__sa_live_heap() <= b, R_LEAK); MUST("end");
}
// cleanup functions that set a value in another pointer during thread exit
static void clean_set(int* v) { clean_p(v, 0); expect = 100; if (sa_bool() && cur[1][__sa_tid()] < 0 && st[1][0] == 0) { st[1][0] = 1; who[1][0] = __sa_tid(); cur[1][__sa_tid()] = 0; ptr[1]->reset(&vals[1][0]); } }
static int both; static void clean_set1(int* v) { clean_p(v, 1); if (!both) return; if (sa_bool() && cur[0][__sa_tid()] < 0 && st[0][1] == 0) { st[0][1] = 1; who[0][1] = __sa_tid(); cur[0][__sa_tid()] = 1; expect = 100; ptr[0]->reset(&vals[0][1]); } }
static void chain_body() {
  int t = __sa_tid();
  if (sa_bool()) { st[0][0] = 1; who[0][0] = t; cur[0][t] = 0; ptr[0]->reset(&vals[0][0]); }
  if (sa_bool()) { st[1][1] = 1; who[1][1] = t; cur[1][t] = 1; ptr[1]->reset(&vals[1][1]); }
  expect = 100;
}
static void chain_init() { np = 2; for (int p = 0; p < 4; p++) for (int t = 0; t < 4; t++) cur[p][t] = -1; ptr[0] = new boost::thread_specific_ptr<int>(clean_set); ptr[1] = new boost::thread_specific_ptr<int>(clean_set1); alive[0] = alive[1] = 1; }
ENTRY E_set_in_cleanup_external() { __sa_opt("coarse", 1); chain_init(); chain_body(); thread_end(); MUST("end"); }
static void chain_driver(void*) { chain_init(); boost::thread t(chain_body); t.join(); for (int p = 0; p < 2; p++) for (int k = 0; k < 3; k++) SA_ASSERT(st[p][k] != 1, R_EXIT); MUST("end"); }
ENTRY E_set_in_cleanup_thread() { sa_spurious = 0; sa_run(1, chain_driver); }
// two threads use the same pointers: values never mix
static int joined2;
static void worker() { for (int i = 0; i < 2; i++) op(); expect = 100; }
static int n2;
static void op2() { int t = __sa_tid(); int k = cur[0][t]; expect = k >= 0 ? k : -1;
  switch (__sa_choose(3)) { case 0: { int n = __sa_choose(3); if (st[0][n] != 0) __sa_stop(); st[0][n] = 1; who[0][n] = t; ptr[0]->reset(&vals[0][n]); if (k >= 0) SA_ASSERT(st[0][k] == 2, R_CLEAN); cur[0][t] = n; break; }
    case 1: ptr[0]->reset(); if (k >= 0) SA_ASSERT(st[0][k] == 2, R_CLEAN); cur[0][t] = -1; break;
    case 2: { expect = -1; int* v = ptr[0]->release(); SA_ASSERT(v == (k < 0 ? 0 : &vals[0][k]), R_GET); if (k >= 0) st[0][k] = 3; cur[0][t] = -1; } }
  expect = -1; check(); }
static void worker2() { int n = n2; for (int i = 0; i < n; i++) { op2(); sa_T[sa_me()].st = T_READY; __sa_co_park(); sa_T[sa_me()].st = T_RUN; check(); } expect = 100; }
static void drv2(void*) { init(1); boost::thread a(worker2), b(worker2); a.join(); b.join(); for (int k = 0; k < 3; k++) SA_ASSERT(st[0][k] != 1, R_EXIT); MUST("end"); }
ENTRY E_two_threads() { n2 = 2; sa_spurious = 0; sa_run(1, drv2); }
#ifdef SA_THOROUGH
ENTRY E_two_threads_long() { n2 = 4; sa_spurious = 0; sa_run(1, drv2); }
#endif
