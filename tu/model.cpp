// Models of the environment the library runs on: POSIX threads, clocks, the handful of libstdc++
// out-of-line helpers, and boost::current_exception.  Analysed together with every witness unit.
#include "sa.h"
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <list>
#include <map>
#define BOOST_SMT_H
#include <boost/exception_ptr.hpp>
#define WEAK __attribute__((weak))
extern "C" {
int sa_locks_held = 0; int sa_wait_depth = 0;
WEAK void env_before_lock(pthread_mutex_t*) {}
WEAK void env_after_lock(pthread_mutex_t*) {}
WEAK void env_before_unlock(pthread_mutex_t*) {}
WEAK void env_after_unlock(pthread_mutex_t*) {}
WEAK void env_wait(pthread_cond_t*, pthread_mutex_t*, int) {}
WEAK void env_notify(pthread_cond_t*, int) {}
WEAK int env_lock_fault(pthread_mutex_t*) { return 0; }
WEAK int env_wait_fault(pthread_cond_t*) { return 0; }
WEAK int env_create_fault() { return 0; }
WEAK int env_init_fault(int) { return 0; }
WEAK void env_made(int, int) {}
WEAK void env_block(pthread_mutex_t*) { __sa_co_park(); }
WEAK void env_atomic(void*, int) {}
void __sa_on_atomic(void* p, int kind) { env_atomic(p, kind); }

int pthread_mutex_init(pthread_mutex_t* m_, const pthread_mutexattr_t* a) {
  int f = env_init_fault(0); if (f) return f; env_made(0, 1);
  sa_mutex* m = (sa_mutex*)m_; m->owner = 0; m->depth = 0; m->waiters = 0; m->kind = a ? *(const int*)a : 0; m->acquisitions = 0; __sa_mutex_made(m_, 1); return 0;
}
int pthread_mutexattr_init(pthread_mutexattr_t* a) { int f = env_init_fault(1); if (f) return f; env_made(1, 1); *(int*)a = 0; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) { env_made(1, -1); return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int t) { int f = env_init_fault(5); if (f) return f; *(int*)a = t; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m_) {
  sa_mutex* m = (sa_mutex*)m_; if (m->owner) __sa_fail("mutex discipline: mutex destroyed while locked"); env_made(0, -1); __sa_mutex_made(m_, 0); return 0;
}
static int acquire(sa_mutex* m, int blocking) {
  int me = __sa_tid() + 1;
  if (m->owner == me) {
    if (m->kind == PTHREAD_MUTEX_RECURSIVE) { m->depth = m->depth + 1; return 0; }
    if (!blocking) return EBUSY;
    __sa_fail("self-deadlock: thread blocks on a non-recursive mutex it already holds");
  }
  while (m->owner) { if (!blocking) return EBUSY; env_block((pthread_mutex_t*)m); }
  m->owner = me; m->depth = 1; sa_locks_held = sa_locks_held + 1;
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  int f = env_lock_fault(m); if (f) return f;
  if (((sa_mutex*)m)->owner != __sa_tid() + 1) { __sa_take(m, 0); env_before_lock(m); }
  int first = ((sa_mutex*)m)->owner != __sa_tid() + 1;
  int r = acquire((sa_mutex*)m, 1); if (first) env_after_lock(m); return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  int f = env_lock_fault(m); if (f) return f;
  if (((sa_mutex*)m)->owner != __sa_tid() + 1) env_before_lock(m);
  int first = ((sa_mutex*)m)->owner != __sa_tid() + 1;
  int r = acquire((sa_mutex*)m, 0); if (!r && first) env_after_lock(m); return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
  if (((sa_mutex*)m)->owner != __sa_tid() + 1) env_before_lock(m);
  int r = acquire((sa_mutex*)m, 0); if (r) return ETIMEDOUT; env_after_lock(m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m_) {
  sa_mutex* m = (sa_mutex*)m_;
  if (m->owner != __sa_tid() + 1) __sa_fail("mutex discipline: unlock of a mutex the thread does not hold");
  m->depth = m->depth - 1;
  if (m->depth) return 0;
  env_before_unlock(m_);
  m->owner = 0; sa_locks_held = sa_locks_held - 1;
  env_after_unlock(m_); return 0;
}
int pthread_condattr_init(pthread_condattr_t* a) { int f = env_init_fault(3); if (f) return f; env_made(3, 1); *(int*)a = CLOCK_REALTIME; return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a, clockid_t c) { int f = env_init_fault(6); if (f) return f; *(int*)a = c; return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) { env_made(3, -1); return 0; }
int pthread_cond_init(pthread_cond_t* c_, const pthread_condattr_t* a) { int f = env_init_fault(2); if (f) return f; env_made(2, 1); sa_cond* c = (sa_cond*)c_; c->notes = 0; c->bcast = 0; c->waiters = 0; c->clock = a ? *(const int*)a : CLOCK_REALTIME; return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (((sa_cond*)c)->waiters) __sa_fail("condition variable destroyed while a thread waits on it"); env_made(2, -1); return 0; }
static int do_wait(pthread_cond_t* c, pthread_mutex_t* m_, int timed) {
  sa_mutex* m = (sa_mutex*)m_;
  if (m->owner != __sa_tid() + 1) __sa_fail("wait discipline: condition wait entered without holding its mutex");
  int f = env_wait_fault(c); if (f) return f;
  __sa_take(m_, 1);
  int d = m->depth;
  env_before_unlock(m_);
  m->owner = 0; m->depth = 0; sa_locks_held = sa_locks_held - 1;
  ((sa_cond*)c)->waiters = ((sa_cond*)c)->waiters + 1;
  sa_wait_depth = sa_wait_depth + 1; env_wait(c, m_, timed); sa_wait_depth = sa_wait_depth - 1;
  ((sa_cond*)c)->waiters = ((sa_cond*)c)->waiters - 1;
  while (m->owner) env_block(m_);
  m->owner = __sa_tid() + 1; m->depth = d; sa_locks_held = sa_locks_held + 1;
  env_after_lock(m_);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return do_wait(c, m, 0); }
WEAK int env_timed_result() { return sa_bool() ? ETIMEDOUT : 0; }
long sa_wait_sec, sa_wait_nsec; int sa_wait_clock;   // deadline of the timed wait being entered
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { sa_wait_sec = ts->tv_sec; sa_wait_nsec = ts->tv_nsec; sa_wait_clock = ((sa_cond*)c)->clock; int r = do_wait(c, m, 1); if (r) return r; return env_timed_result(); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { sa_wait_sec = ts->tv_sec; sa_wait_nsec = ts->tv_nsec; sa_wait_clock = k; int r = do_wait(c, m, 1); if (r) return r; return env_timed_result(); }
int pthread_cond_signal(pthread_cond_t* c) { ((sa_cond*)c)->notes = 1; env_notify(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { ((sa_cond*)c)->notes = 1; ((sa_cond*)c)->bcast = 1; env_notify(c, 1); return 0; }

// threads
int sa_nspawn = 0; int sa_tid_base = 0; sa_thread_fn sa_spawn_fn[8]; void* sa_spawn_arg[8]; int sa_spawn_state[8]; int sa_spawn_join[8]; int sa_spawn_detach[8];
int sa_nkeys = 0; void* sa_tls[10][4]; void (*sa_key_dtor[4])(void*);
void sa_run_key_dtors(int tid) {
  for (int r = 0; r < 2; r++)
  for (int k = 0; k < sa_nkeys && k < 4; k++) { void* v = sa_tls[tid][k]; if (v && sa_key_dtor[k]) { sa_tls[tid][k] = 0; sa_key_dtor[k](v); } }
}
void sa_run_spawned(int i) {
  if (sa_spawn_state[i]) return;
  sa_spawn_state[i] = 1; int me = __sa_tid(); int held = sa_locks_held; sa_locks_held = 0; __sa_set_tid(sa_tid_base + i + 1);
  sa_spawn_fn[i](sa_spawn_arg[i]);
  sa_run_key_dtors(sa_tid_base + i + 1);
  __sa_set_tid(me); sa_spawn_state[i] = 2; sa_locks_held = held;
}
WEAK void env_join(int i) { sa_run_spawned(i); }
WEAK void env_spawned(int) {}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  int f = env_create_fault(); if (f) return f;
  int i = sa_nspawn; if (i >= 8) __sa_stop();
  sa_spawn_fn[i] = fn; sa_spawn_arg[i] = arg; sa_spawn_state[i] = 0; sa_spawn_join[i] = 0; sa_spawn_detach[i] = a && ((const int*)a)[0] == 1; sa_nspawn = i + 1; *t = (pthread_t)(sa_tid_base + i + 2); env_spawned(i); return 0;
}
int pthread_join(pthread_t t, void**) {
  int i = (int)t - 2 - sa_tid_base; if (i < 0 || i >= sa_nspawn) __sa_fail("thread discipline: join of an invalid thread handle");
  if (sa_spawn_join[i] || sa_spawn_detach[i]) __sa_fail("thread discipline: a thread is joined or detached more than once");
  if (sa_tid_base + i + 1 == __sa_tid()) __sa_fail("self-deadlock: thread joins itself");
  __sa_take(0, 2); sa_spawn_join[i] = 1; env_join(i); if (sa_spawn_state[i] != 2) __sa_stop(); return 0;
}
int pthread_detach(pthread_t t) {
  int i = (int)t - 2 - sa_tid_base; if (i < 0 || i >= sa_nspawn) __sa_fail("thread discipline: detach of an invalid thread handle");
  if (sa_spawn_join[i] || sa_spawn_detach[i]) __sa_fail("thread discipline: a thread is joined or detached more than once");
  sa_spawn_detach[i] = 1; return 0;
}
pthread_t pthread_self() { return (pthread_t)(__sa_tid() + 1); }
int pthread_attr_init(pthread_attr_t* a) { for (int i = 0; i < 7; i++) ((long*)a)[i] = 0; return 0; }
int pthread_attr_destroy(pthread_attr_t*) { return 0; }
int pthread_attr_setstacksize(pthread_attr_t*, size_t) { return 0; }
int pthread_attr_getstacksize(const pthread_attr_t*, size_t* s) { *s = __sa_range(0, 1 << 30); return 0; }
int pthread_attr_setdetachstate(pthread_attr_t* a, int d) { ((int*)a)[0] = d; return 0; }
int pthread_attr_getdetachstate(const pthread_attr_t* a, int* d) { *d = ((const int*)a)[0]; return 0; }
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) { int f = env_init_fault(4); if (f) return f; if (sa_nkeys >= 4) __sa_stop(); *k = sa_nkeys; sa_key_dtor[sa_nkeys] = d; sa_nkeys = sa_nkeys + 1; return 0; }
int pthread_key_delete(pthread_key_t k) { for (int i = 0; i < 10; i++) sa_tls[i][k] = 0; sa_key_dtor[k] = 0; return 0; }
void* pthread_getspecific(pthread_key_t k) { return sa_tls[__sa_tid()][k]; }
int pthread_setspecific(pthread_key_t k, const void* v) { sa_tls[__sa_tid()][k] = (void*)v; return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) { if (*o == 0) { *o = 1; fn(); *o = 2; } return 0; }
int* __errno_location() noexcept { static int e[64]; return &e[__sa_tid() & 63]; }
int sched_yield() { return 0; }
WEAK int nanosleep(const struct timespec*, struct timespec*) { return 0; }
WEAK int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return 0; }
WEAK int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = __sa_range(1, 1l << 32); ts->tv_nsec = __sa_range(0, 999999999); return 0; }
WEAK int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1600000000; tv->tv_usec = 0; return 0; }
WEAK time_t time(time_t* t) { if (t) *t = 1600000000; return 1600000000; }
struct tm* gmtime_r(const time_t* t, struct tm* r) {   // proleptic Gregorian calendar
  long d = *t / 86400, s = *t % 86400; r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = (d + 4) % 7; r->tm_isdst = 0;
  long z = d + 719468, era = z / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  r->tm_mday = doy - (153 * mp + 2) / 5 + 1; r->tm_mon = mp < 10 ? mp + 2 : mp - 10; r->tm_year = yoe + era * 400 + (r->tm_mon <= 1) - 1900; r->tm_yday = 0; return r;
}
int clock_getres(clockid_t, struct timespec* ts) { ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
}
// ---- libstdc++ out-of-line helpers
namespace std { namespace __detail {
void sa_list_hook(_List_node_base* self, _List_node_base* pos) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void sa_list_hook(_List_node_base* self, _List_node_base* pos) { self->_M_next = pos; self->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = self; pos->_M_prev = self; }
void sa_list_unhook(_List_node_base* self) asm("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void sa_list_unhook(_List_node_base* self) { _List_node_base* n = self->_M_next; _List_node_base* p = self->_M_prev; p->_M_next = n; n->_M_prev = p; }
void sa_list_transfer(_List_node_base* self, _List_node_base* first, _List_node_base* last) asm("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void sa_list_transfer(_List_node_base* self, _List_node_base* first, _List_node_base* last) {
  if (self != last) { last->_M_prev->_M_next = self; first->_M_prev->_M_next = last; self->_M_prev->_M_next = first;
    _List_node_base* t = self->_M_prev; self->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void sa_list_swap(_List_node_base& x, _List_node_base& y) asm("_ZNSt8__detail15_List_node_base4swapERS0_S1_");
void sa_list_swap(_List_node_base& x, _List_node_base& y) {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
} 
// red-black tree helpers as a plain (unbalanced) search tree: balance is irrelevant to the analysed rules
typedef _Rb_tree_node_base rb;
void sa_rb_insert(bool left, rb* x, rb* p, rb& h) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void sa_rb_insert(bool left, rb* x, rb* p, rb& h) {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
static rb* rbmin(rb* x) { while (x->_M_left) x = x->_M_left; return x; }
static rb* rbmax(rb* x) { while (x->_M_right) x = x->_M_right; return x; }
rb* sa_rb_inc(rb* x) asm("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
rb* sa_rb_inc(rb* x) { if (x->_M_right) return rbmin(x->_M_right); rb* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const rb* sa_rb_incc(const rb* x) asm("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
const rb* sa_rb_incc(const rb* x) { return sa_rb_inc(const_cast<rb*>(x)); }
rb* sa_rb_dec(rb* x) asm("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
rb* sa_rb_dec(rb* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x && x->_M_parent != 0 && 0) return x->_M_right; if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_right && (x->_M_color == _S_red)) { rb* h = x; if (h->_M_left && h->_M_parent->_M_parent == h) { /* header */ return h->_M_right; } }
  if (x->_M_left) return rbmax(x->_M_left); rb* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
rb* sa_rb_erase(rb* z, rb& h) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
rb* sa_rb_erase(rb* z, rb& h) {
  rb* succ; rb* par = z->_M_parent; rb* rep;
  if (h._M_left == z) h._M_left = z->_M_right ? rbmin(z->_M_right) : (par == &h ? &h : par);
  if (h._M_right == z) h._M_right = z->_M_left ? rbmax(z->_M_left) : (par == &h ? &h : par);
  if (!z->_M_left) rep = z->_M_right; else if (!z->_M_right) rep = z->_M_left;
  else { succ = rbmin(z->_M_right); if (succ->_M_parent != z) { succ->_M_parent->_M_left = succ->_M_right; if (succ->_M_right) succ->_M_right->_M_parent = succ->_M_parent; succ->_M_right = z->_M_right; succ->_M_right->_M_parent = succ; } succ->_M_left = z->_M_left; succ->_M_left->_M_parent = succ; rep = succ; }
  if (rep) rep->_M_parent = par;
  if (h._M_parent == z) h._M_parent = rep; else if (par->_M_left == z) par->_M_left = rep; else par->_M_right = rep;
  return z; }
}
// ---- boost::current_exception: a handle on the exception object being handled
namespace {
struct sa_model_exc : boost::exception_detail::clone_base {
  void* obj; explicit sa_model_exc(void* o) : obj(o) {}
  clone_base const* clone() const { return new sa_model_exc(obj); }
  void rethrow() const { __sa_exc_throw(obj); }
  ~sa_model_exc() throw() {}
};
}
namespace boost {
exception_ptr sa_current_exception() asm("_ZN5boost17current_exceptionEv");
exception_ptr sa_current_exception() {
  void* o = __sa_exc_cur(); if (!o) return exception_ptr();
  return exception_ptr(boost::shared_ptr<exception_detail::clone_base const>(new sa_model_exc(o)));
}
}
