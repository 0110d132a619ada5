// C08: call_once - exactly one completed execution, nobody returns before it, exceptions leave the flag fresh
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_PROVIDES_ONCE_CXX11 ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_DONT_USE_ATOMIC ; -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_DONT_USE_ATOMIC
// @link: once
#include "conc.h"
#include <boost/thread/once.hpp>
#define R_ONCE "the function of a once flag completes at most once"
#define R_OVER "two executions for one flag never overlap"
#define R_RET "call_once returns only after an execution has completed"
#define R_EXC "the exception reaches the caller whose execution threw, and only that caller"
#define R_ARG "the function is called with the arguments given to call_once"
#define R_ORD "the completion is published with release order and read without the lock with acquire order"
struct Err { int who; };
#ifdef BOOST_THREAD_PROVIDES_ONCE_CXX11
static boost::once_flag flags[2];
#else
static boost::once_flag flags[2] = {BOOST_ONCE_INIT, BOOST_ONCE_INIT};
#endif
static int running[2], done[2], threw[SA_MAXT], maythrow, nest, form, nflags, oneshot;
extern "C" void env_atomic(void*, int k) {
  int i = sa_me(); if (i < 0 || sa_probe) return;
#ifdef BOOST_THREAD_ONCE_ATOMIC
  if (k & 16) SA_ASSERT(false, "the flag is accessed atomically");
  if (k & 2 && !(k & 1)) SA_ASSERT(k & 8, R_ORD);
  if (k & 1 && !sa_T[i].held) SA_ASSERT(k & 4, R_ORD);
#endif
  if (sa_T[i].held && !(k & 2)) return;
  sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN;
}
static void call(int f);
static void body(int f) {
  int i = sa_me();
  SA_ASSERT(!done[f], R_ONCE); SA_ASSERT(!running[f], R_OVER);
  running[f] = 1; MUST("executed");
  sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN;
  if (nest && f == 0) { try { call(1); } catch (...) { running[f] = 0; throw; } SA_ASSERT(done[1], R_RET); }
  running[f] = 0;
  if (maythrow && !sa_probe && sa_bool()) { threw[i] = 1; throw Err{i}; }
  done[f] = 1;
}
static void body0() { body(0); } static void body1() { body(1); }
static void bodya(int f, int b) { SA_ASSERT(b == 7, R_ARG); body(f); }
struct Fn { int f; void operator()() { body(f); } void mem(int x) { SA_ASSERT(x == 9, R_ARG); body(f); } };
struct MoveArg { int v; explicit MoveArg(int x) : v(x) {} MoveArg(MoveArg&& o) : v(o.v) { o.v = -1; } MoveArg(const MoveArg&) = delete; };
static void bodym(int f, const MoveArg& a) { SA_ASSERT(a.v == 5, R_ARG); body(f); }
static void call(int f) {
  switch (form) {
    case 0: boost::call_once(flags[f], f ? &body1 : &body0); break;
    case 1: boost::call_once(flags[f], &bodya, f, 7); break;
    case 2: { Fn fn; fn.f = f; boost::call_once(flags[f], fn); break; }
    case 3: { Fn fn; fn.f = f; boost::call_once(flags[f], &Fn::mem, &fn, 9); break; }
    case 4: boost::call_once(f ? &body1 : &body0, flags[f]); break;
    case 5: boost::call_once(flags[f], [=](int a, int b, int c) { SA_ASSERT(a == 1 && b == 2 && c == 3, R_ARG); body(f); }, 1, 2, 3); break;
#ifndef NO_MOVE_ARG
#if defined BOOST_THREAD_PROVIDES_INVOKE || defined BOOST_THREAD_PROVIDES_INVOKE_RET
    case 6: boost::call_once(flags[f], &bodym, f, MoveArg(5)); break;
#endif
#endif
    default: __sa_stop();
  }
}
static void thread_fn(void*) {
  int i = sa_me();
  while (true) {
    sa_idle();
    int f = oneshot ? i == 1 : nflags == 2 ? __sa_choose(2) : 0;
    threw[i] = 0;
    try { call(f); SA_ASSERT(!threw[i], R_EXC); SA_ASSERT(done[f] && !running[f], R_RET); MUST("returned"); }
    catch (Err& e) { SA_ASSERT(threw[i] && e.who == i, R_EXC); threw[i] = 0; MUST("threw"); }
    if (oneshot) return;
  }
}
static void go(int n, int t, int ne, int nf, int fo) {
  maythrow = t; nest = ne; nflags = nf; form = fo; sa_preempt_after = 1;
  __sa_atomic_hook(&flags, sizeof flags);
  sa_run(n, thread_fn);
}
ENTRY E_two() { go(2, 1, 0, 1, 0); }
ENTRY E_three() { go(3, 1, 0, 1, 0); }
ENTRY E_two_flags() { go(2, 1, 0, 2, 0); }
ENTRY E_nested() { go(2, 1, 1, 2, 0); }
// a thread executing flag 0 waits for flag 1 while another waits for flag 0: waiters of two flags at once
ENTRY E_nested_three() { oneshot = 1; go(3, 1, 1, 2, 0); }
ENTRY E_args() { go(2, 1, 0, 1, 1); }
ENTRY E_functor() { go(2, 1, 0, 1, 2); }
ENTRY E_member() { go(2, 1, 0, 1, 3); }
ENTRY E_reversed() { go(2, 1, 0, 1, 4); }
ENTRY E_three_args() { go(2, 1, 0, 1, 5); }
#if defined BOOST_THREAD_PROVIDES_INVOKE || defined BOOST_THREAD_PROVIDES_INVOKE_RET
ENTRY E_move_only_arg() { go(2, 0, 0, 1, 6); }
#endif
#ifdef SA_THOROUGH
ENTRY E_three_two_flags() { go(3, 1, 0, 2, 0); }
ENTRY E_nested_three_many() { go(3, 1, 1, 2, 0); }
ENTRY E_four() { go(4, 1, 0, 1, 0); }
#endif
