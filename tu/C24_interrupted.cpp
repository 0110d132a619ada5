// C24: an interruption takes one thread away from a completion latch, and nobody else
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#include "clk.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#define R_EARLY "nobody passes a closed latch"
#define R_ALL "when the latch opens, every waiting thread is woken"
#define R_FUN "the completion function runs once per completion, after the waiting threads have left"
static int funs, hi, cut, passed;
static void fn() { SA_ASSERT(!funs && hi, R_FUN); funs = 1; }
static boost::completion_latch* C;
// the counting thread is interrupted: its count-down counts
static void counter() { hi = 1; try { C->count_down(); SA_ASSERT(funs == 1, R_FUN); MUST("counted down"); } catch (boost::thread_interrupted&) { cut = 1; } }
static void counter_all(void*) {
  boost::completion_latch l(1, &fn); C = &l; funs = hi = cut = 0;
  boost::thread t(&counter); t.interrupt(); sa_idle(); l.wait(); SA_ASSERT(hi, R_EARLY); MUST("passed"); t.join(); SA_ASSERT(funs == 1, R_FUN); SA_ASSERT(l.try_wait(), R_ALL); __sa_stop(); }
static void rest_counter() { SA_ASSERT(sa_T[0].st == T_IDLE, R_ALL); }
ENTRY E_counter() { sa_spurious_left = 0; sa_at_rest = rest_counter; sa_run(1, counter_all); }
// a waiting thread is interrupted, another one waits: it gets through, and so does the counting one
static void waiter() { try { C->wait(); SA_ASSERT(hi, R_EARLY); passed = 1; MUST("passed"); } catch (boost::thread_interrupted&) { cut = 1; MUST("interrupted"); } }
static void waiter_all(void*) {
  boost::completion_latch l(1, &fn); C = &l; funs = hi = cut = passed = 0;
  boost::thread t(&waiter); boost::thread c(&counter); t.interrupt(); l.wait(); SA_ASSERT(hi, R_EARLY); t.join(); c.join(); SA_ASSERT(funs == 1 && passed + cut == 1, R_FUN); MUST("complete"); __sa_stop(); }
ENTRY E_waiter() { sa_spurious_left = 0; sa_at_rest = rest_counter; sa_run(1, waiter_all); }
// a plain latch
static boost::latch* L; static int down;
static void plain() { try { if (down) L->count_down_and_wait(); else L->wait(); SA_ASSERT(hi, R_EARLY); passed = 1; MUST("passed"); } catch (boost::thread_interrupted&) { cut = 1; MUST("interrupted"); } }
static void plain_all(void*) {
  down = sa_bool(); boost::latch l(1 + down); L = &l; hi = cut = passed = 0;
  boost::thread t(&plain); t.interrupt(); if (sa_bool()) sa_idle(); hi = 1; l.count_down(); l.wait(); t.join(); SA_ASSERT(passed + cut == 1, R_ALL); MUST("complete"); __sa_stop(); }
ENTRY E_plain() { sa_spurious_left = 0; sa_at_rest = rest_counter; sa_run(1, plain_all); }
