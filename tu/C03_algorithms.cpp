// C03: multi-mutex lock algorithms - all-or-nothing, no blocking acquisition while holding another
#include "sa.h"
#include <boost/thread/lock_algorithms.hpp>
#include <boost/thread/lock_types.hpp>
struct Err {};
static int may_throw;
struct Mx {
  int held, tries;
  Mx() : held(0), tries(0) {}
  Mx(const Mx&); 
  void lock();
  bool try_lock();
  void unlock();
};
Mx m[6];
static int total() { return m[0].held + m[1].held + m[2].held + m[3].held + m[4].held + m[5].held; }
void Mx::lock() {
  SA_ASSERT(!held, "no mutex is locked twice");
  SA_ASSERT(total() == 0, "no blocking acquisition while another of the mutexes is held");
  if (may_throw && sa_bool()) throw Err();
  held = 1;
}
bool Mx::try_lock() {
  SA_ASSERT(!held, "no mutex is locked twice");
  if (may_throw && sa_bool()) throw Err();
  if (sa_bool()) { held = 1; return true; }
  return false;
}
void Mx::unlock() { SA_ASSERT(held, "no mutex is unlocked that is not held"); held = 0; }
template <class F> static void check_lock(F f, int n) {
  may_throw = sa_bool();
  bool thrown = false;
  try { f(); } catch (Err&) { thrown = true; }
  if (thrown) { SA_ASSERT(total() == 0, "an exception leaves none of the mutexes locked"); MUST("exception propagates"); }
  else { SA_ASSERT(total() == n, "normal return holds every mutex"); MUST("lock succeeds"); }
}
template <class F> static void check_try(F f, int n) {
  may_throw = sa_bool();
  bool thrown = false; int r = 0;
  try { r = f(); } catch (Err&) { thrown = true; }
  if (thrown) { SA_ASSERT(total() == 0, "an exception leaves none of the mutexes locked"); MUST("exception propagates"); return; }
  if (r == -1) { SA_ASSERT(total() == n, "success holds every mutex"); MUST("try_lock succeeds"); }
  else {
    SA_ASSERT(total() == 0, "failure holds no mutex");
    SA_ASSERT(r >= 0 && r < n, "failure reports the index of a mutex");
    MUST("try_lock fails");
  }
}
using boost::lock; using boost::try_lock;
ENTRY E_lock2() { check_lock([] { lock(m[0], m[1]); }, 2); }
ENTRY E_lock3() { check_lock([] { lock(m[0], m[1], m[2]); }, 3); }
ENTRY E_lock4() { check_lock([] { lock(m[0], m[1], m[2], m[3]); }, 4); }
ENTRY E_lock5() { check_lock([] { lock(m[0], m[1], m[2], m[3], m[4]); }, 5); }
ENTRY E_try2() { check_try([] { return try_lock(m[0], m[1]); }, 2); }
ENTRY E_try3() { check_try([] { return try_lock(m[0], m[1], m[2]); }, 3); }
ENTRY E_try4() { check_try([] { return try_lock(m[0], m[1], m[2], m[3]); }, 4); }
ENTRY E_try5() { check_try([] { return try_lock(m[0], m[1], m[2], m[3], m[4]); }, 5); }
#define RANGE(n) \
  ENTRY E_lock_range##n() { check_lock([] { lock(&m[0], &m[n]); }, n); } \
  ENTRY E_try_range##n() { may_throw = sa_bool(); bool thrown = false; Mx* r = 0; \
    try { r = try_lock(&m[0], &m[n]); } catch (Err&) { thrown = true; } \
    if (thrown) { SA_ASSERT(total() == 0, "an exception leaves none of the mutexes locked"); return; } \
    if (r == &m[n]) { SA_ASSERT(total() == n, "success holds every mutex"); MUST("try_lock succeeds"); } \
    else { SA_ASSERT(total() == 0, "failure holds no mutex"); SA_ASSERT(r >= &m[0] && r < &m[n], "failure reports the position of a mutex"); } }
RANGE(0)
RANGE(1)
RANGE(2)
RANGE(3)
RANGE(4)
// the reported index is the one whose acquisition failed
static int failing;
struct Fx { int i, held; bool try_lock(); void lock(); void unlock() { held = 0; } };
static Fx fx[4];
bool Fx::try_lock() { if (i == failing) return false; held = 1; return true; }
void Fx::lock() { held = 1; }
ENTRY E_try_index() {
  for (int i = 0; i < 4; i++) { fx[i].i = i; fx[i].held = 0; }
  failing = __sa_choose(4);
  SA_ASSERT(try_lock(fx[0], fx[1], fx[2], fx[3]) == failing, "try_lock returns the index of the mutex that could not be locked");
  failing = __sa_choose(4);
  SA_ASSERT(try_lock(&fx[0], &fx[4]) == &fx[failing], "range try_lock returns the position of the mutex that could not be locked");
}
