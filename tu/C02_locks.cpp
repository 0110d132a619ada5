// C02: lock objects - ownership reported == ownership held, released exactly once in the right mode.
// The mutex is an environment model: any operation may succeed, fail or throw.
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
#include "sa.h"
#include <boost/thread/lock_types.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/shared_lock_guard.hpp>
#include <boost/thread/reverse_lock.hpp>
#include <boost/thread/strict_lock.hpp>
#include <boost/thread/lock_factories.hpp>
#include <boost/thread/with_lock_guard.hpp>
#include <boost/thread/lock_algorithms.hpp>
#include <boost/chrono/chrono.hpp>
struct Err {};
typedef boost::chrono::steady_clock::time_point TP;
typedef boost::chrono::milliseconds MS;
static int ops;        // number of mutex operations performed
static void count_op() { if (ops < 6) ops++; }
static int nothrow_;   // the environment does not throw
static void maybe_throw() { if (!nothrow_ && sa_bool()) throw Err(); }
#define R_TWICE "a mutex is not acquired again by the lock object that owns it"
#define R_REL "a mutex is released only in the mode in which it is held"
struct Mx {
  int ex, sh, up;
  bool any() const { return ex || sh || up; }
  bool acq(int& f) { count_op(); SA_ASSERT(!any(), R_TWICE); maybe_throw(); f = 1; return true; }
  bool tryacq(int& f) { count_op(); SA_ASSERT(!any(), R_TWICE); maybe_throw(); if (sa_bool()) { f = 1; return true; } return false; }
  void rel(int& f) { count_op(); SA_ASSERT(f == 1, R_REL); f = 0; }
  bool conv(int& from, int& to, bool must) { count_op(); SA_ASSERT(from == 1, R_REL); maybe_throw(); if (must || sa_bool()) { from = 0; to = 1; return true; } return false; }
  void lock() { acq(ex); } bool try_lock() { return tryacq(ex); } void unlock() { rel(ex); }
  template <class T> bool try_lock_for(T const&) { return tryacq(ex); } template <class T> bool try_lock_until(T const&) { return tryacq(ex); }
  template <class T> bool timed_lock(T const&) { return tryacq(ex); }
  void lock_shared() { acq(sh); } bool try_lock_shared() { return tryacq(sh); } void unlock_shared() { rel(sh); }
  template <class T> bool try_lock_shared_for(T const&) { return tryacq(sh); } template <class T> bool try_lock_shared_until(T const&) { return tryacq(sh); }
  template <class T> bool timed_lock_shared(T const&) { return tryacq(sh); }
  void lock_upgrade() { acq(up); } bool try_lock_upgrade() { return tryacq(up); } void unlock_upgrade() { rel(up); }
  template <class T> bool try_lock_upgrade_for(T const&) { return tryacq(up); } template <class T> bool try_lock_upgrade_until(T const&) { return tryacq(up); }
  void unlock_upgrade_and_lock() { conv(up, ex, true); }
  void unlock_and_lock_upgrade() { int s = nothrow_; nothrow_ = 1; conv(ex, up, true); nothrow_ = s; }
  void unlock_and_lock_shared() { int s = nothrow_; nothrow_ = 1; conv(ex, sh, true); nothrow_ = s; }
  void unlock_upgrade_and_lock_shared() { int s = nothrow_; nothrow_ = 1; conv(up, sh, true); nothrow_ = s; }
  bool try_unlock_upgrade_and_lock() { return conv(up, ex, false); }
  template <class T> bool try_unlock_upgrade_and_lock_for(T const&) { return conv(up, ex, false); } template <class T> bool try_unlock_upgrade_and_lock_until(T const&) { return conv(up, ex, false); }
  bool try_unlock_shared_and_lock() { return conv(sh, ex, false); }
  template <class T> bool try_unlock_shared_and_lock_for(T const&) { return conv(sh, ex, false); } template <class T> bool try_unlock_shared_and_lock_until(T const&) { return conv(sh, ex, false); }
  bool try_unlock_shared_and_lock_upgrade() { return conv(sh, up, false); }
  template <class T> bool try_unlock_shared_and_lock_upgrade_for(T const&) { return conv(sh, up, false); } template <class T> bool try_unlock_shared_and_lock_upgrade_until(T const&) { return conv(sh, up, false); }
};
static Mx mx[2];
static void init() { ops = 0; nothrow_ = 0; for (int i = 0; i < 2; i++) mx[i].ex = mx[i].sh = mx[i].up = 0; }
typedef boost::unique_lock<Mx> UL; typedef boost::shared_lock<Mx> SL; typedef boost::upgrade_lock<Mx> UP;
template <class L> struct Mode;
template <> struct Mode<UL> { static int& f(Mx& m) { return m.ex; } };
template <> struct Mode<SL> { static int& f(Mx& m) { return m.sh; } };
template <> struct Mode<UP> { static int& f(Mx& m) { return m.up; } };
struct Spec { Mx* m; bool o; };
#define R_STATE "the lock object reports exactly the mutex and ownership it has"
#define R_MX "the mutex is held exactly when a lock object owns it"
#define R_ERR "misuse throws a lock error and touches nothing"
template <class L> static void agree(L& a, Spec const& s) {
  SA_ASSERT(a.mutex() == s.m && a.owns_lock() == s.o, R_STATE);
  SA_ASSERT((a ? true : false) == s.o, R_STATE);
}
template <class L> static void agree2(L& a, Spec const& sa, L& b, Spec const& sb) {
  agree(a, sa); agree(b, sb);
  for (int i = 0; i < 2; i++) {
    int n = (sa.m == &mx[i] && sa.o) + (sb.m == &mx[i] && sb.o);
    SA_ASSERT(Mode<L>::f(mx[i]) == n && mx[i].ex + mx[i].sh + mx[i].up == n, R_MX);
  }
}
// one locking operation with expected outcome; kind: 0 lock, 1.. try forms
template <class L> static void do_acquire(L& a, Spec& s) {
  int before = ops; int k = __sa_choose(4); bool misuse = s.m == 0 || s.o; bool had = s.m && Mode<L>::f(*s.m);
  try {
    bool r = true; bool ret = true;
    switch (k) {
      case 0: a.lock(); break;
      case 1: r = ret = a.try_lock(); break;
      case 2: r = ret = a.try_lock_for(MS(__sa_sym64())); break;
      case 3: r = ret = a.try_lock_until(TP()); break;
    }
    SA_ASSERT(!misuse, R_ERR);
    SA_ASSERT(ret == (Mode<L>::f(*s.m) == 1), "the result of a lock attempt is what the mutex answered");
    SA_ASSERT(ops == before + 1, "a lock attempt performs exactly one mutex operation");
    s.o = r;
    if (r) MUST("acquired"); else MUST("not acquired");
  } catch (boost::lock_error&) {
    SA_ASSERT(misuse && ops == before, R_ERR); MUST("lock error");
  } catch (Err&) { SA_ASSERT(!misuse, R_ERR); MUST("mutex operation threw"); }
}
template <class L> static void do_unlock(L& a, Spec& s) {
  int before = ops;
  try { a.unlock(); SA_ASSERT(s.m && s.o, R_ERR); SA_ASSERT(ops == before + 1, "unlock performs exactly one release"); s.o = false; MUST("unlocked"); }
  catch (boost::lock_error&) { SA_ASSERT((!s.m || !s.o) && ops == before, R_ERR); MUST("unlock error"); }
}
static void rel_raw(UL&, Mx* m) { m->unlock(); }
static void rel_raw(SL&, Mx* m) { m->unlock_shared(); }
static void rel_raw(UP&, Mx* m) { m->unlock_upgrade(); }
static void acq_raw(UL*, Mx* m) { m->ex = 1; }
static void acq_raw(SL*, Mx* m) { m->sh = 1; }
static void acq_raw(UP*, Mx* m) { m->up = 1; }
template <class L> static L make(Mx& m, Spec& s, bool can_own) {
  s.m = &m; s.o = false;
  switch (__sa_choose(can_own ? 7 : 2)) {
    case 0: s.m = 0; return L();
    case 1: return L(m, boost::defer_lock);
    case 2: { nothrow_ = 1; L l(m); nothrow_ = 0; s.o = true; return l; }
    case 3: { nothrow_ = 1; L l(m, boost::try_to_lock); nothrow_ = 0; s.o = l.owns_lock(); return l; }
    case 4: { acq_raw((L*)0, &m); s.o = true; return L(m, boost::adopt_lock); }
    case 5: { nothrow_ = 1; L l(m, TP()); nothrow_ = 0; s.o = l.owns_lock(); return l; }
    default: { nothrow_ = 1; L l(m, MS(5)); nothrow_ = 0; s.o = l.owns_lock(); return l; }
  }
}
template <class L> static void history() {
  init();
  Spec sa, sb;
  {
    L a(make<L>(mx[0], sa, true)); L b(make<L>(mx[1], sb, true));
    agree2(a, sa, b, sb);
    while (sa_bool()) {
      ops = 0; int before = ops;
      switch (__sa_choose(9)) {
        case 0: do_acquire(a, sa); break;
        case 1: do_unlock(a, sa); break;
        case 2: { Mx* r = a.release(); SA_ASSERT(r == sa.m && ops == before, "release gives up the mutex without touching it"); if (sa.o) rel_raw(a, r); sa.m = 0; sa.o = false; break; }
        case 3: a.swap(b); { Spec t = sa; sa = sb; sb = t; } SA_ASSERT(ops == before, "swap does not touch the mutexes"); break;
        case 4: { bool o = sa.o; a = boost::move(b); SA_ASSERT(ops == before + (o ? 1 : 0), "assignment releases exactly what the target owned"); sa = sb; sb.m = 0; sb.o = false; break; }
        case 5: { L c(boost::move(a)); SA_ASSERT(ops == before, "move does not touch the mutex"); Spec z = {0, false}; agree(c, sa); agree(a, z); bool o = sa.o; Mx* m = sa.m; sa = z; (void)o; (void)m; break; }
        case 6: { using boost::swap; swap(a, b); Spec t = sa; sa = sb; sb = t; break; }
        case 7: do_acquire(b, sb); break;
        default: if (!sa.m) { Mx& m = sb.m == &mx[0] ? mx[1] : mx[0]; a = make<L>(m, sa, !m.any()); if (!sa.m) {} } break;
      }
      agree2(a, sa, b, sb);
    }
    before_destroy: ;
  }
  SA_ASSERT(!mx[0].any() && !mx[1].any(), "after destruction of every lock object nothing is held");
  MUST("end of history");
}
ENTRY E_unique_history() { history<UL>(); }
ENTRY E_shared_history() { history<SL>(); }
ENTRY E_upgrade_history() { history<UP>(); }
// constructors of a lock object whose mutex operation throws own nothing
template <class L> static void ctor_throw() {
  init(); bool t = false;
  try { switch (__sa_choose(4)) { case 0: { L l(mx[0]); SA_ASSERT(l.owns_lock() && l.mutex() == &mx[0] && Mode<L>::f(mx[0]) == 1, R_STATE); break; } case 1: { L l(mx[0], boost::try_to_lock); SA_ASSERT(l.owns_lock() == (Mode<L>::f(mx[0]) == 1), R_STATE); break; }
    case 2: { L l(mx[0], TP()); SA_ASSERT(l.owns_lock() == (Mode<L>::f(mx[0]) == 1), R_STATE); break; } default: { L l(mx[0], MS(1)); SA_ASSERT(l.owns_lock() == (Mode<L>::f(mx[0]) == 1), R_STATE); break; } } }
  catch (Err&) { t = true; MUST("constructor throws"); }
  SA_ASSERT(!mx[0].any(), R_MX);
}
ENTRY E_unique_ctor() { ctor_throw<UL>(); }
ENTRY E_shared_ctor() { ctor_throw<SL>(); }
ENTRY E_upgrade_ctor() { ctor_throw<UP>(); }
#ifdef BOOST_THREAD_USES_DATETIME
ENTRY E_unique_timed() {
  init(); { UL a(mx[0], boost::defer_lock); if (sa_bool()) { a.~UL(); new (&a) UL(); } bool none = !a.mutex(); boost::system_time t; boost::posix_time::milliseconds d(3); bool r = false;
    try { r = sa_bool() ? a.timed_lock(t) : a.timed_lock(d); SA_ASSERT(!none && r == a.owns_lock() && r == (mx[0].ex == 1), R_STATE); MUST("timed"); } catch (boost::lock_error&) { SA_ASSERT(none, R_ERR); } catch (Err&) {}
    if (a.owns_lock()) { int b = ops; try { a.timed_lock(t); SA_ASSERT(false, R_ERR); } catch (boost::lock_error&) { SA_ASSERT(ops == b, R_ERR); } } }
  SA_ASSERT(!mx[0].any(), R_MX);
}
ENTRY E_shared_timed() {
  init(); { SL a(mx[0], boost::defer_lock); boost::system_time t; boost::posix_time::milliseconds d(3); bool r = false;
    try { r = sa_bool() ? a.timed_lock(t) : a.timed_lock(d); SA_ASSERT(r == a.owns_lock() && r == (mx[0].sh == 1), R_STATE); MUST("timed"); } catch (Err&) {} }
  SA_ASSERT(!mx[0].any(), R_MX);
}
#endif
// ---- conversions between lock kinds: source may be empty, unowned or owning
template <class T, class S, class F> static void conversion(F f, bool may_fail) {
  init(); Spec ss;
  {
    S s(make<S>(mx[0], ss, true)); int before = ops;
    try {
      T t(f(s)); Mx* tm = t.mutex();
      SA_ASSERT(ops <= before + 1 && (ss.o || ops == before), "a conversion performs at most one mutex operation");
      if (ss.o) {
        bool done = t.owns_lock();
        if (done) { SA_ASSERT(tm == ss.m && !s.mutex() && !s.owns_lock() && Mode<T>::f(mx[0]) == 1 && mx[0].ex + mx[0].sh + mx[0].up == 1, "a successful conversion moves the ownership and changes its mode"); MUST("converted"); }
        else { SA_ASSERT(may_fail && s.owns_lock() && s.mutex() == ss.m && Mode<S>::f(mx[0]) == 1, "a failed conversion leaves the source owning"); }
      } else { SA_ASSERT(!t.owns_lock() && tm == ss.m && !s.mutex() && !s.owns_lock(), "converting an unowned lock moves the association only"); }
    } catch (Err&) { SA_ASSERT(s.owns_lock() == ss.o && s.mutex() == ss.m, "a throwing conversion leaves the source as it was"); }
  }
  SA_ASSERT(!mx[0].any(), "after destruction of every lock object nothing is held");
}
ENTRY E_conv_unique_to_shared() { conversion<SL, UL>([](UL& s) { return SL(boost::move(s)); }, false); }
ENTRY E_conv_upgrade_to_shared() { conversion<SL, UP>([](UP& s) { return SL(boost::move(s)); }, false); }
ENTRY E_conv_unique_to_upgrade() { conversion<UP, UL>([](UL& s) { return UP(boost::move(s)); }, false); }
ENTRY E_conv_upgrade_to_unique() { conversion<UL, UP>([](UP& s) { return UL(boost::move(s)); }, false); }
ENTRY E_conv_upgrade_to_unique_try() { conversion<UL, UP>([](UP& s) { return UL(boost::move(s), boost::try_to_lock); }, true); }
ENTRY E_conv_upgrade_to_unique_until() { conversion<UL, UP>([](UP& s) { return UL(boost::move(s), TP()); }, true); }
ENTRY E_conv_upgrade_to_unique_for() { conversion<UL, UP>([](UP& s) { return UL(boost::move(s), MS(1)); }, true); }
ENTRY E_conv_shared_to_unique_try() { conversion<UL, SL>([](SL& s) { return UL(boost::move(s), boost::try_to_lock); }, true); }
ENTRY E_conv_shared_to_unique_until() { conversion<UL, SL>([](SL& s) { return UL(boost::move(s), TP()); }, true); }
ENTRY E_conv_shared_to_unique_for() { conversion<UL, SL>([](SL& s) { return UL(boost::move(s), MS(1)); }, true); }
ENTRY E_conv_shared_to_upgrade_try() { conversion<UP, SL>([](SL& s) { return UP(boost::move(s), boost::try_to_lock); }, true); }
ENTRY E_conv_shared_to_upgrade_until() { conversion<UP, SL>([](SL& s) { return UP(boost::move(s), TP()); }, true); }
ENTRY E_conv_shared_to_upgrade_for() { conversion<UP, SL>([](SL& s) { return UP(boost::move(s), MS(1)); }, true); }
// assignment conversions: the target's old ownership is released, too
template <class T, class S> static void assign_conv() {
  init(); Spec st, ss;
  { T t(make<T>(mx[0], st, true)); S s(make<S>(mx[1], ss, true));
    try { t = T(boost::move(s)); SA_ASSERT(t.owns_lock() == ss.o && t.mutex() == ss.m && !s.mutex() && !s.owns_lock() && !mx[0].any(), "assignment takes over the source and releases the target"); MUST("assigned"); }
    catch (Err&) {} }
  SA_ASSERT(!mx[0].any() && !mx[1].any(), "after destruction of every lock object nothing is held");
}
template <class T, class S> static void assign_conv2() {
  init(); Spec st, ss;
  { T t(make<T>(mx[0], st, true)); S s(make<S>(mx[1], ss, true));
    try { t = boost::move(s); SA_ASSERT(t.owns_lock() == ss.o && t.mutex() == ss.m && !s.mutex() && !s.owns_lock() && !mx[0].any(), "assignment takes over the source and releases the target"); MUST("assigned"); }
    catch (Err&) {} }
  SA_ASSERT(!mx[0].any() && !mx[1].any(), "after destruction of every lock object nothing is held");
}
ENTRY E_assign_shared_from_unique() { assign_conv<SL, UL>(); }
ENTRY E_assign_shared_from_upgrade() { assign_conv<SL, UP>(); }
ENTRY E_assign_upgrade_from_unique() { assign_conv<UP, UL>(); }
ENTRY E_assign_unique_from_upgrade() { assign_conv<UL, UP>(); }
#ifndef BOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION
ENTRY E_assign2_shared_from_unique() { assign_conv2<SL, UL>(); }
ENTRY E_assign2_shared_from_upgrade() { assign_conv2<SL, UP>(); }
ENTRY E_assign2_upgrade_from_unique() { assign_conv2<UP, UL>(); }
ENTRY E_assign2_unique_from_upgrade() { assign_conv2<UL, UP>(); }
#endif
ENTRY E_upgrade_to_unique() {
  init(); Spec s;
  { UP u(make<UP>(mx[0], s, true));
    if (s.o) {
      try { {
        boost::upgrade_to_unique_lock<Mx> x(u);
        SA_ASSERT(x.owns_lock() && x.mutex() == &mx[0] && mx[0].ex == 1 && !u.owns_lock(), "the nested exclusive lock owns while alive");
        boost::upgrade_to_unique_lock<Mx> y(boost::move(x));
        SA_ASSERT(!x.owns_lock() && y.owns_lock(), "ownership moves to the new object");
        if (sa_bool()) { x.swap(y); SA_ASSERT(x.owns_lock() && !y.owns_lock(), "swap exchanges ownership"); }
        MUST("upgraded");
      }
      SA_ASSERT(u.owns_lock() && u.mutex() == &mx[0] && mx[0].up == 1 && !mx[0].ex, "the upgrade ownership is restored"); }
      catch (Err&) { SA_ASSERT(u.owns_lock() && mx[0].up == 1, "a throwing conversion leaves the source as it was"); }
    } }
  SA_ASSERT(!mx[0].any(), "after destruction of every lock object nothing is held");
}
ENTRY E_lock_guard() {
  init(); try { boost::lock_guard<Mx> g(mx[0]); SA_ASSERT(mx[0].ex == 1, R_MX); MUST("held"); if (sa_bool()) throw Err(); } catch (Err&) {} SA_ASSERT(!mx[0].any(), R_MX);
  mx[1].ex = 1; int b = ops; { boost::lock_guard<Mx> g(mx[1], boost::adopt_lock); SA_ASSERT(ops == b && mx[1].ex == 1, R_MX); } SA_ASSERT(!mx[1].any(), R_MX);
}
ENTRY E_make_lock_guard() {
  init(); try { auto&& g = boost::make_lock_guard(mx[0]); SA_ASSERT(mx[0].ex == 1, R_MX); (void)g; MUST("held"); } catch (Err&) {} SA_ASSERT(!mx[0].any(), R_MX);
  mx[1].ex = 1; { auto&& g = boost::make_lock_guard(mx[1], boost::adopt_lock); (void)g; SA_ASSERT(mx[1].ex == 1, R_MX); } SA_ASSERT(!mx[1].any(), R_MX);
}
ENTRY E_shared_lock_guard() {
  init(); try { boost::shared_lock_guard<Mx> g(mx[0]); SA_ASSERT(mx[0].sh == 1, R_MX); MUST("held"); if (sa_bool()) throw Err(); } catch (Err&) {} SA_ASSERT(!mx[0].any(), R_MX);
  mx[1].sh = 1; { boost::shared_lock_guard<Mx> g(mx[1], boost::adopt_lock); SA_ASSERT(mx[1].sh == 1, R_MX); } SA_ASSERT(!mx[1].any(), R_MX);
}
ENTRY E_strict_lock() {
  init(); try { boost::strict_lock<Mx> g(mx[0]); SA_ASSERT(mx[0].ex == 1 && g.owns_lock() && g.mutex() == &mx[0] && g.owns_lock(&mx[0]) && !g.owns_lock(&mx[1]), R_STATE); MUST("held"); if (sa_bool()) throw Err(); } catch (Err&) {} SA_ASSERT(!mx[0].any(), R_MX);
}
ENTRY E_make_strict_lock() {
  init(); try { auto&& g = boost::make_strict_lock(mx[0]); SA_ASSERT(mx[0].ex == 1 && g.owns_lock(&mx[0]), R_STATE); MUST("held"); } catch (Err&) {} SA_ASSERT(!mx[0].any(), R_MX);
}
ENTRY E_nested_strict_lock() {
  init(); Spec s;
  { UL u(make<UL>(mx[0], s, true));
    try { { boost::nested_strict_lock<UL> n(u); SA_ASSERT(s.m && mx[0].ex == 1 && n.owns_lock() && n.mutex() == &mx[0] && !u.owns_lock() && n.owns_lock(&mx[0]) && !n.owns_lock(&mx[1]), R_STATE); MUST("nested"); }
      SA_ASSERT(u.owns_lock() && u.mutex() == &mx[0] && mx[0].ex == 1, "the nesting lock owns again"); }
    catch (boost::lock_error&) { SA_ASSERT(!s.m, R_ERR); } catch (Err&) { SA_ASSERT(!s.o, R_ERR); } }
  SA_ASSERT(!mx[0].any(), "after destruction of every lock object nothing is held");
}
ENTRY E_reverse_lock() {
  init(); Spec s;
  { UL u(make<UL>(mx[0], s, true)); nothrow_ = 1;
    try { boost::reverse_lock<UL> r(u); SA_ASSERT(!mx[0].any() && !u.owns_lock(), "a reverse lock releases for its scope"); MUST("reversed"); if (sa_bool()) throw Err(); } catch (Err&) {}
    if (s.m) SA_ASSERT(u.owns_lock() && u.mutex() == &mx[0] && mx[0].ex == 1, "a reverse lock restores ownership on every exit"); else SA_ASSERT(!u.owns_lock() && !mx[0].any(), R_STATE); }
  SA_ASSERT(!mx[0].any(), "after destruction of every lock object nothing is held");
}
ENTRY E_factories() {
  init();
  try {
    switch (__sa_choose(5)) {
      case 0: { auto l = boost::make_unique_lock(mx[0]); SA_ASSERT(l.owns_lock() && mx[0].ex == 1, R_STATE); MUST("locked"); break; }
      case 1: { mx[0].ex = 1; auto l = boost::make_unique_lock(mx[0], boost::adopt_lock); SA_ASSERT(l.owns_lock(), R_STATE); break; }
      case 2: { auto l = boost::make_unique_lock(mx[0], boost::defer_lock); SA_ASSERT(!l.owns_lock() && l.mutex() == &mx[0] && !mx[0].any(), R_STATE); break; }
      case 3: { auto l = boost::make_unique_lock(mx[0], boost::try_to_lock); SA_ASSERT(l.owns_lock() == (mx[0].ex == 1), R_STATE); break; }
      default: { auto l = boost::make_unique_locks(mx[0], mx[1]); SA_ASSERT(std::get<0>(l).owns_lock() && std::get<1>(l).owns_lock() && mx[0].ex == 1 && mx[1].ex == 1 && std::get<0>(l).mutex() == &mx[0] && std::get<1>(l).mutex() == &mx[1], R_STATE); MUST("both"); break; }
    }
  } catch (Err&) {}
  SA_ASSERT(!mx[0].any() && !mx[1].any(), "after destruction of every lock object nothing is held");
}
static int called; static int fthrows;
static int user0() { SA_ASSERT(mx[0].ex == 1, "the function runs under the lock"); called++; if (fthrows) throw Err(); return 5; }
static int user1(int x) { SA_ASSERT(mx[0].ex == 1 && x == 7, "the function runs under the lock"); called++; if (fthrows) throw Err(); return 6; }
static int user2(int x, int y) { SA_ASSERT(mx[0].ex == 1 && x == 7 && y == 8, "the function runs under the lock"); called++; if (fthrows) throw Err(); return 6; }
struct Fun { int operator()() const { return user0(); } int operator()(int x) const { return user1(x); } int operator()(int x, int y) const { return user2(x, y); } };
ENTRY E_with_lock_guard() {
  init(); called = 0; fthrows = sa_bool();
  try { int r = 0; Fun f; switch (__sa_choose(4)) { case 0: r = boost::with_lock_guard(mx[0], f); break; case 1: r = boost::with_lock_guard(mx[0], f, 7); break; case 2: r = boost::with_lock_guard(mx[0], f, 7, 8); break; default: r = boost::with_lock_guard(mx[0], user0); }
    SA_ASSERT(called == 1 && !fthrows && r, "the function is called exactly once"); MUST("called"); } catch (Err&) {}
  SA_ASSERT(!mx[0].any(), R_MX);
}
struct RX : Mx {};
namespace boost {}
ENTRY E_try_lock_wrapper() {
  init(); typedef boost::detail::try_lock_wrapper<Mx> W;
  { nothrow_ = 1; W w(mx[0]); nothrow_ = 0; bool o = mx[0].ex == 1; SA_ASSERT(w.owns_lock() == o && w.mutex() == &mx[0], R_STATE);
    W v; v.swap(w); SA_ASSERT(v.owns_lock() == o && !w.owns_lock() && !w.mutex(), R_STATE);
    if (o) { if (sa_bool()) { v.unlock(); SA_ASSERT(!mx[0].any() && !v.owns_lock(), R_STATE); } else if (sa_bool()) { Mx* m = v.release(); SA_ASSERT(m == &mx[0] && m->ex == 1, R_STATE); m->unlock(); } }
    else { try { bool r = v.try_lock(); SA_ASSERT(r == (mx[0].ex == 1), R_STATE); } catch (Err&) {} } }
  SA_ASSERT(!mx[0].any(), "after destruction of every lock object nothing is held");
}
