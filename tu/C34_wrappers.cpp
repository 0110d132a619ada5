// C34: lockable wrappers
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/mutex.hpp>
#include <boost/thread/lockable_adapter.hpp>
#include <boost/thread/poly_lockable_adapter.hpp>
#include <boost/thread/poly_shared_lockable_adapter.hpp>
#include <boost/thread/testable_mutex.hpp>
#include <boost/thread/null_mutex.hpp>
#include <boost/thread/lock_guard.hpp>
#include <boost/thread/lock_types.hpp>
#define R_PASS "an operation on the wrapper is passed on as the same operation, once, with the same deadline"
#define R_ANSWER "the wrapper answers what the wrapped lockable answered"
#define R_EXC "an exception of the wrapped lockable reaches the caller"
#define R_MINE "is_locked_by_this_thread tells whether the calling thread owns the mutex"
#define R_LOCKED "is_locked and get_id tell whether and by whom the mutex is owned"
#define R_EXCL "a testable mutex is owned by one thread at a time"
#define R_NULL "a null mutex never blocks and every attempt succeeds"
namespace ch = boost::chrono;
// the wrapped lockable: records the operation and answers anything, or throws
enum { LOCK = 1, UNLOCK, TRY, UNTIL_SYS, UNTIL_STD, FOR, OTHER_CLOCK, KINDS };       // + 10 * the kind of ownership
enum { EXCL = 0, SHARED = 10, UPGRADE = 20, S_TO_E = 30, S_TO_U = 40, U_TO_E = 50, E_TO_S = 60, E_TO_U = 70, U_TO_S = 80 };
static int calls, op_; static long long arg_; static bool ans; struct Oops {};
static bool rec(int o, long long a) { calls = calls + 1; op_ = o; arg_ = a; if (sa_bool()) throw Oops(); ans = sa_bool(); return ans; }
template <class C> struct CK { enum { v = OTHER_CLOCK }; }; template <> struct CK<ch::system_clock> { enum { v = UNTIL_SYS }; }; template <> struct CK<ch::steady_clock> { enum { v = UNTIL_STD }; };
template <class C, class D> static long long ns(ch::time_point<C, D> const& t) { return ch::duration_cast<ch::nanoseconds>(t.time_since_epoch()).count(); }
template <class R, class P> static long long ns(ch::duration<R, P> const& t) { return ch::duration_cast<ch::nanoseconds>(t).count(); }
#define OWN(k, l, u, t) void l() { rec(k + LOCK, 0); } void u() { rec(k + UNLOCK, 0); } TRYS(k, t)
#define TRYS(k, t) bool t() { return rec(k + TRY, 0); } template <class C, class D> bool t##_until(ch::time_point<C, D> const& x) { return rec(k + CK<C>::v, ns(x)); } template <class R, class P> bool t##_for(ch::duration<R, P> const& x) { return rec(k + FOR, ns(x)); }
struct Rec { Rec() {} Rec(Rec const&) = delete;
  OWN(EXCL, lock, unlock, try_lock) OWN(SHARED, lock_shared, unlock_shared, try_lock_shared) OWN(UPGRADE, lock_upgrade, unlock_upgrade, try_lock_upgrade)
  TRYS(S_TO_E, try_unlock_shared_and_lock) TRYS(S_TO_U, try_unlock_shared_and_lock_upgrade) TRYS(U_TO_E, try_unlock_upgrade_and_lock)
  void unlock_upgrade_and_lock() { rec(U_TO_E + LOCK, 0); } void unlock_and_lock_shared() { rec(E_TO_S + LOCK, 0); } void unlock_and_lock_upgrade() { rec(E_TO_U + LOCK, 0); } void unlock_upgrade_and_lock_shared() { rec(U_TO_S + LOCK, 0); } };
static long long T;
static void pre() { calls = 0; op_ = 0; arg_ = 0; }
template <class F> static void void_(int o, F f) { pre(); bool e = false; try { f(); } catch (Oops&) { e = true; } SA_ASSERT(calls == 1 && op_ == o, R_PASS); if (e) MUST("thrown"); }
template <class F> static void bool_(int o, long long a, F f) { pre(); ans = false; bool e = false, r = false; try { r = f(); } catch (Oops&) { e = true; } SA_ASSERT(calls == 1 && op_ == o && arg_ == a, R_PASS); if (!e) { SA_ASSERT(r == ans, R_ANSWER); if (r) MUST("true"); else MUST("false"); } }
#define SYS(n) (ch::system_clock::time_point(ch::duration_cast<ch::system_clock::duration>(ch::nanoseconds(n))))
#define STD(n) (ch::steady_clock::time_point(ch::nanoseconds(n)))
#define TRYS_OF(k, t) bool_(k + TRY, 0, [&] { return m.t(); }); bool_(k + UNTIL_SYS, T, [&] { return m.t##_until(SYS(T)); }); bool_(k + UNTIL_STD, T, [&] { return m.t##_until(STD(T)); }); bool_(k + FOR, T, [&] { return m.t##_for(ch::nanoseconds(T)); });
#define OTHER_RES(k, t) bool_(k + UNTIL_SYS, T * 1000, [&] { return m.t##_until(ch::time_point<ch::system_clock, ch::microseconds>(ch::microseconds(T))); }); bool_(k + UNTIL_STD, T * 1000000000ll, [&] { return m.t##_until(ch::time_point<ch::steady_clock, ch::seconds>(ch::seconds(T))); }); bool_(k + FOR, T * 1000000, [&] { return m.t##_for(ch::milliseconds(T)); });
static void when() { switch (__sa_choose(4)) { case 0: T = 0; break; case 1: T = 5; break; case 2: T = -7; break; default: T = 1500000001; } }
template <class M> static void basic(M& m) { void_(LOCK, [&] { m.lock(); }); void_(UNLOCK, [&] { m.unlock(); }); }
template <class M> static void shared(M& m) { void_(SHARED + LOCK, [&] { m.lock_shared(); }); void_(SHARED + UNLOCK, [&] { m.unlock_shared(); }); TRYS_OF(SHARED, try_lock_shared) }
template <class M> static void upgrade(M& m) {
  void_(UPGRADE + LOCK, [&] { m.lock_upgrade(); }); void_(UPGRADE + UNLOCK, [&] { m.unlock_upgrade(); }); TRYS_OF(UPGRADE, try_lock_upgrade)
  TRYS_OF(S_TO_E, try_unlock_shared_and_lock) TRYS_OF(S_TO_U, try_unlock_shared_and_lock_upgrade) TRYS_OF(U_TO_E, try_unlock_upgrade_and_lock)
  void_(U_TO_E + LOCK, [&] { m.unlock_upgrade_and_lock(); }); void_(E_TO_S + LOCK, [&] { m.unlock_and_lock_shared(); }); void_(E_TO_U + LOCK, [&] { m.unlock_and_lock_upgrade(); }); void_(U_TO_S + LOCK, [&] { m.unlock_upgrade_and_lock_shared(); });
}
ENTRY E_adapter() { when(); { boost::basic_lockable_adapter<Rec> m; basic(m); } { boost::lockable_adapter<Rec> m; basic(m); bool_(TRY, 0, [&] { return m.try_lock(); }); } }
ENTRY E_adapter_timed() { when(); boost::timed_lockable_adapter<Rec> m; basic(m); TRYS_OF(EXCL, try_lock) OTHER_RES(EXCL, try_lock) }
ENTRY E_adapter_shared() { when(); boost::shared_lockable_adapter<Rec> m; basic(m); TRYS_OF(EXCL, try_lock) shared(m); OTHER_RES(SHARED, try_lock_shared) }
ENTRY E_adapter_upgrade() { when(); const boost::upgrade_lockable_adapter<Rec> m; basic(m); shared(m); upgrade(m); OTHER_RES(UPGRADE, try_lock_upgrade) OTHER_RES(S_TO_E, try_unlock_shared_and_lock) OTHER_RES(S_TO_U, try_unlock_shared_and_lock_upgrade) OTHER_RES(U_TO_E, try_unlock_upgrade_and_lock) }
// used through the polymorphic interface, with time points and durations of any resolution
ENTRY E_poly() { when(); { boost::poly_basic_lockable_adapter<Rec> a; boost::poly_basic_lockable& m = a; basic(m); } { boost::poly_lockable_adapter<Rec> a; boost::poly_lockable& m = a; basic(m); bool_(TRY, 0, [&] { return m.try_lock(); }); } }
ENTRY E_poly_timed() { when(); boost::poly_timed_lockable_adapter<Rec> a; boost::poly_timed_lockable& m = a; basic(m); TRYS_OF(EXCL, try_lock) OTHER_RES(EXCL, try_lock) }
ENTRY E_poly_shared() { when(); boost::poly_shared_lockable_adapter<Rec> a; boost::poly_shared_lockable& m = a; basic(m); TRYS_OF(EXCL, try_lock) shared(m); OTHER_RES(SHARED, try_lock_shared) }
ENTRY E_poly_upgrade() { when(); boost::poly_upgrade_lockable_adapter<Rec, boost::upgrade_poly_lockable> a; boost::upgrade_poly_lockable& m = a; basic(m); shared(m); upgrade(m); OTHER_RES(UPGRADE, try_lock_upgrade) OTHER_RES(S_TO_E, try_unlock_shared_and_lock) OTHER_RES(S_TO_U, try_unlock_shared_and_lock_upgrade) OTHER_RES(U_TO_E, try_unlock_upgrade_and_lock) }
// an object made lockable by its base is locked with the library's locks
struct Account : boost::lockable_adapter<boost::mutex> { int x; bool held() const { return sa_locks_held == 1; } };
ENTRY E_account() { Account a; a.x = 0; { boost::lock_guard<Account> g(a); SA_ASSERT(a.held(), R_PASS); } SA_ASSERT(!sa_locks_held, R_PASS); { boost::unique_lock<Account> l(a, boost::try_to_lock); SA_ASSERT(l.owns_lock() == a.held(), R_ANSWER); } SA_ASSERT(!sa_locks_held, R_PASS); }
// null mutex
ENTRY E_null() {
  boost::null_mutex m; m.lock(); m.lock(); SA_ASSERT(m.try_lock(), R_NULL); m.unlock(); SA_ASSERT(m.try_lock_for(ch::seconds(1)) && m.try_lock_until(STD(5)) && m.try_lock_until(SYS(5)), R_NULL);
  m.lock_shared(); m.lock_shared(); SA_ASSERT(m.try_lock_shared() && m.try_lock_shared_for(ch::seconds(1)) && m.try_lock_shared_until(STD(5)), R_NULL); m.unlock_shared();
  m.lock_upgrade(); m.lock_upgrade(); SA_ASSERT(m.try_lock_upgrade() && m.try_lock_upgrade_for(ch::seconds(1)) && m.try_lock_upgrade_until(STD(5)), R_NULL); m.unlock_upgrade();
  SA_ASSERT(m.try_unlock_shared_and_lock() && m.try_unlock_shared_and_lock_for(ch::seconds(1)) && m.try_unlock_shared_and_lock_until(STD(5)), R_NULL); m.unlock_and_lock_shared();
  SA_ASSERT(m.try_unlock_shared_and_lock_upgrade() && m.try_unlock_shared_and_lock_upgrade_for(ch::seconds(1)) && m.try_unlock_shared_and_lock_upgrade_until(STD(5)), R_NULL); m.unlock_upgrade_and_lock(); m.unlock_and_lock_upgrade(); m.unlock_upgrade_and_lock_shared();
  SA_ASSERT(m.try_unlock_upgrade_and_lock() && m.try_unlock_upgrade_and_lock_for(ch::seconds(1)) && m.try_unlock_upgrade_and_lock_until(STD(5)), R_NULL); SA_ASSERT(!sa_locks_held && sa_wait_depth == 0, R_NULL); MUST("null");
}
// testable mutex: threads take it in every way, one observer; a switch at every access of the owner's name
typedef boost::testable_mutex<boost::timed_mutex> TM; static TM* tm; static int owner, active, ops, form[4], got;
static inline void yield_() { int i = sa_me(); if (i < 0 || sa_probe) return; sa_T[i].st = T_READY; __sa_co_park(); sa_T[i].st = T_RUN; }
extern "C" void env_atomic(void*, int k) { if (!(k & 16)) yield_(); }
static void mine(int me) { for (int i = 0; i < 2; i++) { SA_ASSERT(tm->is_locked_by_this_thread(), R_MINE); SA_ASSERT(tm->is_locked() && tm->get_id() == boost::this_thread::get_id(), R_LOCKED); if (!i) yield_(); } }
static void t_own(void* q) {
  int me = (int)(long)q; SA_ASSERT(!tm->is_locked_by_this_thread(), R_MINE); bool r = true; active = active + 1; ops = ops + 1;
  switch (form[me]) { case 0: tm->lock(); break; case 1: r = tm->try_lock(); break; case 2: r = tm->try_lock_for(ch::seconds(1)); break; case 3: r = tm->try_lock_until(ch::steady_clock::now() + ch::seconds(1)); break;
    default: { active = active - 1; for (int i = 0; i < 2; i++) { int o = owner, n = ops; bool a = active; bool l = tm->is_locked(); bool w = tm->get_id() == boost::thread::id(); if (n == ops && o) { SA_ASSERT(l && !w, R_LOCKED); MUST("seen locked"); } if (n == ops && !a && !active) { SA_ASSERT(!l && w, R_LOCKED); MUST("seen free"); } SA_ASSERT(!tm->is_locked_by_this_thread(), R_MINE); } return; } }
  if (r) { SA_ASSERT(!owner, R_EXCL); owner = me + 1; ops = ops + 1; got = got + 1; mine(me); ops = ops + 1; owner = 0; tm->unlock(); MUST("owned"); } else MUST("not owned");
  SA_ASSERT(!tm->is_locked_by_this_thread(), R_MINE); ops = ops + 1; active = active - 1;
}
static void testable(int n, int a, int b, int c) { TM m; tm = &m; owner = active = ops = got = 0; form[0] = a; form[1] = b; form[2] = c; sa_spurious_left = 0; __sa_atomic_hook(&m, sizeof m); sa_run(n, t_own); }
ENTRY E_testable() { testable(2, 0, 0, 0); }
ENTRY E_testable_try() { testable(3, 0, 1, 4); }
ENTRY E_testable_timed() { testable(2, 2, 3, 0); }
ENTRY E_testable_watch() { testable(3, 0, 3, 4); }
