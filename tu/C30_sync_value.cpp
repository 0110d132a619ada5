// C30: synchronised values, locked pointers and externally locked objects
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_THREAD_PROVIDES_EXPLICIT_LOCK_CONVERSION ; -DBOOST_THREAD_VERSION=5 -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED
// @flags: -fno-access-control
// @link: thread once
#include "conc.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/synchronized_value.hpp>
#include <boost/thread/externally_locked.hpp>
#include <boost/thread/externally_locked_stream.hpp>
#include <boost/thread/lock_algorithms.hpp>
#define R_HELD "the protected value is touched only while its own mutex is held by the accessing thread"
#define R_REL "the mutex is released on every exit of the access, and held as long as a locked pointer lives"
#define R_VAL "an access reads and changes exactly the value it names"
#define R_DEAD "operations on two values lock both without deadlock"
#define R_ONE "a swap, assignment or comparison is one access: nothing is lost or doubled, and no state in between is seen"
#define R_OTHER "a lock of another mutex, or one that owns nothing, is rejected"
#define R_NEST "a nested strict lock owns the lock while it lives and gives it back"
#define R_STREAM "each use of an externally locked stream happens under its mutex"
struct Boom { }; struct V;
typedef boost::synchronized_value<V, boost::mutex> SV;
static SV* sv[3]; static int boom_ok, touches; static void touch(const V* p); static bool boom() { if (boom_ok && sa_bool()) { boom_ok = 0; return true; } return false; }
struct V { int v; V() : v(0) {} V(int x) : v(x) {} V(const V& o) : v(o.v) { touch(&o); if (boom()) throw Boom(); } V(V&& o) : v(o.v) { touch(&o); if (boom()) throw Boom(); o.v = -1; }
  V& operator=(const V& o) { touch(this); touch(&o); if (boom()) throw Boom(); v = o.v; return *this; } V& operator=(V&& o) { touch(this); touch(&o); if (boom()) throw Boom(); v = o.v; o.v = -1; return *this; }
  int f() const { touch(this); return v; } void set(int x) { touch(this); v = x; } };
static void touch(const V* p) { touches = touches + 1; for (int i = 0; i < 3; i++) if (sv[i] && p == &sv[i]->value()) { SA_ASSERT(sa_held(const_cast<boost::mutex&>(sv[i]->mutex()).native_handle()), R_HELD); MUST("touched"); } }
#define CMP(op) static bool operator op(const V& a, const V& b) { touch(&a); touch(&b); if (boom()) throw Boom(); return a.v op b.v; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
static void swap(V& a, V& b) { touch(&a); touch(&b); if (boom()) throw Boom(); int t = a.v; a.v = b.v; b.v = t; }
struct OS { int got; }; static OS& operator<<(OS& o, const V& v) { touch(&v); if (boom()) throw Boom(); o.got = v.v; return o; } static OS& operator>>(OS& o, V& v) { touch(&v); if (boom()) throw Boom(); v.v = o.got; return o; }
static bool locked(int i) { return !sa_free(const_cast<boost::mutex&>(sv[i]->mutex()).native_handle()); }
static void none(int n) { for (int i = 0; i < n; i++) SA_ASSERT(!locked(i), R_REL); }
static void setup(int n) { touches = boom_ok = 0; for (int i = 0; i < 3; i++) sv[i] = 0; for (int i = 0; i < n; i++) { SV* p = new SV(V(i + 5)); sv[i] = p; } }
static int rd(const V& v) { touch(&v); if (boom()) throw Boom(); return v.v; } static void wr(V& v) { touch(&v); v.v = 9; if (boom()) throw Boom(); } struct Rd { typedef int result_type; int operator()(V const& v) const { return rd(v); } }; struct Wr { typedef void result_type; void operator()(V& v) const { wr(v); } };
template <class F> static bool guarded(F f, int n = 1) { bool b = false; boom_ok = 1; int t = touches; try { f(); } catch (Boom&) { b = true; MUST("throws"); } boom_ok = 0; SA_ASSERT(touches > t, R_HELD); none(n); return b; }
static int val(int i) { return sv[i]->value().v; }
ENTRY E_read() {
  setup(1); SV& a = *sv[0]; const SV& c = a; int x = -2, w = __sa_choose(12); bool b;
  switch (w) {
    case 0: b = guarded([&] { V r = a.get(); x = r.v; }); break;
    case 1: b = guarded([&] { V r = static_cast<V>(c); x = r.v; }); break;
    case 2: b = guarded([&] { V r = static_cast<V&>(*a); x = r.v; }); break;
    case 3: b = guarded([&] { V r = static_cast<V const&>(*c); x = r.v; }); break;
    case 4: b = guarded([&] { x = a->f(); }); break;
    case 5: b = guarded([&] { x = c->f(); }); break;
    case 6: b = guarded([&] { x = a(Rd()); }); break;
    case 7: b = guarded([&] { x = c(Rd()); }); break;
    case 8: b = guarded([&] { OS o; o << c; x = o.got; }); break;
    case 9: b = guarded([&] { OS o; c.save(o); x = o.got; }); break;
    case 10: b = guarded([&] { x = a.synchronize()->f(); }); break;
    default: b = guarded([&] { x = rd(*c.synchronize()); }); break;
  }
  SA_ASSERT(b ? x == -2 : x == 5, R_VAL); SA_ASSERT(val(0) == 5, R_VAL); MUST("read");
}
ENTRY E_write() {
  setup(1); SV& a = *sv[0]; bool b; int keep = 5; V nv(9), old(9); OS o; o.got = 9;
  switch (__sa_choose(9)) {
    case 0: b = guarded([&] { a = nv; }); break;
    case 1: b = guarded([&] { *a = nv; }); break;
    case 2: b = guarded([&] { a->set(9); }); break;
    case 3: keep = 9; b = guarded([&] { a(Wr()); }); break;
    case 4: b = guarded([&] { o >> a; }); break;
    case 5: b = guarded([&] { a.load(o); }); break;
    case 6: b = guarded([&] { a.swap(old); }); if (!b) SA_ASSERT(old.v == 5, R_VAL); break;
    case 7: b = guarded([&] { if (sa_bool()) swap(a, old); else swap(old, a); }); if (!b) SA_ASSERT(old.v == 5, R_VAL); break;
    default: b = guarded([&] { *a.synchronize() = nv; }); break;
  }
  SA_ASSERT(val(0) == (b ? keep : 9), R_VAL); MUST("written");
}
#define REL(name, op) ENTRY E_rel_##name() { setup(2); SV &a = *sv[0], &c = *sv[1]; const_cast<V&>(const_cast<const SV&>(a).value()).v = __sa_choose(3); const_cast<V&>(const_cast<const SV&>(c).value()).v = __sa_choose(3); int x = const_cast<V&>(const_cast<const SV&>(a).value()).v, y = const_cast<V&>(const_cast<const SV&>(c).value()).v; V t(y); bool r = false, e = x op y, b; \
  switch (__sa_choose(3)) { case 0: b = guarded([&] { r = a op c; }, 2); break; case 1: b = guarded([&] { r = a op t; }, 2); break; default: e = y op x; b = guarded([&] { r = boost::operator op(t, a); }, 2); } \
  if (!b) SA_ASSERT(r == e, R_VAL); SA_ASSERT(val(0) == x && val(1) == y, R_VAL); MUST("compared"); }
REL(eq, ==) REL(ne, !=) REL(lt, <) REL(le, <=) REL(gt, >) REL(ge, >=)
ENTRY E_two() {
  setup(2); SV &a = *sv[0], &b = *sv[1]; bool t; SV* n = 0; 
  switch (__sa_choose(5)) {
    case 0: t = guarded([&] { a = b; }, 2); SA_ASSERT(val(0) == (t ? 5 : 6) && val(1) == 6, R_VAL); break;
    case 1: t = guarded([&] { a.swap(b); }, 2); SA_ASSERT(val(0) == (t ? 5 : 6) && val(1) == (t ? 6 : 5), R_VAL); break;
    case 2: t = guarded([&] { swap(a, b); }, 2); SA_ASSERT(val(0) == (t ? 5 : 6) && val(1) == (t ? 6 : 5), R_VAL); break;
    case 3: t = guarded([&] { n = new SV(a); }, 2); if (!t) { SA_ASSERT(n->value().v == 5 && sa_free(const_cast<boost::mutex&>(n->mutex()).native_handle()), R_VAL); } SA_ASSERT(val(0) == 5, R_VAL); break;
    default: t = guarded([&] { n = new SV(boost::move(a)); }, 2); if (!t) { SA_ASSERT(n->value().v == 5 && sa_free(const_cast<boost::mutex&>(n->mutex()).native_handle()), R_VAL); } break;
  }
  MUST("two");
}
template <class F> static void self(F f) { setup(1); bool r = f(*sv[0]); SA_ASSERT(r && val(0) == 5, R_VAL); none(1); MUST("an operation of a value with itself completes"); }
ENTRY E_self_assign() { self([](SV& a) { a = a; return true; }); } ENTRY E_self_swap() { self([](SV& a) { a.swap(a); return true; }); } ENTRY E_self_eq() { self([](SV& a) { return a == a; }); } ENTRY E_self_ne() { self([](SV& a) { return !(a != a); }); }
ENTRY E_self_le() { self([](SV& a) { return a <= a; }); } ENTRY E_self_ge() { self([](SV& a) { return a >= a; }); } ENTRY E_self_lt() { self([](SV& a) { return !(a < a); }); } ENTRY E_self_gt() { self([](SV& a) { return !(a > a); }); }
// locked pointers hold the mutex exactly as long as they live
ENTRY E_pointers() {
  setup(1); SV& a = *sv[0]; const SV& c = a; bool leave = sa_bool();
  try { switch (__sa_choose(6)) {
    case 0: { boost::strict_lock_ptr<V> p = a.synchronize(); SA_ASSERT(locked(0), R_REL); p->set(7); boost::strict_lock_ptr<V> q(boost::move(p)); SA_ASSERT(locked(0), R_REL); SA_ASSERT(rd(*q) == 7 && q->f() == 7, R_VAL); if (leave) throw Boom(); break; }
    case 1: { boost::const_strict_lock_ptr<V> p = c.synchronize(); boost::const_strict_lock_ptr<V> q(boost::move(p)); SA_ASSERT(locked(0) && rd(*q) == 5 && q->f() == 5, R_REL); if (leave) throw Boom(); break; }
    case 2: { boost::unique_lock_ptr<V> p = a.unique_synchronize(); SA_ASSERT(locked(0) && p.owns_lock(), R_REL); p->set(7); p.unlock(); SA_ASSERT(!locked(0), R_REL); if (leave) throw Boom(); p.lock(); SA_ASSERT(locked(0) && p->f() == 7, R_REL); boost::unique_lock_ptr<V> q(boost::move(p)); SA_ASSERT(!p.owns_lock() && q.owns_lock() && rd(*q) == 7, R_REL); break; }
    case 3: { boost::unique_lock_ptr<V> p = sa_bool() ? a.unique_synchronize(boost::defer_lock) : a.defer_synchronize(); SA_ASSERT(!locked(0) && !p.owns_lock(), R_REL); p.lock(); p->set(8); if (leave) throw Boom(); break; }
    case 4: { boost::unique_lock_ptr<V> p = a.try_to_synchronize(); SA_ASSERT(locked(0) && p.owns_lock() && p->f() == 5, R_REL); if (leave) throw Boom(); break; }
    default: { const_cast<boost::mutex&>(a.mutex()).lock(); if (sa_bool()) { boost::unique_lock_ptr<V> p = a.adopt_synchronize(); SA_ASSERT(locked(0) && p.owns_lock() && p->f() == 5, R_REL); if (leave) throw Boom(); } else { boost::const_unique_lock_ptr<V> p = c.adopt_synchronize(); SA_ASSERT(locked(0) && p.owns_lock() && p->f() == 5, R_REL); if (leave) throw Boom(); } }
  } } catch (Boom&) { MUST("left"); }
  none(1);
}
ENTRY E_const_pointers() {
  setup(1); const SV& c = *sv[0];
  { boost::const_unique_lock_ptr<V> p = c.unique_synchronize(); SA_ASSERT(locked(0) && rd(*p) == 5, R_REL); boost::const_unique_lock_ptr<V> q(boost::move(p)); SA_ASSERT(q.owns_lock() && !p.owns_lock(), R_REL); } none(1);
  { boost::const_unique_lock_ptr<V> p = sa_bool() ? c.unique_synchronize(boost::defer_lock) : c.defer_synchronize(); SA_ASSERT(!locked(0), R_REL); p.lock(); SA_ASSERT(p->f() == 5, R_VAL); } none(1);
  { boost::const_unique_lock_ptr<V> p = c.try_to_synchronize(); SA_ASSERT(p.owns_lock() && p->f() == 5, R_REL); } none(1); MUST("const");
}
ENTRY E_busy() { setup(1); SV& a = *sv[0]; int me = __sa_tid(); __sa_set_tid(me + 1); const_cast<boost::mutex&>(a.mutex()).lock(); __sa_set_tid(me); boost::unique_lock_ptr<V> p = a.try_to_synchronize(); SA_ASSERT(!p.owns_lock(), R_REL); boost::const_unique_lock_ptr<V> q = const_cast<const SV&>(a).try_to_synchronize(); SA_ASSERT(!q.owns_lock(), R_REL); MUST("busy"); }
ENTRY E_multi() {
  setup(3); SV &a = *sv[0], &b = *sv[1], &c = *sv[2]; const SV& cb = b; bool leave = sa_bool();
  try { switch (__sa_choose(3)) {
    case 0: { auto t = boost::synchronize(a, b); SA_ASSERT(locked(0) && locked(1) && !locked(2), R_REL); std::get<0>(t)->set(1); SA_ASSERT(std::get<1>(t)->f() == 6 && val(0) == 1, R_VAL); if (leave) throw Boom(); break; }
    case 1: { auto t = boost::synchronize(a, b, c); SA_ASSERT(locked(0) && locked(1) && locked(2), R_REL); SA_ASSERT(std::get<2>(t)->f() == 7 && std::get<1>(t)->f() == 6, R_VAL); if (leave) throw Boom(); break; }
    default: { auto t = boost::synchronize(a, cb); SA_ASSERT(locked(0) && locked(1), R_REL); SA_ASSERT(std::get<1>(t)->f() == 6 && std::get<0>(t)->f() == 5, R_VAL); if (leave) throw Boom(); }
  } } catch (Boom&) { }
  none(3); MUST("multi");
}
// --- two threads, opposite order
static void at_rest() { for (int i = 0; i < sa_nt; i++) SA_ASSERT(sa_T[i].st != T_BLOCK, R_DEAD); }
static void (*op2)(int, SV&, SV&); static void t_two(void* a) { int k = (int)(long)a; op2(k, *sv[k], *sv[1 - k]); MUST("done"); }
static void dead(void (*f)(int, SV&, SV&)) { setup(2); op2 = f; sa_preempt_nested = 1; sa_at_rest = at_rest; sa_run(2, t_two); }
ENTRY E_dead_assign() { dead([](int, SV& a, SV& b) { a = b; }); }
ENTRY E_dead_swap() { dead([](int, SV& a, SV& b) { a.swap(b); }); }
ENTRY E_dead_eq() { dead([](int k, SV& a, SV& b) { if (k) (void)(a == b); else (void)(a < b); }); }
ENTRY E_dead_rel() { dead([](int k, SV& a, SV& b) { if (k) (void)(a <= b); else (void)(a >= b); }); }
ENTRY E_dead_gt() { dead([](int k, SV& a, SV& b) { if (k) (void)(a > b); else (void)(a != b); }); }
#define DEAD(n, o) ENTRY E_dead_##n##_##n() { dead([](int, SV& a, SV& b) { (void)(a o b); }); }
DEAD(eq, ==) DEAD(ne, !=) DEAD(lt, <) DEAD(le, <=) DEAD(gt, >) DEAD(ge, >=)
ENTRY E_dead_sync() { dead([](int k, SV& a, SV& b) { if (k) { auto t = boost::synchronize(a, b); std::get<0>(t)->set(3); } else a = b; }); }
// --- each operation is one access, whatever another thread does meanwhile
static int out[2], which; static void (*fin)();
static void one(int n, void (*f)(void*), void (*g)()) { setup(n); out[0] = out[1] = -1; which = __sa_choose(6); fin = g; sa_preempt_nested = 1; sa_at_rest = [] { for (int i = 0; i < sa_nt; i++) SA_ASSERT(sa_T[i].st == T_DONE, R_DEAD); fin(); }; sa_run(2, f); }
static bool perm(int a, int b, int c) { return a + b + c == 26 && a != b && b != c && a != c; }
ENTRY E_one_swap_value() { one(1, [](void* q) { int k = (int)(long)q; V l(10 + k); if (which & 1) sv[0]->swap(l); else if (which & 2) boost::swap(*sv[0], l); else boost::swap(l, *sv[0]); out[k] = l.v; MUST("swapped"); }, [] { SA_ASSERT(perm(val(0), out[0], out[1]), R_ONE); MUST("end"); }); }
ENTRY E_one_swap() { one(2, [](void* q) { int k = (int)(long)q; if (which & 1) sv[k]->swap(*sv[1 - k]); else boost::swap(*sv[k], *sv[1 - k]); }, [] { SA_ASSERT(val(0) == 5 && val(1) == 6, R_ONE); MUST("end"); }); }
ENTRY E_one_assign() { one(2, [](void* q) { int k = (int)(long)q; *sv[k] = *sv[1 - k]; }, [] { SA_ASSERT(val(0) == val(1) && (val(0) == 5 || val(0) == 6), R_ONE); MUST("end"); }); }
ENTRY E_one_assign_swap() { one(3, [](void* q) { if (q) { if (which & 1) sv[0]->swap(*sv[1]); else sv[1]->swap(*sv[0]); } else *sv[2] = *sv[0]; }, [] { SA_ASSERT(val(0) == 6 && val(1) == 5 && (val(2) == 5 || val(2) == 6), R_ONE); MUST("end"); }); }
ENTRY E_one_compare() { one(2, [](void* q) { SV &a = *sv[0], &b = *sv[1]; if (q) a.swap(b); else switch (which) {
  case 0: SA_ASSERT(!(a == b), R_ONE); break; case 1: SA_ASSERT(a != b, R_ONE); break; case 2: out[0] = a < b; break; case 3: out[0] = a <= b; break; case 4: out[0] = a > b; break; default: out[0] = a >= b; } }, [] { MUST("end"); }); }
// --- externally locked objects
typedef boost::externally_locked<V, boost::mutex> EL; typedef boost::externally_locked<V&, boost::mutex> ER;
ENTRY E_external() {
  setup(0); boost::mutex m, o; V obj(4); EL e(m, obj); ER r(obj, m); const EL ce(m, V(3)); const ER cr(obj, m); SA_ASSERT(e.mutex() == &m && r.mutex() == &m, R_VAL); bool thr = false, right = sa_bool(), byref = sa_bool(), cst = sa_bool(); V const* got = 0;
  try {
    if (sa_bool()) { boost::strict_lock<boost::mutex> l(right ? m : o); got = cst ? (byref ? &cr.get(l) : &ce.get(l)) : byref ? &r.get(l) : &e.get(l); SA_ASSERT(sa_held(m.native_handle()), R_OTHER); }
    else { boost::unique_lock<boost::mutex> u(right ? m : o); if (sa_bool()) u.unlock(); boost::nested_strict_lock<boost::unique_lock<boost::mutex> > l(u); got = cst ? (byref ? &cr.get(l) : &ce.get(l)) : byref ? &r.get(l) : &e.get(l); SA_ASSERT(sa_held(m.native_handle()), R_OTHER); }
  } catch (boost::lock_error&) { thr = true; MUST("rejected"); }
  SA_ASSERT(thr == !right, R_OTHER); if (right) SA_ASSERT(got == (byref ? &obj : cst ? &ce.obj_ : &e.obj_), R_VAL); SA_ASSERT(sa_free(m.native_handle()) && sa_free(o.native_handle()), R_REL); MUST("external");
}
ENTRY E_external_lockable() { boost::mutex m; V obj(4); EL e(m, obj); e.lock(); SA_ASSERT(sa_held(m.native_handle()) && !0, R_REL); e.unlock(); SA_ASSERT(sa_free(m.native_handle()), R_REL); SA_ASSERT(e.try_lock() && sa_held(m.native_handle()), R_REL); e.unlock(); SA_ASSERT(sa_free(m.native_handle()), R_REL);
  ER r(obj, m); r.lock(); SA_ASSERT(sa_held(m.native_handle()), R_REL); r.unlock(); SA_ASSERT(r.try_lock() && sa_held(m.native_handle()), R_REL); r.unlock(); SA_ASSERT(sa_free(m.native_handle()), R_REL); MUST("lockable"); }
ENTRY E_external_copy() { boost::mutex m, o; EL a(m, V(1)), b(o, V(2)); if (sa_bool()) { a.swap(b); SA_ASSERT(a.mutex() == &o && a.obj_.v == 2 && b.mutex() == &m && b.obj_.v == 1, R_VAL); } else if (sa_bool()) { a = b; SA_ASSERT(a.mutex() == &o && a.obj_.v == 2, R_VAL); } else if (sa_bool()) { EL c(b); SA_ASSERT(c.mutex() == &o && c.obj_.v == 2, R_VAL); } else { EL c(boost::move(b)); SA_ASSERT(c.mutex() == &o && c.obj_.v == 2, R_VAL); a = boost::move(c); SA_ASSERT(a.mutex() == &o && a.obj_.v == 2, R_VAL); }
  V x(1), y(2); ER p(x, m), q(y, o); if (sa_bool()) { p.swap(q); SA_ASSERT(p.mutex() == &o && p.obj_ == &y && q.mutex() == &m && q.obj_ == &x, R_VAL); } else { p = q; SA_ASSERT(p.mutex() == &o && p.obj_ == &y, R_VAL); ER c(p); SA_ASSERT(c.mutex() == &o && c.obj_ == &y, R_VAL); } MUST("copied"); }
ENTRY E_strict() {
  boost::mutex m, o; bool leave = sa_bool();
  try { boost::strict_lock<boost::mutex> l(m); SA_ASSERT(sa_held(m.native_handle()) && l.owns_lock() && l.owns_lock(&m) && !l.owns_lock(&o) && l.mutex() == &m, R_OTHER); if (leave) throw Boom(); } catch (Boom&) { }
  SA_ASSERT(sa_free(m.native_handle()), R_REL);
  boost::unique_lock<boost::mutex> u(m); bool un = sa_bool(); if (un) u.unlock();
  try { boost::nested_strict_lock<boost::unique_lock<boost::mutex> > n(u); SA_ASSERT(sa_held(m.native_handle()) && !u.owns_lock() && n.owns_lock() && n.owns_lock(&m) && !n.owns_lock(&o) && n.mutex() == &m, R_NEST); if (leave) throw Boom(); } catch (Boom&) { }
  SA_ASSERT(u.owns_lock() && u.mutex() == &m && sa_held(m.native_handle()), R_NEST); u.unlock();
  boost::unique_lock<boost::mutex> z; bool thr = false; try { boost::nested_strict_lock<boost::unique_lock<boost::mutex> > n(z); } catch (boost::lock_error&) { thr = true; } SA_ASSERT(thr && !z.owns_lock(), R_NEST); SA_ASSERT(sa_free(m.native_handle()), R_REL); MUST("strict");
}
// --- streams
struct St { int uses; boost::recursive_mutex* m; }; static void use(St& s) { SA_ASSERT(sa_held(&s.m->m), R_STREAM); s.uses = s.uses + 1; if (boom()) throw Boom(); }
static St& operator<<(St& s, int) { use(s); return s; } static St& operator>>(St& s, int& x) { use(s); x = 3; return s; } static St& manip(St& s) { use(s); return s; } static St& operator<<(St& s, St& (*f)(St&)) { return f(s); }
ENTRY E_stream() {
  boost::recursive_mutex m; St s; s.uses = 0; s.m = &m; boost::externally_locked_stream<St> e(s, m); int x = 0, n = 0; boom_ok = 1; bool b = false;
  try { switch (__sa_choose(5)) { case 0: n = 2; e << 1 << 2; break; case 1: n = 1; e >> x; SA_ASSERT(x == 3, R_VAL); break; case 2: n = 2; e << manip << manip; break;
    case 3: { n = 3; boost::stream_guard<St> g = e.hold(); SA_ASSERT(sa_held(m.native_handle()), R_STREAM); g << 1 << 2; SA_ASSERT(sa_held(m.native_handle()), R_STREAM); boost::stream_guard<St> h(boost::move(g)); h >> x; SA_ASSERT(sa_held(m.native_handle()), R_STREAM); break; }
    default: { n = 2; m.lock(); boost::stream_guard<St> g(e, boost::adopt_lock); St& r = g.get(); use(r); e << 1; SA_ASSERT(sa_held(m.native_handle()), R_STREAM); }
  } } catch (Boom&) { b = true; }
  SA_ASSERT(sa_free(m.native_handle()), R_REL); if (!b) SA_ASSERT(s.uses == n, R_STREAM); MUST("stream");
}
