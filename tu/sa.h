// Interface between the witness translation units and the abstract interpreter (engine/bta.cpp).
// Nothing declared here is ever executed; the analyser gives each __sa_* symbol its meaning.
#ifndef SA_H
#define SA_H
#include <pthread.h>
#include <stddef.h>
extern "C" {
int __sa_choose(int n);                 // environment nondeterminism: any of 0..n-1
int __sa_sym32();                       // any int
long __sa_sym64();
long __sa_range(long lo, long hi);      // any value in [lo,hi], kept symbolic
int __sa_range32(int lo, int hi);
void* __sa_symptr();                    // any pointer (lazily initialised object)
void __sa_assert(int c, const char* rule);
void __sa_assume(int c);
void __sa_fail(const char* rule) __attribute__((noreturn));
void __sa_must(const char* what);       // must be reachable (anti-vacuity / progress)
void __sa_note(const char* what);
void __sa_defer();                      // continue breadth-first from here
void __sa_stop() __attribute__((noreturn));
void __sa_opt(const char* name, long v);
long __sa_getopt(const char* name);     // e.g. the number of allocation failures still to be injected
void __sa_havoc(void* p, long n);
int __sa_freed(const void* p);
int __sa_on_heap(const void* p);
int __sa_same_object(const void* a, const void* b);
int __sa_is_const(long v);
int __sa_live_heap();
int __sa_tid();
void __sa_set_tid(int);
void __sa_guard(const void* p, long n, const void* mutex);   // [p,p+n) may only be touched holding mutex
// [p,p+n) belongs to the object [o,o+on): every two conflicting accesses by different threads must hold a common mutex inside the object
void __sa_lockset(const void* p, long n, const void* o, long on, const char* label);
void __sa_mutex_made(const void* m, int made);
int __sa_held_in(const void* o, long n);       // mutexes inside the object (o == 0: any mutex) held by the running thread
void __sa_take(const void* m, int kind);        // about to block on a mutex (0), to wait on a condition with it (1), to join a thread (2)
void __sa_unguard(const void* p);
void __sa_unguard_all();
void __sa_atomic_hook(const void* p, long n);
int __sa_co_new(void (*fn)(void*), void* arg, int tid);      // suspended thread of control
int __sa_co_resume(int id);             // 1: parked, 2: finished
int __sa_co_status(int id);
void __sa_co_kill(int id);
int __sa_co_self();
int __sa_co_park();
void* __sa_exc_cur();
void __sa_exc_throw(void*) __attribute__((noreturn));
int __sa_uncaught();
void __sa_print(long);
}
#define SA_ASSERT(c, rule) __sa_assert((c) ? 1 : 0, rule)
#define ENTRY extern "C" void
#define MUST(x) __sa_must(x)
static inline bool sa_bool() { return __sa_choose(2) != 0; }

// ---- ghost view of the modelled pthread primitives (tu/model.cpp)
struct sa_mutex { int owner; int depth; int waiters; int inited; int kind; int acquisitions; int pad[4]; };
struct sa_cond { int notes; int bcast; int inited; int waiters; int clock; int pad[7]; };
static inline bool sa_held(const pthread_mutex_t* m) { return ((const sa_mutex*)m)->owner == __sa_tid() + 1; }
static inline bool sa_free(const pthread_mutex_t* m) { return ((const sa_mutex*)m)->owner == 0; }
extern "C" {
// environment hooks, weak defaults in model.cpp
void env_before_lock(pthread_mutex_t* m);
void env_after_lock(pthread_mutex_t* m);
void env_before_unlock(pthread_mutex_t* m);
void env_after_unlock(pthread_mutex_t* m);
void env_wait(pthread_cond_t* c, pthread_mutex_t* m, int timed);        // m is released here
void env_notify(pthread_cond_t* c, int all);
int  env_lock_fault(pthread_mutex_t* m);       // error code of a failing lock, 0 = ok
int  env_wait_fault(pthread_cond_t* c);
int  env_create_fault();
int  env_init_fault(int kind);                 // 0 mutex, 1 mutexattr, 2 condition variable, 3 condattr, 4 key
void env_made(int kind, int delta);            // such an object was made (+1) or destroyed (-1)
void env_block(pthread_mutex_t* m);            // mutex owned by another thread
void env_atomic(void* p, int kind);           // access to a hooked range: 1 load, 2 store, 4 acquire, 8 release, 16 not atomic
extern int sa_locks_held;                      // number of modelled mutexes held by the current thread(s)
extern int sa_wait_depth; extern long sa_wait_sec, sa_wait_nsec; extern int sa_wait_clock;
// spawned threads
typedef void* (*sa_thread_fn)(void*);
extern int sa_nspawn, sa_tid_base; extern sa_thread_fn sa_spawn_fn[8]; extern void* sa_spawn_arg[8]; extern int sa_spawn_state[8]; extern int sa_spawn_join[8]; extern int sa_spawn_detach[8];
void sa_run_spawned(int i);                    // run thread i (0-based) to completion as another thread
void env_spawned(int i);
void env_join(int i);                          // called by pthread_join on a not yet finished thread
extern int sa_nkeys; extern void* sa_tls[10][4]; extern void (*sa_key_dtor[4])(void*);
void sa_run_key_dtors(int tid);
}
#endif
