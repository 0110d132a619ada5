#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so that statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/boost/thread/"
prop("C01", "Exclusive mutexes: one owner, exact result of every lock attempt",
     "A mutex, timed, recursive or recursive-timed mutex has at most one owning thread: a lock operation returns successfully only when the mutex was free (or already owned by the caller, for recursive mutexes), try and timed attempts report success exactly when they acquired it, and a failed or timed-out attempt leaves the mutex as it was. A recursive mutex becomes free only after as many unlocks as successful locks. Releasing a timed mutex wakes a thread waiting for it.",
     ["schedules", "inputs", "histories"], "all interleavings of lock attempts at the points where internal state can change, all outcomes of timed waits, all recursion depths in the domain",
     "tests contend with one or two threads and generous sleeps; the windows between a failed attempt, a wake-up and a re-check are never hit systematically",
     [I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp"],
     [("flag + condition variable implementation of timed mutexes", I+"pthread/mutex.hpp timed_mutex::lock/try_lock/unlock/do_lock_until"), ("owner and count of the recursive timed mutex", I+"pthread/recursive_mutex.hpp")])
prop("C02", "Lock objects release exactly once, exactly when they own",
     "For every lock type (lock guard, unique, shared, upgrade, nested upgrade, strict, reverse and shared-guard locks) and every sequence of construction, locking, timed locking, move, conversion, swap, release, exception and destruction, the ownership the object reports equals what it did to the mutex, and the mutex is released exactly once in the mode in which it was acquired. Operations on a lock object without mutex, or that already owns (or does not own) the mutex, throw a lock error and change nothing.",
     ["histories", "inputs", "fault_sequences"], "all states of the lock object, all results of the mutex operations including exceptions",
     "tests check a handful of straight-line sequences with mutexes that never fail",
     [I+"lock_types.hpp", I+"lock_guard.hpp", I+"shared_lock_guard.hpp", I+"reverse_lock.hpp", I+"strict_lock.hpp", I+"lock_factories.hpp", I+"with_lock_guard.hpp"],
     [("ownership flag next to the mutex pointer", I+"lock_types.hpp")])
prop("C03", "Multi-mutex locking is all-or-nothing and never holds while blocking",
     "The multi-lock operations (fixed argument lists of two to five mutexes and iterator ranges) return normally only with every mutex locked exactly once, and if any mutex operation throws they leave none locked. While one of the mutexes is held no blocking acquisition of another is attempted, so no set of concurrent callers can deadlock. The try variants lock all or none and report which mutex could not be locked.",
     ["schedules", "inputs", "fault_sequences"], "all results of every individual lock/try_lock call, including exceptions, for all argument counts",
     "whether a try fails at a given step depends on contention that the tests produce by chance",
     [I+"lock_algorithms.hpp", I+"lock_factories.hpp"],
     [("rotating first mutex plus try-lock of the rest", I+"lock_algorithms.hpp lock/lock_helper/try_lock_internal"), ("range_lock_guard", I+"lock_algorithms.hpp")])
prop("C04", "Shared mutex: readers, upgrader and writer exclude each other correctly",
     "For the shared (upgradable) mutex, in the default and in the second (BOOST_THREAD_V2_SHARED_MUTEX) implementation, at any time there is either one exclusive owner and nobody else, or any number of shared owners and at most one upgrade owner. Every acquisition, try, timed acquisition, release and upward or downward conversion respects this for every current combination of owners and waiters, never succeeds spuriously and never fails to release what the caller held.",
     ["schedules", "histories"], "every reachable combination of shared, upgrade and exclusive owners and of operations parked in a wait, every operation applied to it, all timed outcomes",
     "tests hold one configuration with sleeps; conversions racing with parked writers or upgraders are not exercised",
     [I+"pthread/shared_mutex.hpp", I+"v2/shared_mutex.hpp"],
     [("state_data counters under the state mutex", I+"pthread/shared_mutex.hpp"), ("the two gates and the state word", I+"v2/shared_mutex.hpp upgrade_mutex")],
     [("state_data", "shared count, exclusive, upgrade, exclusive-waiting flags", I+"pthread/shared_mutex.hpp")])
prop("C05", "Shared mutex: no lost wake-up, no residue of failed attempts",
     "Whenever an operation on a shared mutex makes it possible for a parked operation to proceed, that parked operation is woken. A timed attempt that gives up leaves no trace: nobody is blocked afterwards who would not be blocked had the attempt never been made, and anything it had kept from proceeding is woken.",
     ["schedules", "histories"], "every reachable state with parked operations, every operation that changes the state, every time-out point",
     "a missed notification shows only if nothing else wakes the waiter; tests have few waiters and always some later release",
     [I+"pthread/shared_mutex.hpp", I+"v2/shared_mutex.hpp"], [("release_waiters and notify calls", I+"pthread/shared_mutex.hpp"), ("gate1_ and gate2_ notifications", I+"v2/shared_mutex.hpp")])
prop("C06", "Condition variables give up the lock while waiting and always hold it after",
     "Every wait on a condition variable (both kinds, untimed, timed, with predicate) gives up the caller's lock for the duration of the wait and holds it again whenever it returns or throws, including interruption and failure of the underlying wait. A notify that happens after the caller's lock was given up wakes the waiter: no notification is lost between giving up the lock and blocking, nor used up by a waiter that ends by an interruption. Predicate waits return true only with the predicate true, and without time-out only then.",
     ["schedules", "fault_sequences", "inputs"], "all wait variants, spurious wake-ups, time-outs, failures and interruption at any point",
     "spurious wake-ups, interruption inside the window and failing waits do not happen in the tests",
     [I+"pthread/condition_variable.hpp", I+"pthread/condition_variable_fwd.hpp"],
     [("interruption_checker and lock_on_exit", I+"pthread/condition_variable.hpp"), ("internal mutex", I+"pthread/condition_variable_fwd.hpp")])
prop("C07", "Interruption reaches the thread, only at interruption points, exactly once",
     "A request to interrupt a thread makes its next or current interruption point (a timed one whose deadline has passed excepted) throw thread_interrupted and clears the request, provided interruption is enabled there; with interruption disabled, or in an operation that is not an interruption point such as acquiring a mutex of any kind, nothing is thrown and the request stays pending. A request arriving at any time after the thread's last check and before or during its blocking wait wakes that wait. Restoring or disabling interruption scopes nest properly.",
     ["schedules", "histories"], "every point at which the request may arrive relative to the check and the wait, all nestings of disable/restore",
     "the window between check and wait is a few instructions wide",
     [I+"pthread/thread_data.hpp", I+"pthread/condition_variable.hpp", I+"detail/thread_interruption.hpp", "src/pthread/thread.cpp", I+"pthread/shared_mutex.hpp", I+"v2/shared_mutex.hpp"],
     [("interruption_checker publishes the condition under the thread's data mutex", I+"pthread/thread_data.hpp"), ("interrupt", "src/pthread/thread.cpp")])
prop("C08", "call_once runs its function to completion exactly once",
     "For every once flag, exactly one call completes the function normally, no call returns before that completion is visible, and no two executions overlap. If the function throws, the exception reaches that caller, the flag is as if the call had not happened, and one of the waiting or later callers runs the function.",
     ["schedules", "fault_sequences"], "all states of the flag other threads may produce at each atomic step, exceptions from the function, spurious wake-ups",
     "tests run a few threads through a fast function",
     ["src/pthread/once_atomic.cpp", "src/pthread/once.cpp", I+"pthread/once_atomic.hpp", I+"pthread/once.hpp"],
     [("three-state atomic flag with mutex and condition variable", "src/pthread/once_atomic.cpp")])
prop("C09", "Thread handles: each started thread is joined or detached at most once",
     "A thread object that started a thread is joinable until it is joined, detached or moved from; each started thread is joined or detached at most once, join (by any joiner) returns only after the thread has ended, and a failed start throws and leaves the object not joinable with nothing leaked. Moving transfers the thread to exactly one owner; operations on a not-joinable handle and joining oneself are reported as documented.",
     ["histories", "schedules", "fault_sequences"], "all sequences of handle operations, failure of thread creation, time-out of timed joins, concurrent joiners",
     "tests never fail thread creation and rarely race two joiners",
     ["src/pthread/thread.cpp", I+"detail/thread.hpp", I+"pthread/thread_data.hpp"],
     [("join_started/joined/done protocol", "src/pthread/thread.cpp"), ("thread_data ownership", I+"pthread/thread_data.hpp")])
prop("C10", "Thread exit: registered exit actions run exactly once, before joiners",
     "When a thread ends, normally, by interruption or through any supported exit, every function registered to run at thread exit runs exactly once, thread-specific values are cleaned up, locks handed over for exit-time notification are released after their waiters are notified and exit-time-ready results become ready, all before a joiner is released. Each of these happens once per thread and for no other thread.",
     ["histories", "schedules"], "all sets and orders of registrations including registrations made during exit",
     "tests register one function and look afterwards",
     ["src/pthread/thread.cpp", I+"pthread/thread_data.hpp", "src/future.cpp"],
     [("tls_destructor / thread_proxy / thread_data_base destructor", "src/pthread/thread.cpp")])
prop("C11", "Thread-specific pointers: each non-null value is cleaned exactly once",
     "For a thread-specific pointer, get returns what the same thread last set, reset runs the cleanup function exactly once on the previous non-null value and never on the value being kept, release hands the value over without cleanup, and at thread exit each remaining non-null value is cleaned exactly once. Destroying the pointer removes its values without touching other pointers' values; a pointer without cleanup function never cleans.",
     ["histories"], "all sequences of set, reset, release and destruction over several pointers and threads, cleanup functions that set values again",
     "tests cover a linear sequence with one pointer",
     [I+"tss.hpp", "src/pthread/thread.cpp"], [("set_tss_data / get_tss_data / find_tss_data", "src/pthread/thread.cpp"), ("thread_specific_ptr", I+"tss.hpp")])
prop("C12", "A promise is satisfied at most once; its future gets exactly that result",
     "Once a shared state has received a value or an exception (now or at thread exit), every further attempt to satisfy it throws promise_already_satisfied and changes nothing. The future becomes ready exactly when the result is stored, all blocked waiters are woken, and what get returns or throws is exactly the value or exception that was set. A failed attempt to store (the value's copy throws) leaves the promise unsatisfied.",
     ["histories", "schedules", "inputs", "fault_sequences"], "all orders of value, exception and at-thread-exit setters, for object, reference and void results, arbitrary values, throwing copies",
     "tests use single setters and int values",
     [I+"future.hpp", "src/future.cpp"], [("shared state set and mark_finished functions", I+"future.hpp")])
prop("C13", "Abandoned promises and tasks break their futures; nothing waits for ever",
     "If a promise or packaged task is destroyed or assigned over before satisfying a future that was obtained from it, the future becomes ready with broken_promise and waiters are woken. A provider that was satisfied, moved from or never asked for a future breaks nothing.",
     ["histories", "schedules"], "all orders of obtaining futures, satisfying, moving, swapping, resetting and destroying providers",
     "tests destroy one provider in one way",
     [I+"future.hpp"], [("promise destructor", I+"future.hpp"), ("owner_destroyed", I+"future.hpp")])
prop("C14", "Future handles: validity, single retrieval and errors are exact",
     "A future is valid from construction out of a provider until it is moved from or shared or (where the library is configured so, as by default from version 3) its result is retrieved; get on a unique future delivers the stored result, a shared future can be read any number of times with the same result, and get, waits and timed waits on an invalid handle and satisfying a promise without state throw the no-state error instead of touching memory. A promise or task hands out its future at most once. Moving or sharing transfers the state to exactly one handle.",
     ["histories"], "all sequences of handle operations over promise, packaged task, unique and shared futures",
     "tests cover single steps",
     [I+"future.hpp"], [("basic_future/future/shared_future", I+"future.hpp")])
prop("C15", "Continuations run exactly once, after readiness, passing results on",
     "A continuation attached to a valid future runs exactly once, and only once the antecedent is ready, whether it was attached before or after readiness and whatever the launch policy (a deferred one when its result is asked for); its argument is the ready antecedent and the future returned by the attachment receives the continuation's value or exception. The antecedent handle becomes invalid. Unwrapping yields the inner result, and a missing inner future yields broken_promise; continuations are never started with the library's internal lock held.",
     ["schedules", "histories", "fault_sequences"], "attachment before, during or after readiness, every launch policy and executor, values and exceptions",
     "attachment racing with readiness is only tested with sleeps",
     [I+"future.hpp"], [("continuation vector and do_continuation", I+"future.hpp"), ("future_unwrap_shared_state", I+"future.hpp")])
prop("C16", "Tasks and async calls invoke their function exactly once, capturing outcomes",
     "Invoking a packaged task calls the stored function exactly once with the caller's arguments and stores its value or exception in the future; a second invocation throws task_already_started, an empty task throws task_moved, reset lets the task be called once more. A function launched asynchronously or through an executor runs exactly once, a deferred one runs at the first wait or get, in the waiting thread, at most once, and never if nobody waits.",
     ["histories", "fault_sequences", "inputs"], "arbitrary functions, arguments and outcomes, all orders of invocation, waiting, reset and destruction",
     "tests call simple functions in a fixed order",
     [I+"future.hpp"], [("task shared state run/apply/do_run", I+"future.hpp"), ("future_async_shared_state, future_deferred_shared_state", I+"future.hpp")])
prop("C17", "Waiting for any or all of several futures neither misses nor invents readiness",
     "Waiting for any of a set of futures (unique or shared, also repeated) returns a ready one and concurrent waiters never block each other, and waiting for all returns only when all are ready; when_all and when_any results become ready exactly when all, respectively at least one, of their inputs is ready, contain every input in order, and an empty set is handled at once. Waiters that stop waiting leave nothing behind in the futures they waited on.",
     ["schedules", "inputs"], "any subset of inputs ready at any time, any number of inputs in the domain",
     "tests make one particular input ready",
     [I+"future.hpp"], [("future_waiter", I+"future.hpp"), ("when_all/when_any shared states", I+"future.hpp")])
prop("C18", "Concurrent queues: FIFO, nothing lost or duplicated, closed means closed",
     "Every element pushed successfully on a concurrent queue or deque view is pulled exactly once and in order; pushing on a closed queue is refused and leaves the argument with the caller, pulling drains what was accepted before the close and then reports closed. Try operations never block, waiting operations return only with an element or closed, and every push, pull or close wakes the threads that it enables to proceed. Concurrent operations take effect one at a time, each between its call and its return.",
     ["schedules", "histories", "fault_sequences"], "all queue states, all operations in all their forms, throwing element copies, all interleavings at lock boundaries",
     "tests use one producer and one consumer",
     [I+"concurrent_queues/sync_queue.hpp", I+"concurrent_queues/sync_deque.hpp", I+"concurrent_queues/detail/sync_queue_base.hpp", I+"concurrent_queues/detail/sync_deque_base.hpp"],
     [("monitor with closed flag and waiting counter", I+"concurrent_queues/detail/sync_queue_base.hpp")])
prop("C19", "Bounded queue: never over capacity, never loses a waiter, exact size",
     "A bounded queue holds at most its capacity; size, empty and full report the exact number of elements for every history of pushes and pulls including wrap-around. Push on a full queue blocks, fails or waits according to the variant, pull on an empty one likewise, each completed operation wakes the opposite side if it waits, and closing wakes everybody and refuses further pushes while remaining elements are still delivered in order. Concurrent operations take effect one at a time, each between its call and its return.",
     ["schedules", "histories"], "every fill level and ring position of small capacities, every operation, close at any time",
     "tests never wrap around the ring",
     [I+"concurrent_queues/sync_bounded_queue.hpp"], [("ring indices in_/out_", I+"concurrent_queues/sync_bounded_queue.hpp")])
prop("C20", "Priority and timed queues: order respected, nothing delivered early or lost",
     "A priority queue always delivers a maximal element; a timed queue delivers an element only when its time has been reached and the earliest one first, and a waiting puller reacts to an earlier element or a close arriving meanwhile. Elements are neither lost nor duplicated and closed queues refuse pushes. Concurrent operations take effect one at a time, each between its call and its return.",
     ["schedules", "histories", "inputs"], "all clock readings, all relative orders of deadlines, spurious wake-ups, concurrent pushes and closes while waiting",
     "tests depend on the real clock",
     [I+"concurrent_queues/sync_priority_queue.hpp", I+"concurrent_queues/sync_timed_queue.hpp"], [("heap ordered by time and wait loops", I+"concurrent_queues/sync_timed_queue.hpp")])
prop("C21", "Executors run every accepted task exactly once and none after close",
     "Every task accepted by an executor (thread pool, serial, loop, inline, thread-per-task and type-erased executors) is executed exactly once; submitting after close fails without executing the task. Unless its threads are interrupted, destroying or joining an executor lets all accepted tasks finish and joins all its threads (destruction also while the destroying thread is being interrupted); a serial executor never runs two tasks at once and keeps submission order. An attempt to run one pending task tells whether it ran one and never waits for one.",
     ["schedules", "histories", "fault_sequences"], "all orders of submit, close, join and destruction, any task outcome",
     "tests submit a few tasks and wait",
     [I+"executors/basic_thread_pool.hpp", I+"executors/serial_executor.hpp", I+"executors/serial_executor_cont.hpp", I+"executors/loop_executor.hpp", I+"executors/inline_executor.hpp", I+"executors/thread_executor.hpp", I+"executors/executor_adaptor.hpp"],
     [("work queue and worker loop", I+"executors/basic_thread_pool.hpp")])
prop("C22", "Scheduled executors run each task once, not before its time, and stop on close",
     "A task scheduled for a time point or after a delay is passed to execution at most once and not before its time, and exactly once unless the scheduler is closed or destroyed first. Closing the scheduler stops accepting tasks and ends its threads, and destruction waits for them, also while the destroying thread is being interrupted.",
     ["schedules", "histories"], "all clock readings and deadlines, close at any time",
     "tests depend on the real clock and sleep",
     [I+"executors/scheduler.hpp", I+"executors/scheduled_thread_pool.hpp", I+"executors/scheduling_adaptor.hpp", I+"executors/detail/scheduled_executor_base.hpp", I+"executors/detail/priority_executor_base.hpp"],
     [("timed queue driven loop", I+"executors/detail/priority_executor_base.hpp")])
prop("C23", "Barriers release all parties of a generation together and are reusable",
     "A barrier releases the waiting threads exactly when the configured number has arrived, tells exactly one of them so, runs the completion function once per generation before anybody is released, and immediately starts the next generation; a zero count is rejected. No thread of one generation can be caught or released by another, whatever spurious wake-ups occur.",
     ["schedules", "histories"], "every arrival order over several generations, spurious wake-ups, completion functions changing the count",
     "tests run one generation with fixed threads",
     [I+"barrier.hpp"], [("generation counter", I+"barrier.hpp")])
prop("C24", "Latches open exactly at zero and wake every waiter",
     "A latch opens exactly when its count reaches zero, wakes every waiting thread, stays open until reset, and lets later waits and tries succeed at once; a try or timed wait reports whether it is open. The same holds for a completion latch (whose last count-down waits until some thread waits on the latch); an interruption takes away only the interrupted waiter, and no count-down. A completion latch runs its completion function once per completion, after the count reached zero and after the threads then waiting have left.",
     ["schedules", "histories"], "all counts in the domain, all orders of count-down, wait, try, reset, spurious wake-ups",
     "tests use one small count",
     [I+"latch.hpp", I+"completion_latch.hpp", I+"detail/counter.hpp"], [("count under mutex with condition variable", I+"latch.hpp")])
prop("C25", "Shared state is touched under a common lock, user code without one",
     "Any two conflicting accesses by different threads that the public operations of a synchronised object (queue, latch, barrier, timed or shared mutex, condition_variable_any, shared state of a future, executor, data of a thread) make to its mutable state hold a common mutex of the object, and the elements of queues are only touched under it. Every operation returns, also by exception, with the locks it took released. Closures, tasks, continuations, wait callbacks, completion functions of latches, at-exit and cleanup functions are called with no lock of the library held.",
     ["schedules", "fault_sequences"], "every public operation in every state, every exceptional exit",
     "a data race is invisible to functional tests",
     [I+"concurrent_queues", I+"future.hpp", I+"pthread", I+"latch.hpp", I+"barrier.hpp", I+"detail/thread_group.hpp"],
     [("lock guards at the head of each operation", "throughout")])
prop("C26", "Failures of the operating system primitives are reported, not swallowed",
     "If the system refuses to create a mutex, condition variable or thread, to lock a mutex or recursive mutex, or to wait on a condition variable, or if one memory allocation made in the calling thread by an operation on threads, thread-specific pointers, queues, promises, futures, tasks or executors fails, the operation throws the documented exception (thread_resource_error, lock_error, condition_error, bad_alloc) instead of reporting success. It releases what it had acquired so far (memory, locks, system objects), and the objects it was called on stay valid and usable.",
     ["fault_sequences"], "one failure at every call of every primitive or allocation in the operation",
     "the tests never make a primitive fail",
     [I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp", I+"pthread/condition_variable.hpp", I+"pthread/condition_variable_fwd.hpp", "src/pthread/thread.cpp", I+"future.hpp"],
     [("error code to exception translation", I+"pthread/mutex.hpp")])
prop("C27", "Scoped threads and thread guards apply their policy exactly once on every exit",
     "A scoped thread, strict scoped thread or thread guard applies its configured policy (join, detach, interrupt and join) exactly once to the thread it owns or refers to when it is destroyed (a scoped thread also when it is assigned over), on normal and exceptional exits, and does nothing to a thread that was moved away from it; if the policy of an assignment throws, the source keeps its thread. Constructing a scoped thread from a thread handle takes the thread over; its operations are those of the owned thread.",
     ["histories", "fault_sequences"], "all exits, joinable and not joinable threads, moves and swaps",
     "tests use the normal exit",
     [I+"scoped_thread.hpp", I+"thread_guard.hpp", I+"thread_functors.hpp"], [("functor call in the destructor", I+"scoped_thread.hpp")])
prop("C28", "Thread groups own exactly the threads added and not removed",
     "A thread group contains exactly the threads created in it or added and not removed since, also when several threads use it at once, destroys exactly those with itself, and reports its size and membership (by thread identity) exactly; a creation that fails leaves it unchanged and starts no thread. Joining all returns when every joinable member has ended, skips members already joined, and never waits for the calling thread; interrupting all interrupts every member.",
     ["histories", "schedules"], "all sequences of create, add, remove and join over several threads",
     "tests add and join a few threads",
     [I+"detail/thread_group.hpp"], [("list of threads under a shared mutex", I+"detail/thread_group.hpp")])
prop("C29", "Ownership types cannot be copied and misuse does not compile",
     "Mutexes, condition variables, lock objects, threads, promises, unique futures, packaged tasks, queues, latches, barriers and executors cannot be copied or assigned from another object of the same type, and lock-passing interfaces of condition variables and externally locked objects accept only the right lock type.",
     ["programs"], "every program that would copy or misuse such an object",
     "a test cannot show that a program does not compile unless it is written down",
     [I+"detail/delete.hpp", I+"detail/move.hpp"], [("deleted or private copy operations", "throughout")])
prop("C30", "Synchronised and externally locked values are reachable only under their lock",
     "Every access path of a synchronised value (apart from the explicitly unsynchronised accessor value()), locked pointer or externally locked object that reads or writes the protected value does so while the associated mutex is held by that access, and releases it afterwards on every exit; swaps, assignments and comparisons of two such values (or of one with itself) lock both without deadlock, each for the whole operation. Using an externally locked object with a lock of another mutex or without ownership is rejected.",
     ["histories", "fault_sequences", "schedules"], "all access paths, throwing operations of the value",
     "tests look at values, not at the lock state",
     [I+"synchronized_value.hpp", I+"externally_locked.hpp", I+"strict_lock.hpp", I+"externally_locked_stream.hpp"], [("lock guards in each access path", I+"synchronized_value.hpp")])
prop("C31", "Timed operations give up at their deadline, not before and not later",
     "A timed operation (lock, condition wait, future wait, join, latch wait, queue pull; by duration or time point of any clock) reports a time-out only when its deadline - the given time on the given clock, or the time of the call plus the duration - has passed, whatever woke it before. It never asks the system to be woken later than its deadline, or than the moment an element of a timed queue comes due. A sleep lasts until its deadline, also when a signal arrives (special date-time values, floating-point durations and overflow of extreme values are not claimed).",
     ["inputs", "schedules", "fault_sequences"], "durations of several resolutions (also sub-nanosecond fractions, zero and negative), time points of steady, system and user clocks in several resolutions, time passing between any two readings, spurious wake-ups and signals", "tests use a few milliseconds and tolerate lateness",
     [I+"detail/platform_time.hpp", I+"pthread/mutex.hpp", I+"pthread/recursive_mutex.hpp", I+"pthread/shared_mutex.hpp", I+"pthread/condition_variable_fwd.hpp", I+"pthread/condition_variable.hpp", I+"pthread/thread_data.hpp", I+"concurrent_queues/sync_timed_queue.hpp", "src/pthread/thread.cpp"], [("conversion of durations and clocks", I+"detail/platform_time.hpp")])
prop("C32", "Waiters are eventually served",
     "Under continuous contention every waiting thread is eventually served (no starvation of writers or readers).",
     ["schedules"], "all infinite fair schedules", "needs unbounded schedules",
     [I+"pthread/shared_mutex.hpp"], [("exclusive_waiting_blocked", I+"pthread/shared_mutex.hpp")])
prop("C33", "A task region ends only after all its tasks and reports every failure",
     "task_region and task_region_final, with or without a given executor, end only when the body and every task given to run have ended, also when the body fails, a task fails or the calling thread is interrupted; each task given to run runs exactly once. They return normally iff nothing failed (a task_canceled_exception does not count), and otherwise throw an exception_list that holds every exception of the body and the tasks (those within a thrown exception_list one by one) and nothing else. Once a task has failed, run and wait throw task_canceled_exception and start nothing; wait returns only when the tasks given so far have ended and throws what they threw (after a failure reported by wait an exception may be listed more than once).",
     ["schedules", "fault_sequences", "histories"], "all schedules of the tasks, every subset of failing tasks, failing bodies, interruption at any moment", "there is no test of task regions at all",
     [I+"experimental/parallel/v2/task_region.hpp", I+"experimental/parallel/v1/exception_list.hpp"], [("wait_all and the cancelled flag", I+"experimental/parallel/v2/task_region.hpp")])
prop("C34", "Lockable wrappers pass each operation on and answer like the wrapped lockable",
     "The lockable adapters and the polymorphic lockables over them pass each operation on exactly once, as the same operation with the same deadline (system or steady clock), and give the same answer and the same exceptions as the wrapped lockable. A testable_mutex tells at any moment exactly whether the calling thread owns it, and a null_mutex never blocks and always grants.",
     ["schedules", "inputs"], "every operation, answer, deadline and every interleaving of owners", "polymorphic lockables are in no test at all, and the others only in single-threaded examples",
     [I+"lockable_adapter.hpp", I+"poly_lockable_adapter.hpp", I+"poly_shared_lockable_adapter.hpp", I+"poly_lockable.hpp", I+"poly_shared_lockable.hpp", I+"testable_mutex.hpp", I+"null_mutex.hpp"], [("testable_mutex operations and the adapters", I+"testable_mutex.hpp")])
prop("C35", "Callables and values arrive intact; the caller's variables stay intact",
     "A callable, argument or value handed to a thread, asynchronous call, packaged task, promise, ready future, continuation, executor, scheduler, synchronized_value or queue arrives as it was given (a copy of what the caller passed as a variable, the moved content of what the caller passed as an rvalue, the object itself for a reference), and the callable is called exactly once with it. A variable the caller passed without giving it away (an lvalue) still has its content afterwards, also where the call is refused or throws. Reading a shared future, a synchronized_value or get_or never takes the content from where others still read it, and a queue that refuses an element (full, closed) leaves it with the caller.",
     ["inputs", "schedules"], "every way of passing (variable, constant, temporary, moved, reference wrapper, move-only), every branch taken, every configuration 2 to 5", "the tests pass literals and types whose move leaves the source unchanged, so a move in place of a copy is not seen",
     [I+"future.hpp", I+"detail/thread.hpp", I+"detail/invoker.hpp", I+"detail/nullary_function.hpp", I+"executors/scheduler.hpp", I+"executors/loop_executor.hpp", I+"concurrent_queues/sync_queue.hpp", I+"synchronized_value.hpp", I+"barrier.hpp"], [("async and make_ready_future", I+"future.hpp")])
prop("C36", "No set of operations can deadlock on the locks of the library",
     "No combination of operations of the library can deadlock on mutexes that the library locks, its own or those it was given: no cycle of threads can arise in which each blocks on a mutex the next one holds, also when several objects are passed to the library in different orders. No operation waits on a condition, or for the end of a thread, while it keeps a mutex of its own exclusively locked that the wait does not release.",
     ["schedules", "histories"], "every pair of nested acquisitions in every operation of mutexes, condition variables, latches, barriers, queues, futures, executors, thread handles, groups and thread exit", "a deadlock needs two threads to stop between two particular instructions",
     [I+"pthread/condition_variable.hpp", I+"pthread/thread_data.hpp", I+"future.hpp", I+"lock_algorithms.hpp", I+"concurrent_queues", I+"executors", "src/pthread/thread.cpp"], [("interruption_checker: the mutex of the thread before that of the condition", I+"pthread/thread_data.hpp"), ("locks of several shared states taken in one order", I+"future.hpp")])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
