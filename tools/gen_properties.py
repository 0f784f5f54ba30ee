#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
P=[]
I='include/boost/sync/'
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
      "observe_at":observe or ["public API results, and the happens-before order they create"],"hook_needed":hook}})

p("C01","Exclusive locks give mutual exclusion and publish the protected data",
 "While one thread holds any of the library's mutexes exclusively (through lock, try_lock or a timed lock), no other thread can acquire it in any mode. Everything a holder wrote before unlocking is visible, without a data race, to every later holder, whichever way each of them acquired the lock.",
 ["schedules","configurations"],
 "every interleaving and every memory-model-permitted read of any number of threads that lock, try-lock, timed-lock and unlock any mutex type, in every build configuration of the mutexes",
 "mutex_test.cpp runs a handful of threads on one x86 machine once: it sees one schedule per run and x86 hides missing acquire/release ordering.",
 [I+"mutexes/mutex.hpp",I+"detail/mutexes/mutex_posix.hpp",I+"detail/mutexes/timed_mutex_posix.hpp",I+"detail/mutexes/spin_mutex.hpp",I+"detail/mutexes/shared_spin_mutex.hpp"],
 [("pthread mutex / mutex+condition emulation of timed locking",I+"detail/mutexes/timed_mutex_posix.hpp"),("atomic exchange acquire, store release",I+"detail/mutexes/spin_mutex.hpp"),("state word CAS",I+"detail/mutexes/shared_spin_mutex.hpp")])

p("C02","Lock operations make progress and report the truth",
 "A blocking lock request is granted once the lock is released and nobody else takes it: no unlock is lost and no thread stays blocked on a free lock. A try-lock (or timed lock) reports failure only if the lock was actually held in a conflicting mode during the call (for a timed lock: until its deadline), a failed attempt leaves the lock's state unchanged, and a reported success means the caller owns the lock.",
 ["schedules","histories","configurations"],
 "every interleaving of every short program of lock, try-lock, timed-lock and unlock operations on every mutex type, including timeouts that expire at the same moment as a release",
 "Tests only try one uncontended and one contended try_lock and never schedule a timeout against a concurrent unlock.",
 [I+"detail/mutexes/mutex_posix.hpp",I+"detail/mutexes/timed_mutex_posix.hpp",I+"detail/mutexes/spin_mutex.hpp",I+"detail/mutexes/shared_spin_mutex.hpp"],
 [("pthread_mutex_timedlock or locked-flag + condition variable",I+"detail/mutexes/timed_mutex_posix.hpp"),("spin loops",I+"detail/mutexes/spin_mutex.hpp")])

p("C03","Shared/exclusive spin mutex admits many readers or one writer",
 "At any time the shared spin mutex is held by at most one exclusive owner or by any number of shared owners, never both, and any number of shared owners up to the documented maximum can hold it at once. A reader sees everything written by earlier exclusive owners, a writer's changes never race with reads made under earlier or later shared ownership, and the last release of either kind lets waiting threads in.",
 ["schedules","histories"],
 "every interleaving and permitted memory-model read of readers, writers, shared and exclusive try-locks on one shared spin mutex",
 "There is no test of shared_spin_mutex under contention at all; reader/writer races need particular interleavings and weak-memory reads.",
 [I+"mutexes/shared_spin_mutex.hpp",I+"detail/mutexes/shared_spin_mutex.hpp"],
 [("single state word with writer bit and reader count",I+"detail/mutexes/shared_spin_mutex.hpp")])

p("C04","Condition variable waits never lose a notification",
 "Waiting on a condition variable releases the mutex and starts waiting as one atomic step, so a notification issued by a thread that acquired the mutex after that release always reaches the waiters: notify_one wakes at least one and notify_all wakes all of those then waiting. Every return from a wait, whether by notification, spurious wakeup, timeout or exception, happens with the mutex locked by the caller.",
 ["schedules","configurations","fault_sequences"],
 "every interleaving of waiters (untimed, timed, predicate) and notifiers, every choice of the woken thread, every spurious wakeup and timeout placement",
 "The tests notify after sleeping so the waiter is already blocked; the windows between release and block, and between timeout and notification, are never scheduled.",
 [I+"condition_variables/condition_variable.hpp",I+"detail/condition_variables/condition_variable_posix.hpp"],
 [("pthread_cond_wait/timedwait on the lock's native handle",I+"detail/condition_variables/condition_variable_posix.hpp")])

p("C05","condition_variable_any gives the same guarantees for any lock type",
 "For every user-supplied lock type, waiting on a condition_variable_any releases the caller's lock and starts waiting atomically with respect to notifications issued by threads that acquired that lock afterwards: no such notification is lost, notify_all wakes every thread then waiting, and the caller's lock is locked again on every exit including timeouts, clock or lock exceptions. It never deadlocks against notifiers that hold the caller's lock, and never holds any internal lock while re-acquiring the caller's lock.",
 ["schedules","configurations","fault_sequences"],
 "every interleaving of waiters and notifiers (holding or not holding the user lock), for spin, shared, timed and user-defined locks, with faults in unlock/relock",
 "Only the plain mutex happy path is tested; the extra internal mutex creates windows that need specific interleavings.",
 [I+"condition_variables/condition_variable_any.hpp",I+"detail/condition_variables/condition_variable_any_generic.hpp",I+"detail/lockable_wrapper.hpp"],
 [("internal mutex taken before the user lock is released, relocker guard",I+"detail/condition_variables/condition_variable_any_generic.hpp")])

p("C06","Predicate waits return exactly when and what the predicate says",
 "A predicate wait returns only after the predicate was evaluated with the mutex held and gave the returned value: an untimed wait returns only when it was true, a timed wait returns true if it was true and false only if it was still false after the deadline had passed. The total blocking time of a timed predicate wait is bounded by the given timeout however many notifications, spurious wakeups or signals occur meanwhile, and an exception from the predicate leaves with the mutex held.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of predicate changes, notifications, spurious wakeups and expiry, for both condition variable types and every kind of timeout",
 "Tests use one notification and one timeout; repeated wakeups with a false predicate before the deadline are never produced.",
 [I+"condition_variables/condition_variable.hpp",I+"detail/condition_variables/condition_variable_posix.hpp",I+"detail/condition_variables/condition_variable_any_generic.hpp"],
 [("predicate loop over timed wait",I+"detail/condition_variables/condition_variable_posix.hpp"),("predicate loop",I+"detail/condition_variables/condition_variable_any_generic.hpp")])

p("C07","notify_all_at_thread_exit notifies last, and exactly once",
 "After a thread schedules a notification at its exit with a lock it owns, the lock stays held until the thread has run all its exit callbacks and destroyed all its thread-specific values, and only then are the lock released and all waiters notified, exactly once. A waiter that waits for a flag set under that lock is always woken, sees everything the thread did, and may destroy the condition variable as soon as it has the lock.",
 ["schedules","configurations"],
 "every interleaving of the exiting thread with waiters, with any number of scheduled notifications, thread-specific values and exit callbacks",
 "No existing test calls it; order against thread-specific cleanup and destruction of the condition variable depends on the schedule.",
 [I+"condition_variables/notify_all_at_thread_exit.hpp","src/tss_manager.hpp","src/tss_pthread.cpp"],
 [("per-thread list of pending notifications run at the end of the thread context destruction","src/tss_manager.hpp")])

p("C08","Semaphores conserve their count and lose no post",
 "The number of successful waits (blocking, try or timed) never exceeds the initial count plus the number of posts, no thread stays blocked while the count is positive, and try_wait or an expired timed wait fails only if the count was zero. Interruption by signals, spurious wakeups and timeouts racing with posts never create, duplicate or lose a unit.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of posts, waits, try_waits and timed waits of several threads on one semaphore, all initial counts in range, every signal interruption and timeout placement, native and emulated semaphores",
 "semaphore_test.cpp samples a few sequential calls and one cross-thread post; no EINTR, no timeout/post race, only the default implementation.",
 [I+"semaphore.hpp",I+"detail/semaphore/semaphore_posix.hpp",I+"detail/semaphore/semaphore_emulation.hpp"],
 [("sem_t with EINTR retry loops",I+"detail/semaphore/semaphore_posix.hpp"),("mutex + condition + counter",I+"detail/semaphore/semaphore_emulation.hpp")])

p("C09","Auto-reset event: one wakeup per post, never lost or duplicated",
 "Each successful wait, try_wait or timed wait on an auto-reset event consumes a post that no other wait consumes, and once the event is set every further post before it is consumed coalesces, so after all threads are idle at most one unconsumed signal remains. No thread stays blocked while the event is signalled, each post made while threads are blocked satisfies one wait of its own. try_wait never blocks; it or an expired wait fails only if the event was not signalled or its posts were already due to waits in progress.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of posts and waits of several threads, including wakeups, signals, failing weak CAS and timeouts at every point, in every implementation of the event available on this platform",
 "event_test.cpp posts from one thread after a delay: it never overlaps two posts, a timeout and a post, or stealing by try_wait.",
 [I+"events/auto_reset_event.hpp",I+"detail/events/auto_reset_event_futex.hpp",I+"detail/events/auto_reset_event_semaphore.hpp",I+"detail/events/auto_reset_event_emulation.hpp"],
 [("packed waiter/post counters and futex",I+"detail/events/auto_reset_event_futex.hpp"),("state counter and semaphore",I+"detail/events/auto_reset_event_semaphore.hpp")])

p("C10","Manual-reset event: while it is set, every wait passes",
 "While a manual-reset event stays set, every thread blocked on it is released and every new wait passes; after a reset, waits block again until the next set. A wait (blocking, try or timed) succeeds only if the event was set at some moment during the call, and fails only if it was at some moment not set; no interleaving of set, reset, waits, timeouts, signals and spurious wakeups leaves a thread blocked while the event stays set.",
 ["schedules","histories","configurations","fault_sequences"],
 "all interleavings of post, reset, wait, try_wait and timed waits of several threads, with interruptions at every point, futex and emulated implementations",
 "Tests check one set/one waiter in sequence and never run reset or timeouts concurrently with set.",
 [I+"events/manual_reset_event.hpp",I+"detail/events/manual_reset_event_futex.hpp",I+"detail/events/manual_reset_event_emulation.hpp"],
 [("futex word and broadcast",I+"detail/events/manual_reset_event_futex.hpp"),("mutex + condition + flag",I+"detail/events/manual_reset_event_emulation.hpp")])

p("C11","Signalling an event or semaphore publishes the poster's writes",
 "Whatever a thread wrote before posting a semaphore or setting an event is visible, without a data race, to the thread whose wait (blocking, try or timed, including one that succeeds at its deadline) is satisfied by it. This also holds for posts that coalesce with an already signalled event: a consumer that then re-checks the shared data cannot miss an update whose post was absorbed.",
 ["schedules","configurations"],
 "all interleavings and all reads permitted by the C++ memory model, on every acquisition path of every event and semaphore implementation",
 "Tests run on x86 whose strong ordering hides missing release/acquire; none checks data published through events.",
 [I+"detail/events/auto_reset_event_futex.hpp",I+"detail/events/manual_reset_event_futex.hpp",I+"detail/events/auto_reset_event_semaphore.hpp",I+"detail/semaphore/semaphore_posix.hpp",I+"detail/semaphore/semaphore_emulation.hpp"],
 [("release on post, acquire on every successful path",I+"detail/events/auto_reset_event_futex.hpp"),("release/acquire on the flag",I+"detail/events/manual_reset_event_futex.hpp")])

p("C12","Timed operations never give up early and never sleep past the deadline",
 "A timed operation reports a timeout only if its deadline, measured on the caller's clock, has passed, and it never stays blocked beyond that deadline for any other reason than re-acquiring the user's lock: it sleeps for exactly the remaining time, however often it is woken or interrupted. This holds for every primitive and every way of giving the time, including zero, negative, sub-microsecond, already expired, pre-epoch and very long timeouts; absolute system-clock deadlines follow adjustments of the system clock, and a wait on a user-defined clock never gives up before that clock reaches the deadline, whatever its rate.",
 ["inputs","schedules","fault_sequences","configurations"],
 "every primitive x timed API x time type x boundary duration x current time, and every wakeup/interrupt placement before the deadline",
 "Tests use a few positive relative timeouts and wall-clock tolerances; negative, past, huge or interrupted waits are never exercised.",
 [I+"detail/time_units.hpp",I+"detail/time_traits.hpp",I+"detail/mutexes/timed_mutex_posix.hpp",I+"detail/semaphore/semaphore_posix.hpp",I+"detail/events/auto_reset_event_futex.hpp",I+"detail/events/manual_reset_event_futex.hpp",I+"detail/condition_variables/condition_variable_posix.hpp",I+"detail/condition_variables/condition_variable_any_generic.hpp"],
 [("conversion to internal time units and re-check loops on the caller's clock",I+"detail/time_units.hpp")],["the timeout handed to the operating system and the virtual time at which the call returns"])

p("C13","Every supported time type denotes the same instant or span everywhere",
 "A duration or time point given as std::chrono, boost::chrono, Boost.DateTime, POSIX timespec or any integral-ratio duration makes every timed operation wait for the same instant or span: exactly if it is representable in the system's resolution (nanoseconds), and otherwise rounded by less than one unit of it. Sign, carry between seconds and fractions, and the sum of the current time and a duration are right for every span of up to 292 years, forwards or backwards, and for instants before and after the epoch.",
 ["inputs","configurations"],
 "all values of a boundary lattice (signs, carries, sub-resolution fractions, ranges) of every supported time type and every timed operation",
 "Only a time_t round trip and a few positive durations are tested.",
 [I+"detail/time_units.hpp",I+"detail/time_traits.hpp",I+"support/std_chrono.hpp",I+"support/boost_chrono.hpp",I+"support/boost_date_time.hpp",I+"support/posix_time.hpp"],
 [("to_sync_unit conversions",I+"support/std_chrono.hpp"),("system_time_point arithmetic",I+"detail/time_units.hpp")],["the timespec passed to the system call"])

p("C14","Thread-specific pointers are per-thread and cleaned up exactly once",
 "A thread-specific pointer read by a thread returns exactly the last value that this thread stored in that object (null if none, or after release or destruction of an earlier object), independent of other threads and other objects. Each stored value is passed to the object's cleanup function exactly once - when it is replaced, when the storing thread exits, or when the object is destroyed (the values of all threads) - and never when it was released or replaced by itself, nor on behalf of another object.",
 ["histories","schedules","configurations"],
 "all operation sequences over several pointers with custom, default and no cleanup functions and several threads, including values set during cleanup and objects destroyed and created again",
 "thread_specific_ptr.cpp checks a few fixed sequences; slot reuse, re-entrant cleanup and exit order are not enumerated.",
 [I+"thread_specific/thread_specific_ptr.hpp",I+"detail/tss.hpp","src/tss_manager.hpp","src/tss_pthread.cpp"],
 [("per-thread context with a vector of slots, key free list","src/tss_manager.hpp"),("pthread key destructor","src/tss_pthread.cpp")])

p("C15","Thread-specific storage is safe under concurrent threads and keys",
 "Threads may create, use and exit with thread-specific values while other threads create and destroy other thread-specific pointers or use exit callbacks, in any interleaving, without data races, use of freed memory, lost or doubled cleanups, deadlock, or a value leaking to a pointer that reuses the storage. First use by several threads at once initialises the facility exactly once.",
 ["schedules","histories"],
 "all interleavings of threads that create/destroy pointers, set values, exit and run cleanups concurrently",
 "Tests join threads before touching the keys; creation of a key during another thread's exit is never scheduled.",
 ["src/tss_manager.hpp","src/tss_pthread.cpp",I+"thread_specific/thread_specific_ptr.hpp"],
 [("manager mutex around key table and context list","src/tss_manager.hpp"),("pthread_once initialisation","src/tss_pthread.cpp")])

p("C16","Thread-exit callbacks run exactly once, in order, on their own thread",
 "Every callback registered with at_thread_exit is called exactly once, on the registering thread, when it exits, in reverse order of registration, before that thread's thread-specific values are destroyed (so they are still readable in the callback). Callbacks registered by a running callback or by a thread-specific cleanup also run before the thread is gone; if registration fails nothing is registered and nothing leaks.",
 ["histories","schedules","fault_sequences"],
 "all registration sequences (nested, from cleanups, from several threads) and allocation failures",
 "at_thread_exit.cpp checks two callbacks of one thread.",
 [I+"thread_specific/at_thread_exit.hpp","src/tss_manager.hpp","src/tss_pthread.cpp"],
 [("intrusive LIFO list in the thread context","src/tss_manager.hpp")])

p("C17","Lock objects own exactly what they say they own",
 "For every sequence of operations on unique, shared and upgrade lock objects (construction in every mode, lock, try and timed lock, unlock, move, swap, release, conversion between lock kinds, destruction, exceptions from the mutex), owns_lock and mutex report exactly the real ownership, the associated mutex receives exactly the matching calls, and destruction releases whatever is still owned and nothing else. Locking an owned lock, unlocking an unowned one, or using one without a mutex throws lock_error and changes nothing.",
 ["histories","fault_sequences","programs"],
 "all operation sequences up to a bounded depth over two mutexes and several lock objects, with the mutex failing or throwing at any call",
 "No test exercises the lock objects' state machine; upgrade and shared locks are not tested at all.",
 [I+"locks/unique_lock.hpp",I+"locks/shared_lock.hpp",I+"locks/upgrade_lock.hpp"],
 [("mutex pointer and ownership flag",I+"locks/unique_lock.hpp")],["calls received by an instrumented mutex, owns_lock(), mutex()"])

p("C18","Scope guards lock and unlock in exact balance on every path",
 "A scope guard (exclusive, shared or unlocking) performs its acquiring operation exactly once at construction unless told to adopt, and its releasing operation exactly once at the end of the scope, on normal and exceptional exits, for every lock type it accepts. If the acquiring operation throws, the releasing operation is not performed.",
 ["programs","fault_sequences"],
 "all nestings of guards over all lock types, adopt and non-adopt, with exceptions thrown at every point",
 "Guards are only used incidentally by tests on the non-throwing path.",
 [I+"locks/lock_guard.hpp",I+"locks/shared_lock_guard.hpp",I+"locks/unlock_guard.hpp"],
 [("constructor/destructor pairs",I+"locks/lock_guard.hpp")],["calls received by an instrumented mutex"])

p("C19","System failures surface as the documented exception and change nothing",
 "When an operating-system call fails in a way in which it can fail for valid objects (no resources, too large a value, deadlock detected, counter overflow, out of memory), the operation throws the documented exception type carrying that error code, and the object and the caller's locks keep the state they had before the call, with nothing leaked. A failure is never reported as success or as a timeout, and interruptions that are not failures are never reported at all.",
 ["fault_sequences"],
 "every single failure of every system call made by every operation of every primitive, with every error code that the call may return",
 "The tests never inject failures: no error path is executed at all.",
 [I+"detail/pthread.hpp",I+"detail/mutexes/mutex_posix.hpp",I+"detail/mutexes/timed_mutex_posix.hpp",I+"detail/condition_variables/condition_variable_posix.hpp",I+"detail/semaphore/semaphore_posix.hpp","src/tss_pthread.cpp","src/tss_manager.hpp",I+"detail/throw_exception.hpp"],
 [("status checks and throw_exception calls",I+"detail/pthread.hpp")],["exception type and code, subsequent behaviour of the object"])

p("C20","A primitive may be destroyed as soon as its last user has been let go",
 "Once a thread has acquired a lock, or has been released by a semaphore post, an event or a notification, and no other thread is going to use the object any more, it may destroy the object immediately: the releasing thread does not touch the object's memory after the moment that lets the other thread proceed. No construction/destruction sequence leaks or reuses a system object that is still in use.",
 ["schedules","configurations"],
 "every interleaving of the releasing operation (unlock, post, set, notify under the lock) with the released thread destroying the object",
 "Needs the released thread to run to destruction between two instructions of the releasing one; tests join threads before destruction.",
 [I+"detail/mutexes/spin_mutex.hpp",I+"detail/mutexes/shared_spin_mutex.hpp",I+"detail/mutexes/timed_mutex_posix.hpp",I+"detail/events/auto_reset_event_futex.hpp",I+"detail/events/manual_reset_event_futex.hpp",I+"detail/events/auto_reset_event_semaphore.hpp",I+"detail/semaphore/semaphore_emulation.hpp",I+"detail/semaphore/semaphore_posix.hpp"],
 [("the releasing store is the last access to the object; emulations notify while holding the internal mutex",I+"detail/semaphore/semaphore_emulation.hpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
