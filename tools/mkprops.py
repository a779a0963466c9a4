#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
I = "include/"
EXF = [I+f for f in ("naive_spin_mutex.hpp","ttas_spin_mutex.hpp","fair_mutex.hpp","alternate_mutex.hpp","checked_mutex.hpp","posix_native_mutex.hpp")]
RWF = [I+f for f in ("alternate_shared_mutex.hpp","fair_shared_mutex.hpp","checked_shared_mutex.hpp","posix_native_mutex.hpp","yamc_rwlock_sched.hpp")]

prop("C01", "Exclusive locks: mutual exclusion and memory visibility",
 "For every mutex type of the library (spin, spin_weak, spin_ttas, fair, alternate, checked and posix families, recursive and timed variants included) at most one thread owns the mutex at any time, whichever mixture of lock, try_lock and timed calls acquired it. Everything a thread wrote before it released the mutex happens before everything the next owner does after acquiring it, so plain data guarded by the mutex is free of data races and lost updates.",
 ["schedules","programs"], "all interleavings of every client that draws its operations from lock/try_lock/timed/unlock, up to the stated threads and rounds, with spurious wakeups, failing weak CAS and timeouts; C++ happens-before decides visibility",
 "The unit tests run a few threads for some iterations on x86, where a missing acquire/release is invisible and a rare window is never hit.",
 EXF, [("atomic test-and-set with acquire/release", "naive_spin_mutex.hpp/ttas_spin_mutex.hpp basic_mutex"), ("ticket pair / wait queue under an internal mutex", "fair_mutex.hpp"), ("state flag or owner id under an internal mutex", "alternate_mutex.hpp, checked_mutex.hpp")],
 ["return of lock/try_lock/try_lock_for/try_lock_until", "plain data accessed between acquisition and unlock"])
prop("C02", "Exclusive locks: no lost wakeup, no deadlock, no livelock",
 "As long as every owner eventually releases, every blocked or spinning acquirer of any exclusive mutex type can always go on to acquire: no wakeup is lost, no call hangs, and when the mutex is free or due to a waiter that waiter is not left blocked. unlock and try_lock never wait for another thread to release the mutex.",
 ["schedules","programs"], "all interleavings of all bounded clients; from every reachable state the threads' own ordinary steps (no timeout, no spurious wakeup, no help) must be able to complete every call",
 "A lost wakeup needs one particular interleaving of waiter and releaser and shows up as a rare hang; the tests cannot tell a slow run from a hung one.",
 EXF, [("notify after release, predicate loops", "unlock()/lock() of every blocking mutex"), ("handover of the front of the queue", "fair_mutex.hpp")],
 ["calls that never return", "states in which nobody can move"])
prop("C03", "try_lock of exclusive locks is exact and never blocks",
 "try_lock on any exclusive mutex type returns true, making the caller the owner, exactly when the mutex was available to the caller at some moment of the call, and false only if it was owned or promised to a waiter in front of the caller at some moment of the call (spin mutexes may in addition fail when the hardware's weak compare-and-swap fails). It never blocks and a failed call has no effect on anybody.",
 ["schedules","programs"], "all interleavings of try_lock with all other operations of up to four threads; result checked against every linearization consistent with the observed calls and returns",
 "Tests try a held and a free mutex sequentially; a wrong answer during a concurrent hand-over or release is never sampled.",
 EXF, [("single test-and-set", "spin families"), ("ownership test under the internal mutex", "fair/alternate/checked try_lock"), ("trylock result mapping", "posix_native_mutex.hpp")],
 ["return value of try_lock"])
prop("C04", "Timed acquisition: exact deadlines, exact answers, right clock",
 "A timed acquisition (try_lock_for, try_lock_until and the shared forms) of any timed type returns true iff the caller owns the lock on return, and returns false only when its deadline, measured on the clock it was given (and on steady time for relative timeouts, except the documented system-clock use in posix), has been reached and the lock could not be granted to the caller at that moment. An expired or negative timeout behaves like an attempt without waiting, a granted lock is never reported as a timeout, and the call stays correct under wall-clock jumps, spurious wakeups and user-defined clocks.",
 ["schedules","inputs","programs"], "all interleavings of waiters, releasers and the passage of time up to the bounds, for past, zero, negative and future timeouts on steady, system and user-defined clocks, and one wall-clock jump of +/-1 hour at any point",
 "Tests measure a handful of real sleeps; the race between grant, notification and deadline and clock changes are never exercised.",
 [I+f for f in ("fair_mutex.hpp","alternate_mutex.hpp","alternate_shared_mutex.hpp","fair_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp","posix_native_mutex.hpp")],
 [("wait_until loop with re-check after timeout", "do_try_lockwait / impl_try_lockwait and shared forms"), ("deadline = steady_clock::now() + duration", "try_lock_for"), ("timespec conversion", "posix_native_mutex.hpp")],
 ["return value and virtual time of return"])
prop("C05", "Failed and timed-out attempts leave no trace",
 "An attempt that returns without the lock (try_lock false, timeout, in exclusive or shared form) leaves the lock behaving exactly as if the attempt had been withdrawn: nobody who could have been granted the lock without it stays blocked, nobody is overtaken who was ahead, and no later operation of any thread behaves differently. This holds for all timed and try forms of all exclusive and shared types and all policies.",
 ["schedules","histories"], "all interleavings of failing attempts with other waiters, owners and later arrivals, up to four threads",
 "It takes at least three parties and a timeout at one precise moment; the tests time out only attempts nobody else depends on.",
 [I+f for f in ("fair_mutex.hpp","fair_shared_mutex.hpp","alternate_mutex.hpp","alternate_shared_mutex.hpp","checked_mutex.hpp","checked_shared_mutex.hpp","yamc_rwlock_sched.hpp")],
 [("dequeue of the request node on timeout", "fair_mutex.hpp/fair_shared_mutex.hpp"), ("after_wait_wlock on timeout", "alternate_shared_mutex.hpp/checked_shared_mutex.hpp")],
 ["who is blocked once nothing can move", "results of later try_lock and lock calls"])
prop("C06", "Recursive mutexes: owner re-entry and balanced release",
 "The owner of a recursive mutex acquires it again through lock, try_lock or a timed call at once and successfully, whoever else is waiting, and whatever the timeout. The mutex becomes available to others exactly when as many unlocks as successful acquisitions were made, not earlier and not later.",
 ["schedules","programs"], "all interleavings of nested acquisitions (every combination of entry points, nesting up to the bound) with competing threads",
 "Tests nest in a single thread or against a fixed schedule; premature release or blocked re-entry under contention is not reached.",
 [I+f for f in ("fair_mutex.hpp","alternate_mutex.hpp","checked_mutex.hpp","posix_native_mutex.hpp")],
 [("owner id and nesting count", "recursive_mutex / recursive_timed_mutex of fair, alternate, checked"), ("PTHREAD_MUTEX_RECURSIVE", "posix::native_recursive_mutex")],
 ["return of nested acquisitions", "acquisitions by other threads"])
prop("C07", "Shared locks: reader/writer exclusion and memory visibility",
 "For every shared mutex type (alternate, fair, checked with every policy, and posix rwlock, timed variants included) an exclusive owner excludes all other owners, while shared owners exclude only exclusive ones. What an exclusive owner wrote before releasing is visible to all later owners, and what a shared owner read is not overwritten before it releases: guarded plain data is race free.",
 ["schedules","programs"], "all interleavings of every client drawing from the exclusive and shared operations, with timeouts and spurious wakeups, up to four threads",
 "Tests check a few fixed overlaps with sleeps; overlapping owners need a particular interleaving of releases, timeouts and grants.",
 RWF, [("reader/writer counters under the internal mutex", "yamc_rwlock_sched.hpp"), ("queue of requests with status", "fair_shared_mutex.hpp"), ("owner lists", "checked_shared_mutex.hpp")],
 ["return of exclusive and shared acquisitions", "plain data read and written by owners"])
prop("C08", "Shared locks: every waiter the policy allows in is woken",
 "In every shared mutex type, whenever no call can otherwise progress, no thread is left blocked in a shared or exclusive acquisition that the type's policy lets in; readers that may share do get in together, and there is no deadlock, lost wakeup or livelock as long as owners release. try and unlock forms never wait for owners, and try forms answer exactly.",
 ["schedules","programs"], "all interleavings of exclusive, shared, try and timed operations up to four threads; at every point where nothing can move, every blocked call must be one the policy keeps out",
 "A missed notification strands a thread only when releases, timeouts and arrivals fall in one order; tests use one fixed order per case.",
 RWF, [("notify_all on release, on last reader and on withdrawal", "alternate/checked shared_mutex_base"), ("marking of lockable readers and notify_all", "fair_shared_mutex.hpp impl_unlock/impl_try_lockwait")],
 ["blocked calls at quiescence", "return values of try forms"])
prop("C09", "ReaderPrefer and WriterPrefer schedule as documented",
 "With ReaderPrefer a shared acquisition succeeds at once whenever no thread owns the lock exclusively, even if writers wait. With WriterPrefer a new shared acquisition is held back as long as a writer owns the lock or is waiting for it, waiting writers get the lock in preference to waiting readers, and readers are let in as soon as no writer owns or waits (including when the last waiting writer gives up).",
 ["schedules","configurations"], "all interleavings of readers and writers up to four threads for both policies in the alternate and checked types, plain and timed",
 "The rwlock tests drive one scripted arrival order per policy.",
 [I+"yamc_rwlock_sched.hpp",I+"alternate_shared_mutex.hpp",I+"checked_shared_mutex.hpp"],
 [("rwcount bit mask", "ReaderPrefer"), ("waiting and active writer counters", "WriterPrefer")],
 ["order of grants", "results of try_lock_shared"])
prop("C10", "Fair mutexes serve requests in strict arrival order",
 "yamc::fair::mutex, timed_mutex and their recursive variants grant the lock to waiting threads in the order in which their requests started to wait, skipping only requests that timed out. No later request, including try_lock and timed attempts, overtakes an earlier one that still waits, not even between an unlock and the waiter's return.",
 ["schedules","histories"], "all interleavings and arrival orders of up to four threads mixing lock, try_lock, timed attempts and recursion",
 "The fairness tests script a single order with sleeps; overtaking during hand-over or after a timeout in the middle of the queue is never produced.",
 [I+"fair_mutex.hpp"], [("next/curr tickets", "fair::mutex, recursive_mutex"), ("intrusive FIFO with a locked placeholder", "detail::timed_mutex_impl")],
 ["order of returns from lock", "try_lock result while somebody waits"])
prop("C11", "TaskFairness: readers and writers in FIFO order, readers grouped",
 "With TaskFairness a fair shared mutex serves exclusive and shared requests strictly in arrival order: a request enters only after all requests that arrived before it have entered or given up, adjacent shared requests own the lock together, and a new shared request enters at once only if it is compatible with the owners and nobody waits. A request that times out is removed as if it had never been made.",
 ["schedules","histories","configurations"], "all interleavings and arrival orders of up to four readers and writers including try and timed forms",
 "The fairness test scripts one arrival sequence; queues with timeouts, mixed try calls and concurrent releases are not covered.",
 [I+"fair_shared_mutex.hpp"], [("request queue with status bits", "detail::shared_mutex_base"), ("marking the directly following readers", "impl_unlock, impl_try_lockwait")],
 ["order of grants", "results of try forms"])
prop("C12", "PhaseFairness: reader and writer phases alternate",
 "With PhaseFairness, when an exclusive owner releases and the next request in the queue is shared, every shared request waiting at that moment is admitted together while waiting writers keep their relative order; otherwise requests are served in arrival order. A shared request that arrives while a writer waits does not join the current reader phase, so neither readers nor writers starve.",
 ["schedules","histories","configurations"], "all interleavings and arrival orders of up to four readers and writers including try and timed forms",
 "As for TaskFairness: one scripted order is tested.",
 [I+"fair_shared_mutex.hpp"], [("moving waiting readers to the front at the end of an exclusive section", "impl_unlock (phased)")],
 ["order of grants", "results of try forms"])
prop("C13", "Checked mutexes report every misuse, and only misuse",
 "Every checked type throws std::system_error with the documented condition exactly when a precondition is violated: unlock (either form) by a thread without that ownership gives operation_not_permitted; re-acquisition of a non-recursive type by an owner, through any entry point and in either mode, and destruction while owned give resource_deadlock_would_occur. The erroneous call has no effect on the mutex or other threads, and correct programs never see an error.",
 ["programs","schedules","inputs"], "every sequence of operations, correct or not, of up to three threads up to the depth bound, under all interleavings, against a reference ownership model",
 "checked_test tries each misuse once from one state; misuse after other histories, in mixed modes or under contention is not tried.",
 [I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp"],
 [("owner comparison before acting", "lock/try_lock/unlock/do_try_lockwait"), ("dtor_precondition", "destructors")],
 ["exceptions thrown and their error code", "behaviour after the error"])
prop("C14", "Deadlock detection misses no deadlock among checked mutexes",
 "If threads that use untimed lock and lock_shared on checked mutexes reach a cyclic wait (through exclusive and shared ownership, recursive types included, among any number of mutexes), a call of the cycle reports resource_deadlock_would_occur instead of blocking: such threads never all hang. This holds for every acquisition order and after any earlier history, including earlier reports.",
 ["programs","schedules","histories"], "every program of 2-3 threads acquiring 2-3 checked mutexes (exclusive or shared, any order) up to the bounds, under all interleavings",
 "deadlock_test scripts a few circular waits in one order; cycles through readers, woken waiters or after a previous report are not produced.",
 [I+"yamc_lock_validator.hpp",I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp"],
 [("global owners/waiters table and cycle search", "validator::deadlock::enqueue/find_closepath")],
 ["exceptions from lock/lock_shared", "threads blocked for ever"])
prop("C15", "Deadlock detection raises no false alarm and can be survived",
 "A checked mutex reports a deadlock only if, at some moment of the call, the request completed a cycle of threads each blocked in an untimed request for a mutex that the next one owns; programs that acquire in a consistent order never see one, whatever the schedule, policy and history. After a report the failed request is completely withdrawn: once locks are released, all mutexes and later detection work as if the request had not been made.",
 ["programs","schedules","histories"], "every program of 2-3 threads over 2-3 checked mutexes up to the bounds, including continuing after a report, under all interleavings, against an exact wait-for graph",
 "Tests only check that a scripted deadlock is reported; false positives depend on transient states of the wait table.",
 [I+"yamc_lock_validator.hpp",I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp"],
 [("enqueue/dequeue around each wait", "checked lock()/lock_shared()"), ("rollback when a deadlock is reported", "checked lock(), validator::deadlock::enqueue")],
 ["exceptions from lock/lock_shared", "behaviour after a report"])
prop("C16", "Checked mutexes: abort mode and detection-off mode",
 "With YAMC_CHECKED_CALL_ABORT every misuse and every detected deadlock ends the program by abort at the erroneous call, and nothing else does. With YAMC_CHECKED_DETECT_DEADLOCK=0 no deadlock is ever reported, while misuse checks and locking semantics stay exactly the same.",
 ["configurations","programs","schedules"], "the same client programs as for misuse and deadlock detection, compiled in the other configurations",
 "The tests are built in the default configuration only.",
 [I+"checked_mutex.hpp",I+"checked_shared_mutex.hpp",I+"yamc_lock_validator.hpp"],
 [("conditional compilation of the reaction", "YAMC_CHECKED_CALL_ABORT blocks"), ("validator::null", "yamc_lock_validator.hpp")],
 ["abort, exceptions, blocking"])
prop("C17", "Generic semaphore: permits are conserved, acquirers are woken",
 "At all times the number of successful acquisitions of a counting_semaphore or binary_semaphore is at most the initial value plus the permits released so far (a release takes effect at some point of its call); every release happens before the acquisitions it enables. No acquirer stays blocked while a permit is available, try_acquire fails only if no permit was available at some moment of the call, and the timed forms fail only at or after their deadline with no permit available.",
 ["schedules","inputs","programs"], "all interleavings of acquire/try/timed/release(n), initial values and update counts within the bounds, up to four threads, with timeouts and spurious wakeups",
 "semaphore_test checks counts in fixed schedules; release(n) with several blocked acquirers and timeouts racing releases are not explored.",
 [I+"yamc_semaphore.hpp"], [("counter under an internal mutex, predicate loops, notify_all", "counting_semaphore")],
 ["returns of acquire/try_acquire*", "blocked acquirers"])
prop("C18", "POSIX semaphore: permits conserved, interruptions and errors handled",
 "yamc::posix::counting_semaphore conserves permits, wakes acquirers and answers try and timed forms as the generic semaphore does, for steady, system and user-defined clocks. A signal that interrupts the underlying wait neither loses a permit nor makes acquire or the timed forms fail.",
 ["schedules","inputs","fault_sequences"], "all interleavings of acquire/try/timed/release(n) up to four threads with an interruption at every wait and time passing at every point, over a model of the POSIX semaphore calls",
 "Tests never deliver a signal during a wait and use fixed schedules.",
 [I+"posix_semaphore.hpp"], [("sem_wait/sem_timedwait result handling", "acquire, do_try_acquirewait"), ("conversion to system time", "detail::to_system_timepoint")],
 ["returns and exceptions of acquire/try_acquire*"])
prop("C19", "Latch: waiters leave exactly when the count has reached zero",
 "wait and arrive_and_wait of a latch return only after the counter has reached zero, and once it is zero every present and future wait returns and try_wait is true; before that try_wait is false. Everything done before any count_down or arrival happens before the return of every wait, and no waiter is ever left behind.",
 ["schedules","inputs"], "all interleavings of count_down(n), wait, try_wait and arrive_and_wait(n) for initial counts and updates within the bounds, up to four threads",
 "latch_test uses fixed thread counts and one interleaving per run.",
 [I+"yamc_latch.hpp"], [("counter under mutex, notify_all at zero", "latch")],
 ["returns of wait/try_wait/arrive_and_wait"])
prop("C20", "Barrier: phases complete exactly, completion runs once, nobody is left",
 "A barrier phase completes exactly when the expected number of arrivals for that phase has been made; the completion function then runs exactly once, after all those arrivals and before any wait of that phase returns, with happens-before from every arrival through the completion to every return. A wait on a token returns iff that token's phase has completed, the barrier is reusable for any number of phases, and no thread is left behind, released early or mixed into another phase.",
 ["schedules","inputs","histories"], "all interleavings of arrive(n), wait, arrive_and_wait over several phases, with and without a completion function, up to four threads, including the phase counter near its wrap-around",
 "barrier_test runs a few phases in one schedule; fast threads lapping slow ones and counter wrap-around are not reached.",
 [I+"yamc_barrier.hpp"], [("phase number and counter under mutex", "barrier"), ("phase_completion_step", "barrier")],
 ["returns of wait/arrive_and_wait", "invocations of the completion function"])
prop("C21", "Barrier: arrive_and_drop lowers the expected count of all later phases",
 "arrive_and_drop counts as an arrival in the current phase and lowers the number of arrivals expected in every later phase by one, whichever thread drops and whether or not it is the last to arrive. The remaining threads complete all later phases without the dropped ones.",
 ["schedules","inputs","histories"], "all interleavings of dropping and staying threads over several phases up to four threads",
 "barrier_test drops in one schedule with a fixed order of arrivals.",
 [I+"yamc_barrier.hpp"], [("decrement of the initial count", "arrive_and_drop/phase_completion_step")],
 ["completion of later phases"])
prop("C22", "shared_lock owns exactly what it says, like std::shared_lock",
 "Every sequence of constructions, moves, swaps, locks, tries, timed tries, unlocks, releases and destructions of yamc::shared_lock objects makes exactly the mutex calls, results and std::system_error conditions that the C++14 standard's shared_lock makes. In particular each acquired shared lock is released exactly once, owns_lock and mutex tell the truth, and a failed or throwing operation changes nothing else.",
 ["programs","inputs","histories"], "every operation sequence up to the depth bound over two lock objects and two mutexes, every mutex answer (success, failure, exception), compared step by step with std::shared_lock",
 "lock_test calls each member in one context.",
 [I+"yamc_shared_lock.hpp"], [("pm_/owns_ pair", "shared_lock"), ("locking_precondition", "shared_lock")],
 ["calls made on the mutex", "owns_lock(), mutex(), exceptions"])
prop("C23", "scoped_lock locks all without deadlock and unlocks each exactly once",
 "Constructing yamc::scoped_lock over any number of mutexes acquires all of them, without deadlock against any other scoped_lock over the same mutexes in any order, and destruction releases each exactly once; the adopting form acquires nothing and releases each exactly once. If an acquisition throws, nothing stays locked.",
 ["schedules","programs","inputs"], "all interleavings of 2-3 threads locking 0-3 mutexes of several types in all orders, and every answer sequence of throwing/failing mutexes",
 "lock_test constructs scoped_lock in one thread or one order.",
 [I+"yamc_scoped_lock.hpp"], [("std::lock over the pack, recursive unlock over the tuple", "scoped_lock")],
 ["ownership of each mutex before, during and after"])
prop("C24", "Objects may be destroyed as soon as the standard allows it",
 "A mutex, shared mutex, semaphore, latch or barrier may be destroyed (and its memory reused) by a thread that has learnt through the primitive itself or through later acquisition of it that no other call needs it, as the C++ standard permits for its counterpart: no call of the library touches the object after the point at which another thread may rightfully destroy it, and none keeps dangling references to stack frames of calls that have returned.",
 ["schedules","programs"], "all interleavings of the last users of an object with the thread that then destroys it; every memory access checked against object lifetime",
 "Use-after-free in the last instructions of unlock/release/count_down needs a precise preemption; tests keep objects alive for the whole test.",
 EXF + [I+f for f in ("alternate_shared_mutex.hpp","fair_shared_mutex.hpp","checked_shared_mutex.hpp","yamc_semaphore.hpp","yamc_latch.hpp","yamc_barrier.hpp","posix_semaphore.hpp")],
 [("notification under the internal mutex", "unlock/release/count_down"), ("removal of stack nodes from queues before return", "fair_mutex.hpp, fair_shared_mutex.hpp")],
 ["memory accesses after destruction"])
prop("C25", "Windows wrappers map onto the Win32 primitives correctly",
 "yamc::win mutex, critical section, SRW lock and semaphore wrappers give the exclusion, recursion, sharing, permit counting, try and timeout behaviour their C++ counterparts require on top of the Win32 calls: every failure or timeout result is mapped to the right return value or exception, timed forms never return false early nor wait for ever on expired or negative timeouts, and handles are created and closed exactly once.",
 ["schedules","inputs","fault_sequences"], "all interleavings and all results of the Win32 calls (within a model of their documented behaviour), timeouts from negative through fractional milliseconds to beyond the 32-bit range",
 "The tests cannot run these headers on Linux at all; on Windows they use one schedule.",
 [I+"win_native_mutex.hpp",I+"win_semaphore.hpp"], [("rounding up to milliseconds and WaitForSingleObject result mapping", "do_try_lockwait/do_try_acquirewait")],
 ["arguments of the Win32 calls", "return values, exceptions"])
prop("C26", "Apple wrappers map onto os_unfair_lock and dispatch semaphores correctly",
 "yamc::apple::unfair_lock gives mutual exclusion and exact try_lock, and yamc::gcd::counting_semaphore conserves permits, wakes acquirers, and converts relative and absolute timeouts of any clock to the right dispatch time, on top of the documented behaviour of the platform calls. Timeouts return false only at or after the deadline and every failure code is mapped to the right result.",
 ["schedules","inputs","fault_sequences"], "all interleavings up to four threads over a model of the platform calls; timeouts in the past, now and future on steady, system and user-defined clocks",
 "The tests cannot run these headers on Linux at all; on macOS they use one schedule.",
 [I+"apple_native_mutex.hpp",I+"gcd_semaphore.hpp"], [("dispatch_time/dispatch_walltime conversion", "gcd::counting_semaphore"), ("os_unfair_lock calls", "apple::unfair_lock")],
 ["arguments of the platform calls", "return values, exceptions"])
prop("C27", "Backoff policies: bounded intervals between yields, no effect on locking",
 "The exponential backoff policy yields the processor first after its initial count of waits and then at intervals that shrink (halving, never below one wait) and never grow or stop, for every initial count; the yield policy yields on every wait and the busy policy never does. Each acquisition starts from a fresh state, and every policy, user-defined ones included, leaves the locking semantics of the spin mutexes unchanged.",
 ["inputs","configurations","schedules"], "every step sequence of the policy state machine until it is periodic, for a range of initial counts including 0, 1, powers of two and the default; and all interleavings of spin mutexes under every policy",
 "spinlock_test only checks that default policies compile and lock.",
 [I+"yamc_backoff_spin.hpp",I+"naive_spin_mutex.hpp",I+"ttas_spin_mutex.hpp"], [("initcount/counter recurrence", "backoff::exponential::wait")],
 ["calls of std::this_thread::yield per wait", "mutual exclusion and progress under every policy"])

prop("C28", "Mutexes behind condition_variable_any, the lock wrappers and std::lock",
 "Every mutex type can be used where the standard library expects a mutex: condition_variable_any::wait, wait_for and wait_until release it while they wait and hold it again, in the mode it was held in, whenever they return, with no wakeup lost between the release and the wait; every way to acquire through lock_guard, unique_lock (deferred, try, adopted, timed) and shared_lock leaves the mutex free once the guards are gone; and std::lock over two mutexes of different types, named in opposite orders, acquires both without deadlock.",
 ["schedules","inputs","configurations"], "clients of 2-4 threads that talk through condition_variable_any (one slot and two conditions, a gate, timed waits, waiting readers), take locks every way unique_lock offers, or take two mutexes through std::lock, for every exclusive, recursive, timed and shared type, all interleavings and timeouts",
 "the tests use lock_guard, unique_lock and std::lock in a few fixed schedules and never condition_variable_any.",
 [I+"naive_spin_mutex.hpp",I+"ttas_spin_mutex.hpp",I+"fair_mutex.hpp",I+"alternate_mutex.hpp",I+"checked_mutex.hpp",I+"posix_native_mutex.hpp",I+"fair_shared_mutex.hpp",I+"alternate_shared_mutex.hpp",I+"checked_shared_mutex.hpp",I+"yamc_shared_lock.hpp"],
 [("lock/unlock/try_lock/lock_shared/unlock_shared", "the members the standard library calls")],
 ["what a client sees under the lock after each wait", "whether each client finishes", "state of the mutex afterwards"])

prop("C29", "Objects give back everything they took",
 "After any number of lifetimes, whatever was done to the objects in between (acquisitions, failed and timed-out attempts, nesting, concurrent use, reported misuse and reported deadlocks, guards left by exceptions), destruction has given back every block of memory, every native object or handle and every record the library made for them: no history of use makes memory or the number of native objects grow.",
 ["histories","schedules","inputs"], "lifetimes of up to three objects in a row on one thread and objects shared by 1-3 threads, for every mutex type, semaphore, latch, barrier and guard, every interleaving; heap blocks and native objects counted before and after",
 "the tests never look at memory or handles, and each object lives once.",
 [I+"yamc_lock_validator.hpp",I+"fair_mutex.hpp",I+"fair_shared_mutex.hpp",I+"posix_native_mutex.hpp",I+"posix_semaphore.hpp",I+"win_native_mutex.hpp",I+"win_semaphore.hpp",I+"gcd_semaphore.hpp",I+"yamc_barrier.hpp",I+"yamc_scoped_lock.hpp",I+"yamc_shared_lock.hpp"],
 [("mutexmap", "entries made by ctor and erased by dtor"), ("destructors", "release of the native object")],
 ["number of live heap blocks", "number of native objects that are initialised and not destroyed"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
