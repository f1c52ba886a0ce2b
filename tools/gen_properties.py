#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so that long lines stay reviewable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

M = "source/cocpp/sync/co_mutex.cpp"
prop("C01", "A mutex has at most one owner and only the owner can release it",
 "At every moment at most one coroutine owns a mutex: lock() returns only once the caller is the owner, and try_lock() succeeds exactly when the mutex was free at that moment. A release by anybody but the owner is rejected with an exception and changes neither the owner nor the set of waiting coroutines.",
 ["schedules", "histories"], "All interleavings of lock, try_lock and unlock by any number of coroutines on any number of scheduling threads, over histories of any length, including the moment a lock attempt stops spinning and starts to block.",
 "The existing test increments a counter from a handful of coroutines; it samples a few interleavings and never checks the owner between operations, the non-owner release, or the window between the spin phase and the blocking phase.",
 [M, "include/cocpp/sync/co_mutex.h"],
 [("co_mutex::lock", M + ":17"), ("co_mutex::try_lock", M + ":70"), ("co_mutex::unlock", M + ":83")],
 state="owner, FIFO of blocked coroutines")
prop("C02", "Releasing a mutex hands it to the longest blocked waiter, none is stranded",
 "When a mutex is released while coroutines are blocked on it, ownership passes directly to the coroutine that has been blocked longest and that coroutine becomes runnable again; without blocked coroutines the mutex becomes free. No coroutine remains blocked on a mutex that is free, and a coroutine that obtained the mutex is no longer marked as waiting for it.",
 ["schedules", "histories"], "All interleavings of blocking and releasing, any queue length, any number of releases.",
 "Tests only see that a program ends; a lost or misdirected wake-up needs a specific interleaving between queueing and release that no test forces.",
 [M, "include/cocpp/sync/co_mutex.h", "source/cocpp/core/co_ctx.cpp"],
 [("co_mutex::unlock", M + ":83"), ("co_mutex::lock wait loop", M + ":52")],
 state="owner, FIFO of blocked coroutines, wait marks of coroutines")
R = "source/cocpp/sync/co_recursive_mutex.cpp"
prop("C03", "A recursive mutex is released only when each acquisition was undone",
 "A recursive mutex has at most one owner, the owner may acquire it again any number of times, and it stays owned until the owner has released it as often as it acquired it. The final release passes it, acquired exactly once, to the longest blocked coroutine (made runnable) or frees it if there is none; a release by a non-owner is rejected without effect.",
 ["schedules", "histories"], "All nesting depths, all interleavings of owners and blocked coroutines.",
 "The test nests a few levels in few coroutines; depth bookkeeping at hand-off to a blocked coroutine is not observed.",
 [R, "include/cocpp/sync/co_recursive_mutex.h"],
 [("co_recursive_mutex::lock", R + ":14"), ("co_recursive_mutex::try_lock", R + ":66"), ("co_recursive_mutex::unlock", R + ":80")],
 state="owner, depth, FIFO of blocked coroutines")
S = "source/cocpp/sync/co_shared_mutex.cpp"
prop("C04", "A shared mutex admits one exclusive holder or any number of shared holders",
 "A shared mutex is at every moment either free, held exclusively by exactly one coroutine, or held in shared mode by one or more coroutines; each acquire returns only once the caller holds it in the mode it asked for and the try variants succeed exactly when that mode is compatible with the current holders. Releasing in a mode the caller does not hold is rejected without effect.",
 ["schedules", "histories"], "All interleavings of exclusive and shared acquire, try and release operations by any number of coroutines.",
 "Tests exercise few readers and writers and do not look at the holders between operations; wrong modes after a wake-up need particular queue contents.",
 [S, "include/cocpp/sync/co_shared_mutex.h"],
 [("lock/lock_shared", S + ":14"), ("try_lock/try_lock_shared", S + ":68"), ("unlock/unlock_shared", S + ":81")],
 state="mode, holder set, FIFO of blocked (mode, coroutine) pairs")
prop("C05", "The last release of a shared mutex wakes the right waiters in their own mode",
 "When the last holder releases a shared mutex and the longest waiting coroutine wants exclusive mode, exactly that coroutine becomes the exclusive holder; if it wants shared mode, every coroutine waiting for shared mode becomes a shared holder and those waiting for exclusive mode keep waiting in their order. Every coroutine that becomes a holder is made runnable, no other one is, and none remains blocked on a free shared mutex.",
 ["schedules", "histories"], "All queue contents (any mix and order of waiting modes, any length) at the moment of the last release.",
 "Only mixed queues of shared and exclusive waiters at the moment of release expose a wrong wake-up; no test constructs them.",
 [S], [("wake_up_waiters__", S + ":180"), ("unlock", S + ":81"), ("unlock_shared", S + ":160")],
 state="holder set, FIFO of blocked (mode, coroutine) pairs, wait marks")
T = "include/cocpp/sync/co_timed_addition.h"
prop("C06", "Timed lock attempts report success exactly when the lock was taken",
 "A timed lock attempt returns true exactly when the caller then holds the lock in the requested mode, returns false only once the deadline has been reached, and attempts the lock at least once even if the deadline has already passed. After false the lock state is the one others left; the attempt leaves no trace.",
 ["schedules", "inputs"], "All deadlines (past, now, future) and all interleavings with the current holders, for the timed variants of the plain, recursive and shared mutex.",
 "Tests check one or two durations; neither past deadlines nor races at the deadline are reached.",
 [T, "include/cocpp/sync/co_shared_timed_mutex.h"],
 [("try_lock_until", T + ":30"), ("try_lock_shared_until", "include/cocpp/sync/co_shared_timed_mutex.h")])
CV = "include/cocpp/sync/co_condition_variable.h"
prop("C07", "Condition variable waits lose no notification and return holding the lock",
 "A coroutine that starts waiting is registered before its lock is released, so any notification issued after that release can wake it; notify-one wakes exactly the longest registered waiter if there is one and notify-all wakes every registered waiter, each exactly once. A wait returns only after a notification removed the waiter, and with the caller's lock held again; a predicate wait returns only when the predicate is true and does not block if it is true at the start.",
 ["schedules", "histories"], "All interleavings of waits and notifications, any number of waiters.",
 "A lost wake-up needs a notification in the few instructions between releasing the lock and suspending; tests cannot force it.",
 [CV, "source/cocpp/sync/co_condition_variable.cpp"],
 [("wait", CV + ":52"), ("wait with predicate", CV + ":69"), ("notify_one/notify_all", "source/cocpp/sync/co_condition_variable.cpp:20")],
 state="registered waiters, wait marks")
prop("C08", "Timed condition waits report a timeout only to the wait that timed out",
 "A timed wait on a condition variable returns with the caller's lock held and reports a timeout only if its own deadline expired before it was notified; earlier timeouts of this or any other waiter do not influence the result. A timed predicate wait returns the predicate's value at return, and when a timed wait has returned its waiter is no longer registered and its timer no longer active.",
 ["schedules", "histories", "inputs"], "All orders of notification, expiry and return, over any history of earlier timed waits on the same condition variable.",
 "Tests use a condition variable for one timed wait; the effect of one timeout on a later wait is never observed.",
 [CV], [("wait_until", CV + ":88"), ("wait_until with predicate", CV + ":122")],
 state="registered waiters, per-wait expiry status")
SE = "include/cocpp/sync/co_counting_semaphore.h"
prop("C09", "A semaphore's counter stays in range and every permit is handed out once",
 "A counting semaphore's value never goes below zero or above its maximum; each successful acquire takes exactly one permit, try_acquire succeeds exactly when one is available, and release(n) adds exactly n permits. Every permit added wakes a coroutine blocked in acquire if there is one, and every permit taken wakes one blocked in release.",
 ["schedules", "histories", "inputs"], "All interleavings, all initial values within range, all n.",
 "Tests use one or two coroutines with small counters; permits lost by a missing wake-up with several blocked coroutines are not covered.",
 [SE], [("acquire", SE + ":36"), ("release", SE + ":60"), ("try_acquire", SE + ":70")],
 state="counter, waiters on empty and on full")
L = "source/cocpp/sync/co_latch.cpp"
prop("C10", "Latch and wait group open exactly when all arrivals happened",
 "A wait on a latch or wait group returns only after the announced number of arrivals has happened, and the arrival that completes the count wakes every waiter; try_wait tells exactly whether the count is complete. Counting down a latch below zero is rejected without effect.",
 ["schedules", "histories", "inputs"], "All interleavings of arrivals and waiters, all counts.",
 "Tests count down once with one schedule; wake-up of several waiters and over-counting are not examined over all orders.",
 [L, "source/cocpp/sync/co_wait_group.cpp"],
 [("co_latch::count_down", L + ":14"), ("co_latch::wait", L + ":33"), ("co_wait_group::done/wait", "source/cocpp/sync/co_wait_group.cpp:20")],
 state="remaining count, waiters")
B = "source/cocpp/sync/co_barrier.cpp"
prop("C11", "A barrier releases a phase only when all its participants arrived",
 "A coroutine waiting at a barrier continues only after the phase it arrived in has been completed by all participants; the arrival that completes the phase wakes all waiters and the next phase starts with the full number of remaining participants. A token of another barrier, or of a phase older than the one completed last, is rejected without effect.",
 ["schedules", "histories"], "All interleavings of arrivals and waits over any number of phases, all participant counts.",
 "One test runs one phase; reuse over phases and stale tokens under races are not covered.",
 [B], [("co_barrier::arrive", B + ":14"), ("co_barrier::wait", B + ":27")],
 state="phase number, outstanding arrivals")
O = "include/cocpp/sync/co_call_once.h"
prop("C12", "call_once runs its function once and nobody returns before it has finished",
 "Of all calls with the same flag, exactly one runs its function to completion with the arguments given by that caller; every other call returns only after that run has completed and does not run its own function.",
 ["schedules", "fault_sequences"], "All interleavings of callers, including callers arriving while the function runs.",
 "The test calls it from coroutines one after the other; a caller arriving during the run is not covered.",
 [O], [("co_call_once", O + ":19")])
C = "include/cocpp/event/co_chan.h"
prop("C13", "A channel delivers each sent value once, in order, within its capacity",
 "Values are received in the order they were accepted, each exactly once, and a receive reports end of data only when the channel is closed and drained. A send is accepted exactly when the channel is open (and, if bounded, not full) at that moment and is refused once the channel is closed; a bounded channel never holds more values than its capacity.",
 ["schedules", "histories", "inputs"], "All interleavings of senders, receivers and close, all capacities, any number of values.",
 "Tests run one producer and one consumer; competing senders and receivers and close during a blocked operation need specific interleavings.",
 [C], [("fixed_chan::push", C + ":163"), ("unlimited_chan::push", C + ":190"), ("chan_base::pop", C + ":244"), ("close", C + ":282")],
 state="queued values, closed mark")
prop("C14", "Channel operations that can proceed are woken, close wakes everybody",
 "Whenever a value is added a receiver blocked on the channel is woken, whenever room appears a sender blocked on it is woken, and closing wakes every blocked sender and receiver. A blocked operation therefore never stays blocked while it could complete.",
 ["schedules", "histories"], "All interleavings, any number of blocked senders and receivers.",
 "With one sender and one receiver most lost wake-ups stay invisible; tests do not use more.",
 [C], [("push/pop/close notifications", C + ":163")], state="queued values, closed mark, blocked senders and receivers")
prop("C15", "An unbuffered send completes only after its value was taken",
 "A send on an unbuffered channel holds at most one value in flight and returns only after a receiver took the value or the channel was closed; several concurrent senders each get their turn, one after the other.",
 ["schedules", "histories"], "All interleavings of any number of senders, receivers and close on an unbuffered channel.",
 "The test has one sender; behaviour with a second concurrent sender is not exercised.",
 [C], [("sync_chan::push", C + ":207"), ("chan_base::pop", C + ":244")], state="value in flight, closed mark")
prop("C16", "Channel iteration and operators visit exactly the received values",
 "Iterating over a channel yields exactly the values received from it, in order, and ends when the channel is closed and drained. The send and receive operators behave like send and receive; a failed receive through an operator reports failure and leaves the target unchanged.",
 ["schedules", "histories", "inputs"], "All channel contents and all interleavings with senders and close.",
 "Tests iterate over one closed channel of known content; iteration racing with senders and close is not covered.",
 [C], [("iterator", C + ":331"), ("operators", C + ":124")])
PI = "include/cocpp/pipeline/co_pipeline.h"
prop("C17", "Pipeline stages emit exactly the values of their sequential meaning",
 "For every input stream, map, filter, reduce, take, skip, group and the sources emit exactly the sequence their sequential definition gives, in order, and then close their output. When the consumer closes the output early a stage stops without emitting further values. Taking a limited number of values never waits for more than it needs and closes its input too.",
 ["inputs", "schedules"], "All input streams of any length, all stage parameters and functions, all channel interleavings.",
 "Tests run a few fixed streams.",
 [PI], [("stage coroutines", PI + ":131")])
E = "source/cocpp/core/co_env.cpp"
prop("C18", "The scheduler picks the most urgent runnable coroutine, round robin",
 "The scheduler selects a runnable coroutine of the most urgent priority that has one, among those the one selected least recently, and moves it behind its equals. It goes idle only if no coroutine of the environment is runnable, and never selects a finished or waiting coroutine.",
 ["inputs", "histories"], "All contents of the run queues (any number of coroutines over all priorities, any runnable subset).",
 "Tests check a few priorities; the search start hint and rotation over arbitrary queue contents are not covered.",
 [E], [("choose_ctx_from_normal_list__", E + ":505"), ("next_ctx__", E + ":195"), ("update_min_priority__", E + ":607")],
 state="run queues per priority, search start hint")
prop("C19", "Run queues never lose, duplicate or misfile a coroutine",
 "Every live coroutine of an environment is queued exactly once, under its current priority, and the reported number of coroutines equals the number queued. Adding, removing, changing priority and taking coroutines away change exactly the coroutines concerned, and keep every runnable coroutine reachable for the scheduler.",
 ["histories", "inputs"], "All queue contents and all sequences of add, remove, priority change and take operations.",
 "Tests never inspect the queues; a misfiled coroutine shows only as a rare hang.",
 [E, "source/cocpp/core/co_ctx.cpp"],
 [("move_ctx_to_here", E + ":79"), ("remove_ctx", E + ":315"), ("handle_priority_changed", E + ":455"), ("take_all_movable_ctx/take_one_movable_ctx", E + ":566")],
 state="run queues per priority, count, search start hint")
X = "source/cocpp/core/co_ctx.cpp"
prop("C20", "A coroutine is suspended exactly while it waits for some resource",
 "A coroutine is marked waiting exactly while the set of resources it waits for is non-empty; it becomes runnable when the last one is released, and its environment is then told so that a sleeping scheduler wakes up. A finished coroutine stays finished whatever state change is requested later, and a coroutine is runnable exactly if it is neither finished nor waiting.",
 ["schedules", "histories"], "All interleavings of entering and leaving waits for any set of resources.",
 "Tests see only single waits; overlapping waits for several resources and late state changes are not covered.",
 [X, "include/cocpp/utils/co_state_manager.h", "include/cocpp/utils/co_flag_manager.h", E],
 [("enter_wait_resource_state/leave_wait_resource_state", X + ":185"), ("can_schedule", X + ":140"), ("co_state_manager::set_state", "include/cocpp/utils/co_state_manager.h:23")],
 state="resource set, waiting mark, state")
prop("C21", "Waiting for a coroutine returns after it finished, with its result or error",
 "An unlimited wait for another coroutine returns only after that coroutine has finished, and a timed wait reports a result exactly if it has finished by then; no completion is missed even if it happens while the waiter is going to sleep. The waiter receives the value the coroutine returned, or the exception it ended with (delivered to the first waiter only), and keeps its own priority.",
 ["schedules", "histories"], "All interleavings of the finishing coroutine, its waiters and timer expiry.",
 "Missing a completion needs a finish exactly between the check and the sleep.",
 [E, X, "include/cocpp/co/co_co.h"],
 [("wait_ctx", E + ":100"), ("real_entry", X + ":70"), ("check_and_rethrow_exception", X + ":128")],
 state="finished mark, completion subscribers, stored result and exception")
CO = "source/cocpp/co/co.cpp"
prop("C22", "A coroutine is reclaimed only when finished, released and not running",
 "While its environment runs, a coroutine's memory and stack are reclaimed only after it has finished, its handle has given it up and it is not the one currently executing, and they are not touched afterwards. A handle gives its coroutine up exactly once: on join (after waiting for it), detach or destruction, while a moved-from or detached handle refers to nothing.",
 ["histories", "schedules"], "All sequences of handle operations and all orders of finishing, detaching and reclaiming.",
 "Use after reclamation usually goes unnoticed in tests.",
 [CO, E, "source/cocpp/core/co_ctx_factory.cpp"],
 [("co::join/detach/move", CO + ":12"), ("remove_detached_ctx__", E + ":180"), ("destroy_ctx", "source/cocpp/core/co_ctx_factory.cpp:36")],
 state="keep-alive mark, state, current coroutine")
EV = "include/cocpp/event/co_event.h"
prop("C23", "Publishing an event calls every current subscriber exactly once",
 "Publishing calls each callback that is subscribed at that time exactly once with the published arguments, in subscription order, and no other. Every subscription gets a handle of its own, and unsubscribing removes exactly the callback of that handle; an unknown handle is ignored.",
 ["histories", "inputs"], "All sequences of subscribe, unsubscribe and publish, all arguments.",
 "Tests use one or two subscribers.",
 [EV], [("sub/unsub/pub", EV + ":31")], state="handle to callback map, next handle")
TI = "source/cocpp/core/co_timer.cpp"
prop("C24", "Started timers are all kept, ordered by expiry, and fire only when due",
 "Starting a timer queues it under its expiry time and no started timer displaces another, even if both expire at the same instant; stopping removes exactly that timer. The timer service fires the earliest timer only once its expiry time is reached, a one-shot timer once per start and a periodic one again an interval later.",
 ["histories", "inputs", "schedules"], "All sets of timers including equal expiry times, all sequences of start, stop and reset.",
 "Equal expiry instants and races of stop with expiry are not produced by the tests.",
 [TI, "source/cocpp/core/co_manager.cpp"],
 [("ordering", TI + ":135"), ("start/stop/reset", TI + ":57"), ("timer_routine__", "source/cocpp/core/co_manager.cpp:330")],
 state="timer queue, timer status and expiry")
A = "include/cocpp/utils/co_any.h"
prop("C25", "Returned and stored values come back unchanged under their own type",
 "A type-erased value or coroutine result is returned equal to what was stored when read under the type it was stored with, and reading it under any other type, or when nothing was stored, is reported by an exception. Coroutine-local variables are default-created on first use and keep their value for that coroutine and name.",
 ["inputs", "histories"], "All stored values and all sequences of store, copy and read.",
 "Tests read back a few values.",
 [A, "include/cocpp/core/co_return_value.h", "include/cocpp/core/co_ctx.h"],
 [("co_any::get", A + ":70"), ("co_return_value conversion", "include/cocpp/core/co_return_value.h:22"), ("local_storage", "include/cocpp/core/co_ctx.h:110")])
IO = "source/cocpp/io/co_io.cpp"
NE = "source/cocpp/io/co_net.cpp"
prop("C26", "I/O calls yield while not ready and return the system call's own result",
 "An I/O operation that the system reports as not ready is retried after yielding to other coroutines and never reported to the caller; every other outcome, success or failure, is returned as the system gave it, after exactly one completed system call with the caller's arguments (an interrupted call may also be repeated). Descriptors opened, accepted or adopted are in non-blocking mode, and connecting reports success exactly if the connection was established.",
 ["fault_sequences", "inputs"], "All sequences of results and error codes of the underlying system calls, all arguments.",
 "Tests see the results a loopback socket happens to give.",
 [IO, NE, "source/cocpp/io/co_file.cpp"],
 [("co_io::read/write", IO + ":46"), ("co_net::accept/connect/send/recv/...", NE + ":30"), ("co_io::init_fd", IO + ":12")])
CL = "source/cocpp/io/co_client.cpp"
prop("C27", "Whole-buffer transfers move every byte exactly once, in order",
 "A whole-buffer read or write returns success only after exactly the bytes of the buffer have been transferred, each at its position, whatever partial counts the system returns. It stops with an error when the system reports one, and a whole-buffer read also when the peer has closed the connection.",
 ["fault_sequences", "inputs"], "All buffer sizes and all sequences of partial transfer counts, errors and end of stream.",
 "Loopback transfers in tests complete in one call.",
 [CL], [("read_n", CL + ":22"), ("write_n", CL + ":48")])
V = "source/cocpp/core/co_vos_gcc_x86_64.cpp"
prop("C28", "A context switch preserves every register of the suspended coroutine",
 "Switching away from a coroutine and later back restores its stack pointer, flags and general registers and continues exactly after the switch. A new coroutine starts in its entry routine with itself as argument on a correctly aligned stack inside its own stack area.",
 ["schedules", "inputs"], "All register contents, all sequences of switches between any coroutines.",
 "A register that is not restored matters only for code the compiler keeps in that register; tests depend on compiler luck.",
 [V], [("switch_to", V + ":46"), ("init_ctx", V + ":97"), ("switch_from_outside", V + ":146")])
prop("C29", "Shared-stack contents are saved and restored exactly; shrinking keeps live data",
 "When a coroutine on a shared stack is switched out, exactly its live stack bytes are saved, and when it resumes they are back at the same addresses while the saved copy is released. Returning unused stack memory to the system never touches a byte in use.",
 ["histories", "inputs"], "All stack depths and addresses, all alternations of coroutines on one shared stack.",
 "Tests switch shallow stacks; off-by-one sizes corrupt rarely used bytes.",
 [E, V, "source/cocpp/core/co_stack.cpp", "source/cocpp/core/co_stack_factory.cpp"],
 [("save_shared_stack__/restore_shared_stack__", E + ":405"), ("shrink_mem_to_top", V + ":190"), ("create_stack/destroy_stack", "source/cocpp/core/co_stack_factory.cpp:11")])
prop("C30", "No coroutine is preempted while it holds an internal lock",
 "While a synchronisation primitive holds its internal spin lock, forced preemption of the running thread is disabled, and every operation leaves the preemption state as it found it on every path including exceptions. Forced preemption happens only when preemption is enabled and the scheduling lock can be taken.",
 ["schedules"], "All preemption points in all operations of the synchronisation primitives.",
 "A forced preemption inside a critical section needs a signal in a window of nanoseconds.",
 [M, R, S, CV, V, E],
 [("preempt guard", E + ":820"), ("switch_from_outside", V + ":146"), ("can_force_schedule", E + ":690")],
 state="preemption-disable count, held spin locks")
SP = "source/cocpp/sync/co_spinlock.cpp"
prop("C31", "The spin lock is exclusive and publishes what was written under it",
 "At most one thread holds a spin lock: acquiring returns only after the lock was observed free and taken in one atomic step, try_lock succeeds exactly in that case, and releasing makes it free. What was written under the lock is visible to the next holder.",
 ["schedules"], "All interleavings of any number of threads under the C++ memory model.",
 "Exclusion failures and missing ordering need rare timing, and x86 hides ordering errors.",
 [SP], [("lock/try_lock/unlock", SP + ":12")], state="lock bit")
MG = "source/cocpp/core/co_manager.cpp"
prop("C32", "New coroutines go to a suitable environment; idle surplus ones are retired",
 "A coroutine bound to an environment is placed there; any other is placed in an environment that has a running scheduler, is not shutting down, blocked or (unless idle) reserved: an idle one if there is one, else the least loaded one, or a new one while fewer than the base number can take it. Only environments that are idle, empty and not protected from it are retired, and never more than exceed the maximum.",
 ["inputs", "histories", "configurations"], "All sets of environments with any states, loads and flags, all base and maximum counts.",
 "Tests run with one small set of environments.",
 [MG], [("get_best_env__", MG + ":27"), ("create_and_schedule_ctx", MG + ":410"), ("destroy_redundant_env__", MG + ":290"), ("set_base_schedule_thread_count", MG + ":205")],
 state="environment sets, base and maximum counts")
prop("C33", "Configured attributes of a coroutine are normalised and honoured",
 "A coroutine's priority is always within the allowed range: requests outside are clamped, and the idle coroutine's priority never changes. Name, stack size, binding and stack sharing requested at creation are those the coroutine has, and observers of a priority change are told exactly when it changed, with the old and new value.",
 ["inputs"], "All requested priorities and configurations.",
 "Tests use a few priorities inside the range.",
 [X, "source/cocpp/core/co_ctx_factory.cpp", "include/cocpp/core/co_ctx_config.h"],
 [("set_priority", X + ":98"), ("create_ctx", "source/cocpp/core/co_ctx_factory.cpp:16")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
