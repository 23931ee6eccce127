#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it stays schema-shaped)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
        mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe or ["public API calls and returns, operation start/end/destruction"],
        hook_needed=None)))
S=["schedules","programs"]
p("C01","Every submitted operation runs exactly once",
 "Every operation handed to queue::async - on the global queues of all priorities, on serial queues, on the main queue, on queues over a custom thread pool, from any thread including from within operations - is executed exactly once, and is executed eventually as long as no running operation blocks forever. No operation is lost, duplicated or left waiting until some later submission happens to wake it up.",
 S,"all programs of concurrent async() submissions, all interleavings of the library's threads, all pool sizes, including worker threads going idle and expiring while work is being added",
 "the tests submit a few hundred operations in one or two patterns under whatever interleaving the OS picks; lost wake-ups need a particular interleaving of a submitter with a worker going idle, yielding or ending",
 ["src/naive/naive_threadpool.cpp","src/naive/naive_semaphore.cpp","src/naive/naive_operation_queue.cpp","src/naive/naive_manual_thread.cpp","src/naive/naive_serial_queue.cpp","src/naive/naive_parallel_queue.cpp","src/queue.cpp"],
 [("counting semaphore with spin and timed wait","src/naive/naive_semaphore.cpp"),("worker loop with idle expiry and opportunistic recovery","src/naive/naive_threadpool.cpp worker::run"),("drain/notify protocol of a serial queue","src/naive/naive_operation_queue.cpp drain/async_unsafe/notify_unsafe")])
p("C02","Serial queues: FIFO order and no overlap",
 "Operations of one serial queue (created by label, over a custom pool, or the main queue) never overlap in time, and start in submission order: if one async() call returned before another one on the same queue began, the first operation also completes before the second starts. This holds however many threads submit and whatever pool executes the queue.",
 S,"all concurrent submission histories to one or more serial queues under all interleavings",
 "tests check a single producer with a handful of operations; a violated order or overlap needs several producers, a batch boundary or a re-notification racing with an active drain",
 ["src/naive/naive_operation_queue.cpp","src/naive/naive_serial_queue.cpp","src/naive/naive_threadpool.cpp","src/waitable_queue.cpp"],
 [("jobs stay listed until completed so that only one drain is scheduled","src/naive/naive_operation_queue.cpp drain/async_unsafe"),("limited batch then re-notify","src/naive/naive_operation_queue.cpp drain")])
p("C03","Dropping handles loses nothing; operations die once, after running",
 "Destroying the last handle of a queue or group while operations are still queued does not lose, reorder or corrupt these operations. The library keeps an operation alive until it ran, destroys it exactly once, never before or during its execution, and does not retain it once it ran and nothing else refers to it; no library memory is touched after it was freed.",
 S,"all programs in which queue/group handles are dropped at arbitrary points relative to queued and running operations, under all interleavings",
 "tests keep their queue handles alive and do not observe destruction; a use-after-free or leak needs the last handle to go at a specific point relative to the worker",
 ["src/naive/naive_operation_queue.cpp","src/naive/naive_operation_queue_manager.cpp","src/naive/naive_serial_queue.cpp","src/naive/naive_operations.cpp","src/naive/naive_manual_thread.cpp","src/naive/naive_threadpool.cpp"],
 [("detach operation queued behind remaining jobs","src/naive/naive_operation_queue.cpp detach"),("manager keeps attached queues alive and releases them on its own thread","src/naive/naive_operation_queue_manager.cpp"),("job released outside of the queue lock after it ran","src/naive/naive_operation_queue.cpp drain")],
 observe=["operation start/end/destruction","allocator shadow state"])
p("C04","apply runs every index once and returns only after all of them",
 "queue::apply(n, op) executes op exactly once for each index in [0,n), never for another index, and returns only when all n calls have completed. On a serial queue the indices run in order; calls may be nested (from operations of a parallel queue, or of another queue) without deadlocking the pool, however few threads it has, and n = 0 returns at once.",
 ["schedules","programs","inputs"],"all n, queue kinds, nesting shapes and pool sizes under all interleavings",
 "tests use one n on an otherwise idle machine with many cores; early return, index mix-ups and nested starvation depend on interleaving and pool size",
 ["src/naive/naive_parallel_queue.cpp","src/naive/naive_serial_queue.cpp","src/naive/naive_operations.cpp","src/naive/naive_consumable.cpp","src/lightweight_barrier.cpp","src/waitable_queue.cpp"],
 [("consumable counting outstanding iterations","src/naive/naive_consumable.cpp"),("one-shot barrier","src/lightweight_barrier.cpp"),("blocking threads raise the pool's thread limit","src/naive/naive_threadpool.cpp notify_thread_blocked")])
p("C05","after runs the operation once, not early, on its queue",
 "queue::after(delay, op) executes op exactly once, not before the delay has elapsed, as an ordinary operation of that queue (so never overlapping others on a serial queue), also if the caller drops its queue handle meanwhile. Once it ran, neither the operation nor the queue is retained any longer.",
 ["schedules","programs","inputs"],"all delays (0, equal, large), queue kinds (including waitable queues) and interleavings",
 "tests wait for one delayed operation with wall-clock tolerance and cannot see retained objects or rare double/missed firing",
 ["src/naive/naive_operations.cpp","src/naive/naive_timer.cpp","src/naive/naive_parallel_queue.cpp","src/naive/naive_serial_queue.cpp","src/waitable_queue.cpp"],
 [("self-hosted delayed operation owning its timer","src/naive/naive_operations.cpp delayed_operation"),("single shot timer","src/naive/naive_timer.cpp")])
p("C06","group::wait true means all earlier group operations completed",
 "If group::wait returns true, every operation submitted to the group before that call began has completed; if it returns false, the timeout really elapsed. Waiting without timeout returns once those operations completed, any number of threads may wait concurrently and repeatedly, and the group can be reused after or without a wait.",
 ["schedules","programs","histories"],"all histories of async/wait/notify on a group by several threads, all timeouts, under all interleavings",
 "tests run one batch and one wait; the property must hold when operations complete between submissions, when several waiters and notifications swap the tracked set concurrently, and on reuse",
 ["src/naive/naive_group.cpp","src/naive/naive_consumable.cpp","src/lightweight_barrier.cpp","src/group.cpp","src/naive/naive_operations.cpp"],
 [("chain of consumables swapped on each wait","src/naive/naive_group.cpp wait"),("completion barrier","src/lightweight_barrier.cpp")])
p("C07","group::notify fires once, after all earlier operations completed",
 "Each group::notify(op, queue) submits op to the given queue exactly once, and op does not start before every operation that had been submitted to the group when notify was called has completed; on an empty group it is submitted right away. Several notifications may be pending, the group may be reused or its handle dropped, and notifications always eventually run.",
 ["schedules","programs","histories"],"all histories of async/notify/wait under all interleavings, including operations outlasting any amount of time",
 "the tests' group operations finish quickly, so a notification that fires early or on the wrong queue looks the same",
 ["src/naive/naive_group.cpp","src/naive/naive_consumable.cpp","src/lightweight_barrier.cpp","src/group.cpp"],
 [("helper operation waiting for the group, then submitting","src/naive/naive_group.cpp notify")])
p("C08","Timers fire on schedule: never early, never multiplied",
 "A resumed timer first fires no earlier than the given delay and, if periodic, again no earlier than its interval after the previous call of its handler began, one call at a time, on its target queue; it keeps firing until suspended. A single-shot timer fires exactly once per start, a timer never fires before its first resume or while suspended (except a call already under way), and suspend followed by resume never multiplies the firing rate.",
 ["schedules","programs","histories","inputs"],"all sequences of resume/suspend/interval/cancel calls with all delays and intervals, at any moment relative to the timer's own steps",
 "tests count a few firings with generous wall-clock tolerance for one resume; double workers and early firings need suspend/resume at a particular moment of the sleep",
 ["src/naive/naive_timer.cpp","src/timer.cpp","src/backend.cpp"],
 [("worker loop on the global pool re-checking the running count","src/naive/naive_timer.cpp resume")])
p("C09","Cancelling a timer or notifier is final, from anywhere",
 "Once timer::cancel or socket_notifier::cancel returned to a caller outside of the handler, the handler is not running and never runs again; called from within the handler it returns immediately and the current call is the last one. Cancelling is possible at any moment, repeatedly and from several threads (each of which gets the guarantee), never deadlocks, and later resume calls do not revive the object.",
 ["schedules","programs","histories"],"all moments of cancel relative to firing, recursion, and concurrent cancel/suspend/resume, under all interleavings",
 "tests cancel once in a quiet moment; the race of cancel with an invocation that has been queued or is running is not reached",
 ["src/cancelable.cpp","include/xdispatch/impl/cancelable.h","src/naive/naive_timer.cpp","src/naive/naive_socket_notifier.cpp","src/lightweight_barrier.cpp"],
 [("cancelable enter/leave/disable state machine","src/cancelable.cpp"),("completion barrier for disable","src/lightweight_barrier.cpp")])
p("C10","Socket notifiers report readiness, only then, and only while resumed",
 "While resumed, a socket notifier calls its handler - with its own socket and type, on its target queue, one call at a time - when and only when the socket is ready for the configured direction, and keeps calling it as long as the socket stays ready. It never calls it before resume or after suspend returned (except a call already queued or under way), balanced suspend/resume pairs at any moment restore exactly one stream of calls, and a socket that is closed does not make it spin.",
 ["schedules","histories","fault_sequences"],"all sequences of resume/suspend/cancel and of the peer writing, draining, closing, and of closing the socket itself, under all interleavings",
 "tests write to a socketpair once; suspend/resume races, overlapping handlers and invalid descriptors are not exercised",
 ["src/naive/naive_socket_notifier.cpp","src/socket_notifier.cpp","src/backend.cpp"],
 [("select loop with worker cookie","src/naive/naive_socket_notifier.cpp resume/suspend")])
p("C11","single_updates: one handler call per emit per connection",
 "Every emit of a signal results, for each single_updates connection that was established before the emit and is not disconnected, skipped or destroyed, in exactly one call of the handler on the connection's queue with exactly the emitted arguments. On a serial queue the calls come in emit order, on a parallel queue concurrent calls are not lost, and a signal created with a group has all its pending calls tracked by that group; chained signals deliver during the emit itself.",
 ["schedules","programs","inputs"],"all programs of connects, emits from several threads, queue kinds and argument values, under all interleavings",
 "tests emit sequentially to serial queues or a single handler; concurrent invocations of one connection on a parallel queue are lost only if they overlap",
 ["include/xdispatch/signals.h","src/signals.cpp","src/cancelable.cpp"],
 [("emit loop queuing one invocation per handler","include/xdispatch/signals.h signal::operator()"),("cancelable_scope around each invocation","src/cancelable.cpp")])
p("C12","batch_updates: coalescing never swallows the last update",
 "For a batch_updates connection, after every emit the handler is called at least once more (begins after that emit started), every call carries the arguments of some emit and no emit is delivered twice; at any time at most one not yet started call is pending, so that calls never outnumber emits. The connection stays alive under any load, including emits from within the handler and handlers on parallel queues.",
 ["schedules","programs"],"all interleavings of emits with queued, starting and running invocations",
 "the window in which an emit may be swallowed (between an invocation being picked and it accepting new updates) is a few instructions; tests emit bursts and only count an upper bound",
 ["include/xdispatch/signals.h","src/signals.cpp","src/cancelable.cpp"],
 [("pending counter decremented when an invocation starts","include/xdispatch/signals.h signal::operator()")])
p("C13","Disconnecting a signal handler is final and never deadlocks",
 "After connection::disconnect, destruction or reassignment of a scoped_connection, a connection_manager reset, or destruction of the signal they still belong to has returned (called from outside the handler), the handler is not running and is never called again; called from inside the handler it returns at once and the current call is the last. disconnect returns true exactly if there was something to disconnect, other connections are unaffected, skip_all drops only invocations queued before it, and none of these calls deadlocks or touches freed memory in any order of signal, connection and pending invocation ending.",
 ["schedules","programs","histories"],"all interleavings of emits, queued/running invocations, concurrent disconnects through different objects, skip_all, and destruction of signal and connections in any order",
 "tests disconnect sequentially; races with running invocations, two concurrent disconnects and destruction orders are not reached",
 ["src/signals.cpp","include/xdispatch/signals.h","src/cancelable.cpp"],
 [("handler disable waits for the running call","src/cancelable.cpp disable"),("handler list protected by the signal lock","src/signals.cpp disconnect")])
p("C14","Barriers open exactly when completed; values are of the raise that opened it",
 "barrier_operation::wait and signal_barrier::wait return true only after the operation ran or the signal was raised, return (true) whenever that happens - also for any number of concurrent waiters and regardless of when they start waiting - and return false only after the timeout elapsed; has_passed agrees with them and never reverts. signal_barrier::values yields exactly the arguments of the raise that opened it after construction, throws before, and never changes afterwards; barriers may be destroyed as soon as a wait returned.",
 ["schedules","programs","inputs"],"all interleavings of completion with several waiters, timeouts (0, finite, infinite), raises and destruction",
 "the lock-free hand-over between completing and first waiter has windows of a few instructions which tests hit by luck only",
 ["src/lightweight_barrier.cpp","src/barrier_operation.cpp","include/xdispatch/signals_barrier.h"],
 [("compare-exchange of waiter pointer","src/lightweight_barrier.cpp")])
p("C15","waitable_queue: serial, and waits neither deadlock nor return early",
 "A waitable_queue executes every operation exactly once, in submission order and without overlap, on its inner queue or on a waiting thread. wait_for_all returns only when all operations queued before the call completed; wait_for_one returns immediately if nothing is queued and otherwise only after an operation completed that no earlier wait accounted for; neither deadlocks, even if the inner queue never gets a thread or several threads wait at once.",
 S,"all programs of async/apply/after/wait_for_one/wait_for_all by several threads, inner queue kinds incl. starved ones, under all interleavings",
 "the single test queues a few operations and waits once; stealing by a waiter racing with the queue's own thread is timing dependent",
 ["src/waitable_queue.cpp"],
 [("active flag plus condition variable; waiter drains itself","src/waitable_queue.cpp drain_one/wait_for_one/wait_for_all")])
p("C16","Blocked operations never starve queued work of spare threads",
 "As long as fewer operations are executing than the pool has threads - its configured size plus one for each operation currently blocked in group::wait or apply or occupied by a timer or notifier - a queued global-queue operation starts without waiting for any running one to finish. So operations waiting for each other through the library make progress at any nesting depth, also right after idle threads were woken or expired.",
 ["schedules","programs","configurations"],"all pool sizes and nesting/blocking patterns under all interleavings of submissions with workers going idle, waking and expiring",
 "tests run on machines with many cores where spare threads exist; starvation needs a full pool or an idle thread just being woken",
 ["src/naive/naive_threadpool.cpp","src/naive/naive_semaphore.cpp","include/xdispatch/backend_naive_ithreadpool.h","src/naive/naive_consumable.cpp"],
 [("schedule(): wake an idle thread or spawn a new one","src/naive/naive_threadpool.cpp schedule"),("block_scope adjusting the thread limit","include/xdispatch/backend_naive_ithreadpool.h")])
p("C17","Operations run where they were sent",
 "Operations, handlers and notifications run in the place their queue stands for: main queue operations only on the thread inside exec(), global and serial queue operations only on library pool threads, operations of a queue over a custom pool only when that pool runs the work items it was given - with the queue's own priority -, and async never runs the operation inside the call. Timer, notifier, signal, after and notify callbacks follow their target queue in the same way.",
 ["programs","schedules","configurations"],"all programs mixing queue kinds and objects targeting them",
 "tests check the thread identity for the main queue and one serial queue only",
 ["src/naive/naive_serial_queue.cpp","src/naive/naive_parallel_queue.cpp","src/naive/naive_manual_thread.cpp","src/backend.cpp","src/naive/naive_timer.cpp","src/naive/naive_group.cpp"],
 [("queue implementations forwarding to their pool","src/naive/naive_parallel_queue.cpp, naive_operation_queue.cpp")])
p("C18","A free pool thread picks the highest pending priority first",
 "Whenever a pool thread picks its next operation, it picks one of the highest priority class (interactive, initiated, default = utility, background) among those whose submission had completed before the pick started. Serial queues and queues over a custom pool pass on the priority they were created with.",
 ["schedules","programs","configurations"],"all mixes of priorities and submission times on saturated pools of any size, under all interleavings",
 "tests flood the pool and compare averages; a swapped class or skipped bucket only shows in specific mixes",
 ["src/naive/naive_threadpool.cpp","src/naive/naive_operation_queue.cpp","src/naive/naive_parallel_queue.cpp","src/backend.cpp"],
 [("bucket scan from the highest class","src/naive/naive_threadpool.cpp worker::run"),("priority to bucket mapping","src/naive/naive_threadpool.cpp execute")])
p("C19","Legal use never aborts, corrupts memory or hangs the library",
 "No sequence of documented calls - from any threads, in any interleaving, with handles and objects created and dropped at any time - trips an internal assertion, terminates the process, accesses freed memory, or leaves the library in a livelock or deadlock of its own threads.",
 ["schedules","programs","histories"],"all legal programs over the whole API (mixed objects) under all interleavings including spurious wake-ups and spurious compare-exchange failures",
 "an internal assertion on a racy snapshot or a missed wake-up needs particular interleavings; tests see one per run",
 ["src/naive/naive_threadpool.cpp","src/lightweight_barrier.cpp","src/naive/naive_consumable.cpp","src/signals.cpp","src/naive/naive_operation_queue.cpp"],
 [("always-on assertions on pool and consumable counters","src/naive/naive_threadpool.cpp schedule, src/naive/naive_consumable.cpp")])
p("C20","Mixing backends is refused with logic_error, never half-done",
 "Constructing a timer or socket_notifier from an implementation of another backend than its target queue's throws std::logic_error, and so does submitting to or notifying a non-naive group with a queue of another backend; a naive group accepts queues of any backend. A refused call has no effect: nothing is queued, tracked or started, and all objects involved keep working.",
 ["configurations","programs"],"all combinations of backend types of implementation and target, for every API that combines two objects",
 "no test mixes backends, as the process would not survive it",
 ["src/trace_utils.cpp","src/timer.cpp","src/socket_notifier.cpp","src/group.cpp","src/backend.cpp"],
 [("backend comparison","src/trace_utils.cpp assert_same_backend")])
p("C21","Qt-backed queues keep the queue guarantees",
 "A serial queue over a QThread runs its operations once, in order, without overlap, only on that thread; a parallel queue over a QThreadPool runs each once on that pool, passing on its priority order, and lets further operations run while some are blocked in group::wait or apply. Dropping the handles while operations are queued or running loses nothing and frees nothing too early.",
 ["schedules","programs","configurations"],"all programs over qt5 queues, pool sizes and moments of dropping handles, under all interleavings",
 "the Qt tests run the common queue tests on one default pool with many threads and keep the handles alive",
 ["src/qt5/qt5_serial_queue.cpp","src/qt5/qt5_parallel_queue.cpp","src/qt5/qt5_threadpool.cpp","src/qt5/fallback_qt5_backend.cpp"],
 [("ThreadProxy posting events to the thread","src/qt5/qt5_serial_queue.cpp"),("ThreadPoolProxy wrapping operations in QRunnables","src/qt5/qt5_threadpool.cpp")])
p("C22","Connections bound to a QObject end with it",
 "A handler connected through the Qt helper with a receiver QObject is called like any other connection while the object lives, and is never running nor called again once the object's destructor completed; disconnecting from a signal through the object ends exactly the connections between these two. Several connections, signals and objects do not affect each other.",
 ["schedules","programs","histories"],"all interleavings of emits with destruction of the receiver, of the signal, and explicit disconnects",
 "the Qt tests destroy objects in a quiet moment",
 ["include/xdispatch/backend_qt.h","src/qt5/qt5_signals.cpp","src/qt5/qt5_signals.h","src/signals.cpp"],
 [("connection manager as child object of the receiver","src/qt5/qt5_signals.h")])
p("C23","Custom thread pools are told when their threads block",
 "While an item runs which a pool implemented outside the library passes to ithreadpool::run_with_threadpool, ithreadpool::current() is that pool on this thread, and afterwards what it was before, also when such runs nest. Each time the running operation blocks in group::wait or apply, this pool and no other is told that the thread is blocked and then, before the call returns, that it no longer is: strictly paired, on the same thread, and never once without a wait.",
 ["schedules","programs","configurations"],"all nestings of operations over several custom pools, waits and applies, under all interleavings",
 "the tests have one custom executor which ignores these notifications; a pool which adds threads by them deadlocks or grows for ever when one is lost or doubled",
 ["include/xdispatch/backend_naive_ithreadpool.h","src/naive/naive_threadpool.cpp","src/naive/naive_consumable.cpp","src/naive/naive_group.cpp","src/qt5/qt5_threadpool.cpp"],
 [("consumable marking the pool blocked while it waits","src/naive/naive_consumable.cpp"),("current pool as thread local saved and restored","src/naive/naive_threadpool.cpp run_with_threadpool")])
import os
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
