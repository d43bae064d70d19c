#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))

prop("C01","A future completes once, and every thread sees the same final outcome",
 "A future leaves the pending state at most once: the first resolve, reject or cancel wins, every later attempt is ignored, and status, value and error never change afterwards. Any thread that reads a completed future gets that one outcome, with a fully formed value or error of the kind the winner supplied.",
 ["schedules","inputs"],"any number of threads racing to resolve, reject or cancel one future with any value type or error, and any readers polling it at any point of the race",
 "Tests complete a promise once from one thread; the race between two completers or between a completer and a reader never occurs in them.",
 ["src/dex-future.c","src/dex-promise.c","src/dex-cancellable.c","src/dex-static-future.c"],
 [("status transition under the object lock","src/dex-future.c:dex_future_complete"),("locked readers","src/dex-future.c:dex_future_get_value")],
 [("status/resolved/rejected","pending or the final outcome","DexFuture")],["dex_future_get_status","dex_future_get_value"])
prop("C02","Every dependent of a future hears about its completion exactly once",
 "A future attached as a dependency before, during or after the completion of another future is notified of that completion exactly once, no matter how attaching, completing and dropping of other dependents interleave. No dependent is left pending forever once its dependency has completed, and none is notified twice.",
 ["schedules","histories"],"any interleaving of threads that attach dependents (blocks, sets, awaits), drop other dependents and complete the dependency",
 "Tests attach all dependents first, then complete from the same thread; the window between checking the status and queueing the dependent is never hit.",
 ["src/dex-future.c","src/dex-block.c","src/dex-future-set.c"],
 [("chain or propagate decided under one lock","src/dex-future.c:dex_future_chain"),("queue stolen at completion","src/dex-future.c:dex_future_complete")],
 [("chained","dependents still to notify","DexFuture")],["block callbacks","dex_await","dependents' status"])
prop("C03","then/catch/finally and loops compute the documented outcome",
 "A then callback runs exactly when its future resolves, a catch callback exactly when it rejects, a finally callback in both cases, and otherwise the outcome passes through unchanged; each non-loop callback runs once. If the callback returns a future the chain takes that future's outcome (a loop re-runs on it, until nothing is returned), and if it returns nothing the chain takes the outcome of the future it was given.",
 ["schedules","inputs","programs"],"any chain of blocks of any kinds and depth over futures that complete before, during or after the chain is built, on any thread, with callbacks returning nothing, completed or still pending futures",
 "Tests build a few fixed chains on one thread; deep chains, loops and completion from another thread at every point of the construction are not sampled.",
 ["src/dex-block.c","src/dex-future.c"],
 [("kind test and single handling","src/dex-block.c:dex_block_propagate"),("adoption of the returned future","src/dex-block.c:dex_block_propagate_within_scheduler_internal")],
 [("handled/awaiting","whether the callback ran and what is adopted","DexBlock")],["callback log","final status of the chain"])
prop("C04","Callbacks run on the scheduler that created them, and release their data once",
 "A callback attached on the main thread always runs on the main thread, and one attached on a pool worker or from a fiber runs on a thread of that pool, never on the thread that happened to complete the future. The data given with a callback is released exactly once, after the last call of the callback, also when the callback never runs.",
 ["schedules","configurations"],"any assignment of attaching and completing to main thread, plain threads, pool workers and fibers, with both I/O backends and any number of workers",
 "Tests complete and attach on one thread, so the synchronous path is always taken and a wrong thread cannot show.",
 ["src/dex-block.c","src/dex-scheduler.c","src/dex-main-scheduler.c","src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c"],
 [("scheduler captured at construction","src/dex-block.c:dex_block_new"),("same-scheduler test before a synchronous call","src/dex-block.c:dex_block_propagate")],
 [("scheduler","where callbacks run","DexBlock")],["g_thread_self and thread-default scheduler inside callbacks","destroy notifies"])
prop("C05","Future sets reach the documented outcome under any completion order",
 "'first' takes the outcome of a member that completed, 'any' resolves with the value of a resolved member if some member resolves and rejects only when all reject, 'all-race' rejects with a rejected member's error if some member rejects and resolves only when all resolve, and 'all' completes only when every member has completed, rejecting if every member rejected and resolving if every member resolved. The set always completes once its members have decided it, and exposes each member's own outcome at its position.",
 ["schedules","inputs"],"any number of members (1 to 20) in any state, completed by any number of threads in any order while the set is being built or used",
 "Tests complete the members one by one from one thread; two members completing at the same time on two threads is what decides the outcome.",
 ["src/dex-future-set.c"],
 [("counting under the lock, then completing","src/dex-future-set.c:dex_future_set_propagate")],
 [("n_resolved/n_rejected","members that completed","DexFutureSet")],["dex_future_get_value of the set","dex_future_set_get_value_at"])
prop("C06","Work is cancelled when its last consumer goes away, and never before",
 "When every consumer that awaited a cancellable operation has been dropped or has completed without it, the operation is asked to cancel. As long as at least one live consumer still awaits the operation it is not asked to cancel, whatever happens to the other consumers.",
 ["schedules","histories"],"any number of consumers (sets) over shared operations (promises with a cancellable, async pairs, timeouts), dropped or completed in any order from any threads",
 "The one existing test has a single consumer and a single thread, so it cannot see whether other consumers are respected.",
 ["src/dex-future.c","src/dex-future-set.c","src/dex-promise.c","src/dex-async-pair.c","src/dex-timeout.c"],
 [("discard looks for other awaiting dependents","src/dex-future.c:dex_future_discard"),("cancel on discard","src/dex-promise.c:dex_promise_discard")],
 [("awaiting","dependents still interested","DexChainedFuture")],["GCancellable of the operation","status of the remaining consumers"])
prop("C07","Objects are finalised exactly once, and weak references never dangle",
 "An object is finalised exactly once, after its last reference is gone, whatever threads take and drop references or turn weak references into full ones. Obtaining an object from a weak reference yields either nothing or an object that is alive and stays alive while held, and operations on weak references never block forever.",
 ["schedules","histories"],"any interleaving of referencing, dropping, and getting, setting and clearing weak references by several threads, including the object dying meanwhile",
 "The thread tests run a few free-running threads with one access pattern; the interleavings that matter span a few instructions in two threads and are not sampled reliably.",
 ["src/dex-object.c","src/dex-object-private.h"],
 [("finalisation protocol with weak references","src/dex-object.c:dex_unref"),("weak to full conversion","src/dex-object.c:dex_weak_ref_get")],
 [("ref_count/weak_refs","lifetime of the object","DexObject")],["finalizer count","pointer returned by dex_weak_ref_get"])
prop("C08","A fiber awaiting a future resumes once, with that future's outcome",
 "A fiber that awaits a future is suspended without blocking other fibers or sources of its thread, and resumes on the same thread, with its local state intact, once the future has completed and with exactly that outcome. No wakeup is lost: if every awaited future completes, every fiber runs to its end.",
 ["schedules","programs"],"any number of fibers on the main thread and pool workers awaiting promises, sets, timeouts, other fibers and channels that complete before, during or after the suspension, on any thread",
 "Tests await futures that complete on the same thread or after a timer; completion on another thread between the status check and the suspension is never reached.",
 ["src/dex-fiber.c","src/dex-fiber-context-private.h","src/dex-stack.c"],
 [("await chains the fiber and switches to the scheduler","src/dex-fiber.c:dex_fiber_await"),("runnable and blocked queues","src/dex-fiber.c:dex_fiber_propagate")],
 [("runnable/blocked","queues of one thread's fibers","DexFiberScheduler")],["dex_await results","canaries on the fiber stack","g_thread_self"])
prop("C09","A spawned fiber completes its future with what the fiber returned",
 "The future of a spawned fiber stays pending until the fiber function returns; it then takes the outcome of the future the function returned, including one still pending, and is rejected when the function returned nothing. The function runs exactly once on the scheduler it was spawned on, and data given to the spawn is released once, after the function returned.",
 ["schedules","programs","configurations"],"any number of fibers, spawned from the main thread, plain threads, pool workers and other fibers, with any stack size, returning completed, pending or no futures",
 "Tests spawn a handful of fibers from the main thread and return constants.",
 ["src/dex-fiber.c","src/dex-scheduler.c","src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c"],
 [("fiber start and result adoption","src/dex-fiber.c:dex_fiber_start"),("spawn","src/dex-scheduler.c:dex_scheduler_spawn")],
 [("result","outcome of the fiber","DexFiber")],["status of the fiber's future","entry log"])
prop("C10","Work pushed to a scheduler runs exactly once, on a thread of that scheduler",
 "Every function pushed to the main scheduler or a thread pool runs exactly once: none is lost, none runs twice, however many are queued, whoever pushes them (main thread, plain threads, workers, the pushed work itself) and whichever worker steals them. It runs on a thread that belongs to the scheduler, and all of it has run once the system is idle. Work on a pool, with the fibers, timeouts, I/O and channels it uses, goes on while the main loop does not turn.",
 ["schedules","inputs","configurations"],"any number of pushed items (0 to over 1,000, from any mix of threads), 1 to 4 workers, both I/O backends, any stealing pattern",
 "The push test queues a fixed number of items from one thread and cannot observe a rare double run or loss under stealing and growth of the queue.",
 ["src/dex-main-scheduler.c","src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c","src/dex-work-stealing-queue.c","src/dex-work-stealing-queue-private.h","src/dex-work-queue.c","src/dex-semaphore.c"],
 [("Chase-Lev deque","src/dex-work-stealing-queue-private.h"),("global queue with semaphore","src/dex-work-queue.c"),("idle dispatch","src/dex-main-scheduler.c")],
 [("top/bottom/buffer","items not taken yet","DexWorkStealingQueue")],["per-item run counters","thread identity"])
prop("C11","Shutting down a thread pool is orderly",
 "Dropping the last reference to a thread pool, from a thread that is not one of its workers, stops all its worker threads and returns; work that a worker had started is finished, no function runs twice, and nothing of the pool is used after it was released. The drop never hangs, whatever the workers are doing at that moment.",
 ["schedules","histories"],"any amount of queued, running and stealing work, pushed from outside or inside the pool, and any instant for the last drop",
 "Tests only drop an idle pool, with no work in flight.",
 ["src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c","src/dex-work-queue.c"],
 [("worker stop and join","src/dex-thread-pool-worker.c:dex_thread_pool_worker_finalize"),("set of workers","src/dex-thread-pool-worker.c:dex_thread_pool_worker_set_unref")],
 [("status of a worker","running or finishing","DexThreadPoolWorker")],["memory accesses to freed blocks","worker threads left","run counters"])
prop("C12","A channel delivers every item exactly once and in order",
 "Every future sent into a channel is received by exactly one receiver, and items are received in the order they were sent, whether receivers wait for senders or senders for receivers. What the receiver gets is the outcome of the future that was sent, also when that future completes only after it was received, and a batch receive returns queued items in order.",
 ["schedules","inputs","histories"],"any number of sender and receiver threads and fibers, any channel capacity, any mix of single and batch receives and of completed and pending items",
 "Tests run one sequence from one thread.",
 ["src/dex-channel.c"],
 [("queue and waiting receivers under one lock","src/dex-channel.c:dex_channel_send"),("handing over","src/dex-channel.c:dex_channel_one_receive_and_unlock")],
 [("queue/sendq/recvq","items and waiters","DexChannel")],["received values against a sequential model"])
prop("C13","Channel capacity bounds the queue and blocked senders always progress",
 "A send is acknowledged at once exactly when the channel has room, so acknowledged but unreceived items never exceed the capacity; a send beyond the capacity is acknowledged once receiving has made room, in order. Receiving, singly or in a batch, never leaves a sender blocked while there is room, nor a receiver waiting while an item is available.",
 ["schedules","inputs","histories"],"any capacity (1 to unlimited), any number of senders and receivers in any interleaving",
 "Tests use one fixed sequence on one thread, without a batch receive on a full channel.",
 ["src/dex-channel.c"],
 [("promotion from the send queue","src/dex-channel.c")],
 [("capacity/sendq","limit and blocked senders","DexChannel")],["status of send and receive futures against a model"])
prop("C14","Closing a channel settles every sender and receiver",
 "After the send side closes, items already sent are still received in order, then every receive is rejected as closed, and every later send is rejected. After the receive side closes or the channel is dropped, every waiting and later send and receive is rejected as closed; no send or receive future stays pending forever and nothing is delivered after it was rejected.",
 ["schedules","histories"],"any instant at which either side closes or the channel is dropped relative to any senders and receivers, and repeated closes",
 "Tests close an idle channel from the only thread.",
 ["src/dex-channel.c"],
 [("close and rejection of waiters","src/dex-channel.c:dex_channel_close_send"),("unset","src/dex-channel.c:dex_channel_unset_state_flags")],
 [("flags","which sides are open","DexChannel")],["status of send and receive futures"])
prop("C15","A semaphore releases exactly as many waiters as it was posted",
 "Each post lets exactly one wait succeed, now or later: no post is lost while a waiter is waiting, and no wait succeeds without a post. Closing or dropping the semaphore releases all remaining waiters, and neither posting, waiting nor closing blocks the calling thread.",
 ["schedules","histories","configurations"],"any number of posting, batch-posting and waiting threads, waiters that are dropped, and closing at any instant, with and without kernel event counters",
 "The test pairs one fixed number of posts with waits on free-running threads, for one backend.",
 ["src/dex-semaphore.c"],
 [("counter and waiter queue","src/dex-semaphore.c:dex_semaphore_post_many"),("event counter read","src/dex-semaphore.c:dex_semaphore_wait")],
 [("counter/waiters","posts and waits outstanding","DexSemaphore")],["status of wait futures"])
prop("C16","Timeouts fire after their delay, once, and not before",
 "A timeout is rejected as timed out once its delay has elapsed on the monotonic clock and never earlier, counted from the last postponement. It fires also when the clock jumps or its thread stalls, can be dropped at any time without firing, and an extremely long delay never fires early.",
 ["schedules","inputs","fault_sequences"],"any delays in any unit (0 to the largest), postponements, drops and discards at any instant, stalled threads and late clocks",
 "Tests cannot choose the clock: they wait a short real delay and check only that it fired.",
 ["src/dex-timeout.c"],
 [("one source per timeout","src/dex-timeout.c:dex_timeout_new_deadline"),("postponement","src/dex-timeout.c:dex_timeout_postpone_until")],
 [("source","pending timer","DexTimeout")],["simulated time at rejection"])
prop("C17","Asynchronous I/O reports what the operation did, once",
 "Every asynchronous read or write performs its operation exactly once and its future completes exactly once: it resolves with the byte count the kernel reported, and the buffer and file hold exactly those bytes, or it rejects with the error the kernel reported. This holds for any order of completions and any number of operations in flight, failures of one operation never affect another, and operations keep completing while the callback of one of them iterates the main context.",
 ["schedules","fault_sequences","inputs","configurations"],"any set of concurrent reads and writes on files and event counters, from main thread and workers, on both backends, with short transfers, errors, interruption, delayed and reordered completions and full submission queues",
 "Tests run on the healthy kernel of one machine: no error, short transfer, reordering or full queue ever occurs.",
 ["src/dex-aio.c","src/dex-uring-aio-backend.c","src/dex-uring-future.c","src/dex-posix-aio-backend.c","src/dex-posix-aio-future.c"],
 [("submission and completion","src/dex-uring-aio-backend.c"),("threaded fallback","src/dex-posix-aio-backend.c")],
 [("queued/in flight","operations not submitted or completed","DexUringAioContext")],["simulated kernel's log of operations"])
prop("C18","Wrapped GIO operations deliver the operation's own outcome",
 "A future for a wrapped asynchronous operation completes exactly once, with the value or error the operation's finish function produced, and not before the operation called back. Dropping the last consumer that awaits it cancels the operation's cancellable, late completions are then harmless, and nothing the operation was given is leaked or released early.",
 ["schedules","fault_sequences","histories"],"any wrapped operation (streams, files, custom pairs of any value type) that completes immediately, later, on error, short, or after the future was dropped or cancelled",
 "Tests use a few successful operations; late completion after cancellation and failures at each point are not sampled.",
 ["src/dex-async-pair.c","src/dex-gio.c","src/dex-promise.c"],
 [("ready callback to completion","src/dex-async-pair.c:dex_async_pair_ready_callback"),("cancel on discard","src/dex-async-pair.c:dex_async_pair_discard")],
 [("cancellable","connection to the operation","DexAsyncPair")],["value of the future","log of the wrapped operation"])
prop("C19","An async result calls back exactly once, with the awaited outcome",
 "Exposing a future as a GIO asynchronous result calls the caller's callback exactly once, after the future completed and on the caller's main context, and propagating the result yields exactly that outcome (or the cancellation, if it was cancelled first). The result and the caller's objects stay alive until the callback returns and are released afterwards.",
 ["schedules","inputs"],"any future (completed or pending, resolved or rejected, of each supported type) completing on any thread before, during or after it is handed over, and cancellation at any instant",
 "Tests hand over futures that are already complete or complete on the same thread.",
 ["src/dex-async-result.c"],
 [("idle dispatch after completion","src/dex-async-result.c:dex_async_result_await"),("propagation","src/dex-async-result.c:dex_async_result_propagate_pointer")],
 [("future","the awaited outcome","DexAsyncResult")],["callback log and thread","propagated value"])
prop("C20","A cancellable future is rejected exactly when it is cancelled",
 "A future wrapping a cancellable stays pending until the cancellable is cancelled, by whatever thread and through whichever handle, and is then rejected as cancelled; one made from an already cancelled cancellable is rejected immediately. Cancelling and dropping the future in any order and from any threads never deadlocks, and no cancellation is lost.",
 ["schedules","histories"],"any threads cancelling the cancellable or the future, wrapping it, racing and dropping, including dropping from within a cancellation handler",
 "Tests cancel once, from the thread that owns the future.",
 ["src/dex-cancellable.c"],
 [("connection to the cancelled signal","src/dex-cancellable.c:dex_cancellable_new_from_cancellable")],
 [("cancelled_handler","connection id","DexCancellable")],["status of the future"])
prop("C21","A delayed future holds its outcome back until it is released",
 "A delayed future stays pending until it is released, even when the future behind it has completed, and after release it takes exactly that future's outcome: at once if it is already known, and as soon as it is known otherwise. Releasing never alters the future behind it, and releasing twice or dropping it unreleased is harmless.",
 ["schedules","histories"],"any order and any threads for completing the inner future, releasing, releasing again and dropping",
 "The test delays one already resolved future and releases it once.",
 ["src/dex-delayed.c"],
 [("release","src/dex-delayed.c:dex_delayed_release"),("holding back","src/dex-delayed.c:dex_delayed_propagate")],
 [("can_release/future","released, and what is behind","DexDelayed")],["status of the delayed and the inner future"])
prop("C22","Disowned work still runs to completion",
 "A future that is disowned is kept alive until it completes, with all its callbacks still run, and is released once it has completed. Disowning never cancels the work it stands for.",
 ["schedules","histories"],"any future (pending or complete, with or without further owners and dependents) disowned on any thread at any instant relative to its completion",
 "Tests do not disown pending futures that complete on another thread.",
 ["src/dex-future.c"],
 [("finally block that owns itself","src/dex-future.c:dex_future_disown")],
 [],["callbacks run","finalizers run"])
prop("C23","Abandoning futures at any time is safe and leaks nothing",
 "Dropping the last reference to any future, set, chain, timeout, channel or delayed future, pending or complete, from any thread and at any instant never crashes, aborts or hangs the program. Once everything was dropped and outstanding work has finished, all objects, callback data and values are released, each exactly once.",
 ["schedules","histories","programs"],"any tree of blocks, sets, timeouts, delayed futures, cancellables and promises, dropped node by node in any order while any threads complete its leaves",
 "Tests complete what they create before dropping it.",
 ["src/dex-future.c","src/dex-block.c","src/dex-future-set.c","src/dex-timeout.c","src/dex-delayed.c","src/dex-object.c"],
 [("finalizers detach from dependencies","src/dex-block.c:dex_block_finalize"),("weak references to dependents","src/dex-future.c:dex_chained_future_new")],
 [],["destroy notifies, finalizers, aborts, accesses to freed memory"])
prop("C24","Thread pools come up correctly whatever the system's resources",
 "Creating a thread pool returns a pool whose workers are all ready to run work, under spurious wakeups and any startup order of its threads. If I/O rings or event counters cannot be created for some or all workers, or a descriptor call is interrupted, the pool still runs all work pushed to it or the failure is reported; it never hangs or crashes.",
 ["fault_sequences","schedules","configurations"],"any pattern of failing ring set-ups and event-counter set-ups, spurious wakeups, and any startup interleaving, for 1 to 8 processors",
 "Ring set-up never fails and no spurious wakeup occurs on the machine that runs the tests.",
 ["src/dex-thread-pool-scheduler.c","src/dex-thread-pool-worker.c","src/dex-aio-backend.c","src/dex-uring-aio-backend.c","src/dex-posix-aio-backend.c","src/dex-semaphore.c"],
 [("set-up handshake","src/dex-thread-pool-worker.c:dex_thread_pool_worker_new"),("ring creation on the worker","src/dex-uring-aio-backend.c")],
 [("status of a worker","set-up phase","DexThreadPoolWorker")],["work items run","worker threads"])
prop("C25","A Unix signal future resolves once its signal is delivered",
 "A future for a Unix signal stays pending until that signal has been delivered and then resolves with the signal number, whatever thread the program is running at that instant. Each waiting future of that signal completes, and dropping one before the signal arrives leaves no trace.",
 ["schedules","histories"],"any number of futures for any supported signals, created, awaited and dropped on the main thread, and delivery at any instant",
 "The test raises one signal for one future while nothing else happens.",
 ["src/dex-unix-signal.c"],
 [("unix signal source","src/dex-unix-signal.c:dex_unix_signal_new")],
 [],["status of the future"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
