#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the entries stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "A future completes once and its result never changes",
  "A future leaves the pending state at most once, however many threads try to resolve, reject or cancel it at the same time. From then on every query from every thread reports the same status and the same value or error, and the results of the losing attempts are released without being observed or leaked.",
  ["schedules", "histories"], "every interleaving of 2-3 threads completing, cancelling, inspecting and releasing one future, and every order of completion attempts with every result type",
  "The tests complete each promise exactly once from one thread; they never race two completers or a completer with a reader.",
  ["src/dex-future.c", "src/dex-promise.c", "src/dex-cancellable.c"],
  [("status transition guarded by the object lock", "src/dex-future.c dex_future_complete"), ("locked getters", "src/dex-future.c dex_future_get_value, dex_future_get_status")],
  ["dex_future_get_status", "dex_future_get_value", "dex_future_is_pending/resolved/rejected"],
  [("status/resolved/rejected", "outcome of the future", "DexFuture in src/dex-future-private.h")])

p("C02", "No continuation is lost or run twice when attaching races completing",
  "A future that is derived from another future (by then/catch/finally, by a set, or by being waited for) is notified exactly once of the completion of its source, whether it was attached before, during or after that completion and on whichever thread. Its callback therefore runs exactly once and the derived future settles; releasing a derived future on one thread while its source completes on another neither crashes, deadlocks nor leaks.",
  ["schedules"], "every interleaving (bounded preemptions) of one completer with one or two threads attaching, reading or releasing derived futures",
  "Every test attaches continuations and completes the source from the same thread, in one order.",
  ["src/dex-future.c", "src/dex-block.c", "src/dex-object.c"],
  [("chain list swapped out under the same lock as the status change", "src/dex-future.c dex_future_complete, dex_future_chain"), ("weak back references from source to derived future", "src/dex-future.c DexChainedFuture, src/dex-object.c")],
  ["callback invocation counts", "status of the derived future", "object finalization"])

p("C03", "then/catch/finally route results and callbacks as documented",
  "A then callback runs only when its source resolves, a catch callback only when it rejects and a finally callback in both cases; when the callback does not apply, or returns nothing, the derived future takes the source's result unchanged, and when it returns a future the derived future takes that future's result. Loop variants keep calling the callback for each further matching result until one does not match or the callback returns nothing. The callback's closure data is destroyed exactly once, never before the last call.",
  ["programs", "inputs"], "every chain of up to 3 blocks over {then, catch, finally, and the loop variants} x every callback answer {nothing, resolved, rejected, pending then resolved, pending then rejected} x every source outcome and every moment of completion",
  "Tests cover one chain catch->then->finally over an already rejected source.",
  ["src/dex-block.c", "src/dex-future.c"],
  [("kind test and handled flag", "src/dex-block.c dex_block_handles, dex_block_propagate"), ("chaining to the future returned by the callback", "src/dex-block.c dex_block_propagate_within_scheduler_internal")],
  ["callback log", "status and value of the last future in the chain", "closure destroy notifications"])

p("C04", "Callbacks run only on the scheduler where they were attached",
  "The callback of a then/catch/finally continuation runs only on the thread of the scheduler that was the thread default where it was attached, whichever thread completes the source and even if it is completed concurrently with attaching. A continuation attached from a thread pool worker runs on that worker's thread, and one attached on the main scheduler runs on the thread iterating the main loop. One attached by a thread without a scheduler still runs exactly once.",
  ["schedules", "configurations"], "every interleaving of an attaching scheduler thread (main or thread pool worker) and a completing thread",
  "No test records the thread on which a callback ran.",
  ["src/dex-block.c", "src/dex-scheduler.c", "src/dex-main-scheduler.c", "src/dex-thread-pool-worker.c"],
  [("scheduler captured when the block is created; deferred push when another scheduler completes it", "src/dex-block.c dex_block_new, dex_block_propagate")],
  ["thread identity inside callbacks"])

p("C05", "Reference and weak reference operations are atomic and finalize once",
  "An object is finalized exactly once, when and only when its last strong reference is released. Converting a weak reference yields either a usable object or nothing, never an object being destroyed; and no interleaving of taking, releasing, weak-referencing, re-targeting and clearing weak references on several threads leaks the object, frees it early or twice, or deadlocks.",
  ["schedules"], "every interleaving up to the preemption bound of 2-3 threads each doing 1-3 of ref, unref, weak get, weak set, weak clear on one or two objects",
  "The stress test samples interleavings with random sleeps; the windows between the decrement and the weak-reference locks are a few instructions wide.",
  ["src/dex-object.c", "src/dex-object-private.h"],
  [("atomic reference count", "src/dex-object.c dex_ref, dex_unref"), ("weak reference list guarded by object and weak reference mutexes", "src/dex-object.c dex_weak_ref_get, dex_weak_ref_set, dex_unref")],
  ["finalize count", "result of weak reference conversion", "deadlock detection"],
  [("ref_count", "strong references", "DexObject"), ("weak_refs", "registered weak references", "DexObject")])

p("C06", "Cancellation reaches an operation only when nobody waits for it",
  "When the last party interested in a pending operation loses interest (its derived future is released, or a set that contained it has settled) the operation is told to cancel, exactly when it supports it. As long as at least one other party is still waiting, or the future was disowned, the operation is never cancelled, and its result still reaches those parties.",
  ["histories", "schedules"], "every order of attaching and dropping up to 3 interested parties of different kinds around a cancellable operation, plus completion racing with the last drop",
  "One test drops a single waiter by settling a set; no test has two waiters, a disowned future, or a race.",
  ["src/dex-future.c", "src/dex-future-set.c", "src/dex-async-pair.c", "src/dex-promise.c", "src/dex-block.c"],
  [("awaiting flag of each chained entry and class discard hook", "src/dex-future.c dex_future_discard, dex_future_disown"), ("sets discard members when they settle or die", "src/dex-future-set.c dex_future_set_propagate, dex_future_set_finalize")],
  ["state of the operation's GCancellable", "results delivered to remaining waiters"])

p("C07", "Future sets settle exactly as all/any/first/all-race promise",
  "A set over N futures settles as documented for every outcome vector and completion order: 'first' with the first completion, 'any' with the first resolution or a rejection once all have rejected, 'all-race' with the first rejection or success once all have resolved, and 'all' never before every member has settled, resolving to true when all resolved. Members, their number, order and individual results stay retrievable through the set, for both the variadic and the array constructors and any N.",
  ["inputs", "histories"], "N from 1 to 4 (20 for construction) x 4 set kinds x 2 constructors x every assignment of outcomes x every order of completion, including members completed before construction and repeated members",
  "Tests fix N to 2 or 3 with all members rejecting in index order.",
  ["src/dex-future-set.c", "src/dex-future.c"],
  [("resolved and rejected counters with propagate flags", "src/dex-future-set.c dex_future_set_propagate"), ("growing member array", "src/dex-future-set.c dex_future_set_new_va, dex_future_set_new")],
  ["status and value of the set after each step", "dex_future_set_get_size, dex_future_set_get_future_at, dex_future_set_get_value_at"])

p("C08", "Future sets stay correct when members complete on different threads",
  "When members of a set complete concurrently on different threads, the set settles exactly once with an outcome that some sequential order of those completions would give: 'any' never rejects if a member resolved, 'all-race' never resolves if a member rejected, 'all' settles only after every member did, and the set always settles. Nothing crashes, leaks or deadlocks, also when the set is released meanwhile.",
  ["schedules"], "every interleaving up to the preemption bound of 2-3 threads completing members with every mix of outcomes, optionally racing with release of the set",
  "All set tests complete members sequentially from one thread.",
  ["src/dex-future-set.c", "src/dex-future.c"],
  [("counters updated under the set's lock", "src/dex-future-set.c dex_future_set_propagate"), ("first completion wins", "src/dex-future.c dex_future_complete")],
  ["status and value of the set after all threads have finished"])

p("C09", "A delayed future passes its source's result only after release",
  "A delayed future stays pending until it is released, however early its source completes, and then settles with exactly the source's result. If released first it settles with the source's result as soon as the source completes; release is idempotent, and neither releasing nor dropping it ever alters the source future.",
  ["histories", "schedules"], "every order of {source resolves/rejects, release, second release, drop} and every interleaving of release with completion on two threads",
  "The test uses an already resolved source and one release.",
  ["src/dex-delayed.c"],
  [("source result captured when it completes, forwarded on release", "src/dex-delayed.c dex_delayed_propagate, dex_delayed_release")],
  ["status and value of the delayed and the source future"])

p("C10", "Channels deliver every item once, in order, within capacity",
  "For every sequence of channel operations, items are received exactly once and in the order they were sent; a send future resolves exactly when its item has entered the bounded buffer, and stays pending while the buffer is full. Closing the send side still lets queued items be received and rejects receivers that can never be served; closing the receive side rejects outstanding receivers and blocked senders; receiving everything at once yields exactly the buffered items and frees their capacity for blocked senders.",
  ["histories"], "every sequence up to depth 6-7 over {send, receive, receive all, close send, close receive, drop} for capacities unlimited, 1 and 2, each followed by a full inspection against a reference queue",
  "Two fixed sequences are tested; receive-all has no test at all.",
  ["src/dex-channel.c"],
  [("three queues: buffered items, blocked senders, waiting receivers", "src/dex-channel.c dex_channel_send, dex_channel_one_receive_and_unlock, dex_channel_receive_all"), ("state flags and queue truncation on close", "src/dex-channel.c dex_channel_unset_state_flags")],
  ["status and value of every send, receive and receive-all future", "dex_channel_can_send, dex_channel_can_receive"])

p("C11", "Channels are linearizable under concurrent senders and receivers",
  "When several threads send to, receive from and close one channel concurrently, the outcome of every operation equals that of some sequential order of those operations consistent with their real-time order: no item is lost or duplicated, per-sender order is preserved and no operation is left pending that such an order would have settled. No interleaving deadlocks or leaks.",
  ["schedules"], "every interleaving up to the preemption bound of 2-3 threads with 1-2 channel operations each, checked against all sequential orders",
  "Channels are only tested from a single thread or from fibers of a single thread.",
  ["src/dex-channel.c"],
  [("object lock around queue manipulation, completion outside the lock", "src/dex-channel.c")],
  ["results of all send and receive futures after quiescence"])

p("C12", "Semaphore posts and waits balance: no token lost or invented",
  "For the counting semaphore that feeds worker threads, the number of satisfied waits always equals the smaller of the tokens posted and the waits made, whatever thread posts or waits and in whatever order, and a satisfied wait is delivered on the waiting thread's scheduler. Closing or releasing it rejects every outstanding wait.",
  ["schedules", "histories"], "every sequence of post/post-many/wait/close to depth 5, and every interleaving up to the preemption bound of concurrent posters and waiters, for the lock-based and for the eventfd implementation",
  "The stress test samples schedules for 3 seconds and sleeps in between.",
  ["src/dex-semaphore.c"],
  [("counter and waiter queue under one lock", "src/dex-semaphore.c dex_semaphore_post_many, dex_semaphore_wait"), ("eventfd semaphore with asynchronous read", "src/dex-semaphore.c")],
  ["status of wait futures", "counter balance"])

p("C13", "Work stealing hands out every pushed item exactly once",
  "Every item pushed by the owner of a work stealing queue is obtained exactly once, by the owner's pop or by one thief's steal, with no item lost, duplicated or torn, for every interleaving and for every execution allowed by the language's memory model. This includes growth of the queue while thieves are active and the race for the last element; the owner pops in LIFO order and thieves steal in FIFO order.",
  ["schedules"], "every execution of an owner (push/pop sequences crossing a resize) with one or two thieves up to the preemption bound, under sequential consistency and under a C11 release/acquire/relaxed memory model with store visibility choices",
  "No test drives the queue directly; hardware on x86 hides most reorderings.",
  ["src/dex-work-stealing-queue.c", "src/dex-work-stealing-queue-private.h"],
  [("Chase-Lev deque with fences", "src/dex-work-stealing-queue-private.h push, pop, steal"), ("retired arrays kept until the queue dies", "src/dex-work-stealing-queue-private.h garbage")],
  ["multiset of items returned by pop and steal"])

p("C14", "Thread pool runs every pushed item exactly once and shuts down cleanly",
  "Every work item pushed to a thread pool scheduler, from outside or from one of its own workers, runs exactly once on one of its worker threads, and items pushed from a worker to itself are not lost whatever their number. Releasing the scheduler terminates and joins its workers without crashing, deadlocking or touching freed memory.",
  ["schedules", "inputs"], "every interleaving up to the preemption bound of pushing threads with 1-2 workers, creation and teardown included; and every burst size around the internal queue capacities",
  "Tests push one item to a pool that is never torn down and spawn fibers on another; scheduling of workers is left to chance.",
  ["src/dex-thread-pool-scheduler.c", "src/dex-thread-pool-worker.c", "src/dex-work-queue.c", "src/dex-work-stealing-queue.c"],
  [("global work queue with semaphore, per worker stealing queues", "src/dex-thread-pool-scheduler.c, src/dex-thread-pool-worker.c"), ("setup handshake and teardown", "src/dex-thread-pool-worker.c dex_thread_pool_worker_new, dex_thread_pool_worker_finalize")],
  ["per-item run counts", "thread identity", "termination"])

p("C15", "Main scheduler runs every pushed item once, in order, without missed wakeups",
  "Every work item pushed to a main scheduler from any thread runs exactly once on the thread that iterates its main context, items pushed by one thread run in push order, and a main loop blocked waiting for events always wakes up to run them. Work pushed while earlier work is being dispatched is not lost, and a scheduler released with work still queued does not crash or leak its resources.",
  ["schedules"], "every interleaving up to the preemption bound of 1-2 pushing threads with a loop that iterates and blocks, including work that pushes more work",
  "The test pushes one item before entering the loop.",
  ["src/dex-main-scheduler.c", "src/dex-scheduler.c"],
  [("queue under the object lock plus context wakeup", "src/dex-main-scheduler.c dex_main_scheduler_push, dex_main_work_queue_dispatch")],
  ["execution log of work items", "blocked poll with pending work"])

p("C16", "A suspended fiber resumes exactly once with the awaited result",
  "A fiber that awaits a pending future is suspended and resumes exactly once, on the same thread, after that future completes, with that future's value or error; this holds wherever and whenever the future is completed, in particular between the check and the suspension. The fiber's own future settles with what the fiber returned (after awaiting it), or rejects with a fiber-exited error if it returned nothing; awaiting outside a fiber fails with an error instead of blocking.",
  ["schedules", "programs"], "every interleaving up to the preemption bound of fibers on the main or a pool scheduler with threads completing the awaited futures; every sequence of up to 3 awaits over {completed, pending, rejected} futures by up to 3 fibers",
  "Tests run fibers on one thread with no external completer, or 10000 fibers with one sampled schedule.",
  ["src/dex-fiber.c", "src/dex-scheduler.c", "src/dex-future.c"],
  [("runnable and blocked queues under the fiber scheduler mutex; wakeup of the owning main context", "src/dex-fiber.c dex_fiber_await, dex_fiber_propagate, dex_fiber_scheduler_iteration")],
  ["log of resumptions with thread and value", "status of the fiber's future"])

p("C17", "Cancelled fibers observe cancellation and keep a consistent state",
  "When nobody is interested in a fiber's result any more, the fiber is marked cancelled: its next wait fails with a fiber-cancelled error instead of suspending indefinitely, and the fiber still runs to its end and releases its resources. Marking a fiber cancelled from another thread at any moment never corrupts its scheduling state, loses it, or runs it twice.",
  ["schedules", "histories"], "every point of dropping the fiber relative to its waits (before start, while running, while suspended, after exit), from the same and from another thread",
  "No test cancels a fiber.",
  ["src/dex-fiber.c"],
  [("cancelled flag checked when awaiting", "src/dex-fiber.c dex_fiber_discard, dex_fiber_await")],
  ["error returned by the await in the fiber", "fiber progress log"])

p("C18", "Fiber stacks are usable, guarded and never shared by live fibers",
  "Every fiber gets a stack of at least the requested size that no other live fiber uses, bounded by an inaccessible guard page, and stack contents survive suspension. Finished fibers return their stack to be reused, the pool keeps only a bounded number of idle stacks, and all stacks are released with the scheduler.",
  ["histories", "inputs"], "every sequence up to depth 6 of acquire/release on pools with small limits, every requested size around page boundaries, and every spawn/await/exit order of up to 3 fibers with distinct stack sizes",
  "Tests use the default and the minimum size only and never look at the memory.",
  ["src/dex-stack.c", "src/dex-stack-private.h", "src/dex-fiber.c"],
  [("mapping with guard page; pool with min/max/mark", "src/dex-stack.c")],
  ["mapped ranges", "read/write/guard behaviour", "mmap/munmap balance"])

p("C19", "Timeouts reject once, not before their deadline",
  "A timeout future stays pending until its deadline and then rejects with a timed-out error on its scheduler; postponing moves the deadline, and a timeout raced against other futures never affects an already settled set. Discarding or releasing a timeout that has not fired removes its timer, and doing so on one thread while it fires on another never crashes, leaks or uses freed memory.",
  ["schedules", "histories"], "every sequence of create/advance time/postpone/discard/release to depth 5 under a virtual clock, and every interleaving of firing with discard and postpone",
  "One test with a deadline already reached.",
  ["src/dex-timeout.c"],
  [("timer source attached to the scheduler's main context with a weak reference to the future", "src/dex-timeout.c")],
  ["status and error against the virtual clock", "live timer sources"])

p("C20", "Cancellable futures reject exactly when cancelled",
  "A cancellable future is pending until cancelled and then rejects with a cancelled error, whether cancelled directly, through the GCancellable it wraps, from another thread or before creation. It never keeps a handler on the GCancellable after it completed or died, and cancelling while it is created, completed or released on another thread never crashes, deadlocks or leaks.",
  ["schedules", "histories"], "every sequence of create/cancel either side/release to depth 4 and every interleaving of cancel with create, cancel and release",
  "Tests cancel directly from one thread only; the GCancellable wrapper has no test.",
  ["src/dex-cancellable.c"],
  [("handler connected to the GCancellable with a weak reference to the future", "src/dex-cancellable.c")],
  ["status and error", "handlers left on the GCancellable"])

p("C21", "Unix signal futures resolve once per delivered signal and clean up",
  "A unix signal future resolves with its signal number after that signal is delivered while it is pending, and never for another signal or twice. Released before or after delivery it leaves no watch, future or memory behind.",
  ["histories"], "every sequence to depth 5 of create/deliver/iterate/release over two futures and two signals",
  "One delivery of one signal is tested, with no check on leftovers.",
  ["src/dex-unix-signal.c"],
  [("signal source with weak reference to the future", "src/dex-unix-signal.c")],
  ["status and value", "live objects and sources after release"])

p("C22", "Async pairs mirror the wrapped asynchronous call faithfully",
  "A future created from an asynchronous begin/finish pair settles exactly once with the value of the declared type that the finish function returned, or rejects with exactly the error it reported, and owns what it received without leaks or double frees. Discarding it cancels the operation unless this was disabled, a callback that arrives afterwards is harmless, and an unsupported value type rejects instead of crashing.",
  ["inputs", "histories"], "every supported result type x {value, null, error} x {synchronous, later, cancelled before completion, released before completion} x cancel-on-discard on/off",
  "Each type is tested once on the success path; errors only for one type; no cancellation or leak check.",
  ["src/dex-async-pair.c"],
  [("ready callback translating finish results into values", "src/dex-async-pair.c dex_async_pair_ready_callback"), ("cancellable owned by the pair", "src/dex-async-pair.c dex_async_pair_discard")],
  ["status, value, error", "cancellable state", "reference balance of objects and boxed values"])

p("C23", "Async results invoke their callback once with the awaited result",
  "An asynchronous result bound to a future invokes its ready callback exactly once, in the main context where it was created, and propagating it then yields exactly the future's value, or its error, whatever thread completes the future and whether it was complete beforehand. Cancelling its cancellable makes it report cancellation, and no object is leaked.",
  ["schedules", "inputs"], "every result type x {complete before, after, on another thread, never but cancelled} with every interleaving of completion and dispatch up to the preemption bound",
  "One test with an int resolved from the same thread.",
  ["src/dex-async-result.c"],
  [("completion scheduled as a source in the originating main context", "src/dex-async-result.c dex_async_result_await, dex_async_result_complete")],
  ["callback count, thread and context", "propagated value and error", "reference balance"])

p("C24", "GIO wrappers report exactly what the underlying operation returned",
  "Each GIO wrapper starts exactly the operation it names with the caller's arguments, and its future resolves with that operation's result or rejects with that operation's error, for every result including short reads and writes, end of file, zero, and every error. Results are owned exactly once, and discarding the future cancels the underlying operation.",
  ["inputs", "fault_sequences"], "every wrapper x {success with each shape of result, each of several errors, cancelled by discard} supplied by an environment that answers the GIO calls",
  "One wrapper of about thirty is tested, on its success path.",
  ["src/dex-gio.c", "src/dex-async-pair.c"],
  [("per-operation ready callbacks", "src/dex-gio.c"), ("typed return helpers", "src/dex-async-pair.c")],
  ["value, type and error of the future", "arguments seen by the operation", "state of its cancellable", "reference balance"])

p("C25", "Thread-pool file I/O returns what the system call returned",
  "With the portable backend, reading and writing at an offset or at the current position performs exactly that system call with the given arguments, and the future settles on the submitting context with the number of bytes (0 at end of file) or with the error of the failed call. No completion is lost or duplicated whatever thread performs the call, and the caller's context is woken.",
  ["schedules", "fault_sequences"], "every interleaving up to the preemption bound of submission, completion by pool threads and context iteration, for every answer of the system call (full, short, zero, several errors)",
  "No test performs asynchronous file I/O.",
  ["src/dex-posix-aio-backend.c", "src/dex-posix-aio-future.c", "src/dex-aio.c"],
  [("pool worker executes the call, completed queue drained by a source", "src/dex-posix-aio-backend.c"), ("result translation", "src/dex-posix-aio-future.c")],
  ["system calls seen by the environment", "value or error of the future", "blocked poll with completions pending"])

p("C26", "io_uring file I/O maps every completion to its request",
  "With the io_uring backend every submitted request is eventually submitted to the ring and its future settles exactly once with the result of its own completion: the byte count, or the error corresponding to the negative result code, in whatever order completions arrive and even when more requests are queued than the ring can hold. The read or write placed in the ring carries the caller's descriptor, buffer, length and offset. Rings are released with the scheduler they belong to, and kernels older than 6.1 use the portable backend.",
  ["fault_sequences", "schedules", "histories"], "every sequence to depth 9 of submit / complete / iterate over rings of 1 or 2 entries with every completion order, every result in {full, short, 0, ten errnos}, and every interleaving up to the preemption bound of submission by other threads and completion by the kernel",
  "No test performs asynchronous file I/O.",
  ["src/dex-uring-aio-backend.c", "src/dex-uring-future.c"],
  [("queue of requests flushed into the ring; completion queue walked by a source", "src/dex-uring-aio-backend.c"), ("result translation", "src/dex-uring-future.c")],
  ["entries seen by a model ring", "value or error of each future"])

p("C27", "Typed results and errors round-trip unchanged with exact ownership",
  "A value or error stored through any typed constructor or promise setter is returned unchanged by the generic getter and by the matching typed await; asking for a different type fails with a type error instead of returning garbage. Ownership is exact: transferred values are released once with the future, borrowed ones are copied.",
  ["inputs"], "every constructor, promise setter and typed await in the API x boundary values of its type x matching and mismatching awaits",
  "About five of the fifty entry points are exercised.",
  ["src/dex-future.c", "src/dex-promise.c", "src/dex-static-future.c"],
  [("typed GValue setters and checks", "src/dex-future.c, src/dex-promise.c")],
  ["value and error returned", "reference balance of objects, boxed types, strings and descriptors"])

p("C28", "Public operations are free of data races and lock-order deadlocks",
  "Operations that the API allows on different threads at the same time (completing, chaining, inspecting, discarding and releasing futures; using channels, schedulers, fibers, timeouts and sets) never perform conflicting unsynchronised accesses to the same memory and never block each other forever.",
  ["schedules"], "every pair and triple of concurrent public operations on a shared object, every interleaving up to the preemption bound, with happens-before race detection on every access of the library",
  "A race shows only under a detector and under the right schedule; the tests run without one.",
  ["src/dex-future.c", "src/dex-object.c", "src/dex-block.c", "src/dex-fiber.c", "src/dex-timeout.c", "src/dex-channel.c", "src/dex-future-set.c"],
  [("per-object mutexes and atomics", "src/dex-object-private.h dex_object_lock")],
  ["pairs of conflicting accesses unordered by happens-before", "states with no enabled thread"])

p("C29", "File descriptors handed to futures are owned and closed exactly once",
  "A promise resolved with a file descriptor owns a duplicate of its own and leaves the caller's descriptor alone; every copy of the value owns a further duplicate. Each of them is closed exactly once, when its last owner goes away, unless it was handed over by awaiting it: then exactly one of the awaiters, on whatever thread, owns it and nobody else closes it. Peeking, copying and awaiting another type never close or share a descriptor, and none is leaked on any path, including results that are never read or a second resolution that is ignored.",
  ["histories"], "every sequence to depth 5 of create/resolve/await/copy/steal/free/drop over descriptors, with open/close recorded",
  "No test touches descriptors.",
  ["src/dex-fd.c", "src/dex-promise.c", "src/dex-future.c"],
  [("boxed descriptor type with copy and free", "src/dex-fd.c")],
  ["close calls recorded per descriptor", "descriptor validity"])

p("C30", "Process-wide defaults exist once and every thread works with its own scheduler",
  "The default scheduler, the default thread pool, the shared boolean futures and the file I/O backend are created once however many threads ask for them first at the same time, and never change afterwards. On a thread with a scheduler, dex_scheduler_get_thread_default() names that scheduler in every item, fiber (before and after it was suspended) and continuation that runs there, its main context is the one this thread runs, and no two threads share one; on a thread without a scheduler it is NULL. Spawning on NULL and pushing to the default scheduler always run on the main thread.",
  ["schedules"], "every schedule up to the preemption bound of two threads asking first; of fibers, items and continuations on main, a pool of one or two workers, threads with and without a scheduler",
  "First-use races happen once per process, and a wrong thread-default shows only in work that moved.",
  ["src/dex-scheduler.c", "src/dex-thread-storage.c", "src/dex-thread-pool-scheduler.c", "src/dex-init.c", "src/dex-aio-backend.c", "src/dex-future.c"],
  [("one-time initialisation", "g_once_init_enter in src/dex-thread-pool-scheduler.c, src/dex-aio-backend.c, src/dex-future.c"), ("per-thread storage", "src/dex-thread-storage.c")],
  ["identity of defaults", "scheduler and context seen by running work"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
