#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for its text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": observe, "hook_needed": False}})

K="src/kern/"; L="src/lib/"
p("P01","Every task runs exactly once, isolated, and the system ends when all ended",
 "Every task handed to the scheduler runs its entry function exactly once, with the data it was given, whichever other tasks run, block, spawn, exit early or finish around it; asking to run a task that has not ended changes nothing. The local variables and identity of a task survive every switch, its state reads as running, waiting or stopped according to what it is doing, and its memory is released exactly once, after the last reference is gone. Running the system returns when and only when every task has ended, and it can then be filled and run again.",
 ["programs","schedules"],"any set of tasks with any priorities and stack sizes, any order of spawning, yielding, blocking, waking, early exit and reference taking",
 "tests run two or three tasks in one fixed order; a task skipped by the scheduler goes unnoticed because the asserts live inside the task",
 [K+"core/hev-task-system.c",K+"core/hev-task-system-schedule.c",K+"task/hev-task.c",K+"task/hev-task-executer.c",K+"task/hev-task-stack-mmap.c",K+"task/hev-task-stack-heap.c","src/arch/x86/hev-task-execute-x86_64.s"],
 [("run queue insert/remove/pick",K+"core/hev-task-system-schedule.c"),("first switch onto a new stack",K+"task/hev-task-executer.c"),("kill and release in scheduler context",K+"core/hev-task-system-schedule.c")],
 ["entry invocation log","task state queries","stack canaries in every task","return of the run call","allocation ledger"])
p("P02","A wakeup or a readiness event is never lost and never invented",
 "A task that waits becomes runnable again after any later explicit wakeup or after any later readiness change of a descriptor registered for it, no matter how many events arrive at once or what other tasks do in between. A waiting task is never resumed without such a cause; waking a task that is already runnable changes nothing. A registration can be modified, moved to another task or removed, and afterwards events go only where the latest registration says.",
 ["schedules","histories","fault_sequences"],"any sequence of registrations, modifications, removals, closes, wakeups and readiness edges, including interrupted waits and edges arriving in the same step as the block",
 "tests wait once on one pipe; the outcome depends on when the edge arrives relative to the block, on how many tasks have events together and on removal of registrations",
 [K+"core/hev-task-system-schedule.c",K+"io/hev-task-io-reactor.h",K+"io/hev-task-io-reactor-epoll.h",K+"io/hev-task-io-reactor.c",K+"task/hev-task.c"],
 [("edge-triggered registration",K+"task/hev-task.c"),("event poll and wake loop",K+"core/hev-task-system-schedule.c"),("wakeup insert",K+"core/hev-task-system-schedule.c")],
 ["resume log of every wait with its cause","simulated kernel readiness state at the end of the run"])
p("P03","No runnable task starves and smaller priority values get at least as many turns",
 "When no task of the top (real-time) priority is runnable, every runnable task gets a turn after a number of turns of others that is bounded by the number of live tasks, also while tasks keep blocking, waking, being created and changing priority. Among tasks that stay runnable, a task with a smaller priority value is given at least as many turns as one with a larger value, up to a bounded lag, and equal priorities share evenly. Pending I/O and timer events are noticed while tasks keep yielding.",
 ["programs","schedules"],"any mix of priorities, priority changes, yields, blocks, wakeups and spawns",
 "tests use few tasks and never count turns; starvation needs particular wake and spawn patterns over many turns",
 [K+"core/hev-task-system-schedule.c",L+"rbtree/hev-rbtree.c",L+"rbtree/hev-rbtree-cached.c"],
 [("key ageing on yield, wake and spawn",K+"core/hev-task-system-schedule.c"),("ordered run queue with cached minimum",K+"core/hev-task-system-schedule.c")],
 ["turn log: which task ran at every switch"])
p("P04","Sleeps end on time, never early, and report the time left truthfully",
 "A sleep reports that its time elapsed only if the requested time really passed (to the resolution of its unit), and a sleeper nobody interrupts is resumed promptly once its time passed, whatever other sleepers are added, interrupted or expire together. An interrupted sleep reports the time that is left, rounded down to its unit, and leaves the other sleepers' deadlines untouched. This holds for every duration the argument type can express and every clock reading.",
 ["schedules","inputs","histories","fault_sequences"],"any set of concurrent sleeps of any duration, interruptions by wakeups or I/O, clock positions, timer latency and stalls of the process",
 "tests sleep a few milliseconds with two tasks; early ends, lost re-arming and clock boundary cases depend on the interplay of many sleepers and exact clock values",
 [K+"time/hev-task-timer.c",K+"time/hev-task-timer-timerfd.h",K+"task/hev-task.c"],
 [("deadline computation",K+"time/hev-task-timer.c"),("leftmost re-arming",K+"time/hev-task-timer.c"),("unit conversion",K+"task/hev-task.c")],
 ["simulated clock before and after each sleep","return value of each sleep"])
p("P05","A task mutex admits one holder and never strands a waiter",
 "At most one task holds a task mutex at any time, and a try-lock succeeds exactly when no task holds it (also between a release and the moment a waiting task takes it). A task blocked on a mutex acquires it once every holder has released it and no new contender keeps taking it, even when blocked tasks are woken for unrelated reasons. Locking a free mutex does not block.",
 ["schedules","programs"],"any number of tasks and mutexes, any nesting in a fixed order, any yields inside critical sections, any unrelated wakeups of waiters",
 "the test has a few tasks contending once; lost handover needs a waiter arriving or woken between the release and the resumption of an earlier waiter",
 [K+"sync/hev-task-mutex.c",K+"sync/hev-task-mutex.h"],
 [("waiter stack and handover",K+"sync/hev-task-mutex.c")],
 ["holder counter per mutex","blocked task set at quiescence"])
p("P06","Condition waits return exactly for a signal or an elapsed timeout",
 "Waiting on a condition releases the mutex and holds it again on return; the wait returns success only because of a signal or broadcast issued after it began, and a timed wait fails only after its time has passed. Each signal ends exactly one pending wait if there is one, each broadcast ends all pending waits and none that begin later. Time-outs and unrelated wakeups of some waiters never cancel or lose the signals of others.",
 ["schedules","histories","inputs"],"any number of waiters and timed waiters, signals, broadcasts, time-outs and unrelated wakeups in any order",
 "the tests have one or two waiters and no interplay of time-outs with other waiters",
 [K+"sync/hev-task-cond.c",K+"sync/hev-task-cond.h"],
 [("waiter list push, pop, removal on timeout",K+"sync/hev-task-cond.c")],
 ["reference model: set of pending waits, signals consumed","simulated clock at time-outs"])
p("P07","Join returns success exactly when the joined task has ended",
 "Joining a task returns success only after that task has ended, and does return once it has ended in whatever way: by returning or by exiting early, before or after the join began, with any unrelated wakeups of either task. A second join on the same task while it is being joined is refused. The joined task's outcome is visible to the joiner, and the task's resources are released once both are done.",
 ["schedules","programs"],"any number of tasks and join relations without cycles, any way of ending, any wakeups",
 "the test joins one task that returns normally",
 [K+"task/hev-task.c",K+"task/hev-task-executer.c"],
 [("joiner registration and wake at exit",K+"task/hev-task.c"),("exit path",K+"task/hev-task-executer.c")],
 ["task state and completion flag at join return","blocked joiners at quiescence"])
p("P08","Channels deliver each message once, in order, intact, or report the close",
 "Each message a write reported as sent is received by exactly one read of the other end, in the order written and with its bytes intact (truncated only to the channel's message size and to the reader's buffer), in both directions independently. A write blocks only while the channel is full: without buffers until the message was taken, with N buffers only when N messages already wait, and a blocked reader or writer resumes once the other end made that possible. When an end is destroyed the other end first receives what was already buffered and then every read and write fails; nothing hangs and no memory is leaked or reused too early.",
 ["schedules","histories","inputs"],"any buffer count, message sizes (including empty and oversized), read sizes, interleavings of both ends, destruction at any point, unrelated wakeups, and the ends being used and destroyed by tasks other than earlier users",
 "the tests move a few fixed-size messages between two tasks at a fixed pace",
 [K+"itc/hev-task-channel.c",K+"itc/hev-task-channel-private.h"],
 [("ring indices and counts",K+"itc/hev-task-channel.c"),("full/empty wakeups",K+"itc/hev-task-channel.c"),("peer teardown",K+"itc/hev-task-channel.c")],
 ["message log of both ends against a queue model","blocked tasks at quiescence","allocation ledger"])
p("P09","A channel select returns a ready channel and misses none",
 "Selecting for read returns a channel of the set that has a message waiting; selecting for write returns a channel of the set whose buffers have room, so that the following read or write on it completes without blocking. A select with no ready channel returns as soon as one becomes ready, and empty-handed only after its time-out has passed. Adding and removing channels takes effect at once and works for channels that are already ready. A set disturbs no task outside a select call and may be used by one task after another.",
 ["schedules","histories"],"any number of channels with any buffer counts, any order of writes and reads by the peers, additions, removals and peer destruction between selects, any time-outs and unrelated wakeups",
 "the test drains one message at a time from prompt writers and never fills a buffered channel through select",
 [K+"itc/hev-task-channel-select.c",K+"itc/hev-task-channel-select-private.h",K+"itc/hev-task-channel.c"],
 [("ready lists",K+"itc/hev-task-channel-select.c"),("ready transitions in read and write",K+"itc/hev-task-channel.c")],
 ["queue model of every channel at each select return","simulated clock at time-outs"])
p("P10","Blocking-style I/O moves exactly the bytes it reports and always resumes",
 "A read, write or socket receive/send from a task behaves like the blocking call of the same name: it returns the bytes really transferred, in stream order without loss or duplication, end of stream as zero, and errors as -1 with the cause. A transfer asked to wait for everything returns short only at end of stream or error. A task blocked in such an operation resumes once the descriptor allows progress, and other tasks keep running meanwhile.",
 ["schedules","fault_sequences","inputs"],"any sequence of vectored and plain operations and sizes on pipes, sockets and files, any buffer capacities, short transfers, delays, half closes, resets, interrupted waits and I/O errors",
 "tests transfer a few bytes between prompt local peers; partial transfers at every offset, closes and errors at every point do not occur",
 [L+"io/basic/hev-task-io.c",L+"io/socket/hev-task-io-socket.c",L+"io/pipe/hev-task-io-pipe.c"],
 [("retry loop on would-block",L+"io/basic/hev-task-io.c"),("wait-for-all continuation and vector advance",L+"io/socket/hev-task-io-socket.c")],
 ["byte streams at the simulated descriptors against what callers were told","blocked tasks at quiescence"])
p("P11","Message sockets keep boundaries, addresses and ancillary data",
 "Each datagram received is one that was sent, whole (or cut to the buffer, as reported), together with the address of its sender and with the header fields the plain call would fill in. Ancillary data is passed exactly once with the message it belongs to. A blocked receiver or sender resumes once a message or room arrives, an error the socket reports is passed on to the caller once, and nothing is delivered twice unless the network duplicated it.",
 ["schedules","fault_sequences","inputs"],"any sizes, vectors, loss, duplication, reordering and delay of datagrams, errors and partial stream sends with ancillary data",
 "the test passes one fixed message over loopback; header fields, truncation and partial sends are not looked at",
 [L+"io/socket/hev-task-io-socket.c",L+"cio/socket/hev-task-cio-socket.c"],
 [("message header handling",L+"io/socket/hev-task-io-socket.c"),("bound/peer address of datagram CIO",L+"cio/socket/hev-task-cio-socket.c")],
 ["simulated network's message log against the caller's view"])
p("P12","Connect and accept report the true outcome and hand over usable sockets",
 "A connect from a task returns success exactly when the connection was established and otherwise fails with the cause, without blocking other tasks; an accept returns each established incoming connection exactly once, with the peer's address. Every descriptor the library creates for the caller (sockets, pairs, pipes, duplicates, opened files, accepted connections) is non-blocking, and when creation fails no descriptor is left behind.",
 ["schedules","fault_sequences"],"any delay and outcome of the handshake (established, refused, timed out, aborted), several clients and listeners, descriptor exhaustion and failing set-up calls",
 "tests connect once over loopback with success",
 [L+"io/socket/hev-task-io-socket.c",L+"io/basic/hev-task-io.c",L+"io/pipe/hev-task-io-pipe.c"],
 [("connect retry",L+"io/socket/hev-task-io-socket.c"),("accept and non-blocking set-up",L+"io/socket/hev-task-io-socket.c"),("non-blocking set-up and undo",L+"io/basic/hev-task-io.c")],
 ["simulated network's connection table","descriptor table flags"])
p("P13","Polling from a task answers like poll, on time",
 "Polling a set of descriptors from a task returns the number and kinds of ready descriptors that are true at return, returns at once with a zero time-out, returns once any of them becomes ready, and returns zero only after the time-out has passed. This holds for descriptors already ready, becoming ready during the wait, not pollable by event registration (files), invalid or negative, and for tasks woken for other reasons.",
 ["schedules","inputs","fault_sequences"],"any set of descriptors and event masks, time-outs and arrival times",
 "the test polls one pipe that is either ready or not",
 [L+"io/poll/hev-task-io-poll.c"],
 [("register, sleep, re-poll loop",L+"io/poll/hev-task-io-poll.c")],
 ["simulated readiness and clock at return"])
p("P14","Splicing two descriptors relays every byte in order until closed",
 "While two descriptor pairs are spliced, the bytes that come out on each side are exactly a prefix of the bytes that went in on the other, in order, and everything received before a side reached end of stream is delivered before the relay of that direction ends (unless the receiving side failed). The relay keeps moving data whenever input and room exist, in both directions independently and without keeping other tasks from running, ends after close or error, and leaves no descriptor or memory behind.",
 ["schedules","fault_sequences","inputs","configurations"],"any traffic, chunking, buffer sizes, back-pressure, half close, reset and failing set-up, for the kernel-assisted and the buffered implementation",
 "the test relays one short message",
 [L+"io/basic/hev-task-io.c",L+"io/buffer/hev-circular-buffer.c"],
 [("kernel pipe relay",L+"io/basic/hev-task-io.c"),("ring buffer relay",L+"io/basic/hev-task-io.c")],
 ["byte streams at the four simulated ends","blocked relay task at quiescence","descriptor table"])
p("P15","Composable streams deliver bytes unchanged through any stack of layers",
 "Reading and writing through a composed stream (descriptor, socket or null at the bottom, buffers on top, single or vectored, plain or exact) transfers exactly the bytes a direct stream would: none lost, repeated or reordered. After a successful flush everything written before has been handed to the bottom, exact operations return short only at end of stream or error, and peeking shows the next bytes without consuming them. A blocked operation resumes once the bottom allows progress.",
 ["programs","inputs","schedules","fault_sequences"],"any stacking, buffer sizes, operation sequence, vector shapes (including empty elements), short transfers, delays, errors and failing allocations",
 "tests do one read and one write per layer with everything ready",
 [L+"cio/base/hev-task-cio.c",L+"cio/base/hev-task-cio.h",L+"cio/buffer/hev-task-cio-buffer.c",L+"cio/fd/hev-task-cio-fd.c",L+"cio/socket/hev-task-cio-socket.c",L+"cio/null/hev-task-cio-null.c",L+"io/buffer/hev-circular-buffer.c"],
 [("exact loops and vector advance",L+"cio/base/hev-task-cio.c"),("buffered read, write, flush",L+"cio/buffer/hev-task-cio-buffer.c")],
 ["byte streams at the simulated bottom against callers' view"])
p("P16","Splicing composed streams relays every byte in order, buffered or not",
 "Relaying between two composed streams delivers on each side exactly the bytes received on the other, in order; bytes taken in are handed to the bottom of the other stream without waiting for further input, and all bytes received before end of stream arrive before the relay ends (unless the receiving side failed). A busy direction keeps neither the other direction nor other tasks from progressing. The relay ends after close or error and leaves nothing behind.",
 ["schedules","fault_sequences","inputs"],"any traffic, chunking, stacking with or without write buffers, back-pressure, half close and reset",
 "the test relays one short message over idle sockets",
 [L+"cio/base/hev-task-cio.c",L+"cio/buffer/hev-task-cio-buffer.c"],
 [("relay step with flush",L+"cio/base/hev-task-cio.c")],
 ["byte streams at the simulated ends","blocked relay task at quiescence"])
p("P17","Name lookups answer the right caller without stopping other tasks",
 "A host or service lookup from a task returns exactly the result and error code the resolver produced for that caller's own query, however many tasks and threads look up at the same time. While a lookup is in progress the other tasks of the thread keep running and the asking task is resumed when its answer is there. When the helper cannot be set up the lookup fails with an error, and shutting a task system down during or after lookups of other threads is safe.",
 ["schedules","fault_sequences","programs"],"any number of concurrent lookups from any number of threads, resolver delays and errors, thread interleavings at every memory access of the shared parts, failing set-up calls and early shutdown",
 "the test resolves one local name in one thread",
 [L+"dns/hev-task-dns.c",L+"dns/hev-task-dns-proxy.c",K+"aide/hev-task-aide.c"],
 [("helper thread start-up",K+"aide/hev-task-aide.c"),("request hand-over and reply",L+"dns/hev-task-dns-proxy.c")],
 ["resolver stub's query log against callers' results","turn log of other tasks during lookups"])
p("P18","Allocated blocks are disjoint, stable and returned, under any history",
 "Every block obtained from the allocator is large enough, does not overlap any other live block and keeps its contents until released; resizing preserves the common prefix, zeroing allocation returns zeros, and a failed request returns nothing while leaving existing blocks intact. The number of cached free blocks stays within the configured limit and everything cached is given back when the allocator goes away. Blocks may be released in any order and after any number of other operations.",
 ["histories","fault_sequences","configurations"],"any sequence of allocate, zero-allocate, resize and free with any sizes, any point of memory exhaustion, any cache limits",
 "tests allocate and free a handful of sizes; eviction and reuse depend on long histories and on failing requests",
 ["src/mem/slice/hev-memory-allocator-slice.c","src/mem/simple/hev-memory-allocator-simple.c","src/mem/api/hev-memory-allocator-api.c","src/mem/base/hev-memory-allocator.c"],
 [("size classes and reuse","src/mem/slice/hev-memory-allocator-slice.c"),("LRU eviction","src/mem/slice/hev-memory-allocator-slice.c")],
 ["block ledger with content patterns","calls reaching the simulated C heap"])
p("P19","Running out of a resource fails cleanly and leaks nothing",
 "When an allocation, mapping, descriptor or other system resource is refused at any point, the library call that needed it reports failure instead of crashing, hanging or corrupting state; what the call had already obtained is given back, and the system keeps working for later calls and other tasks. After a complete set-up, use and tear-down cycle no memory, mapping or descriptor remains, with or without such failures.",
 ["fault_sequences","programs"],"a refusal at every resource request of every constructor and operation, alone or in series",
 "tests never see a refused resource and never look for leaks",
 [K+"core/hev-task-system.c",K+"task/hev-task.c",K+"task/hev-task-stack-mmap.c",K+"task/hev-task-stack-heap.c",K+"io/hev-task-io-reactor.c",K+"time/hev-task-timer-timerfd.h",K+"itc/hev-task-channel.c",L+"io/basic/hev-task-io.c",L+"io/socket/hev-task-io-socket.c"],
 [("undo paths of constructors",K+"core/hev-task-system.c"),("task and stack construction",K+"task/hev-task.c"),("reactor and timer construction",K+"io/hev-task-io-reactor.c")],
 ["ledger of allocations, mappings and descriptors","return values","work done after the failure"])
p("P20","Task systems in different threads do not influence each other",
 "Each thread can run its own task system, and what happens in one (tasks, sleeps, I/O, memory, start-up and shutdown) has the same outcome as if it were alone, under every interleaving of the threads. Objects shared under atomic reference counting are destroyed exactly once, by whichever thread drops the last reference. The calling thread's current task is always one of its own.",
 ["schedules","programs"],"any number of threads starting, running and ending task systems at any time, interleaved at every memory access",
 "the test starts two threads once and cannot steer their interleaving",
 [K+"core/hev-task-system.c","src/mem/api/hev-memory-allocator-api.c",L+"object/hev-object-atomic.c",L+"object/hev-object.c"],
 [("per-thread context","src/kern/core/hev-task-system.c"),("per-thread allocator","src/mem/api/hev-memory-allocator-api.c"),("atomic counting",L+"object/hev-object-atomic.c")],
 ["per-thread outcome compared with the single-thread model","destructor log"])
p("P21","Calling a function on a separate stack behaves like a plain call",
 "A function called on a fresh stack runs exactly once, can block, yield and call further functions that way, and its result reaches the caller; the caller's own variables and the called function's variables keep their values across all switches to other tasks in between. The fresh stack is released exactly once when the call object is destroyed, and a refused stack is reported as failure.",
 ["programs","schedules","fault_sequences"],"any nesting, stack sizes, blocking points and interleavings with other tasks, refused memory",
 "the test makes one call without switching tasks",
 [K+"task/hev-task-call.c","src/arch/x86/hev-task-execute-x86_64.s",K+"task/hev-task-stack-mmap.c"],
 [("stack switch and return","src/arch/x86/hev-task-execute-x86_64.s"),("call object",K+"task/hev-task-call.c")],
 ["canaries in caller and callee","result value","mapping ledger"])
p("P22","Reference-counted objects live until the last reference and die once",
 "An object, stream layer or chain stays usable as long as someone holds a reference and is destroyed exactly once when the last one is dropped, also when it was pushed onto or popped from a chain and was referenced from elsewhere. Destroying a stream closes each descriptor it owns exactly once and no other. Tasks referenced after they ended remain inspectable until released.",
 ["histories","schedules"],"any sequence of ref, unref, push, pop by any number of tasks, chains of any length and shared layers",
 "tests drop the only reference of a two-layer chain",
 [L+"object/hev-object.c",L+"object/hev-object-atomic.c",L+"cio/base/hev-task-cio.h",L+"cio/base/hev-task-cio.c",L+"cio/fd/hev-task-cio-fd.c",L+"cio/socket/hev-task-cio-socket.c",K+"task/hev-task.c"],
 [("counting",L+"object/hev-object.c"),("chain destruction, push, pop",L+"cio/base/hev-task-cio.c"),("descriptor ownership",L+"cio/fd/hev-task-cio-fd.c")],
 ["destructor log","close log of the simulated kernel","allocation ledger"])
p("P23","A caller-supplied yielder decides every wait and can abandon the operation",
 "Every operation that accepts a yielder calls it, and only it, each time it would block and each time it yields between pieces of work, with the matching kind of wait, and never when the operation can complete at once. If the yielder asks to stop, the operation returns the dedicated abandoned result (or ends, for relays) without touching the descriptor or the buffer afterwards, and releases what it held. If the yielder lets it continue the result equals that of the operation without a yielder.",
 ["schedules","fault_sequences","programs"],"every operation with a yielder, abandoned at any of its waits, with any delays and short transfers",
 "the tests always pass no yielder",
 [L+"io/basic/hev-task-io.c",L+"io/socket/hev-task-io-socket.c",L+"cio/base/hev-task-cio.c"],
 [("yield or abandon at each wait",L+"io/basic/hev-task-io.c"),("relay loops",L+"io/basic/hev-task-io.c")],
 ["yielder call log","system calls seen by the simulated kernel after abandonment"])
p("P24","A ring buffer is a byte queue, also between two tasks",
 "A ring buffer returns the bytes written to it once and in order. It never offers more room or more data than it has, and what it offers lies inside its memory, whatever its capacity, whatever the sizes of reads and writes and wherever it wraps. This also holds when the writer and the reader are different tasks and other tasks run between starting and finishing a read or a write. A capacity of zero is an empty and full buffer; a capacity that does not fit in memory is refused.",
 ["histories","inputs","schedules"],"any sequence of partial writes and reads by one or two tasks for any capacity, with short reads and refused memory",
 "the test exercises a few wrap positions in one task",
 [L+"io/buffer/hev-circular-buffer.c"],[("index arithmetic",L+"io/buffer/hev-circular-buffer.c")],
 ["byte queue model; bounds of the simulated memory"])
p("P25","A task has the stack it asked for, and running off it is detected",
 "A task can use as much stack as it asked for, and no other task touches it. With guarded stacks (overflow detection on mapped stacks) a task that runs off its stack is stopped before it writes to memory of others, in whatever thread its task system runs, and a diagnostic is written. With marked stacks (overflow detection on heap stacks) an overrun that stays near the stack is noticed at the latest when the task is released. Other invalid accesses are passed on to the handler the program had installed before and are not reported as an overrun, and the handlers of the program are put back when the last task system ends.",
 ["schedules","histories","inputs"],"any stack size, any number of tasks and threads, any moment of the overrun, refused set-up calls",
 "no test overruns a stack",
 [K+"task/hev-task-stack-mmap.c",L+"misc/hev-task-stack-detector.c",K+"task/hev-task-stack-heap.c"],
 [("guard page",K+"task/hev-task-stack-mmap.c"),("signal handler",L+"misc/hev-task-stack-detector.c"),("marks",K+"task/hev-task-stack-heap.c")],
 ["writes below the stack are attributed to the memory they reach; delivery of the fault to the library's handler; recorded diagnostic"])
p("P26","The debugging view shows every task once, as it is",
 "In a build with debugging enabled the list of tasks shows every task that exists on this thread exactly once, run or not run yet, waiting or ended but still referenced, and no task that was released. For each it shows the true state, the number of references, the priority that is set, its entry and data and the bounds of its own stack, and the counts of all and of runnable tasks and the current task agree with it, at any moment inside or outside of tasks and in any number of consecutive runs of the system.",
 ["programs","schedules","histories"],"any history of creating, running, blocking, waking, sleeping, referencing, releasing and ending tasks and any moment of looking",
 "no test builds or calls the debugging functions; a task missing from the list shows only after particular orders of creation and release",
 [L+"misc/hev-debugger.c",K+"task/hev-task.c",L+"list/hev-list.c",K+"core/hev-task-system-schedule.c"],
 [("list of all tasks",K+"task/hev-task.c"),("dump",L+"misc/hev-debugger.c"),("counters",K+"core/hev-task-system-schedule.c")],
 ["text of the dump compared with a model of all tasks","returned counts and current task"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    for f in q["anchors"]["files"]+[m["where"] for m in q["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/"+f): print("missing",q["id"],f)
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
