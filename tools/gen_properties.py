#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=anchors))
I = "include/boost/cobalt/"

p("P01", "A channel delivers every written value exactly once, in order",
  "Every value whose channel write succeeded is obtained by exactly one successful read (or is still buffered when the run ends), and no read yields a value that was not written. Values are read in the order in which their writes were awaited, and waiting readers are served in the order in which they began to wait. A write that failed (cancelled or closed) never delivers its value, and a read that failed never consumes one; the same holds for the signal count of channel<void>.",
  ["schedules", "fault_sequences", "programs"],
  "Any number of reader and writer coroutines, any buffer limit including 0, any interleaving of their steps, cancellations, race losses and close().",
  "The unit tests for channels (not even built here) use one reader and one writer in lock step; loss, duplication and reordering need several waiters and a cancellation or newcomer landing between a wake-up and the resumption.",
  [I+"channel.hpp", I+"impl/channel.hpp", "src/channel.cpp"],
  [("rendezvous hand-off and wake-up", I+"impl/channel.hpp: read_op/write_op await_suspend/await_resume"),
   ("void specialisation", "src/channel.cpp")],
  state=[("buffer_", "values written and not yet read", I+"channel.hpp"), ("read_queue_/write_queue_", "suspended operations", I+"channel.hpp")],
  observe=["co_await channel.read()/write() results"])

p("P02", "A channel honours its buffer limit and never strands a waiter",
  "At no time have more than `limit` values been successfully written but not yet claimed by a read, and with limit 0 a write completes only together with a read. Whenever a reader is waiting and an unread value or a waiting writer exists, or a writer is waiting and there is free space or a waiting reader, the waiting operation completes once the executor has run what it has queued. An operation that can proceed immediately does not suspend.",
  ["schedules", "fault_sequences", "programs"],
  "Any set of readers and writers, any limit, any schedule, with cancellations and race losses landing at any point including after a waiter has been woken.",
  "A lost wake-up needs a waiter that is cancelled, or a newcomer that takes its place, in the window between being woken and being resumed; a test with a fixed schedule never enters that window.",
  [I+"channel.hpp", I+"impl/channel.hpp", "src/channel.cpp"],
  [("wake-up of the opposite queue", I+"impl/channel.hpp: read_op::await_resume, write_op::await_resume")],
  observe=["operations pending when the executor is idle"])

p("P03", "Closing a channel resolves every pending operation, then drains",
  "close() makes every suspended read and write complete with broken_pipe and every later write fail with broken_pipe, and nobody stays suspended. Values already accepted before the close stay readable, in order; once they are drained every read fails with broken_pipe, and an operation whose exchange had already taken place before the close reports success. A cancelled operation completes exactly once, with operation_aborted unless it had already succeeded or been closed.",
  ["schedules", "fault_sequences", "programs"],
  "close(), destruction and cancellation at every point relative to suspended, woken and not yet started operations, for value and void channels, in the throwing, as_result and as_tuple forms.",
  "Close and cancel race with hand-offs that are already posted; the outcome depends on where in the queue of posted resumptions they fall.",
  [I+"channel.hpp", I+"impl/channel.hpp", "src/channel.cpp"],
  [("close", I+"impl/channel.hpp: channel::close"), ("cancel_impl", I+"impl/channel.hpp"), ("void close", "src/channel.cpp")])

p("P04", "A promise delivers its one outcome to its one awaiter and cleans up once",
  "A promise coroutine starts at the call, and awaiting it yields exactly the value returned or the exception thrown, once, whenever the await happens relative to completion. ready() and get() agree with completion, awaiting it again while it is awaited, or after it was moved from unfinished, fails with an error instead of hanging or reading freed memory, and moving or assigning promises transfers the outcome. An attached unfinished promise that is destroyed is cancelled, a detached one is not; the coroutine runs on without it, an exception nobody can receive goes to the event loop, and the coroutine's state is destroyed exactly once.",
  ["schedules", "programs", "fault_sequences"],
  "Any order of start, completion, await, move, assign, detach, attach, cancel and destruction of the handle and of the awaiter, with completions arriving at any time.",
  "Handle destruction, assignment and completion can occur in any order; the tests fix a handful of orders and cannot see use of freed frames without looking at every one.",
  [I+"promise.hpp", I+"detail/promise.hpp", I+"detail/wrapper.hpp", I+"detail/util.hpp"],
  [("promise_receiver move/assign/destructor", I+"detail/promise.hpp"), ("attach/detach/cancel", I+"promise.hpp")],
  state=[("promise_receiver::done/result/reference", "outcome and link to the coroutine", I+"detail/promise.hpp")])

p("P05", "A task runs lazily, once, and spawn/run deliver its outcome exactly once",
  "A task does nothing until awaited or spawned, then runs once and yields exactly its value or exception to the awaiter. spawn() invokes its completion handler exactly once, with the task's outcome, after the task has finished and never inside the initiating call, on the handler's executor, and passes cancellation from the handler's slot into the task. run() returns or rethrows the outcome and restores the calling thread's executor and memory resource whatever happens; a task that is dropped or whose execution context is destroyed is destroyed exactly once.",
  ["schedules", "programs", "fault_sequences"],
  "Any interleaving of spawned tasks over one or two execution contexts, cancellations and destruction of the context at any step.",
  "Exactly-once completion across contexts and context destruction mid-flight are schedule dependent; the tests run each path once.",
  [I+"task.hpp", I+"detail/task.hpp", I+"spawn.hpp", I+"detail/spawn.hpp", I+"run.hpp"],
  [("spawn initiation and handler delivery", I+"detail/spawn.hpp"), ("run", I+"run.hpp"), ("task_receiver", I+"detail/task.hpp")])

p("P06", "A generator hands over exactly its sequence of values, pushes and end",
  "Successive awaits of a generator produce exactly the values it yields followed by its return value, in order, without loss or repetition; each pushed value becomes the result of exactly the co_yield (or initial) it was passed to. An eager generator runs to its first co_yield at the call and is at most one value ahead, a lazy one does not run before the first await. An exception surfaces at the await that is due, after completion the handle tests false and further awaits fail with an error, and destruction, cancellation and assignment at any point destroy the coroutine exactly once.",
  ["schedules", "programs", "fault_sequences"],
  "Any mix of synchronous and asynchronous bodies, awaits before or after the value is available, pushes, interrupted awaits, cancellations, moves, assignments and destruction.",
  "Whether the value or the await comes first is decided by the schedule, and the cancel, interrupt and destroy paths differ in each state.",
  [I+"generator.hpp", I+"detail/generator.hpp"],
  [("yield/await hand-off", I+"detail/generator.hpp: generator_yield_awaitable, generator_receiver::awaitable"),
   ("receiver move/assign/destructor", I+"detail/generator.hpp")])

p("P07", "race has exactly one winner and takes nothing from the losers",
  "race and left_race complete exactly once, with the index and outcome of an argument that actually completed; every other argument that had been started is interrupted (promise, generator, channel, gather passed so) or cancelled, and the race does not finish before it has let go of all of them. Losing lvalue promises and generators can be awaited again later and lose no result, and losing channel operations neither consume nor deliver a value. left_race prefers the leftmost ready argument, arguments after a ready one are not started, racing an empty range throws, and cancelling the race cancels the arguments.",
  ["schedules", "programs", "fault_sequences"],
  "Any number and kind of arguments (variadic or range, lvalue or rvalue), any completion order including several at once or during start-up, any cancellation time, any URBG.",
  "The interesting cases are simultaneous completions and completions triggered by starting or cancelling another arm, which depend on the schedule and on the random start order.",
  [I+"race.hpp", I+"detail/race.hpp", I+"detail/fork.hpp"],
  [("race_variadic_impl / race_ranged_impl", I+"detail/race.hpp"), ("fork", I+"detail/fork.hpp")])

p("P08", "join returns all values or the first error after everyone has finished",
  "join completes exactly once: with every argument's value in argument position if all succeed, otherwise with the first exception that occurred. On the first failure all unfinished arguments are cancelled or interrupted, and join resumes its caller only once every started argument has finished or been let go. Cancelling the join cancels all arguments, and joining an empty range fails with an error.",
  ["schedules", "programs", "fault_sequences"],
  "Any number and kind of arguments, any completion order, any subset failing, cancellation at any time, variadic and ranged forms, throwing and as_result/as_tuple forms.",
  "Order of completions and failures, and failures during start-up, are combinatorial; tests fix one order with timers.",
  [I+"join.hpp", I+"detail/join.hpp", I+"detail/fork.hpp"],
  [("join_variadic_impl / join_ranged_impl", I+"detail/join.hpp")])

p("P09", "gather collects every outcome, value or exception, and disturbs nobody",
  "gather completes exactly once, only after every argument has completed, with each argument's own value or exception in argument position. A failing argument neither cancels nor interrupts the others. Cancelling the gather cancels the arguments, whose outcomes are still collected.",
  ["schedules", "programs", "fault_sequences"],
  "Any number and kind of arguments, any completion order, any subset failing, cancellation at any time, variadic and ranged forms.",
  "Same as join: the space of completion orders, failures and cancellation points is not sampled by fixed timers.",
  [I+"gather.hpp", I+"detail/gather.hpp", I+"detail/fork.hpp"],
  [("gather_variadic_impl / gather_ranged_impl", I+"detail/gather.hpp")])

p("P10", "A wait_group accounts for every pushed promise until it is reaped",
  "size() is the number of pushed promises not yet reaped, wait_one() completes when a held promise completes and removes exactly that one, wait() completes when all have completed, and reap() removes exactly the completed ones and returns their number. await_exit() waits for all remaining promises, cancelling them first if an exception was passed, and cancel() cancels every held promise. A failed promise does not make others unobservable or get reported twice.",
  ["schedules", "programs", "histories"],
  "Any sequence of push_back, wait_one, wait, reap, cancel, clear and await_exit interleaved with completions (success or failure) of the promises, and cancellation of the waits.",
  "The history of pushes, completions and waits is unbounded and interleaved; tests use one short sequence.",
  [I+"wait_group.hpp", I+"detail/wait_group.hpp"],
  [("wait_one/wait wrappers", I+"detail/wait_group.hpp"), ("reap/await_exit", I+"wait_group.hpp")])

p("P11", "with() runs its asynchronous teardown exactly once, before it completes",
  "After the body passed to with() finishes, by value or by exception, the teardown runs exactly once with a null exception_ptr on success and the body's exception otherwise, and with() completes only after the teardown has. The body's value is returned, or its exception rethrown, unless the teardown itself fails or resets it, and the resource outlives both. Cancelling the coroutine awaiting with() is forwarded to whichever of body and teardown is running.",
  ["schedules", "programs", "fault_sequences"],
  "Synchronous and asynchronous bodies and teardowns, any completion timing, failures in either, cancellation at any time.",
  "Tests cover a body and teardown that finish at once; teardown under cancellation and failures in both is timing dependent.",
  [I+"with.hpp", I+"detail/with.hpp"],
  [("with_impl", I+"detail/with.hpp"), ("await_exit dispatch", I+"with.hpp")])

p("P12", "Cancellation reaches the awaited operation and obeys the coroutine's filters",
  "Emitting a cancellation to a coroutine passes it, through any chain of awaited promises, tasks, generators and combinators, to the operation currently awaited, filtered by each coroutine's input and output filters as set by reset_cancellation_state. co_await this_coro::cancelled and cancellation_state report what was received and admitted since the last reset, and with throw_if_cancelled the next await (other than this_coro) throws operation_aborted, without it none does. A coroutine that was not cancelled never observes a cancellation.",
  ["schedules", "programs", "fault_sequences"],
  "Any nesting of coroutines, any cancellation type, any filter setting, cancellation at any time before, during or after an await.",
  "Tests cancel at one point of one nesting; propagation must hold for each nesting, type, filter and moment.",
  [I+"this_coro.hpp", I+"detail/util.hpp", I+"detail/promise.hpp", I+"detail/task.hpp", I+"detail/generator.hpp", I+"detail/forward_cancellation.hpp"],
  [("promise_cancellation_base", I+"this_coro.hpp"), ("promise_throw_if_cancelled_base", I+"this_coro.hpp"), ("forward_cancellation", I+"detail/forward_cancellation.hpp")])

p("P13", "Awaiting an asio operation resumes the coroutine exactly once with its result",
  "For every asio style operation awaited through use_op, use_task, op<> or deferred the awaiting coroutine is resumed exactly once, after the completion handler was invoked and not before await returned control, with exactly the completion arguments: values on success, the carried error_code or exception otherwise. This holds when the operation is ready in advance, completes inside its initiation, through the immediate executor or later, when the initiation throws, and for composed operations with intermediate steps. If the handler is destroyed uninvoked the awaiting coroutine is destroyed exactly once and never resumed.",
  ["schedules", "programs", "fault_sequences"],
  "All completion signatures, all completion moments (ready, during initiation, immediate, posted, never), allocation pressure beyond the inline buffer, cancellation and handler destruction at any time.",
  "Double resumption or a lost immediate completion shows only for particular moments of completion relative to initiation; tests exercise a fixed few.",
  [I+"op.hpp", I+"detail/handler.hpp", I+"noop.hpp", I+"result.hpp", I+"task.hpp", I+"detail/sbo_resource.hpp"],
  [("completion_handler", I+"detail/handler.hpp"), ("op::awaitable_base", I+"op.hpp"), ("use_task", I+"task.hpp")])

p("P14", "A cobalt thread runs its coroutine to completion and reports it exactly once",
  "A thread runs its coroutine on its own event loop in its own OS thread; join() returns only after it finished, and awaiting it from another event loop resumes the awaiter exactly once, on the awaiter's executor, after it finished, rethrowing its exception. Cancelling an await of the thread, or the thread itself, reaches the coroutine, losing neither the cancellation nor the completion, and destroying a running thread object stops and joins it. No schedule of the threads involved deadlocks, crashes or resumes an awaiter twice.",
  ["schedules", "fault_sequences"],
  "Every interleaving of the two threads at their synchronisation points, with await, cancel, join, detach, destruction and completion in any order.",
  "The outcome depends on which of two real threads reaches the shared state first; ordinary tests see one timing.",
  [I+"thread.hpp", I+"detail/thread.hpp", "src/thread.cpp"],
  [("thread_promise / run_thread", "src/thread.cpp"), ("thread_awaitable", I+"detail/thread.hpp")],
  state=[("thread_state", "hand-over of completion and cancellation between threads", I+"detail/thread.hpp")])

p("P15", "read and write transfer the whole buffer or report how far they got",
  "io::write and io::read (and the _at forms) either succeed having transferred exactly the whole buffer sequence, or fail with the error and the exact number of bytes transferred before it. The bytes arriving are exactly the bytes sent, in order, with none lost, repeated or written outside the given buffers, however the transport splits, delays or interrupts the transfer. Cancellation stops the transfer with operation_aborted and the count reached.",
  ["schedules", "inputs", "fault_sequences"],
  "Any buffer sequence, any pattern of short reads and writes, would-block, EINTR, resets, end of file, peer close and cancellation.",
  "Kernels rarely split small transfers, so tests see the one-shot path; partial transfers at every boundary and errors between them need an adversarial transport.",
  [I+"io/read.hpp", I+"io/write.hpp", "src/io/read.cpp", "src/io/write.cpp", I+"io/ops.hpp", I+"io/buffer.hpp", "src/io/pipe.cpp", "src/io/stream_socket.cpp", I+"composition.hpp"],
  [("transfer loop", "src/io/read.cpp, src/io/write.cpp"), ("buffer consumption", I+"io/buffer.hpp: operator+=")])

p("P16", "Timers and sleeps fire once, not early, and can be cancelled",
  "A steady_timer, system_timer or sleep completes exactly once: successfully not before its expiry and promptly after it, or with operation_aborted when cancelled or reset before. A wait on an expired timer completes without suspending, expired() and expiry() agree with the clock, and waits complete in the order of their expiry. System clock jumps affect only system timers, steady timers and sleeps measure elapsed steady time.",
  ["schedules", "inputs", "fault_sequences"],
  "Any set of timers with any expiry including the past, resets, cancellations, clock jumps forward and backward, late wake-ups of the event loop.",
  "Tests run on the real clock and can neither jump it nor observe earliness without races.",
  [I+"io/steady_timer.hpp", I+"io/system_timer.hpp", I+"io/sleep.hpp", "src/io/steady_timer.cpp", "src/io/system_timer.cpp", "src/io/sleep.cpp"],
  [("try_wait/initiate_wait", "src/io/steady_timer.cpp, src/io/system_timer.cpp"), ("sleep ops", "src/io/sleep.cpp")])

p("P17", "Coroutine memory comes from the chosen resource and is returned exactly once",
  "Each coroutine frame is allocated from the memory resource selected for it (an allocator_arg argument, else the thread's default resource, for tasks the global default) and get_allocator/this_coro::allocator report that resource. Every allocation is released exactly once to the same resource with the same size and alignment, whatever the order of completion, cancellation and destruction. If an allocation fails the failure surfaces as bad_alloc (or an error) to the caller and leaves no leak, no half-started coroutine and no corrupted waiter behind.",
  ["fault_sequences", "schedules", "programs"],
  "Every coroutine type and combinator, operations large enough to overflow inline buffers, and a failing allocation at any allocation point.",
  "Tests never make an allocation fail and cannot pair allocations with deallocations over all paths.",
  [I+"this_coro.hpp", I+"this_thread.hpp", "src/this_thread.cpp", I+"detail/this_thread.hpp", I+"detail/sbo_resource.hpp", I+"detail/monotonic_resource.hpp", I+"task.hpp", I+"detail/spawn.hpp", I+"composition.hpp", I+"detail/fork.hpp"],
  [("promise_memory_resource_base", I+"this_coro.hpp"), ("sbo_resource", I+"detail/sbo_resource.hpp"), ("fork allocation", I+"detail/fork.hpp")])

p("P18", "main turns signals into cancellation and its result into the exit code",
  "A co_main program runs its coroutine to completion on its own event loop and exits with the returned code; an escaping exception leaves the event loop as that exception. SIGINT cancels with total and SIGTERM with terminal cancellation, each time one arrives, and a coroutine that handles the cancellation keeps running and still determines the exit code. After completion no signal handling, executor or memory resource set up for it stays behind.",
  ["schedules", "fault_sequences"],
  "SIGINT and SIGTERM in any number and order at any step of the program, including during start-up and after completion.",
  "Signals at arbitrary points of the run are not generated by the tests; they would be racy in real time.",
  [I+"main.hpp", I+"detail/main.hpp", "src/main.cpp"],
  [("main_promise signal loop", "src/main.cpp, "+I+"detail/main.hpp")])

p("P19", "Every coroutine keeps running on the executor it was bound to",
  "A coroutine awaiting an operation is always resumed on the executor selected for it (an executor_arg argument, else the thread's executor, for a task the awaiter's or the spawned-on executor), even when the operation completes on a different executor; a spawned task also starts and reports its end there. this_coro::executor reports that executor. Coroutines on one single-threaded executor are never run concurrently or re-entrantly by a completion arriving elsewhere.",
  ["schedules", "programs"],
  "Coroutines on several execution contexts awaiting operations and tasks bound to others, in any interleaving.",
  "Tests use one context; wrong-executor resumptions need completions that originate elsewhere at varied moments.",
  [I+"op.hpp", I+"detail/handler.hpp", I+"this_thread.hpp", "src/this_thread.cpp", I+"spawn.hpp", I+"detail/spawn.hpp", I+"detail/promise.hpp", I+"detail/task.hpp", I+"detail/generator.hpp", I+"detached.hpp", I+"detail/detached.hpp"],
  [("get_executor selection", I+"detail/util.hpp, "+I+"detail/this_thread.hpp"), ("spawn dispatch/post", I+"detail/spawn.hpp")])

p("P20", "Cancelled or closed I/O objects complete pending operations and lose nothing",
  "Every operation pending on a socket or pipe completes exactly once: with its result, with the transport's error, or with operation_aborted after cancel(), close() or a cancellation signal. A read that reports operation_aborted has consumed no bytes and a write that reports it has sent none; data that arrived stays readable until close. Once the peer closes, remaining data is delivered before end of file, and no operation stays pending when its condition is met.",
  ["schedules", "fault_sequences"],
  "Readers and writers on both ends of stream sockets and pipes, cancel, close, shutdown and cancellation signals at any step, arbitrary delays, short transfers, resets.",
  "The race between data arrival and cancellation is decided by timing the tests do not control.",
  [I+"io/stream_socket.hpp", I+"io/socket.hpp", I+"io/pipe.hpp", "src/io/stream_socket.cpp", "src/io/socket.cpp", "src/io/pipe.cpp", I+"io/ops.hpp"],
  [("initiate_read_some_/initiate_write_some_", "src/io/stream_socket.cpp, src/io/pipe.cpp"), ("socket::wait_op", "src/io/socket.cpp")])

p("P21", "File operations act on exactly the requested position and bytes",
  "A stream_file reads and writes consecutive bytes from its position, seek moves to and reports the requested position, append always extends the file; a random_access_file transfers at exactly the requested offset regardless of earlier operations. Reported sizes, counts and end of file agree with the stored bytes, resize, truncate, create and exclusive do what their names say, and sync reports failure if the device fails. A failing or short device operation is reported with what was transferred, never as success, and touches no other bytes.",
  ["inputs", "fault_sequences", "histories"],
  "Any history of opens, reads, writes, seeks, resizes, syncs on stream and random access files, with short transfers, EINTR, EIO and ENOSPC injected.",
  "Tests write and read back once at offset 0 on a healthy disk.",
  [I+"io/file.hpp", I+"io/stream_file.hpp", I+"io/random_access_file.hpp", "src/io/file.cpp", "src/io/stream_file.cpp", "src/io/random_access_file.cpp"],
  [("open/seek/resize/sync", "src/io/file.cpp, src/io/stream_file.cpp"), ("positional transfer", "src/io/random_access_file.cpp")])

p("P22", "Datagram and packet sockets preserve message boundaries and addressing",
  "Each successful send on a datagram or seq_packet socket transmits exactly one message with exactly the given bytes, and each receive yields at most one message, its bytes unaltered up to the buffer size, reporting its length (and for seq_packet the out flags). Messages are never merged, split, or invented whatever the network drops, duplicates, delays or reorders. A failed or aborted send transmits nothing.",
  ["schedules", "inputs", "fault_sequences"],
  "Any sequence of messages and buffer sizes with loss, duplication, reordering, delay, transient errors and cancellation.",
  "Loopback sockets deliver in order without loss; tests see neither truncation nor interleaved errors.",
  [I+"io/datagram_socket.hpp", I+"io/seq_packet_socket.hpp", "src/io/datagram_socket.cpp", "src/io/seq_packet_socket.cpp"],
  [("send/receive ops", "src/io/seq_packet_socket.cpp, src/io/datagram_socket.cpp")])

p("P23", "Failing system calls surface as results and leak no descriptors",
  "A failing system call during open, connect, pair, pipe, assign, option, close or resolve is reported through the returned result or the awaited operation's error with the system's error code; functions returning a result do not throw it. After any sequence of successes and failures every descriptor the library created is owned by an open object or has been closed exactly once, and no object closes a descriptor it does not own. Connecting to a sequence of endpoints tries them in order and reports the one that succeeded or the last error.",
  ["fault_sequences", "histories"],
  "Any sequence of object creations, opens, connects, moves, releases, closes and pair creations with any system call failing.",
  "Tests do not make system calls fail.",
  ["src/io/socket.cpp", "src/io/pipe.cpp", "src/io/file.cpp", "src/io/stream_socket.cpp", I+"io/socket.hpp", I+"io/file.hpp", I+"io/pipe.hpp"],
  [("connect_pair", "src/io/socket.cpp"), ("pipe", "src/io/pipe.cpp"), ("open/assign/release", "src/io/file.cpp"), ("ranged_connect_op", "src/io/socket.cpp")])

p("P24", "A composed operation coroutine completes its handler exactly once",
  "A function written as a composition coroutine invokes the completion handler exactly once with the co_returned tuple, whether its inner operations complete at once or later, and in that order: body finished and frame destroyed before the caller continues. Inner awaits yield their completion arguments as tuples without throwing, and total, partial and terminal cancellation of the caller reaches the awaited inner operation. Its memory comes from the handler's allocator and is returned before the caller resumes.",
  ["schedules", "programs", "fault_sequences"],
  "Any sequence of inner operations, each ready, immediate, delayed, failing or cancelled, nested to any depth, with the operation destroyed unfinished at any step.",
  "Immediate and delayed completions mix in ways that decide whether the caller is resumed zero, one or two times; tests cover a few.",
  [I+"composition.hpp", I+"detail/handler.hpp", I+"op.hpp"],
  [("composition_promise::final_awaitable", I+"composition.hpp")])

p("P25", "A TLS stream delivers exactly the bytes sent, whatever the transport does",
  "After a successful handshake each side of an ssl::stream receives exactly the bytes the other side wrote, in order, however the transport splits and delays them, and before the handshake the stream passes plain bytes. A truncated, reset or corrupted transport makes the operation fail and never yields altered bytes. Handshake on an upgraded and shutdown on a not upgraded stream fail with an error without touching the transport.",
  ["schedules", "inputs", "fault_sequences"],
  "Any payload sizes, any splitting, delay, reset or corruption of the transport at any point of handshake, transfer and shutdown.",
  "The unit test needs a real network peer; nothing samples split records or a transport failing inside the handshake.",
  [I+"io/ssl.hpp", "src/io/ssl.cpp"],
  [("read/write dispatch on upgraded_", "src/io/ssl.cpp"), ("handshake/shutdown ops", "src/io/ssl.cpp, "+I+"io/ssl.hpp")])

p("P26", "A detached coroutine runs to its end on its own and cleans up once",
  "A detached coroutine starts at the call, runs to completion independent of its creator, and its frame is destroyed exactly once when it finishes, or when the operation it waits for is destroyed unfinished. It receives no cancellation except from a source it was given with reset_cancellation_source, and then exactly that source's. The same awaiting facilities (use_op, this_coro executor, allocator, cancellation, throw_if_cancelled) work in it as in a promise.",
  ["schedules", "programs", "fault_sequences"],
  "Any number of detached coroutines with any awaits, cancellation sources, completion times, and destruction of the event loop at any step.",
  "Nobody holds a handle, so leaks, double destruction and missed cancellations are invisible to a test that only checks the printed result.",
  [I+"detached.hpp", I+"detail/detached.hpp", I+"this_coro.hpp"],
  [("detached_promise", I+"detail/detached.hpp"), ("reset_cancellation_source", I+"this_coro.hpp")])

p("P27", "Stackful cobalt contexts and yield_context behave like their coroutine twins",
  "A context created with make_context, and an awaitable awaited through asio's yield_context, suspends at each await until that awaitable completes and then continues with its value or exception, exactly once and in program order. Its result is delivered through the same promise, task or generator interface as for a native coroutine, and its stack and locals are destroyed exactly once on completion, cancellation or destruction while suspended.",
  ["schedules", "programs", "fault_sequences"],
  "Any sequence of awaits completing at once or later, yields, exceptions, cancellation and destruction at any await.",
  "The tests run each construct once to completion; destruction while suspended and immediate completions are not covered.",
  [I+"experimental/context.hpp", I+"experimental/frame.hpp", I+"experimental/yield_context.hpp"],
  [("context_frame::do_await", I+"experimental/context.hpp"), ("yield_context await", I+"experimental/yield_context.hpp")])

p("P28", "Endpoints convert to and from system addresses without loss",
  "Converting an endpoint of any supported family to its string, address and native form and back preserves family, address, port or path, and a conversion to a type of another family fails with an error.",
  ["inputs"], "All supported protocol families, addresses, ports and paths.",
  "A handful of addresses is tested.",
  [I+"io/endpoint.hpp", "src/io/endpoint.cpp"],
  [("tag_invoke make/get endpoint", I+"io/endpoint.hpp, src/io/endpoint.cpp")])

p("P29", "Buffer sequences denote the same bytes as the range they were made from",
  "Converting any supported buffer, initializer list or registered buffer to a buffer sequence and iterating or advancing it denotes exactly the same bytes in the same order.",
  ["inputs"], "All supported buffer representations and all advances.",
  "Tests cover a few sizes.",
  [I+"io/buffer.hpp"], [("buffer_sequence iteration", I+"io/buffer.hpp")])

p("P30", "Name lookups deliver exactly the resolved endpoints, exactly once",
  "Awaiting a lookup asks the system's resolver for exactly the given host and service and completes exactly once, on the awaiting coroutine's executor, with every endpoint the system returned in its order, or with its error. The event loop isn't blocked meanwhile, a lookup cancelled before it ran completes with operation_aborted, a lookup that can't be started fails with an exception or error, and results are released exactly once, for every interleaving of the lookup with the event loop.",
  ["schedules", "fault_sequences"],
  "Any interleaving of lookups on the background thread with the event loop, any results, errors and durations of lookups, cancellation and destruction at any point, and failing thread creation.",
  "The tests don't look up anything; the races between the resolver's background thread, cancellation and destruction of the event loop need a controlled schedule.",
  [I+"io/resolver.hpp", "src/io/resolver.cpp", I+"io/endpoint.hpp"],
  [("resolver::resolve_op_", I+"io/resolver.hpp"), ("resolver::resolve_op_::initiate", "src/io/resolver.cpp")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
