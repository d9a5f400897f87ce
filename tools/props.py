#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/" + f for f in files], mechanism=[dict(name=n, where="include/"+w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
D = "stdexec/__detail/"
X = "exec/"
RUN = ("The stable suite here only compiles headers and runs one run_loop program; even the full Catch2 suite "
       "samples a handful of schedules and inputs. ")

p("C01", "Stop callbacks run at most once and never after deregistration",
  "With inplace_stop_source, every callback that stays registered until request_stop returns is invoked exactly once (immediately at registration if stop was already requested), one deregistered while the request is being delivered at most once, and none without a request, and its destructor returns only when the callback is not and will never again be running, except when it is destroyed from inside its own invocation. Exactly one request_stop call returns true, and stop_requested is true for everyone afterwards.",
  ["schedules", "histories"], "all interleavings of registration, deregistration and request_stop on up to three threads, all registration orders, callbacks that destroy themselves or others",
  RUN + "The self-removal/concurrent-removal windows are a few instructions wide.",
  ["stdexec/stop_token.hpp"], [("state-bit spin lock + callback list", "stdexec/stop_token.hpp"), ("removed_during_callback / callback_completed handshake", "stdexec/stop_token.hpp")])
p("C02", "run_loop executes every scheduled task exactly once and drains on finish",
  "Every operation started on a run_loop's scheduler before finish() is called, or by work the loop executes while draining, completes exactly once, on the thread that calls run(), in FIFO order per submitting thread, with set_stopped instead of set_value exactly when its receiver's stop token was already triggered. run() returns only after finish() was called and all such work has been executed, a wake-up is never lost, and the loop may be destroyed as soon as run() returns.",
  ["schedules"], "all interleavings of up to three threads submitting, finishing and running",
  RUN + "Lost wake-ups and use-after-return windows need one specific interleaving.",
  [D+"__run_loop.hpp", D+"__atomic_intrusive_queue.hpp", D+"__intrusive_queue.hpp"], [("task count + finishing flag", D+"__run_loop.hpp"), ("lock-free push / notify", D+"__atomic_intrusive_queue.hpp")])
p("C03", "sync_wait returns exactly the sender's completion",
  "sync_wait blocks until the sender completes and then returns an engaged optional holding exactly the values sent, throws the exception/error sent, or returns an empty optional on set_stopped, whichever thread completes the operation and however the completion interleaves with the waiter. It never hangs when the sender completes, never returns early, and no memory of the operation is touched after it returns.",
  ["schedules", "inputs"], "all values, all completion channels, inline or remote completion, all interleavings of completer and waiter",
  RUN, [D+"__sync_wait.hpp", D+"__run_loop.hpp"], [("local run_loop + finish on completion", D+"__sync_wait.hpp")])
p("C04", "when_all completes once, after all children, with the right result",
  "when_all (and when_all_with_variant) completes exactly once and only after every child has completed: with the concatenated values in argument order if all children sent values and no stop was requested before the last of them completed, with the first error observed if any child sent an error (an exception thrown while storing values counts as an error), otherwise stopped. The first non-value completion requests stop on the remaining children, a stop request on the receiver's token reaches every child, and nothing of the operation is touched after the completion signal.",
  ["schedules", "inputs"], "2-3 children, each completing on any channel with any value, inline or from other threads, in every order and interleaving, with a concurrent outer stop request",
  RUN, [D+"__when_all.hpp"], [("atomic child count, state {started,error,stopped}", D+"__when_all.hpp"), ("stop-source forwarding", D+"__when_all.hpp")])
p("C05", "when_any completes once with the first child's completion",
  "when_any delivers exactly one completion, the one of the first child to complete (with values/errors intact), requests stop on all other children at that moment, and calls its receiver only after every child has completed. If the receiver's stop token is triggered, the children are asked to stop (or not started at all), and if that happened before the last child completed it completes with set_stopped.",
  ["schedules", "inputs"], "2-3 children completing on any channel in any order from any thread, with a concurrent outer stop",
  RUN, [X+"when_any.hpp"], [("compare-exchange winner + pending count", X+"when_any.hpp")])
p("C06", "split and ensure_started run the operation once and serve every consumer",
  "The operation behind a split or ensure_started sender is started at most once however many copies are connected and started; each started consumer completes exactly once, with the shared result, or with set_stopped if its own stop token triggers first or the operation was stopped; if all consumers are dropped the operation is asked to stop; the shared state is destroyed exactly once after the last user.",
  ["schedules", "inputs", "histories"], "1-3 consumers, all interleavings of connect/start/drop/stop with the completion of the shared operation, any completion channel and value",
  RUN, [X+"detail/shared.hpp", X+"split.hpp", X+"ensure_started.hpp"], [("started flag, waiter list with tombstone, use-count detach", X+"detail/shared.hpp")])
p("C07", "let_* passes the completion to its function and runs the returned sender",
  "let_value/let_error/let_stopped invoke the function exactly once iff the child completes on that channel, with lvalue references to copies of the datums that stay alive until the returned sender's operation completes; other channels pass through unchanged; the returned sender is connected, started once and its completion is the result; an exception from storing the datums, the function, or connect becomes set_error(exception_ptr).",
  ["inputs", "histories", "fault_sequences"], "every child channel and value, every channel of the inner sender, inline or deferred, throw injected at every user call",
  RUN, [D+"__let.hpp"], [("result storage + second op-state variant", D+"__let.hpp")])
p("C08", "Elementary adaptors route channels, values and exceptions exactly",
  "just/just_error/just_stopped, then, upon_error, upon_stopped, into_variant, stopped_as_optional, stopped_as_error, materialize/dematerialize, write_env/read_env, unless_stop_requested, into_tuple and variant_sender complete exactly once, call the user function exactly when and with exactly what the channel table of the standard says, forward every other completion unchanged, and turn an exception thrown by the user function or a datum copy into set_error(exception_ptr).",
  ["inputs", "fault_sequences"], "every channel, all values, throw or no throw at each user call, stop requested or not",
  RUN, [D+"__then.hpp", D+"__upon_error.hpp", D+"__upon_stopped.hpp", D+"__just.hpp", D+"__into_variant.hpp", D+"__stopped_as_optional.hpp", D+"__stopped_as_error.hpp", X+"materialize.hpp", X+"unless_stop_requested.hpp", X+"variant_sender.hpp", X+"into_tuple.hpp"],
  [("__sexpr_impl complete functions", D+"__basic_sender.hpp")])
p("C09", "bulk invokes the function for every index exactly once",
  "bulk, bulk_chunked and bulk_unchunked call the function so that every index of [0, shape) is covered exactly once and no index outside it is, with the predecessor's values, for every shape and execution policy, on the default implementation, on static_thread_pool and on pools built on thread_pool_base (where the work is partitioned over the available parallelism); values are then forwarded, and an exception from the function becomes a single set_error completion.",
  ["inputs", "schedules", "fault_sequences"], "all shapes within the bound (all 32-bit shapes and thread counts for the partition arithmetic), throw at any index, all interleavings of two workers",
  RUN + "Partition arithmetic is wrong only at particular shape/thread-count combinations.",
  [D+"__bulk.hpp", X+"static_thread_pool.hpp", X+"thread_pool_base.hpp", D+"__parallel_scheduler_default_impl.hpp"], [("default bulk loop", D+"__bulk.hpp"), ("even_share / bulk shared state", X+"static_thread_pool.hpp"), ("bulk shared state", X+"thread_pool_base.hpp")])
p("C10", "Scheduling adaptors complete on the requested context with the same result",
  "continues_on/schedule_from deliver the predecessor's completion (any channel, values intact) on the target scheduler's context; starts_on starts its child on the scheduler's context; on(sch, sndr) and sndr | on(sch, closure) run the work there and complete back on the scheduler where they were started. If the scheduling operation itself errors or is stopped, that completion is delivered instead, exactly once, and no child is started on the wrong context.",
  ["inputs", "histories"], "any channel and value of the predecessor; scheduling that succeeds, fails, or is stopped; deferred contexts drained in any order",
  RUN, [D+"__continues_on.hpp", D+"__starts_on.hpp", D+"__on.hpp", D+"__schedule_from.hpp"], [("stored completion + second schedule operation", D+"__continues_on.hpp")])
p("C11", "Counting scopes: join waits for all associations; close refuses new ones",
  "For simple_counting_scope and counting_scope, try_associate succeeds iff the scope is not closed or joined and the count is below max_associations; every join-sender completes exactly once and only when the number of live associations is zero, after which no association can be made; work done before disassociation happens-before the join completion. counting_scope::request_stop reaches every wrapped sender.",
  ["schedules", "inputs", "histories"], "all 64-bit scope states reachable under the invariant for single operations, and all interleavings of associate/disassociate/close/join on up to three threads",
  RUN, [D+"__counting_scopes.hpp", D+"__associate.hpp"], [("packed count/state word", D+"__counting_scopes.hpp"), ("registered join list with sentinel", D+"__counting_scopes.hpp")])
p("C12", "spawn and spawn_future own their operation exactly once",
  "spawn starts the sender iff the association succeeded and destroys the operation state and releases the association exactly once after it completes. spawn_future's sender completes exactly once with the spawned operation's result (or set_stopped if cancelled or the association failed); dropping it unconsumed requests stop; in every interleaving of completion, consumption, cancellation and dropping the state is destroyed exactly once, after its last use, and the association is released.",
  ["schedules", "inputs"], "all interleavings of completion, start of the future, stop request and drop on up to three threads; any channel and value",
  RUN, [D+"__spawn.hpp", D+"__spawn_future.hpp", D+"__stop_when.hpp", D+"__spawn_common.hpp"], [("registered-receiver sentinel protocol", D+"__spawn_future.hpp"), ("op-state self destruction", D+"__spawn.hpp")])
p("C13", "exec::async_scope tracks all nested work",
  "Work passed to async_scope nest/spawn/spawn_future runs with its completion forwarded exactly once; on_empty()/when_empty() senders complete only when no nested operation is active, and do complete once it is so; request_stop on the scope reaches all nested work; spawned operation states and future states are freed exactly once for every interleaving of completion, consumption and dropping of the future.",
  ["schedules", "inputs"], "all interleavings of completing nested work, on_empty waiters and future consumers/droppers, any channel",
  RUN, [X+"async_scope.hpp"], [("active count under mutex + waiter list", X+"async_scope.hpp"), ("future step machine", X+"async_scope.hpp")])
p("C14", "Coroutine tasks deliver result, exception or stop exactly once and free frames",
  "stdexec::task and exec::task deliver the co_returned value, the escaping exception, or stopped (when an awaited sender stops or the token is triggered) to the awaiter exactly once; awaiting a sender yields its value or throws its error and resumes the coroutine once; every coroutine frame and local is destroyed exactly once on every path, and at_coroutine_exit actions run exactly once in reverse order.",
  ["inputs", "histories"], "every completion channel of each awaited sender, inline or deferred resumption, values, exceptions, nested tasks, tasks destroyed before being started",
  RUN, [D+"__task.hpp", X+"task.hpp", D+"__as_awaitable.hpp", D+"__connect_awaitable.hpp", D+"__with_awaitable_senders.hpp", X+"at_coroutine_exit.hpp"], [("promise/awaiter completion", D+"__task.hpp"), ("sender awaitable", D+"__as_awaitable.hpp")])
p("C15", "repeat_n and repeat_until iterate exactly as specified",
  "repeat_n(n) runs its child exactly n times (completing immediately for n = 0) and repeat_until runs it until the first true; each iteration's operation is destroyed before the next is started and before the final completion; an error or stop of the child ends the repetition with that completion after exactly the iterations so far; recursion stays bounded when children complete inline.",
  ["inputs", "histories"], "all counts within the bound, completion channel of every iteration, throwing connect/conversion, inline and deferred children",
  RUN, [X+"repeat_n.hpp", X+"repeat_until.hpp"], [("re-emplaced child op state on a trampoline", X+"repeat_until.hpp")])
p("C16", "finally, sequence and stop_when keep ordering and never lose a completion",
  "finally runs the final action exactly once after the initial sender completes on any channel and then delivers the initial completion unchanged, unless the final action itself errors or stops; the initial operation has been destroyed when the final action starts (if storing the initial result throws, that exception is delivered as set_error instead); sequence runs senders strictly in order, stops at the first non-value completion and completes with the last one's values; stop_when completes with its child's completion and forwards stop requests from both tokens to the child.",
  ["inputs", "schedules", "fault_sequences"], "all channels and values for both stages, inline or deferred, concurrent stop requests",
  RUN, [D+"__finally.hpp", D+"__sequence.hpp", D+"__stop_when.hpp"], [("stored completion then final op", D+"__finally.hpp"), ("fused stop token", D+"__stop_when.hpp")])
p("C17", "Type-erased senders, receivers and schedulers behave as what they wrap",
  "any_sender, any_receiver_ref, any_scheduler, task_scheduler and exec::function complete exactly as the wrapped object would (same channel, same values, same environment queries, stop requests forwarded), compare equal iff the wrapped objects do, and construct, move and destroy the wrapped object exactly once whether it fits the inline buffer or is heap allocated.",
  ["inputs", "histories"], "small and large wrapped types, every completion channel and value, every copy/move/assign/destroy history within the bound, allocation failure",
  RUN, [X+"any_sender_of.hpp", D+"__any.hpp", D+"__task_scheduler.hpp", X+"function.hpp"], [("vtable storage", D+"__any.hpp")])
p("C18", "Intrusive containers keep their contents and order",
  "For every history of operations, the intrusive queue and list deliver elements in FIFO/declared order with none lost or duplicated under push, pop, append, prepend, splice, remove and move; the intrusive heap's front is always a minimal element and pop/erase remove exactly the requested element; static_vector, optional, variant, tuple and manual-lifetime storage hold exactly what was put in and destroy each element exactly once.",
  ["inputs", "histories"], "all operation sequences and all keys within the stated lengths",
  RUN + "Heap shape bugs need particular insertion/erase patterns and key ties.",
  [D+"__intrusive_queue.hpp", D+"__intrusive_slist.hpp", X+"detail/intrusive_heap.hpp", D+"__static_vector.hpp", D+"__optional.hpp", D+"__variant.hpp"], [("pairing heap links", X+"detail/intrusive_heap.hpp")])
p("C19", "Lock-free queues lose and duplicate nothing",
  "The multi-producer queues (intrusive MPSC, atomic intrusive queue in both flavours) and the block-based work-stealing LIFO queue hand every pushed element to exactly one consumer, preserve per-producer order (owner pops LIFO from the BWoS queue, thieves steal oldest first), report empty/full only when so, and publish element contents to the consumer.",
  ["schedules", "histories"], "all interleavings of up to three threads with the stated operation counts, block sizes down to the minimum",
  RUN, [D+"__intrusive_mpsc_queue.hpp", D+"__atomic_intrusive_queue.hpp", X+"detail/atomic_intrusive_queue.hpp", X+"detail/bwos_lifo_queue.hpp"], [("stub-node relinking", D+"__intrusive_mpsc_queue.hpp"), ("block head/tail/steal counters", X+"detail/bwos_lifo_queue.hpp")])
p("C20", "static_thread_pool runs every submitted operation exactly once",
  "Every operation started on a static_thread_pool completes exactly once on one of the pool's threads (set_stopped iff its token was stopped first), no wake-up is lost (the workers never all sleep while an operation is queued), and destruction returns after the workers exited, with no operation that was started before request_stop or the destruction dropped or touched afterwards; schedule_all delivers each element of its range exactly once on the pool and completes once, after every item has completed, without using its operation state afterwards.",
  ["schedules"], "all interleavings (up to the stated preemption bound) of 1-2 workers with external and worker-local submission and shutdown",
  RUN, [X+"static_thread_pool.hpp", X+"detail/bwos_lifo_queue.hpp"], [("thread state running/sleeping/notified", X+"static_thread_pool.hpp"), ("remote queues", X+"static_thread_pool.hpp")])
p("C21", "Timers fire once, never early, in deadline order, and cancel promptly",
  "An operation scheduled on the timed_thread_context at time t completes exactly once: with set_value not before t, operations with distinct deadlines in deadline order and ties in submission order, or with set_stopped if cancelled first or the context is shut down; a pending command is never left unprocessed while the context sleeps; a cancelled far timer completes without waiting for its deadline.",
  ["schedules", "inputs"], "arbitrary deadlines and clock readings, all interleavings of submit, cancel and shutdown with the timer thread within the stated bounds",
  RUN, [X+"timed_thread_scheduler.hpp", X+"detail/intrusive_heap.hpp", D+"__intrusive_mpsc_queue.hpp", X+"timed_scheduler.hpp"], [("command queue + heap + condition variable", X+"timed_thread_scheduler.hpp"), ("ref-counted stop protocol", X+"timed_thread_scheduler.hpp")])
p("C22", "Trampoline and inline schedulers bound recursion and run everything once",
  "Every operation scheduled on trampoline_scheduler completes exactly once on the calling thread before the outermost schedule returns, nesting never exceeds the configured depth, deferred operations run in FIFO order, and an operation whose token is stopped completes with set_stopped; inline_scheduler completes within start.",
  ["inputs", "histories"], "all depth limits and schedule trees within the bound, any stop state",
  RUN, [X+"trampoline_scheduler.hpp", D+"__inline_scheduler.hpp"], [("thread-local trampoline state", X+"trampoline_scheduler.hpp")])
p("C23", "Sequence senders deliver every item once, in order, then complete",
  "iterate, transform_each, merge, merge_each, ignore_all_values, empty_sequence and any_sequence pass each item of their source to the consumer exactly once and in the order of its source; an element of iterate (or of one child sequence) starts only after the consumer acknowledged the one before; a consumer that acknowledges with stopped, or a stop request, ends the iteration; the final completion is delivered once, only after every item was acknowledged. ignore_all_values completes with the first failing item's error or stop. merge completes after both sequences, with an error if one failed. merge_each requests stop on everything after the first error of an item or a nested sequence, delivers that error as the last item, forwards an error of the outer sequence as its own completion, and does not stop the others when one nested sequence or item is stopped. Exceptions of the consumer's set_next or connect end iterate with set_error.",
  ["inputs", "schedules", "histories"], "all sequence lengths and item completions within the bound, inline or deferred items, concurrent items for merges",
  RUN, [X+"sequence/iterate.hpp", X+"sequence/transform_each.hpp", X+"sequence/merge.hpp", X+"sequence/merge_each.hpp", X+"sequence/ignore_all_values.hpp", X+"sequence/any_sequence_of.hpp", X+"sequence_senders.hpp"], [("item operation protocol", X+"sequence_senders.hpp")])
p("C24", "Detached starts own and free their operation exactly once",
  "start_detached, execute, start_now and submit connect and start the sender once, keep the operation alive until it completes whichever thread completes it, then destroy and deallocate it exactly once through the environment's allocator; start_now's storage may be destroyed as soon as joining reports empty.",
  ["schedules", "inputs", "fault_sequences"], "any completion channel, inline or remote completion in any interleaving, throwing connect, custom allocators",
  RUN, [X+"start_detached.hpp", X+"start_now.hpp", X+"execute.hpp", D+"__submit.hpp"], [("self-deleting op state", X+"start_detached.hpp")])
p("C25", "Parallel scheduler backends complete every receiver proxy exactly once",
  "Work scheduled through the parallel scheduler (schedule and bulk, chunked and unchunked) reaches the backend once and completes exactly once on the backend's context with the predecessor's values, covering each bulk index exactly once; stop requests and backend errors reach the receiver; the inline backend storage is never used after completion.",
  ["inputs", "schedules"], "backends that complete inline or later, on any channel, any shape within the bound",
  RUN, [D+"__parallel_scheduler.hpp", D+"__parallel_scheduler_backend.hpp", D+"__parallel_scheduler_default_impl.hpp", X+"system_context.hpp"], [("receiver proxies and preallocated backend storage", D+"__parallel_scheduler.hpp")])
p("C26", "fork_join joins what it forked",
  "fork_join evaluates the predecessor once, feeds its values to every closure, and completes exactly once after all branches complete, with the concatenated values or the error/stop of the branches or of the predecessor; predecessor values stay alive until all branches completed.",
  ["inputs", "schedules"], "all channels of predecessor and 2 branches, any order and interleaving",
  RUN, [X+"fork_join.hpp"], [("cached results + when_all of branches", X+"fork_join.hpp")])
p("C27", "Frame allocators and memory-resource adaptors pair every allocation",
  "Every block obtained through the frame allocator, any_allocator or memory_resource adaptor is returned exactly once to the resource it came from with the same size and alignment, never overlaps a live block, and is suitably aligned.",
  ["inputs", "histories"], "all sizes and alignments within the bound and all allocate/deallocate histories within the bound",
  RUN, [X+"__memory_resource_adaptor.hpp", X+"__frame_allocator.hpp", D+"__any_allocator.hpp", D+"__memory.hpp"], [("adaptor do_allocate/do_deallocate", X+"__memory_resource_adaptor.hpp")])
p("C28", "The io_uring context never loses or double-completes an operation",
  "Every operation submitted to the io_uring context is entered into the submission ring or kept pending (never overwriting an unconsumed entry), completes exactly once when its completion entry is reaped, is cancelled and completed with set_stopped when stopped, and run() returns only when outstanding work is zero after a stop request; operations started on a stopped context complete with set_stopped, and no stop request is missed.",
  ["inputs", "schedules", "histories"], "ring positions including wrap-around, any completion order, stop requests and starts from other threads",
  RUN, [X+"linux/io_uring_context.hpp"], [("submission/completion queue index arithmetic", X+"linux/io_uring_context.hpp")])
p("C29", "Library-internal sharing is free of data races",
  "In every schedule, two conflicting accesses by library code to the same non-atomic memory are ordered by happens-before, and no library object is accessed after its lifetime ended; so a value written before a completion is visible to whoever observes the completion.",
  ["schedules"], "all interleavings of the concurrent harnesses of the other properties, with happens-before computed from the memory orders actually written in the code",
  "A weakened memory order never fails a test on x86; only reasoning over happens-before sees it.",
  ["stdexec/stop_token.hpp", D+"__run_loop.hpp", D+"__when_all.hpp", X+"detail/shared.hpp", D+"__spawn_future.hpp", D+"__counting_scopes.hpp", D+"__intrusive_ptr.hpp"], [("acquire/release pairs", D+"__atomic.hpp")])
p("C30", "Senders complete only as advertised",
  "For every sender and every receiver environment, each completion that an operation delivers (channel and argument types) is among the completion signatures the sender advertises for that environment, including exceptions thrown by copies, moves, functions and nested connects; and an operation advertised as noexcept (connect, or a completion without set_error) never terminates the program because such a step threw (nor does subscribe of a sequence, or the allocator-aware construction of a sender's data).",
  ["inputs", "histories"], "every completion channel of the children, every point at which a copy, move, function or connect may throw, stop requests; over compositions of the library's adaptors",
  "Signatures are computed at compile time and completions are chosen at run time; a mismatch shows only for the one exception path or stop request that a test does not take.",
  ["stdexec/__detail/__let.hpp", D+"__when_all.hpp", X+"when_any.hpp", X+"detail/shared.hpp", X+"sequence.hpp", X+"finally.hpp", X+"repeat_n.hpp", X+"repeat_until.hpp", D+"__bulk.hpp", D+"__continues_on.hpp", X+"materialize.hpp", X+"sequence_senders.hpp", X+"sequence/iterate.hpp", X+"sequence/merge.hpp", X+"sequence/ignore_all_values.hpp", D+"__basic_sender.hpp"], [("noexcept computations and completion signatures", D+"__let.hpp")])
p("C31", "Asio operations adapted to senders complete exactly once",
  "An operation that a Boost.Asio initiating function starts with exec::asio::completion_token or use_sender completes its receiver exactly once: with the values of the handler's call (converted to the declared signature), with set_stopped if every handler was dropped without a call, and with set_error for the first exception of the initiating function, of an intermediate handler run through the associated executor, of the executor itself or of a value conversion; never before the handler was called or dropped and the frames on the stack unwound, and without using the operation state, the stop token or the cancellation signal afterwards. A stop request is delivered to the operation's cancellation slot at most once and never after the completion. use_sender turns an empty error_code into the remaining values, operation_aborted/canceled into set_stopped, and any other code into a system_error holding that code.",
  ["inputs", "schedules", "histories", "fault_sequences"], "every combination of inline, deferred, abandoned and throwing initiations and intermediate handlers within the bound, all error codes, and all interleavings (up to the stated preemption bound) of start, completion and stop request",
  RUN + "The operation state may be destroyed by the completion while frames of its own are still on the stack or on another thread.",
  [X+"asio/completion_token.hpp", X+"asio/use_sender.hpp"], [("frames, abandonment and completion", X+"asio/completion_token.hpp"), ("error code translation", X+"asio/use_sender.hpp")])

p("C32", "Senders complete where and when their attributes say, and coroutines resume where they were",
  "Whatever a sender's attributes say about a completion channel (with the receiver's environment) holds for each completion delivered on that channel: one advertised as inline completes before start() returns on the context that called start(); one advertised as affine completes on the context that called start(); one never advertised as inline does not complete inside start() on that context; and if get_completion_scheduler names a scheduler, the completion happens on that scheduler's context. This holds for just*, then, upon_*, let_*, bulk, when_all, sequence, continues_on, schedule_from, starts_on, on, affine, into_variant, stopped_as_*, write_env, unstoppable and materialize over every kind of child, provided the children and schedulers say the truth about themselves. As a consequence a stdexec::task or exec::task that awaits any of these senders on its scheduler resumes on that scheduler, for values and errors alike.",
  ["inputs", "schedules"], "all combinations of child kinds (inline, affine, asynchronous with and without a completion scheduler, mixed per channel, unknown), channels, completion times and drain orders of the contexts within the bound, with and without a start scheduler",
  RUN + "The attributes are compile-time claims; the tests compare a few of them with expected constants, none with what happens.",
  [D+"__completion_behavior.hpp", D+"__senders.hpp", D+"__queries.hpp", D+"__then.hpp", D+"__let.hpp", D+"__continues_on.hpp", D+"__starts_on.hpp", D+"__on.hpp", D+"__when_all.hpp", D+"__sequence.hpp", D+"__affine.hpp", D+"__schedulers.hpp", X+"task.hpp", D+"__task.hpp"], [("completion behavior and scheduler attributes of each algorithm", D+"__senders.hpp"), ("await_transform", X+"task.hpp"), ("affine", D+"__affine.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
