#!/usr/bin/env python3
"""writes properties.jsonl (kept here because JSON lines are unpleasant to edit)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ['public API return values and data'], hook_needed=None)))
N = ['neco.c']
prop('C01', 'Channel messages are delivered exactly once, in order and intact',
 "Every message whose send reports success is received by exactly one receive operation, byte for byte as sent and in the order in which the sends were accepted; a broadcast reaches exactly the receivers that were waiting. A send that reports an error delivers nothing, a receive that reports an error takes nothing. A channel holds at most its capacity of unreceived messages: sends beyond that block until there is room, and no send or receive stays blocked while its counterpart is available.",
 ['programs', 'schedules', 'inputs'], 'all programs of coroutines that send, receive, try-receive and broadcast on shared channels of any message size and capacity, with deadlines and cancelations, in every reachable order',
 'The tests run a few fixed senders and receivers with one or two capacities and message sizes; wrap-around, mixed queues of senders and receivers, deadlines and cancelations racing with a hand-off are not combined.',
 N, [('chan_send0, chan_recv, chan_tryrecv, neco_chan_broadcast', 'neco.c channel section'), ('ring buffer and sender/receiver queues of a channel', 'struct neco_chan')])
prop('C02', 'Closing a channel loses no message and strands no coroutine',
 "After a channel is closed, every later send, broadcast or close reports closed, while messages accepted or offered by blocked senders before the close are still received in order. Receives and selects report closed exactly when none of those messages is left, and receivers and selects already waiting on a channel that is empty are woken by the close. The channel stays valid until its last reference is released.",
 ['programs', 'schedules'], 'all histories that mix sends, receives, selects, deadlines, cancelations, retains, releases and closes of shared channels',
 'Tests close channels in one or two quiescent states; closes with blocked senders, partially drained buffers, or senders that later give up are not explored.',
 N, [('neco_chan_close0, chan_recv draining, sclosed/rclosed', 'neco.c channel section'), ('reference counting', 'neco_chan_retain / neco_chan_release')])
prop('C03', 'Select takes one message from one ready channel and leaves the others alone',
 "A select returns the index of a channel in its list that is ready (first ready one in list order if several already are) together with exactly one message or the closed state of that channel, which the following case call delivers intact, and takes nothing from the other channels. A waiting select is completed by the first send, broadcast or close on any of its channels, competes with ordinary receivers in first-come order, and once it has been completed, timed out or canceled no channel delivers to it any more. A try-select never blocks and reports empty only if no channel is ready.",
 ['programs', 'schedules', 'inputs'], 'all programs mixing selects (any number of channels, repeated channels, any message size) with sends, receives, broadcasts, closes, deadlines and cancelations',
 'Tests use a few fixed select loops over distinct channels with small messages.',
 N, [('neco_chan_selectv_dl0, chan_tryselect, neco_chan_case', 'neco.c channel select section'), ('private receive buffer of a waiting select', 'coroutine cmsg fields')])
prop('C04', 'Mutexes exclude, admit readers together, and hand over in order',
 "At any moment a mutex is held by at most one writer or by any number of readers, never both. Waiting coroutines get the mutex in the order they asked for it (adjacent readers together), a new reader never overtakes a waiting writer, and an unlocked mutex never leaves a waiter blocked. Try-lock reports busy exactly when the lock could not be granted at once, and a lock that reports an error is not held.",
 ['programs', 'schedules'], 'all programs of lock, read-lock, try-lock and unlock over several mutexes with deadlines and cancelations',
 'Tests check counters under one fixed schedule; queues of mixed readers and writers with waiters that time out or are canceled in the middle are not explored.',
 N, [('mutex_lock, mutex_rdlock, mutex_unlock hand-off', 'neco.c mutex section')])
prop('C05', 'Condition variables lose no signal and return with the mutex held',
 "Waiting on a condition releases the mutex and starts waiting in one step and returns with the mutex held again, whatever the result. A signal wakes exactly one of the coroutines waiting (the longest-waiting one), a broadcast wakes all of them, and neither is remembered if nobody waits. A wait returns success only if it was signaled; a wait that timed out or was canceled consumes no signal.",
 ['programs', 'schedules'], 'all programs of waits, signals and broadcasts over shared conditions and mutexes with deadlines and cancelations',
 'Tests use one waiter pattern and quiescent signaling.',
 N, [('cond_wait, cond_signal, cond_broadcast, mutex_handoff', 'neco.c cond section')])
prop('C06', 'Waitgroups release their waiters exactly when the count reaches zero',
 "A waitgroup's count changes by exactly the added amounts and never becomes negative: an operation that would make it negative fails and changes nothing. A wait returns at once when the count is zero and otherwise stays blocked until the count next reaches zero, which releases every coroutine waiting at that moment; a waitgroup can be reused afterwards.",
 ['programs', 'schedules', 'inputs'], 'all programs of adds (positive, negative, zero), dones and waits over shared waitgroups with deadlines and cancelations',
 'Tests use one add/done/wait pattern.',
 N, [('neco_waitgroup_add, done, wait_dl', 'neco.c waitgroup section')])
prop('C07', 'Deadlines and sleeps are neither early nor late, for every operation and value',
 "A sleep or an operation with a deadline never gives up before its deadline has passed, and an operation nobody completes gives up as soon as the runtime is idle at its deadline; sleepers and timed waiters wake in deadline order. This holds for every 64-bit deadline or duration, including zero, negative, past and maximal values, which mean an immediate or a never-occurring timeout. A timed-out operation has no effect, and an idle runtime waits in the operating system instead of spinning.",
 ['programs', 'inputs', 'schedules'], 'all deadlines and durations, over all operations that take one, with any number of coroutines waiting at once',
 'Tests sleep a few fixed milliseconds of real time with generous tolerance.',
 N, [('deadline queue (AAT tree dlqueue), sco_idle wait computation, rt_sched_dl_step', 'neco.c scheduler'), ('i64_add_clamp, checkdl', 'neco.c')])
prop('C08', 'Cancelation is delivered exactly once and runs cleanup handlers exactly once',
 "A canceled coroutine has exactly one operation - the one it is blocked in, or its next one that can block - report canceled (inline type) or is terminated there (async type); other operations and coroutines are not affected, and an operation already completed by a peer is not undone. While a coroutine has cancelation disabled, cancelers wait until it is enabled again, their deadline passes, or the target is gone (not found). When a coroutine ends by exit or by cancelation its pushed cleanup handlers run exactly once, innermost first; handlers popped before run only if asked to.",
 ['programs', 'schedules', 'histories'], 'all programs in which coroutines in any state (running, blocked in any operation, ending, ended) are canceled, by any number of cancelers, with any nesting of cleanup handlers',
 'Tests cancel one coroutine in one state at a time.',
 N, [('neco_cancel_dl0, checkdone, setcancelstate, coexit and cleanup stack', 'neco.c cancel section')])
prop('C09', 'Coroutines start at once with their arguments and end for all observers',
 "A started coroutine begins running before the start call returns, with exactly the given arguments (any number), a fresh state and an identifier never used before in the process; identifiers of self, starter and last started coroutine are reported correctly throughout its life. A join returns only after its target ended and always returns then, at once if it ended before. The call that started the runtime returns success only after every coroutine ended, and a runtime can be started again, any number of times.",
 ['programs', 'histories', 'inputs'], 'all trees of coroutines that start, join, exit, return and are canceled; all argument counts; all sequences of runtimes',
 'Tests start small fixed sets of coroutines with few arguments.',
 N, [('neco_startv0, coentry, coexit, joinlist, coroutine pool', 'neco.c'), ('sco_start, sco_list', 'deps/sco.c and its copy in neco.c')])
prop('C10', 'Scheduling is fair and repeatable',
 "A runnable coroutine is not passed over: between two turns of one coroutine, every other coroutine that was runnable all the time gets a turn, and no set of busy coroutines keeps expired timers, ready files or signals from being served. A program that does not depend on real time, randomness or other threads runs in the same order every time, whatever stack, pool or switching options the library was built with.",
 ['programs', 'schedules', 'configurations'], 'all programs of yielding, blocking and starting coroutines; all build configurations',
 'Tests never compare two runs or two builds and check order only for a few yields.',
 N, [('sco runners list and sco_yield/sco_resume', 'deps/sco.c and its copy in neco.c'), ('rt_sched_step', 'neco.c')])
prop('C11', 'Suspended coroutines stay suspended until resumed, canceled or timed out',
 "A suspended coroutine does not run again until it is resumed, canceled, or its deadline passes, and it then continues with the corresponding result. Resuming a suspended coroutine succeeds and wakes it exactly once; resuming one that is not suspended or does not exist reports that and changes nothing, in particular it never completes another operation.",
 ['programs', 'schedules'], 'all programs of suspends, resumes and cancels among coroutines in every state',
 'Tests resume one suspended coroutine in fixed order.',
 N, [('neco_suspend_dl0, neco_resume0', 'neco.c')])
prop('C12', 'Generators yield their values in order, each exactly once, then report closed',
 "The values a generator yields are returned by successive next calls in order, intact and exactly once; after the generator coroutine ended, next reports closed. A next that times out or is canceled loses no value, closing a generator makes its later yields report closed, and the generator's memory and coroutine are released once all references are gone and it ended.",
 ['programs', 'schedules', 'inputs'], 'all programs of generators (any value size and count) with any number of consumers, early close, retain/release, deadlines and cancelations',
 'Tests iterate one generator to its end.',
 N, [('neco_gen_start, neco_gen_next_dl, neco_gen_yield_dl, neco_gen_close', 'neco.c generator section')])
prop('C13', 'File descriptor I/O moves each byte once and wakes every waiter that is due',
 "Reads and writes on pipes and sockets transfer exactly the bytes they report, in order, whatever short transfers, would-block conditions and interruptions the system produces; a write reports success only after all of its bytes were written and reports the bytes transferred so far otherwise. A coroutine waiting to read, write, accept or connect is woken when the descriptor becomes ready, is closed by the peer or fails, no matter how many coroutines wait on it or on others and for which direction, and no other coroutine is blocked meanwhile. End of file is reported as zero.",
 ['programs', 'schedules', 'fault_sequences', 'inputs'], 'all programs of concurrent readers, writers and waiters over pipes and socket pairs; all sequences of short, would-block and interrupted system calls',
 'Tests run over loopback with whatever the kernel does; short writes, EINTR and several waiters of different kinds on one descriptor are not controlled.',
 N, [('neco_read_dl0, neco_write_dl0, neco_accept_dl0, neco_connect_dl, wait_dl, rt_sched_event_step', 'neco.c'), ('io workers', 'iowork')])
prop('C14', 'Streams behave as byte sequences: nothing lost, duplicated or reordered',
 "For a buffered or unbuffered stream, any sequence of read, read-full, read-byte, unread-byte, write, flush and close transfers the bytes of the descriptor in order, none lost or duplicated, with buffered sizes reported exactly; unread-byte gives back the last byte read or fails without effect. Flush and close hand every buffered byte to the descriptor or report the failure, and after a partial, canceled or timed-out operation the stream continues exactly where it stopped.",
 ['programs', 'inputs', 'fault_sequences'], 'all sequences of stream operations of all sizes around the buffer size, with short and failing reads and writes at every point',
 'Tests use a few sizes and one injected failure per operation.',
 N, [('neco_stream_* and bufrd/bufwr buffers', 'neco.c stream section')])
prop('C15', 'Coroutines keep their stack and preserved registers across switches',
 "Whatever a coroutine keeps in local variables at any call depth and in the registers the calling convention preserves is unchanged after any switch away and back, up to the full configured stack size; its stack is correctly aligned and never overlaps the stack of another live coroutine or of the thread. Memory of a coroutine is reused only after it ended, in every build configuration (assembly or ucontext switching, guarded, heap-allocated, pooled or unpooled stacks).",
 ['programs', 'schedules', 'configurations'], 'all interleavings of many coroutines with deep and shallow stacks; all stack and switch build options',
 'Tests do not check the contents of stacks or registers across switches.',
 N + ['deps/sco.c', 'deps/stack.c'], [('llco switch assembly / stackjmp', 'llco in neco.c and deps/sco.c'), ('stack_get/stack_put groups, gap and guard handling', 'deps/stack.c and its copy in neco.c')])
prop('C16', 'Resource exhaustion is reported cleanly and nothing is leaked',
 "If an allocation, memory mapping or polling resource cannot be obtained, the operation that needed it reports the error and has no other effect, or carries on without the resource, and the program can continue and succeed later. When a runtime ends, all memory, mappings, descriptors, threads and signal handlers it obtained have been released, including after errors and cancelations.",
 ['fault_sequences', 'programs'], 'every single allocation or resource failure point, and sequences of them, of generated programs',
 'Tests fail a few chosen allocations through a test hook.',
 N + ['deps/stack.c', 'deps/sco.c', 'deps/worker.c'], [('malloc0/mmap0 results and their error paths', 'neco.c'), ('rt_release, runtime teardown', 'neco.c')])
prop('C17', 'Each occurrence of a watched signal reaches exactly one waiting watcher',
 "Each occurrence of a signal that some coroutine watches is delivered exactly once, to a coroutine that watches it and waits for signals, without waiting for timers or files; if none is waiting it stays pending until one waits, and it does not hold up other signals or other coroutines meanwhile. It never reaches a coroutine that does not watch it or no longer does. A wait that times out or is canceled loses no occurrence, waiting without a watch reports that at once, and unwatching or ending leaves other watchers unaffected. A signal that nobody watches ends the process with status 128 plus its number, except that a broken-pipe signal is ignored; after the runtime ended the previous signal behaviour (handlers, alternate signal stack, mask) is back.",
 ['programs', 'schedules', 'histories'], 'all programs of coroutines that watch, unwatch and wait for signals with deadlines and cancelations, with signals raised at any point, in any thread, or by another process',
 'Tests raise one signal at a time with one or two watchers.',
 N, [('neco_signal_watch, neco_signal_unwatch, neco_signal_wait_dl, rt_sched_signal_step, sighandler', 'neco.c signal section')])
prop('C18', 'Background work runs each task exactly once off-thread while coroutines go on',
 "Each submitted task runs exactly once, in another thread, and the submitting coroutine continues exactly after the task finished, without waiting for timers or files, and sees its effects, while other coroutines keep running. Tasks with the same pin never overlap and, while they fit its queue, run in submission order; unpinned tasks are spread over the threads so that a slow one does not hold up the next; tasks submitted in any number complete, also when no thread can be created at the moment or the submitter is canceled meanwhile.",
 ['programs', 'schedules', 'fault_sequences'], 'all programs submitting tasks with arbitrary pins and durations, above and below the number of threads and queue slots, with failing thread creation and cancelation',
 'Tests submit a handful of tasks without pins or failures.',
 N + ['deps/worker.c'], [('neco_work, workfn, iopause list', 'neco.c'), ('worker_submit, thread ring', 'deps/worker.c and its copy in neco.c')])
prop('C19', 'Runtimes in different threads are independent; misuse outside is refused',
 "Each thread has its own runtime: programs running in several threads at once behave as if they ran alone, without data races, and no two coroutines in the process share an identifier. Every operation that needs a coroutine reports not permitted, and has no effect, when called outside of one.",
 ['programs', 'schedules', 'configurations'], 'all sets of programs run concurrently in several threads; all operations called outside a runtime',
 'Tests run one runtime at a time, mostly in one thread.',
 N, [('thread-local runtime pointer rt, sco id allocation', 'neco.c, deps/sco.c'), ('PERM checks', 'all public functions')])
prop('C20', 'Dial and serve reach exactly the given address and clean up on failure',
 "Dialing an address connects to exactly the server serving that network and address (TCP over IPv4 or IPv6, host and port, Unix paths) and returns a usable non-blocking descriptor; malformed networks, addresses and over-long paths are rejected with an error and leak no descriptor. Serving an address that is in use fails and leaves its server alone, and a TCP address can be served again as soon as its server is closed. A dial to nowhere fails instead of hanging, name lookups do not hold up other coroutines, and deadlines and cancelations apply; whatever fails leaves no descriptor, socket file, lookup result or memory behind. A pipe of neco consists of two non-blocking descriptors connected to each other in both directions, whoever makes pipes at the same time; making one keeps the caller's cancel state, and a failure changes nothing.",
 ['inputs', 'fault_sequences'], 'all network and address strings, valid and malformed, with failing system calls',
 'Tests use a handful of addresses.',
 N, [('neco_dial_dl, neco_serve_dl, neco_getaddrinfo_dl, neco_pipe', 'neco.c networking section')])
prop('C21', 'Random numbers: seeded sequences repeat, requested bytes are filled, no others',
 "With the same seed the non-cryptographic generator produces the same byte sequence for the same requests, different seeds give different sequences, and setting a seed reports the previous one so that the sequence can be continued; successive requests of any size go on in the sequence instead of repeating it. Every request fills exactly the requested bytes, whatever the size, for both kinds; cryptographic bytes do not repeat and do not depend on the seed.",
 ['inputs', 'histories'], 'all sequences of seeds and request sizes of both kinds',
 'Tests read a few sizes.',
 N, [('neco_rand_dl, prng, getrandom chunking', 'neco.c random section')])
prop('C22', 'Statistics report exactly the coroutines in each state',
 "At every point the runtime statistics report the exact number of live coroutines and of coroutines that are sleeping, sending, receiving, locking, waiting for a group, condition, descriptor or signal, or suspended, up to coroutines that have been woken but not yet run; the counts return to zero when nobody waits.",
 ['programs', 'schedules'], 'all programs over all blocking operations, observed at all points',
 'Tests read the statistics at a few quiescent points.',
 N, [('counters of the runtime and neco_getstats', 'neco.c')])
prop('C23', 'Errors are reported consistently: results, last error and messages agree',
 "Invalid arguments are refused with the documented code and without side effects for every operation; the last-error value of a coroutine always equals the outcome of its own most recent operation and is not changed by other coroutines. Every error code and system error has a stable, non-empty message, and error values and results agree. With panic-on-error set, invalid arguments, refused permissions and exhausted memory end the program with a message, and no other error does.",
 ['inputs', 'programs'], 'all operations with all combinations of invalid arguments; all error codes; any interleaving of coroutines',
 'Tests check single error cases of single operations.',
 N, [('error_guard, neco_lasterr, neco_strerror, panic', 'neco.c')])
prop('C24', 'Programs end as documented: return of main, crash and panic',
 "A program written as neco_main gets its arguments unchanged and ends as soon as its main coroutine returns, with the returned value as its exit status and all its buffered output written, whatever other coroutines, background tasks or waits are under way. A fault (invalid access, arithmetic, illegal instruction, bus error, trap, and with guards on a stack overflow) anywhere in a coroutine or background task ends the process with status 128 plus the signal number and a report; a panic prints its message and aborts. Neither ever hangs or lets the program go on.",
 ['programs', 'fault_sequences', 'configurations'], 'all neco_main programs with any coroutines alive at the end; every kind of fault at any place',
 'Tests replace the ways to end a program with stubs, so that none of them runs as in production.',
 ['neco.c', 'neco.h'], [('neco_main, __neco_exit_prog, sighandler, crash_and_exit, neco_panic', 'neco.c')])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
