"""Single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""

CATALOG = []

NOT_APPLICABLE = []


def prop(id, title, statement, over, quant, why, files, mech, observe, design, note=''):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                        mech=mech, observe=observe, design=design, note=note))


S, I, H, F, C = 'schedules', 'inputs', 'histories', 'fault_sequences', 'configurations'

prop('C01', 'Aggregation batches calls exactly and gives every caller its own outcome',
     'Every call of an aggregated coroutine is part of exactly one batch which runs to its end (a batch cut short by cancellation '
     'may be run again with the remaining arguments), a batch is never empty, never larger than max_count, never mixes foreign or repeated '
     'arguments, and it starts as soon as it is full or, otherwise, no earlier than and without delay after leeway_ms from its first argument. '
     'Every caller completes with the value or exception the batch execution produced for its own argument (ResultNotSetError for a low-level '
     'argument left unset), and as soon as the batch ended, whatever happens to other callers. Cancelling some callers never cancels, fails or loses another caller.',
     [S, I, H, F], 'all arrival times and values, max_count/leeway combinations, batch durations and outcomes, cancellations of any caller at any point, event-loop stalls',
     'Tests use a handful of gathers with fixed sleeps; they cannot sample cancellations of the executing caller at each suspension point, arrivals racing the leeway timer, or failures of the batch between those.',
     ['aiomisc/aggregate.py'],
     [('AggregatorAsync.aggregate / _execute / _clear', 'aiomisc/aggregate.py'), ('Aggregator._aggregate', 'aiomisc/aggregate.py')],
     ['caller outcomes', 'arguments and instants of each batch execution'],
     'callers at seeded virtual times against aggregate/aggregate_async functions and methods with slow, failing, partially failing and argument-forgetting batches; any caller cancelled at a time or before the n-th loop callback; loop stalls. Invariants on each execution (size, duplicates, timing) and a history check mapping each caller to its execution.')

prop('C02', 'timeout, asyncbackoff and asyncretry run attempts exactly as specified',
     'asyncbackoff runs at most max_tries attempts, one at a time, each cut at attempt_timeout and all together at deadline, pausing '
     'exactly pause seconds between them; it retries only outcomes it was told to retry (a timeout or a listed exception which giveup does not veto) and stops at the first success. '
     'The caller gets the value of the successful attempt, or the last exception of the function, or a TimeoutError, and a call neither retries needlessly nor gives up early nor continues after it ended. '
     'Cancelling the caller ends the call and the attempt in progress, no attempt starts afterwards, and the decorated coroutine gets the very arguments of the call; timeout() bounds a call by the same rule.',
     [S, I, H, F], 'all attempt durations, outcomes, exception types and parameters, cancellations at any instant, attempts slow to cancel, loop stalls',
     'Tests cover a few fixed combinations of sleep and timeout and never cancel the caller inside an attempt or a pause; the claim ranges over all timings of attempts against attempt timeout, deadline and pause.',
     ['aiomisc/timeout.py', 'aiomisc/backoff.py'],
     [('asyncbackoff / asyncretry', 'aiomisc/backoff.py'), ('timeout', 'aiomisc/timeout.py')],
     ['attempt start/end history', 'outcome and instant of the decorated call'],
     'concurrent calls whose attempts last, fail, time out, or resist cancellation as planned; a reference replay of the attempt history decides which attempt must have followed which, at what virtual time, and what the caller must receive.')

prop('C03', 'The circuit breaker follows its state machine on every call history',
     'Over any history of successes, errors and inspector answers the breaker is passing, broken or recovering exactly as its error ratio over the '
     'sliding response window, broken time, recovery time and passing time dictate. get_state_delay() tells how long the current state lasts. It lets every call through while passing, rejects every call with CircuitBroken '
     'carrying the last counted exception while broken, and while recovering rejects all at first and lets a growing share (2^x-1 of them after the fraction x of the recovery time) through, all at the end. Results and exceptions of passed calls reach the caller unchanged and only exceptions selected by exceptions/inspector are counted as errors.',
     [I, H, S], 'all call histories, timings and parameters, random recovery decisions, sync contexts and the cutout decorator, concurrent async calls',
     'Tests drive a fixed script with patched clocks; the state depends on an unbounded history of calls over a sliding window, and on random recovery decisions.',
     ['aiomisc/circuit_breaker.py'],
     [('CircuitBreaker.context / get_state / _compute_slots', 'aiomisc/circuit_breaker.py'), ('cutout', 'aiomisc/circuit_breaker.py')],
     ['state after every call', 'CircuitBroken or passed call'],
     'seeded histories of calls on a virtual clock (bursts, silences, window-edge timings) compared call by call with an independent reference model of the state machine; the random source of the recovery decision is the seeded simulator.')

prop('C04', 'Context values reach every waiter and one waiter never disturbs another',
     'A waiter of a context key is always released once the key has a value, with the newest value at that time, whether the value was set before, after, from another thread or repeatedly. '
     'Cancelling or timing out one waiter never cancels or affects any other present or future waiter. get_context() is the live context of its loop and it is unreachable after close.',
     [S, H, F], 'all interleavings of set (from the loop or other threads), get, wait_for timeouts and cancellations, for several keys',
     'Tests set a key once and await it once; cancellation of one of several waiters and cross-thread sets are schedule-dependent.',
     ['aiomisc/context.py'], [('Context / _ContextStorage', 'aiomisc/context.py')], ['outcome of every waiter', 'values set'],
     'seeded waiters, setters in loop and threads, cancellations at a time or n-th callback; a waiter pending at quiescence although its key was set, a spurious CancelledError, a stale or invented value is a violation.')

prop('C05', 'PoolBase keeps its bounds, never hands out a bad instance, never loses capacity',
     'A pool never has more than maxsize instances in use or alive, an instance is used by one user at a time, and an instance destroyed, past its recycle time or whose check failed or was cancelled is never handed out. '
     'As long as users release instances every waiting acquire finally succeeds, whatever creations, checks or destructions fail, take long or are cancelled, and afterwards the full capacity is available. '
     'close() completes the destruction of every instance exactly once, including those still in use, leaves no task behind, and close(timeout) raises TimeoutError in time if a destruction never ends. An acquire() manager is used once.',
     [S, H, F], 'all interleavings of users, creation/check/destroy durations and failures, cancellations at any await, recycle ages, close at any moment',
     'Tests use one or two sizes with well-behaved instances; the failures and cancellations inside acquire and release are what loses capacity.',
     ['aiomisc/pool.py'], [('PoolBase.__acquire/__release/__recycler/__create_new_instance/close', 'aiomisc/pool.py')],
     ['instance life cycle', 'acquire outcomes', 'len(pool)'],
     'a pool of fake instances with seeded create/check/destroy durations, failures and user cancellations; invariants at each life-cycle step; at quiescence all maxsize instances must be acquirable; after close every instance destroyed once. '
     '"alive" is only checked while no destruction of a retired instance is pending, as the implementation (documented by its recycle queue) creates the replacement meanwhile.')

prop('C06', 'Recurring and periodic callbacks run on schedule, never overlap, and stop',
     'A recurring callback runs once per strategy answer, at the instant it asks for, a periodic one once per interval after the previous completion and starting after the configured delay; calls never overlap, '
     'get the given arguments, and a failing call does not end the series, which only a strategy stop, stop() or cancellation does; each failure is logged unless its type is suppressed. Starting a running callback is an error. '
     'After stop() completes no call starts and none is running, with shield the call in progress is finished and never cancelled, and the task can be started again.',
     [S, I, H, F], 'all intervals, delays, call durations and failures, strategy answers, stop and cancellation at any moment, loop stalls',
     'Tests count calls of short sleeps with real clocks; overlap, drift and stop inside any phase depend on timing that is not controlled.',
     ['aiomisc/periodic.py', 'aiomisc/recurring.py', 'aiomisc/service/periodic.py'],
     [('RecurringCallback._start/start/stop', 'aiomisc/recurring.py'), ('PeriodicCallback', 'aiomisc/periodic.py'), ('PeriodicService', 'aiomisc/service/periodic.py')],
     ['call start/end instants', 'strategy questions'],
     'virtual-time replays of the schedule: for every recorded call the oracle computes when the next one was due and requires it there, within the injected stalls; stop/cancel at a time or n-th callback.')

prop('C07', 'Cron callbacks run once at each due time, never early, and stop',
     'A cron callback runs once at each instant its cron expression designates (a missed instant, because the previous call lasted beyond it, is not run late or twice, calls never overlap), never before that instant and without delay after it, also across wall-clock steps small or large once the wait is over. '
     'A failing call does not end the series. After stop() no call starts or runs (shielded calls complete), and it can be started again; one CronService runs each registered callback on its own schedule.',
     [S, I, H, F], 'all cron expressions of a generated family (with seconds), call durations and failures, stop at any moment, wall-clock jumps, loop stalls',
     'Tests wait real seconds for one or two calls; due times over minutes to days, overruns and clock jumps cannot be sampled.',
     ['aiomisc/cron.py', 'aiomisc/service/cron.py'], [('CronCallback.get_next / _start', 'aiomisc/cron.py'), ('CronService', 'aiomisc/service/cron.py')],
     ['call instants on the simulated wall clock'],
     'the oracle evaluates the due instants with its own expansion of the cron fields on the simulated wall clock and checks each call; croniter is the real library.')

prop('C08', 'select, cancel_tasks and shield neither lose, leak nor cancel the wrong task',
     'As soon as one awaitable is done select() returns the value or exception of one that finished first, raises or returns according to return_exceptions and timeout, and when cancel is on none of the other awaitables is still running afterwards; with cancel off none is cancelled. '
     'cancel_tasks() completes only when every given task is done, cancels each unfinished one and leaves finished ones alone, with exceptions swallowed. '
     'A function decorated with shield always runs to its end exactly once with its own outcome, although its caller is cancelled.',
     [S, I, H, F], 'all awaitable durations, outcomes, simultaneous completions, cancellation resistance, caller cancellation at any moment',
     'Tests use a few coroutines with separate sleeps; simultaneous completion, slow cancellation and cancellation of select itself are timing cases.',
     ['aiomisc/utils.py'], [('select / SelectResult', 'aiomisc/utils.py'), ('cancel_tasks / TimeoutPool', 'aiomisc/utils.py'), ('shield / awaitable', 'aiomisc/utils.py')],
     ['task states and outcome when the call returns'],
     'seeded awaitables (coroutines, tasks, futures) including ones that resist cancellation; states of all tasks inspected at return.')

prop('C11', 'Thread pool jobs run exactly once, in parallel, with their own result',
     'A function submitted to ThreadPoolExecutor (executor.submit, loop.run_in_executor, threaded, run_in_executor) runs exactly once in a pool thread, never in the event loop thread, with its arguments and the caller\'s context variables, and its awaiter gets exactly its result or exception. '
     'Up to max_workers jobs run at once and never more. A job cancelled before it starts is not run, and cancelled, failing or raising jobs (of any exception type) leave all threads usable.',
     [S, I, H, F], 'all interleavings at bytecode granularity of submitting, pool and loop threads, job durations, outcomes, cancellations',
     'Tests run happy-path jobs on real threads whose interleavings the OS picks; lost wake-ups and double executions need a specific preemption.',
     ['aiomisc/thread_pool.py'], [('ThreadPoolExecutor / WorkItem / thread_pool_thread', 'aiomisc/thread_pool.py'), ('threaded / run_in_executor', 'aiomisc/thread_pool.py')],
     ['job executions per thread', 'awaiter outcomes'],
     'simulated threads preempted at seeded bytecode lines and lock operations; barrier jobs prove parallelism; at the end max_workers fresh jobs must still all run at once.')

prop('C12', 'Shutting a thread pool down resolves every future and ends its threads',
     'After shutdown() of a ThreadPoolExecutor submit() raises, no further job starts once shutdown returned and its threads ended, and every submitted future is resolved: with its result when the job ran to its end in time, otherwise with an error. '
     'shutdown(wait=True) waits for jobs in progress up to its limit of 10 seconds and never longer, shutdown(wait=False) does not wait, and all pool threads end when their current job ends.',
     [S, H, F], 'all interleavings of submit, job completion and shutdown, job durations from zero to beyond the limit, repeated shutdown',
     'A race between shutdown, a submit and a finishing job needs a particular preemption; tests shut down idle pools.',
     ['aiomisc/thread_pool.py'], [('ThreadPoolExecutor.shutdown/submit', 'aiomisc/thread_pool.py')], ['future states', 'living threads', 'virtual duration of shutdown'],
     'submitters in several simulated threads racing shutdown with seeded preemption; futures, executions and threads examined a simulated minute later.')

prop('C13', 'A threaded iterable gives exactly its items and always frees its thread',
     'Iterating a threaded generator asynchronously gives exactly the items of the generator, in order, without loss or repetition, then its end or its very exception; the generator starts once, in another thread, and never runs more than max_size items ahead. '
     'Leaving it in any way (exhaustion, exception, break from the context, explicit close, cancellation, dropping the iterator, or no iteration at all) closes the generator, and its thread or pool slot becomes free. '
     'A waiting consumer gets an item within about a second after it was made, and never hangs.',
     [S, I, H, F], 'all interleavings of producer and consumer, item counts, buffer sizes, exits and cancellations at any point, generators failing or slow, also during close',
     'The lost-item and hanging-close cases need the producer to finish inside a window of a few bytecodes of the consumer.',
     ['aiomisc/iterator_wrapper.py', 'aiomisc/thread_pool.py'],
     [('IteratorWrapper / QueueWrapper', 'aiomisc/iterator_wrapper.py'), ('threaded_iterable / IteratorWrapperSeparate', 'aiomisc/thread_pool.py')],
     ['items received', 'generator state', 'pool thread availability'],
     'simulated threads; after each run the pool must run jobs on all its threads and no separate thread may live.')

prop('C14', 'Separate threads and sync-to-async bridging complete and never deadlock',
     'A function run by threaded_separate or run_in_new_thread runs exactly once in a new thread of its own with its arguments and context, its awaiter receives its result or exception, and the thread ends with it. '
     'A coroutine called from a thread by sync_await, sync_wait_coroutine or wait_coroutine runs exactly once in the loop thread, and the calling thread receives its result, exception or cancellation; the thread is never left blocked, whatever is cancelled.',
     [S, H, F], 'all interleavings of loop and threads, coroutine durations and outcomes, cancellation of awaiting task or coroutine at any moment',
     'Blocking of a thread after a cancellation is a liveness matter under schedules tests do not control.',
     ['aiomisc/thread_pool.py'], [('run_in_new_thread / threaded_separate', 'aiomisc/thread_pool.py'), ('CoroutineWaiter / sync_await / sync_wait_coroutine', 'aiomisc/thread_pool.py')],
     ['thread outcomes', 'coroutine executions', 'living threads'],
     'simulated threads with seeded preemption; deadlock detection of the simulator reports a thread no one can wake.')

prop('C15', 'Threaded log handlers never lose, duplicate, reorder or block a log call',
     'Every record logged through a threaded log handler (or by basic_config) while its buffer has room reaches the target handler exactly once and in the order each thread logged it, in a thread of its own, also when the handler is closed or flushed right afterwards. '
     'A log call never raises and, when buffered, is never delayed by a target which is slow, blocked or failing; a failing target does not stop later records, and an idle target gets a record within about two flush intervals. Exceptions nobody handled in the loop are logged this way, too. The thread of a closed handler ends.',
     [S, H, F], 'all interleavings of logging threads, drain thread, flush and close; slow and failing targets; bounded and unbounded buffers',
     'The tests log a few records to a fast in-memory stream; loss at close and blocking on the handler lock depend on thread timing.',
     ['aiomisc/log.py', 'aiomisc_log/__init__.py'], [('ThreadedHandler.emit/_in_thread/flush/close', 'aiomisc/log.py'), ('basic_config', 'aiomisc/log.py')],
     ['records handled by the target', 'virtual duration of log calls'],
     'logging from the loop and two threads; conservation and per-thread order of records at the target; virtual time of each log call unless the simulator stalled a thread itself.')

prop('C09', 'The entrypoint runs every service from start to stop and cleans up after itself',
     'The entrypoint (with, async with, run) starts all services at once, each once, and runs the body only after every start() ended or reported readiness and all PRE_START, POST_START receivers ran; a failed start fails the entrypoint. '
     'However the body ends, every started service, also one started by start_services(), is stopped exactly once with the reason, its stop() runs to its end whatever the other stops do, its still running start() is over before, and PRE_STOP and POST_STOP receivers run before and after. '
     'The outcome of the body or a failed stop reaches the caller, and an entrypoint owning its loop leaves no task, thread, context or open loop behind.',
     [S, H, F, C], 'all service sets, start/stop durations and failures, dynamic starts and stops, endings of the body, background tasks resisting cancellation',
     'Tests use one or two immediate services; cutting of a stop by a failing neighbour, or leaks after slow cancellations, need particular relative timings.',
     ['aiomisc/entrypoint.py', 'aiomisc/service/base.py', 'aiomisc/signal.py'],
     [('Entrypoint.start_services / stop_services / __aenter__ / __aexit__', 'aiomisc/entrypoint.py'), ('Service.start_event / _run', 'aiomisc/service/base.py'), ('Signal.call', 'aiomisc/signal.py')],
     ['event history of services, receivers and body', 'outcome of the entrypoint', 'tasks, threads, context and loop afterwards'],
     'seeded services and bodies on all three ways of entering; the recorded history is checked for order, exactly-once and completeness, and the simulator is inspected for leftovers.')

prop('C10', 'SIGINT or SIGTERM shuts the program down gracefully, once, and in time',
     'Once SIGINT or SIGTERM arrives, wherever the program is, closing() wakes up, every service is stopped exactly once with a reason and, when the stops fit in shutdown_timeout, all of them and the background tasks end before the program does, without error. '
     'Stops which take longer are aborted and the program ends with SystemExit(70) once shutdown_timeout elapsed, not earlier, not later. '
     'Further signals, or the program leaving the entrypoint meanwhile, change nothing, and the previous signal handlers are restored.',
     [S, F, C], 'all instants of one or more signals between any two lines, durations of stops around the timeout, all forms of the main program',
     'Tests send one signal to an idle loop; the outcome of a second signal or of a body which ends during the shutdown depends on when exactly these come.',
     ['aiomisc/entrypoint.py'], [('Entrypoint._on_interrupt / closing / graceful_shutdown', 'aiomisc/entrypoint.py')],
     ['stop history', 'exit outcome and virtual instant', 'signal dispositions'],
     'a simulated kernel delivers signals to the main thread between seeded lines of the real entrypoint; the virtual clock decides abort and lateness, histories decide exactly-once.')

prop('C16', 'Asynchronous files act like plain files, off the loop, in order',
     'Any sequence of operations on an async_open() file, text, binary or compressed, gives exactly the results, exceptions and final content the same operations on a plain file give, whatever disk errors or short transfers occur, and leaving the context or close() closes it. '
     'No operation does file I/O in the event loop thread; all run in the executor given. '
     'Writes of concurrent tasks are neither torn, repeated, nor lost when reported done, and tasks iterating one file share its lines, each given once.',
     [S, I, H, F], 'all operation sequences, modes and contents, disk faults at any raw operation, interleavings and cancellations of concurrent users',
     'Tests run fixed scripts on healthy disks with one task; disk faults and interleavings of pool threads are outside their control.',
     ['aiomisc/io.py'], [('AsyncFileIO', 'aiomisc/io.py'), ('async_open / Compression', 'aiomisc/io.py')],
     ['results of operations', 'file content', 'thread of raw operations'],
     'differential: the same seeded operations with the same injected EIO, ENOSPC and short transfers on a plain file over the simulated disk are the oracle; for concurrent users conservation and order of unique records.')

prop('C17', 'TCP and TLS servers serve each client once and stop without leftovers',
     'A TCPServer or TLSServer runs handle_client exactly once for every client connected while it is up, each with the bytes that client sent, intact and in order, and delivers what it writes the same way; a failing handler closes its own connection and disturbs no other client. '
     'stop() is over only when no handler runs any more, cancels those which still run, waits for their clean-up, and never hangs; afterwards no client is accepted or handled, and every remaining client sees its connection closed.',
     [S, I, H, F], 'all client timings, handler behaviours, network delays, splits, resets and partitions, instants of stop including the middle of a connect',
     'Tests connect one well-behaved client to a real loopback socket; a connection accepted within stop() or a partition during it needs control of the network.',
     ['aiomisc/service/tcp.py', 'aiomisc/service/tls.py', 'aiomisc/service/base.py'],
     [('TCPServer.start/stop/make_client_handler', 'aiomisc/service/tcp.py'), ('TLSServer.start/stop', 'aiomisc/service/tls.py'), ('TaskStoreBase', 'aiomisc/service/base.py')],
     ['handler histories', 'bytes at both ends', 'clients after stop'],
     'real services and asyncio transports (real OpenSSL for TLS) over a simulated kernel network; per-client byte-stream oracle and history checks around the instant stop() returned.')

prop('C18', 'Client services connect, retry, reconnect and stop as configured',
     'A TCPClient or TLSClient tries to connect at most connect_attempts times, connect_retry_timeout seconds apart, before its start fails with the connection error, and runs handle_connection once for its connection; the start of the application waits for a connection. '
     'The Robust clients never give up: after a lost connection, a failing handle_connection or a failed round of attempts they connect again after reconnect_timeout, until handle_connection returns; at most one connection is handled at a time, and `connected` is set while one is. '
     'Stopping ends the connecting or handling promptly, with no attempt or handler afterwards.',
     [S, H, F], 'all sequences of refused and accepted attempts, connection losses and handler outcomes, all delays, instants of stop',
     'Tests connect to a live server once; a first connect that fails, or a stop inside the reconnect delay, need a network under control.',
     ['aiomisc/service/tcp.py', 'aiomisc/service/tls.py'],
     [('TCPClient.connect / RobustTCPClient', 'aiomisc/service/tcp.py'), ('connect_tls / RobustTLSClient', 'aiomisc/service/tls.py')],
     ['connect attempts with their virtual instants', 'handler history', '`connected` event'],
     'the simulated network decides each connect attempt; a reference timetable of attempts in virtual time is compared with the recorded attempts and handlers.')

prop('C19', 'The UDP server handles each datagram exactly once and stops cleanly',
     'A UDPServer calls handle_datagram exactly once for each datagram which arrives while it is up, promptly, whatever other handlers do, with the exact data and sender; sendto() sends the reply from its own address to that peer. A failing handler or failing send disturbs nothing else. '
     'stop() ends only when no handler runs any more, unfinished ones having been cancelled and awaited; afterwards no datagram is handled, no task is left and the socket is closed.',
     [S, I, H, F], 'all arrival orders, losses, duplicates and delays, handler durations and failures, instants of stop',
     'Tests send single datagrams over a quiet loopback; a datagram which arrives in the iteration of stop() is a matter of schedule.',
     ['aiomisc/service/udp.py', 'aiomisc/service/base.py'],
     [('UDPServer.UDPSimpleProtocol', 'aiomisc/service/udp.py'), ('UDPServer.start/stop', 'aiomisc/service/udp.py')],
     ['arrivals at the socket', 'handler history', 'replies'],
     'arrivals recorded at the simulated kernel queue are compared with the handler history and the replies which reach the clients.')

prop('C20', 'The DNS servers answer every query from one consistent state of the store',
     'Every query over UDP or TCP (fragmented or pipelined at will) gets one reply with its id and question: exactly the records (of every type the records module creates, with their TTL) of that name and type in the closest existing zone, the root zone included, as of one instant between '
     'the query and the reply (NXDOMAIN if there are none), whatever zone changes go on, also from threads. Replies to EDNS queries carry EDNS and over UDP fit the announced size (at least 512) as well-formed messages, cut to whole records with TC set only when the whole reply does not fit; TCP replies are complete, in order and without TC. '
     'Changes with records foreign to a zone, unknown or duplicate zones raise ValueError and change nothing; replace() is atomic; zone names and looked-up names may be written with or without the trailing dot. Malformed packets disturb no other client.',
     [S, I, H, F], 'all nested zones and records, sequences of zone changes from the loop and from threads, interleavings of changes and queries, packet fragmentation, loss, duplication, resets and garbage',
     'Tests send whole single queries to a store which does not change; a query split by TCP, a reply over the size limit, or a zone replaced while the query is being looked up are outside them.',
     ['aiomisc/service/dns/service.py', 'aiomisc/service/dns/store.py', 'aiomisc/service/dns/zone.py', 'aiomisc/service/dns/tree.py', 'aiomisc/service/dns/records.py'],
     [('DNSServer.handle_request / TCPDNSServer.handle_client', 'aiomisc/service/dns/service.py'), ('DNSStore.query / replace', 'aiomisc/service/dns/store.py'), ('DNSZone.replace / check_record', 'aiomisc/service/dns/zone.py')],
     ['replies as received by clients', 'exceptions and results of store operations'],
     'clients of both protocols query a store while a planned list of zone changes runs in the loop and in preempted pool threads; each reply must equal the answer of a reference store in one of the states which existed between query and reply. Names are compared as written; case folding and replies over 64 KiB are not claimed.')

prop('C21', 'WorkerPool runs each task once, isolates failures and ends completely',
     'Each create_task() call runs its function at most once, with its arguments, in one worker process which was initialized before and runs one function at a time, and it completes with that very call\'s result or exception; arguments, results or exceptions which can not be pickled fail only their own call. '
     'A worker which dies is replaced, and its death fails (ProcessError) only the call it was executing; no other worker ever dies or is lost, so the pool keeps its full width. '
     'Cancelling a call which is still queued prevents its execution, cancelling a running one raises CancelledError in its function, and neither disturbs the worker or other calls. A failing initializer fails the waiting calls with its exception. '
     'A client of the pool\'s socket which does not know the cookie never receives a task and disturbs nothing. '
     'close() ends within its timeout, and when it (or a second, concurrent close()) returns every pending call is completed; later calls fail, and afterwards the supervisor and all workers end and no task is left.',
     [S, I, H, F], 'all interleavings of calls, workers and supervisor, task outcomes (values, exceptions, unpicklable objects, exits), cancellations and worker deaths at any instant, close at any moment, socket buffer sizes',
     'Tests run quiet pools of real processes; a cancel signal reaching a worker between two tasks, a worker dying while idle or a close() while the supervisor forks depend on the schedule of several processes.',
     ['aiomisc/worker_pool.py', 'aiomisc_worker/forking.py', 'aiomisc_worker/worker.py', 'aiomisc_worker/protocol.py'],
     [('WorkerPool.__handle_client / create_task / close', 'aiomisc/worker_pool.py'), ('main / fork / at_exit', 'aiomisc_worker/forking.py'), ('execute / worker / on_cancel_signal', 'aiomisc_worker/worker.py')],
     ['executions in the worker processes', 'outcome of each call', 'living processes'],
     'the pool, the supervisor and the workers run for real in simulated processes (own pid, signals with coalescing, descriptors, atexit, modules; fork by replay of the parent\'s program) over the simulated unix socket; workers are killed by SIGKILL, by the task itself, or exit. '
     'Calls pending when close() begins may end with CancelledError or an exception. Tasks end their worker by exceptions, sys.exit, SIGKILL and os._exit with any status (but the one reserved for disconnected workers, 75). Not claimed: death of the supervisor, cancellation of start(), the Windows implementation.')

prop('C22', 'Process services run one child process, respawn it and stop it completely',
     'ProcessService runs in_process(**get_process_kwargs()) once, in one child process which never executes handlers of the application; start() ends once it runs or has died, and never hangs. '
     'RespawningProcessService replaces a process which ended in any way (return, exception, exit, kill) within process_poll_timeout plus the start-up time, also if a fork fails, never runs two at a time, and leaves a living process undisturbed. '
     'stop() at any instant, also while the service starts or respawns, promptly raises KeyboardInterrupt in in_process(), lets it finish for process_stop_timeout and then exit, kills it otherwise but never earlier, and ends as soon as the process has ended. '
     'After stop() no process of the service is alive or gets started; the event loop is never blocked meanwhile.',
     [S, I, H, F], 'lives of consecutive processes (return, exception, exit, kill, run forever; die on, clean up after or ignore the interrupt; slow exit), kills at any instant, failing forks, stop by the end of the program, a signal or a cancelled start at any moment, all interleavings of loop, pool threads and processes',
     'Tests run one quiet process; a process dying before it reports its start, a stop during a respawn or an interrupt in a forked child depend on the schedule of two processes and a thread pool.',
     ['aiomisc/service/process.py'],
     [('ProcessService.start / stop', 'aiomisc/service/process.py'), ('RespawningProcessService', 'aiomisc/service/process.py')],
     ['entry, interrupt and end of in_process()', 'births and deaths of processes', 'signals sent'],
     'the services, entrypoint and thread pool run for real; multiprocessing.Process is a simulated process (own pid, signal dispositions inherited over the fork, start-up and exit delays) which shares the memory of its parent, Event is atomic. '
     'Not claimed: signals while the entrypoint starts (no handler is installed yet), processes killed inside multiprocessing.Event.')

prop('C23', 'SDWatchdogService tells the service manager the true state, in order',
     'With a notification socket set, SDWatchdogService sends each state exactly once and in order: STATUS=Starting before any service starts, STATUS=Started and READY=1 once every service is started and before the program goes on, STATUS=Stopping before any service is stopped, '
     'STOPPING=1 last, when all services are stopped; a watchdog interval is announced as WATCHDOG_USEC before the first keep-alive, and WATCHDOG=1 follows every half interval (not more often) until the services stop. '
     'A manager which stalls delays notifications but loses none of them and never holds up the event loop; refused ones are dropped and never fail the application. Afterwards the socket is closed; without NOTIFY_SOCKET nothing is sent.',
     [S, I, H, F], 'services with all start/stop durations and failures, watchdog intervals, manager stalls (queue of 1 to 10 datagrams) and refused datagrams at any time, end by return, exception or signal, all interleavings of loop and pool threads',
     'The test runs one quiet manager for a second and counts messages; it can not see a READY=1 before a slow service is up, or a notification lost because two coroutines wait for a full socket.',
     ['aiomisc/service/sdwatchdog.py', 'aiomisc/entrypoint.py'],
     [('SDWatchdogService.start / send / stop', 'aiomisc/service/sdwatchdog.py'), ('_pre_start / _post_start / _pre_stop / _post_stop', 'aiomisc/service/sdwatchdog.py')],
     ['datagrams received by the manager and their instants', 'start and stop of services', 'open sockets'],
     'the plugin, service and entrypoint run for real against a simulated unix datagram socket whose owner reads, stalls or refuses as planned; the history of datagrams is compared with the starts and stops of the services. '
     'Not claimed: messages of an application whose start fails, a manager which is absent at start or stalls for ever.')

prop('C24', 'Sentry transports account for every event and close completely',
     'Each event given to async_send() of a raven transport ends with exactly one callback: success only if the server answered 200 to it, RateLimited(retry-after) for 429, APIError for other answers, or the error met, no later than the timeout of the transport after it was posted, also if callbacks fail. '
     'An event is posted at most once, unchanged, promptly when the transport is idle, and queued transports keep the order with one worker and have as many requests at once as workers, never more; at most qsize events wait, a full queue fails its oldest event, nothing else is dropped. '
     'close() sends what was submitted before, or fails it when its timeout expires, ends within that timeout without an error, refuses later events, and leaves no connection, session or task, and the event loop is never blocked. '
     'RavenSender delivers each record of sufficient level which passes its filters exactly once, including those logged before the stop.',
     [S, I, H, F], 'transports and their parameters, events from the loop and from threads at any time, answers (statuses, headers, stalls, hang-ups, refused connections), close with any timeout at any moment',
     'The tests log one message to a local server; a submission racing close(), a close timing out with a filled queue, or a full queue of several workers depend on the schedule of threads, loop and network.',
     ['aiomisc/service/raven.py'],
     [('AioHttpTransportBase._do_send / async_send / close', 'aiomisc/service/raven.py'), ('QueuedAioHttpTransport', 'aiomisc/service/raven.py'), ('RavenSender', 'aiomisc/service/raven.py')],
     ['callbacks of each event', 'requests received by the server', 'open sockets and tasks'],
     'the transports, raven and the aiohttp client run for real over the simulated network against a scripted HTTP server; each callback is matched with what the server did to that event. '
     'Not claimed: callbacks which raise; a request timing out in the same instant as close() may delay close() (a cancellation lost in aiohttp).')


prop('C25', 'HTTP services answer every request rightly and stop gracefully',
     'When start() of an AIOHTTPService, ASGIHTTPService or UvicornService has ended, the service accepts connections; its application is created once, and ASGI applications get one lifespan startup and one shutdown; if the application fails to start, so does the service, and nothing listens. '
     'Each request is handled once, promptly and in order on its connection, with its own body, and gets its own complete response (an error status if the handler failed), on kept, pipelined or streamed connections. '
     'When the service stops, running requests which end within shutdown_timeout are not cancelled and get their responses; a handler whose client disconnected is cancelled if and only if handler_cancellation is set. '
     'stop() ends within bounded time, and leaves no listening socket, connection, running handler or task. '
     'SIGINT ends the program whenever such a service was started.',
     [S, I, H, F], 'service kinds and parameters, requests (slow, streaming, failing, endless), kept, pipelined, idle, closed and reset connections, stop by the end of the program or a signal at any moment',
     'The tests send one request to a started service; readiness at the end of start(), requests in progress at the stop, and signals after a late start depend on the schedule.',
     ['aiomisc/service/aiohttp.py', 'aiomisc/service/asgi.py', 'aiomisc/service/uvicorn.py'],
     [('AIOHTTPService.start/stop', 'aiomisc/service/aiohttp.py'), ('_create_app', 'aiomisc/service/asgi.py'), ('UvicornService.start/stop', 'aiomisc/service/uvicorn.py')],
     ['requests and responses seen by clients', 'calls of the application', 'times of start and stop, connections and tasks left'],
     'the services, aiohttp, aiohttp-asgi and uvicorn run for real over the simulated network; scripted HTTP clients send requests; each response is compared with what the application was asked for. '
     'Not claimed: connections accepted in the instant the server closes, and handlers of lost connections without handler_cancellation (both are lost sight of inside asyncio and aiohttp); TLS variants.')

prop('C26', 'Statistics count every change exactly once',
     'get_statistics() may be called from any thread at any time, also while statistics are created or dropped, and never fails; it yields each metric of every living statistic exactly once, with its class, name and current value (assigned values, too), '
     'and only those of the classes asked for. A statistic whose owner is gone is not kept alive. Counts never decrease. '
     'At rest the statistics of thread pools, process pools, threaded iterators, aggregators, retries and backoffs, circuit breakers, threaded log handlers and the context agree with what was done: '
     'each thing submitted, run, succeeded, failed, cancelled, yielded or refused is counted exactly once without failing (jobs cancelled before they run are only submitted), gauges of threads and started iterators are back at zero, and sums of time cover the time spent.',
     [S, I, H], 'statistics created, dropped and read at any time from the loop and several threads, reports pausing in between, components with all outcomes, durations and cancellations, all interleavings down to single lines of aiomisc',
     'Tests read one counter after one quiet operation; a lost update, a dictionary changing while it is read or a counter which is not restored after a cancellation depend on the schedule.',
     ['aiomisc/counters.py', 'aiomisc/thread_pool.py', 'aiomisc/process_pool.py', 'aiomisc/iterator_wrapper.py', 'aiomisc/circuit_breaker.py', 'aiomisc/aggregate.py', 'aiomisc/backoff.py', 'aiomisc/log.py', 'aiomisc/context.py'],
     [('Statistic / Metric / get_statistics', 'aiomisc/counters.py'), ('ThreadPoolStatistic', 'aiomisc/thread_pool.py'), ('IteratorWrapperStatistic', 'aiomisc/iterator_wrapper.py'), ('CircuitBreakerStatistic', 'aiomisc/circuit_breaker.py')],
     ['values reported by get_statistics()', 'outcomes of the operations', 'living statistics'],
     'the counters and their users run for real with preemption at every line (the process pool of the standard library is simulated by threads: workers, and one which takes their results); reported values are compared with a count of what happened at rest. Not claimed: CircuitBreakerStatistic.error_ratio (never written).')

prop('C27', 'MemoryTracer and Profiler report at each interval and leave nothing behind',
     'A started MemoryTracer compares a new snapshot with the one of its start, a started Profiler the work done since its start, first promptly and then each interval after the previous report; each report is logged with at most top_results lines, '
     'and a Profiler with a path dumps its statistics at each report. A slow snapshot never blocks the event loop, and a failing or slow report does not end the following ones. '
     'stop() at any instant, also during a report, ends promptly; then nothing is reported any more, no task is left, and tracing and profiling are off.',
     [S, I, H, F], 'intervals, slow and failing snapshots and dumps, work done at any time, stop at any instant also during a report, repeated starts, all interleavings of loop and pool threads',
     'The tests check that a report appears; a report in progress at the stop, or a failing report, needs a schedule and a fault.',
     ['aiomisc/service/tracer.py', 'aiomisc/service/profiler.py'],
     [('MemoryTracer.start / show_stats / stop', 'aiomisc/service/tracer.py'), ('Profiler.start / save_stats / stop', 'aiomisc/service/profiler.py')],
     ['times of snapshots, reports and dumps', 'tasks left', 'tracing state'],
     'the services, periodic callbacks and cProfile run for real, tracemalloc and the files of dumps are scripted; times and contents of reports are compared with the work done.')

prop('C28', 'TLS services speak only with the peers and protocols they were told to trust',
     'With require_client_cert a TLSServer or AIOHTTPSSLService runs a handler only for a client which proves a valid certificate signed by ca, and the handler can see that certificate; without it any TLS client is served. '
     'Only protocol versions from minimum_version to maximum_version (TLS 1.3 by default) and the ciphers configured are spoken, every acceptable client is served promptly, whatever strangers, plaintext, silent, resetting or tampered connections do, and these do not hold stop(). '
     'A TLSClient or RobustTLSClient with verify runs handle_connection only on a connection to a server which proves a valid certificate signed by ca for its address, and shows its own certificate; without verify any TLS 1.3 server will do. '
     'From other servers the start of a TLSClient fails, while a robust one goes on until the right server answers. Application bytes never travel in the clear, and tampering never changes what is received.',
     [S, F], 'certificates (right, foreign, self-signed, expired, none, other name), versions and ciphers of both sides; plaintext, silent, resetting, refusing peers; a man in the middle who flips bits at any moment; delays, splits and short writes',
     'The tests connect the right client with the right server once; strangers, impostors and tampering need hostile peers and a wire under control.',
     ['aiomisc/service/tls.py', 'aiomisc/service/aiohttp.py'],
     [('SSLOptions.create_context', 'aiomisc/service/tls.py'), ('TLSServer.start / stop', 'aiomisc/service/tls.py'), ('TLSClient.connect / RobustTLSClient.connect', 'aiomisc/service/tls.py'), ('AIOHTTPSSLService.create_site', 'aiomisc/service/aiohttp.py')],
     ['handlers run, with the certificates, versions and ciphers of their connections', 'bytes received by every peer', 'bytes on the wire'],
     'OpenSSL, asyncio sslproto, the services and aiohttp run for real against peers with generated certificates on the simulated network, where every byte is seen and may be changed; who may be served or trusted follows from the plan.')

prop('C29', 'gRPC services bind every port, serve every method and stop gracefully',
     'Once a GRPCService has started, the server runs with every handler given to it (also through add_*_handlers), each port is bound exactly once, securely where credentials were given, '
     'and the future of each port holds the number which was bound for it, whether or not somebody waited for it or gave up waiting; all arguments (options, compression, limits, interceptors, pool) reach the server. '
     'Clients get the reply of exactly the method called, unknown methods are refused, and with reflection (and only then) the services are listed. A port which cannot be bound or a failing server fails the start, and nothing runs afterwards. '
     'stop() refuses new calls, lets calls in progress finish within GRACEFUL_STOP_TIME (60 seconds by default), then aborts them, and returns once the last one has ended; nothing runs afterwards.',
     [S, I, H, F], 'any handlers, ports, limits and arguments, calls of any duration at any time, waiters which give up, failing and slow binds and starts, stop at any instant, event-loop stalls',
     'The only test makes one call to one server; waiters which give up, calls in progress at the stop and failing binds need a schedule and faults.',
     ['aiomisc/service/grpc_server.py'],
     [('GRPCService.start / stop', 'aiomisc/service/grpc_server.py'), ('GRPCService.add_insecure_port / add_secure_port / add_generic_rpc_handlers', 'aiomisc/service/grpc_server.py')],
     ['replies of calls', 'values of port futures', 'state of the server'],
     'the service, the entrypoint, the Python part of grpc.aio and the reflection service run for real over a simulated C core (ports, handlers, limits, calls in progress, graceful shutdown), because the I/O of the real one happens in threads which no seam of Python reaches; '
     'replies, ports and times of the stop are compared with the plan. Not claimed: the wire protocol, the credentials, add_registered_method_handlers (grpc.aio ignores it).')
