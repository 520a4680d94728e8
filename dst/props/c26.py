import asyncio
import itertools
import logging
import threading
import time
import zlib

from .common import *

GAUGES = {'threads', 'started', 'queue_size', 'leeway_ms', 'max_count', 'error_ratio', 'error_ratio_threshold', 'load'}


hashes = itertools.count()
run_no = [0]


class X(Exception):
    pass


class Y(Exception):
    pass


class SimProcessPool:
    """concurrent.futures.ProcessPoolExecutor: workers, and one thread which takes their results."""

    @classmethod
    def install(cls):
        from concurrent.futures.process import ProcessPoolExecutor
        for k in ('__init__', 'submit', 'shutdown'):
            setattr(ProcessPoolExecutor, k, vars(cls)[k])

    def __init__(self, max_workers=None, **kw):
        self._sim = dict(cond=threading.Condition(), n=max_workers, items=[], busy=0, results=[], shut=False, broken=False, manager=None)

    def submit(self, fn, /, *a, **kw):
        from concurrent.futures import Future
        from concurrent.futures.process import BrokenProcessPool
        s = self._sim
        with s['cond']:
            if s['broken']:
                raise BrokenProcessPool('broken')
            if s['shut']:
                raise RuntimeError('cannot schedule new futures after shutdown')
            f = Future()
            s['items'].append((f, fn, a, kw))
            if s['manager'] is None:
                s['manager'] = threading.Thread(target=manage_processes, args=(s,), daemon=True)
                s['manager'].start()
            s['cond'].notify_all()
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        s = self._sim
        with s['cond']:
            s['shut'] = True
            s['cond'].notify_all()
        if wait and s['manager'] is not None:
            s['manager'].join()


def manage_processes(s):
    from concurrent.futures.process import BrokenProcessPool
    running = set()

    def process(f, fn, a, kw):
        try:
            r = True, fn(*a, **kw)
        except SystemExit:
            r = None, None
        except BaseException as e:
            r = False, e
        with s['cond']:
            s['results'].append((f, r))
            s['busy'] -= 1
            s['cond'].notify_all()
    while True:
        with s['cond']:
            while not s['results'] and not (s['items'] and s['busy'] < s['n']) and not (s['shut'] and not s['items'] and not s['busy']):
                s['cond'].wait()
            results, s['results'][:] = list(s['results']), []
            start = []
            while s['items'] and s['busy'] + len(start) < s['n']:
                start.append(s['items'].pop(0))
            if not results and not start:
                return
        for f, (how, x) in results:
            running.discard(f)
            if how is None:
                with s['cond']:
                    s['broken'] = True
                    start += s['items']
                    s['items'].clear()
                for g in [f] + list(running) + [i[0] for i in start]:
                    try:
                        g.set_exception(BrokenProcessPool('died'))
                    except Exception:
                        pass                # cancelled
                return
            (f.set_result if how else f.set_exception)(x)
        for f, fn, a, kw in start:
            if f.set_running_or_notify_cancel():
                running.add(f)
                with s['cond']:
                    s['busy'] += 1
                threading.Thread(target=process, args=(f, fn, a, kw), daemon=True).start()


class P:
    ID = 'C26'
    LISTS = ('ops',)
    REAL = ['aiomisc.counters', 'aiomisc.thread_pool', 'aiomisc.process_pool', 'aiomisc.iterator_wrapper', 'aiomisc.aggregate', 'aiomisc.backoff', 'aiomisc.recurring', 'aiomisc.circuit_breaker',
            'aiomisc.log', 'aiomisc.context', 'asyncio (pure Python)']
    STUB = ['concurrent.futures.ProcessPoolExecutor (threads)', 'user functions', 'clock', 'selector', 'thread scheduler']
    RULE = ('components which keep statistics (thread and process pools, threaded iterators, aggregators, retries, recurring callbacks, circuit breakers, log handlers, the context) are created, '
            'used with succeeding, failing and cancelled calls, and dropped at any time, from the loop and from threads, while reporters in the loop and in threads iterate '
            'get_statistics() with pauses; non-trivial: an instance was created or dropped during a report')
    RUNS = (3000, 60000)

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice((1, 2, 4, 7))):
            kind = rng.choice(('pool', 'pool', 'iter', 'iter', 'agg', 'retry', 'backoff', 'rec', 'breaker', 'log', 'log', 'ctx', 'dyn', 'ppool'))
            op = dict(kind=kind, t=grid(rng, 0.5, 0.05), keep=grid(rng, 0.3, 0.05), jobs=[dict(t=grid(rng, 0.3, 0.02), d=rng.choice((0, 0, 0.01, 0.05, 0.2)), o=rng.choice('ooooxxy'),
                      cancel=rng.random() < 0.15) for _ in range(rng.choice((0, 1, 3, 6, 10)))], n=rng.choice((1, 2, 3)), size=rng.choice((0, 1, 2, 5)))
            ops.append(op)
        reps = [dict(t=grid(rng, 0.5, 0.05), thread=rng.random() < 0.5, pause=rng.choice((0, 0, 0.001, 0.01)), n=rng.choice((1, 2, 5)), sel=rng.random() < 0.3, at=rng.choice((1, 1, 2, 3))) for _ in range(rng.choice((1, 1, 2, 3)))]
        return dict(ops=ops, reps=reps, sched=sched_threads(rng))

    def run(self, w, plan):
        import aiomisc
        from aiomisc import get_statistics
        from aiomisc.counters import Statistic
        store = getattr(aiomisc.counters, 'CLASS_STORE', None)
        if isinstance(store, set):
            # an order which does not depend on addresses, and no classes of earlier runs
            type(Statistic).__hash__ = lambda c: zlib.crc32(f'{c.__module__}.{c.__qualname__}'.encode())
            Statistic.__hash__ = lambda s: s.__dict__.setdefault('_sim_hash', next(hashes))
            keep = sorted((c for c in store if c.__module__.startswith('aiomisc')), key=lambda c: (c.__module__, c.__qualname__))
            store.clear()
            store.update(keep)
        SimProcessPool.install()
        run_no[0] += 1
        live = {}               # name -> [born, died, metrics]

        def new(cls, before):
            return next(s for s in cls.__instances__ if not any(s is b for b in before))

        def annotations(cls):
            return frozenset(k for c in cls.__mro__ for k, v in getattr(c, '__annotations__', {}).items() if v in (int, float) and not k.startswith('_'))

        def born(name, cls):
            live[name] = [w.elapsed(), None, annotations(cls), cls]

        def dies(name):
            live[name][1] = w.elapsed()

        def read(name, **want):
            got = {}
            for s in get_statistics(live[name][3]):
                if s.name == name:
                    check(s.metric not in got, 'reported-twice', f'{name} {s}')
                    check(s.kind is live[name][3], 'wrong-kind', f'{name} {s}')
                    got[s.metric] = s.value
            check(got.keys() == live[name][2], 'wrong-metrics', f'{name} {got} {live[name]}')
            for k, v in want.items():
                ok = v[0] <= got[k] <= v[1] if isinstance(v, tuple) else got[k] == v
                check(ok, 'wrong-count', lambda: f'{name}: {k} is {got[k]}, expected {v}; all {got}, expected {want}; {live[name]}')
            return got

        def report_step(st, hist, s):
            k, name, metric, value = s
            check(k is s.kind and name == s.name and metric == s.metric and value == s.value, 'wrong-result', f'{s}')
            if name is None or name not in live:
                return
            check(k is live[name][3], 'wrong-kind', f'{s}')
            key = name, metric
            check(key not in st, 'reported-twice', f'{s}')
            st.add(key)
            if metric not in GAUGES:
                check(value >= hist.get(key, 0), 'count-decreased', lambda: f'{s}, before {hist[key]}')
                hist[key] = value

        def report_end(st, t0, sel):
            for name, (b, d, ms, cls) in list(live.items()):
                if sel is not None and not issubclass(cls, sel):
                    check(not any((name, m) in st for m in ms), 'not-selected', lambda: f'{name} {sel}')
                    continue
                if b < t0 and d is None:
                    check(all((name, m) in st for m in ms), 'not-reported', lambda: f'{name} {ms} {st}')
                elif b >= t0 or d is not None and d >= t0:
                    w.probe('nontrivial')

        def select(r):
            return sorted({v[3] for v in live.values()}, key=lambda c: c.__name__)[0] if r['sel'] and live else None

        def thread_report(r):
            hist = {}               # (name, metric) -> last value
            for _ in range(r['n']):
                st, t0, sel, paused = set(), w.elapsed(), select(r), set()
                w.trace('report')
                for s in (get_statistics(sel) if sel else get_statistics()):
                    report_step(st, hist, s)
                    if s.name in live and len({n for n, m in st}) == r['at'] and r['at'] not in paused:
                        paused.add(r['at'])
                        time.sleep(r['pause'])
                report_end(st, t0, sel)
                time.sleep(0.02)

        async def loop_report(r):
            hist = {}
            for _ in range(r['n']):
                st, t0, sel, paused = set(), w.elapsed(), select(r), set()
                w.trace('report')
                for s in (get_statistics(sel) if sel else get_statistics()):
                    report_step(st, hist, s)
                    if s.name in live and len({n for n, m in st}) == r['at'] and r['at'] not in paused:
                        paused.add(r['at'])
                        await asyncio.sleep(r['pause'])
                report_end(st, t0, sel)
                await asyncio.sleep(0.02)


        async def finish(obj, name, op):
            """Keep the object for a while, then drop it."""
            await asyncio.sleep(op['keep'])
            dies(name)

        L = lambda: lag(plan, w) + 0.01

        # --- components

        async def pool(name, op):
            from aiomisc.thread_pool import ThreadPoolStatistic
            p = aiomisc.ThreadPoolExecutor(op['n'], statistic_name=name)
            born(name, ThreadPoolStatistic)
            c = dict(run=0, ok=0, err=0, time=0.0)
            ts = []

            def job(j):
                t = w.elapsed()
                c['run'] += 1
                try:
                    time.sleep(j['d'])
                    if j['o'] == 'o':
                        c['ok'] += 1
                        return 1
                    c['err'] += 1
                    raise (X if j['o'] == 'x' else BaseException)(name)
                finally:
                    c['time'] += w.elapsed() - t
            for j in sorted(op['jobs'], key=lambda j: j['t']):
                await asyncio.sleep(max(0, op['t'] + j['t'] - w.elapsed()))
                f = p.submit(job, j)
                ts.append(f)
                if j['cancel']:
                    w.after(j['d'] / 2 + 0.01, lambda f=f: p_loop.call_soon_threadsafe(f.cancel))
            if ts:
                await asyncio.wait(ts)
            for _ in range(100):
                if c['run'] == c['ok'] + c['err']:
                    break
                await asyncio.sleep(0.05)
            await settle(0.01 + w.stall_total)
            n = len(op['jobs'])
            got = read(name, submitted=n, threads=(1, op['n']))
            # (a stalled thread may be about to count)
            for _ in range(200):
                if got['done'] >= c['run']:
                    break
                await asyncio.sleep(0.05)
                got = read(name)
            read(name, submitted=n, done=c['run'], success=c['ok'], error=c['err'], sum_time=(c['time'] - 1e-6, c['time'] + (1 + c['run']) * L()))
            if not any(j['cancel'] for j in op['jobs']):
                check(c['run'] == n, 'wrong-count', f'{c}')
            p.shutdown()
            for _ in range(200):
                if not read(name)['threads']:
                    break
                await asyncio.sleep(0.05)
            read(name, threads=0)
            await finish(p, name, op)

        async def ppool(name, op):
            from aiomisc.process_pool import ProcessPoolExecutor, ProcessPoolStatistic
            from concurrent.futures.process import BrokenProcessPool
            before = list(ProcessPoolStatistic.__instances__)
            p = ProcessPoolExecutor(op['n'])
            st = new(ProcessPoolStatistic, before)
            st.name = name
            born(name, ProcessPoolStatistic)

            class Failed(logging.Handler):
                def emit(self, r):
                    if r.exc_info and 'callback' in r.getMessage():
                        failed.append(r.exc_info[1])
            failed = []
            h = Failed()
            logging.getLogger('concurrent.futures').addHandler(h)
            fs = []

            def job(j):
                time.sleep(j['d'])
                if j['o'] == 'x':
                    raise X
                if j['o'] == 'y' and op['size'] == 2:
                    raise SystemExit        # the process dies
                return j['d']
            try:
                for j in sorted(op['jobs'], key=lambda j: j['t']):
                    await asyncio.sleep(max(0, op['t'] + j['t'] - w.elapsed()))
                    try:
                        f = p.submit(job, j)
                    except BrokenProcessPool:
                        continue
                    fs.append(f)
                    w.trace('submitted', len(fs))
                    if j['cancel']:
                        await asyncio.sleep(j['d'] / 2)
                        f.cancel()
                    read(name, submitted=len(fs), processes=op['n'])
                for _ in range(2000):
                    if all(f.done() for f in fs):
                        break
                    await asyncio.sleep(0.05)
                cancelled = sum(f.cancelled() for f in fs)
                err = sum(not f.cancelled() and f.exception(0) is not None for f in fs)
                ok = len(fs) - err - cancelled
                low = sum(f.result(0) for f in fs if not f.cancelled() and f.exception(0) is None)
                for _ in range(200):
                    if read(name)['done'] >= ok + err:
                        break
                    await asyncio.sleep(0.05)
                await settle(0.01 + w.stall_total)
                read(name, submitted=len(fs), processes=op['n'], success=ok, error=err, done=ok + err, sum_time=(low - 1e-6, float('inf')))
                check(not failed, 'callback-failed', f'{failed!r}')
            finally:
                logging.getLogger('concurrent.futures').removeHandler(h)
            await p_loop.run_in_executor(shared, p.shutdown)
            await finish((p, st), name, op)

        async def iterator(name, op):
            from aiomisc.iterator_wrapper import IteratorWrapper, IteratorWrapperStatistic
            made = [0]
            n = len(op['jobs'])

            def gen():
                for j in op['jobs']:
                    time.sleep(j['d'])
                    if j['o'] == 'y':
                        raise Y
                    made[0] += 1
                    yield made[0]
            it = IteratorWrapper(gen, max_size=op['size'], statistic_name=name, executor=shared)
            born(name, IteratorWrapperStatistic)
            k = 0
            want = n if op['jobs'] and op['jobs'][0]['cancel'] or not n else op['n']
            read(name, queue_size=op['size'], started=0, yielded=0, enqueued=0)
            try:
                async with it:
                    async for x in it:
                        k += 1
                        check(x == k, 'wrong-item', f'{x}')
                        if k >= want:
                            break
            except Y:
                pass
            await settle(0)
            for _ in range(200):
                if not read(name)['started']:
                    break
                await asyncio.sleep(0.05)
            read(name, queue_size=op['size'], started=0, yielded=k, enqueued=(k, made[0]))
            await finish(it, name, op)

        async def agg(name, op):
            from aiomisc.aggregate import AggregateStatistic, Aggregator
            c = dict(run=0, ok=0, err=0)

            async def func(*a):
                c['run'] += 1
                await asyncio.sleep(max(j['d'] for j in a))
                if any(j['o'] == 'x' for j in a):
                    c['err'] += 1
                    raise X
                c['ok'] += 1
                return [1] * len(a)
            f = Aggregator(func, leeway_ms=50, max_count=op['size'] or None, statistic_name=name)
            born(name, AggregateStatistic)

            async def call(j):
                await asyncio.sleep(j['t'])
                await f.aggregate(j)
            ts = [p_loop.create_task(call(j)) for j in op['jobs']]
            for t, j in zip(ts, op['jobs']):
                if j['cancel']:
                    p_loop.call_later(j['t'] + 0.02, t.cancel)
            if ts:
                await asyncio.wait(ts)
            await settle(0.01)
            read(name, done=c['run'], success=c['ok'], error=c['err'], max_count=op['size'], leeway_ms=50)
            await finish(f, name, op)

        async def retry(name, op):
            from aiomisc import asyncbackoff, asyncretry
            from aiomisc.backoff import BackoffStatistic, RetryStatistic
            c = dict(run=0, ok=0, err=0, other=0, cancel=0, time=0.0)
            if op['kind'] == 'retry':
                deco, cls = asyncretry(op['n'], (X,), statistic_name=name), RetryStatistic
            else:
                deco, cls = asyncbackoff(None, None, 0.01, X, max_tries=op['n'], statistic_name=name), BackoffStatistic

            @deco
            async def f(j):
                t = w.elapsed()
                c['run'] += 1
                try:
                    await asyncio.sleep(j['d'])
                    if j['o'] == 'x':
                        c['err'] += 1
                        raise X
                    if j['o'] == 'y':
                        c['other'] += 1
                        raise Y
                    c['ok'] += 1
                except asyncio.CancelledError:
                    c['cancel'] += 1
                    raise
                finally:
                    c['time'] += w.elapsed() - t
            born(name, cls)
            ts = []
            for j in sorted(op['jobs'], key=lambda j: j['t']):
                await asyncio.sleep(max(0, op['t'] + j['t'] - w.elapsed()))
                t = p_loop.create_task(f(j))
                ts.append(t)
                if j['cancel']:
                    p_loop.call_later(j['d'] / 2 + 0.003, t.cancel)
            if ts:
                await asyncio.wait(ts)
            await settle(0.01)
            got = read(name)
            extra = got['attempts'] - c['run']      # attempts cancelled before they began
            check(0 <= extra <= sum(j['cancel'] for j in op['jobs']), 'wrong-count', f'{got} {c}')
            read(name, done=c['run'] + extra, errors=c['err'], cancels=c['cancel'] + extra, sum_time=(c['time'] - 1e-6, c['time'] + 0.01 * c['err'] + (1 + c['run']) * L()))
            await finish(f, name, op)


        async def breaker(name, op):
            from aiomisc.circuit_breaker import CircuitBreaker, CircuitBreakerStatistic, CircuitBroken
            b = CircuitBreaker(error_ratio=0.5, response_time=0.2, exceptions=[X], recovery_time=0.2, broken_time=0.1, passing_time=0.1, statistic_name=name)
            born(name, CircuitBreakerStatistic)
            c = dict(calls=0, run=0, broken=0)

            def func(j):
                c['run'] += 1
                if j['o'] != 'o':
                    raise X
            for i in range(4):
                for j in op['jobs']:
                    await asyncio.sleep(0.02)
                    c['calls'] += 1
                    try:
                        if j['cancel']:
                            async def cf(j):
                                func(j)
                                await asyncio.sleep(j['d'] / 5)
                            await b.call_async(cf, j)
                        else:
                            b.call(func, j)
                    except CircuitBroken:
                        c['broken'] += 1
                    except X:
                        pass
                    got = read(name, call_count=c['calls'], error_ratio_threshold=0.5)
                    check(got['call_passing'] + got['call_broken'] + got['call_recovering'] == c['calls'], 'wrong-count', lambda: f'{got} {c}')
                    check(got['call_recovering_ok'] + got['call_recovering_failed'] == got['call_recovering'], 'wrong-count', lambda: f'{got} {c}')
                    check(got['call_passing'] + got['call_recovering_ok'] == c['run'], 'wrong-count', lambda: f'{got} {c}')
                    check(got['call_broken'] + got['call_recovering_failed'] == c['broken'], 'wrong-count', lambda: f'{got} {c}')
            await finish(b, name, op)

        async def log(name, op):
            from aiomisc.log import ThreadedHandler, ThreadedHandlerStatistic
            c = dict(ok=0, err=0, flush=0)

            class H(logging.Handler):
                def emit(self, r):
                    time.sleep(r.d)
                    c['ok'] += 1

            class TH(ThreadedHandler):
                def handleError(self, r):
                    c['err'] += 1
            before = list(ThreadedHandlerStatistic.__instances__)
            h = TH(H(), queue_size=op['size'], buffered=True)
            st = new(ThreadedHandlerStatistic, before)
            st.name = name                  # handlers have no name of their own
            born(name, ThreadedHandlerStatistic)
            h.start()
            sent = [0]

            def put(js):
                for j in js:
                    time.sleep(j['t'] / 5)
                    r = logging.LogRecord('a', 20, 'p', 1, 'm', (), None)
                    r.d = j['d'] / 5
                    h.handle(r)
                    sent[0] += 1
                    if j['cancel']:
                        h.flush()
                        c['flush'] += 1
            await asyncio.gather(*[p_loop.run_in_executor(shared, put, op['jobs'][i::op['n']]) for i in range(op['n'])])
            read(name, records=sent[0] - c['err'], errors=c['err'], flushes=c['flush'], threads=1)
            await p_loop.run_in_executor(shared, h.close)
            for _ in range(400):
                if not read(name)['threads']:
                    break
                await asyncio.sleep(0.05)
            read(name, records=sent[0] - c['err'], errors=c['err'], threads=0)
            check(c['ok'] == sent[0] - c['err'], 'record-lost', f'{c} {sent}')
            await finish((h, st), name, op)

        async def ctx(name, op):
            from aiomisc.context import get_context
            c = get_context()

            def now():
                return read('context')
            a = now()
            for i, j in enumerate(op['jobs']):
                # no await in between: others use the context too
                c[name, i] = 1
                c[name, i]
                b = now()
                check(b == dict(get=a['get'] + 1, set=a['set'] + 1), 'wrong-count', f'{a} {b}')
                await asyncio.sleep(j['t'])
                a = now()
                await c[name, i]
                b = now()
                check(b['get'] >= a['get'] + 1, 'wrong-count', f'{a} {b}')
                a = now()

        async def dyn(name, op):
            """Statistics of the user."""
            class Mine(Statistic):
                hits: int
                load: float
            if op['size'] == 2:
                base = Mine(f'{name}-base')
                born(f'{name}-base', Mine)

                class Mine(Mine):
                    extra: int
            ss = []
            for i in range(op['n']):
                s = Mine(f'{name}-{i}')
                born(f'{name}-{i}', Mine)
                ss.append(s)
                for j in op['jobs']:
                    s.hits += 1
                    s.load += j['t']
                    s.load -= j['t'] / 2
                    await asyncio.sleep(j['t'] / 5)
                t = sum(j['t'] for j in op['jobs']) / 2
                read(f'{name}-{i}', hits=len(op['jobs']), load=(t - 1e-6, t + 1e-6))
            await asyncio.sleep(op['keep'])
            for i in range(op['n']):
                dies(f'{name}-{i}')
            if op['size'] == 2:
                read(f'{name}-base', hits=0, load=0)
                dies(f'{name}-base')
                del base

        async def recurring(name, op):
            from aiomisc.recurring import RecurringCallback, RecurringCallbackStatistic
            if not op['jobs']:
                return
            c = dict(run=0, ok=0, err=0, time=0.0)

            async def f():
                t = w.elapsed()
                j = op['jobs'][c['run'] % len(op['jobs'])]
                c['run'] += 1
                try:
                    await asyncio.sleep(j['d'])
                    if j['o'] == 'o':
                        c['ok'] += 1
                        return
                    c['err'] += 1
                    raise (X if j['o'] == 'x' else Y)
                finally:
                    c['time'] += w.elapsed() - t
            before = list(RecurringCallbackStatistic.__instances__)
            r = RecurringCallback(f)
            st = new(RecurringCallbackStatistic, before)
            st.name = name
            born(name, RecurringCallbackStatistic)

            async def strategy(_):
                return 0.05
            t = r.start(strategy, suppress_exceptions=(X,) if op['size'] else ())
            await asyncio.sleep(op['keep'] + 0.2)
            t.cancel()
            await asyncio.wait([t])
            await settle(0.3)
            got = read(name)
            extra = got['call_count'] - c['run']
            check(0 <= extra <= 1, 'wrong-count', f'{got} {c}')
            read(name, done=c['ok'], fail=c['err'], sum_time=(c['time'] - 1e-6, c['time'] + (1 + c['run']) * L()))
            await finish((r, st), name, op)

        kinds = dict(pool=pool, ppool=ppool, iter=iterator, agg=agg, retry=retry, backoff=retry, rec=recurring, breaker=breaker, log=log, ctx=ctx, dyn=dyn)
        p_loop = shared = None

        async def one(i, op):
            await asyncio.sleep(op['t'])
            w.trace('op', i, op['kind'])
            await kinds[op['kind']](f'{op["kind"]}-{i} run {run_no[0]}', op)

        async def main():
            nonlocal p_loop, shared
            from aiomisc.context import Context, ContextStatistic
            p_loop = asyncio.get_running_loop()
            before = list(ContextStatistic.__instances__)
            cx = Context(p_loop)
            st = new(ContextStatistic, before)
            st.name = 'context'
            born('context', ContextStatistic)
            shared = aiomisc.ThreadPoolExecutor(12)
            ths = []
            ts = [p_loop.create_task(one(i, op)) for i, op in enumerate(plan['ops'])]
            for r in plan['reps']:
                async def rep(r):
                    await asyncio.sleep(r['t'])
                    if r['thread']:
                        await p_loop.run_in_executor(None, thread_report, r)
                    else:
                        await loop_report(r)
                ts.append(p_loop.create_task(rep(r)))
            pool2 = aiomisc.ThreadPoolExecutor(4)
            p_loop.set_default_executor(pool2)
            await asyncio.gather(*ts)
            shared.shutdown()
            pool2.shutdown()
            st.name = None
            cx.close()
        run_async(w, main)


PROP = P()
