import asyncio
import threading
import time

from .common import *


class X(Exception):
    pass


class BX(BaseException):
    pass


EXC = {'x': X, 'base': BX, 'cancelled': asyncio.CancelledError}


class P:
    ID = 'C13'
    LISTS = ('items', 'reads')
    REAL = ['aiomisc.iterator_wrapper', 'aiomisc.thread_pool', 'threading', 'queue', 'asyncio (pure Python)']
    STUB = ['user generator', 'clock', 'selector', 'thread scheduler']
    RULE = ('a threaded generator (pool or own thread, bounded or not, generator or plain iterator) producing items with '
            'delays and possibly failing, read by a consumer with its own delays that may stop, break out of the context '
            'manager, close explicitly or be cancelled; threads preempted and stalled at seeded points; non-trivial: '
            'consumer stopped early, generator failed, or a preemption happened')

    def gen(self, rng, tier):
        n = rng.choice((0, 1, 2, 3, 5, 9))
        items = [rng.choice((0, 0, 0, 0.001, 0.02, 0.3, 1.5)) for _ in range(n)]
        if items and rng.random() < 0.2:
            items[rng.randrange(n)] = rng.choice((10, 40, 100))     # silent for long
        reads = [rng.choice((0, 0, 0, 0.01, 0.2)) for _ in range(n)]
        p = dict(items=items, reads=reads, max=rng.choice((0, 0, 1, 1, 2, 4)),
                 kind=rng.choice(('pool', 'pool', 'separate', 'wrapper', 'threaded')),
                 src=rng.choice(('gen', 'gen', 'iter')), end=rng.choice(('stop', 'stop', 'raise', 'inf')),
                 mode=rng.choice(('all', 'all', 'with', 'break', 'close', 'noiter', 'cancel', 'drop')),
                 take=rng.randrange(0, n + 2), busy=rng.choice((0, 0, 0, 0.2)), sched=sched_threads(rng))
        if p['end'] == 'raise':
            p['exc'] = rng.choice(('x', 'x', 'base', 'cancelled'))
        if p['mode'] == 'drop' and p['take'] == 0:
            p['take'] = 1
        if p['end'] == 'inf' and p['mode'] in ('all', 'with'):
            p['end'] = 'stop'
        if p['kind'] == 'threaded':
            p['src'], p['max'] = 'gen', 0
        op = dict(t=0)
        if p['mode'] == 'cancel':
            maybe_cancel(rng, op, 1.1, 0.6, 40, 0.02)
        p['op'] = op
        return p

    def run(self, w, plan):
        import aiomisc
        st = dict(produced=0, consumed=0, alive=0, closed_gen=0, started=0, ended=None)
        exc = EXC[plan.get('exc', 'x')]('generator')
        made = []
        cap = plan['max']

        def source():
            st['started'] += 1
            check(st['started'] == 1, 'started-twice', 'the generator function was called twice')
            st['alive'] += 1
            check(threading.get_ident() != 1, 'ran-in-loop-thread', 'the generator runs in the event loop thread')
            try:
                k = 0
                while True:
                    if k < len(plan['items']):
                        if plan['items'][k]:
                            time.sleep(plan['items'][k])
                    elif plan['end'] == 'stop':
                        return
                    elif plan['end'] == 'raise':
                        raise exc
                    else:
                        time.sleep(0.05)
                    check(st['ended'] is None, 'produced-after-close', 'the generator was advanced after close() completed')
                    if cap:
                        ahead = k + 1 - st['consumed']
                        check(ahead <= cap + 2, 'buffer-overrun', f'generator is {ahead} items ahead, max_size {cap}')
                    st['produced'] = k + 1
                    made.append(w.elapsed())
                    w.trace('produce', k)
                    yield ('item', k)
                    k += 1
            finally:
                st['closed_gen'] = 1
                check(threading.get_ident() != 1, 'ran-in-loop-thread', 'the generator is closed in the event loop thread')

        def in_thread_iter():
            return It()

        class It:
            def __init__(self):
                self.g = source()

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.g)

        fn = source if plan['src'] == 'gen' else in_thread_iter

        async def main():
            loop = asyncio.get_running_loop()
            pool = aiomisc.ThreadPoolExecutor(2)
            loop.set_default_executor(pool)
            if plan['busy']:
                for _ in range(2):
                    pool.submit(time.sleep, plan['busy'])
            if plan['kind'] == 'pool':
                it = aiomisc.threaded_iterable(fn, max_size=cap)()
            elif plan['kind'] == 'threaded':
                it = aiomisc.threaded(fn)()
            elif plan['kind'] == 'separate':
                it = aiomisc.threaded_iterable_separate(fn, max_size=cap)()
            else:
                it = aiomisc.IteratorWrapper(fn, max_size=cap, executor=pool)
            got = []
            marks = {}

            async def read(limit):
                k = 0
                if limit == 0:
                    return
                free = w.elapsed()
                async for x in it:
                    check(x == ('item', k), 'wrong-item', f'received {x}, expected item {k}; so far {got[-3:]}')
                    st['consumed'] = k + 1
                    got.append(x)
                    w.trace('consume', k)
                    late = w.elapsed() - max(free, made[k])
                    check(late <= 1.1 + lag(plan, w), 'item-late', lambda: f'item {k} came {late} s after it was made')
                    if k < len(plan['reads']) and plan['reads'][k]:
                        await asyncio.sleep(plan['reads'][k])
                    elif k >= len(plan['reads']):
                        await asyncio.sleep(0)      # a backlog of an endless generator may be read without a pause
                    free = w.elapsed()
                    k += 1
                    if k >= limit:
                        break

            async def consumer():
                m = plan['mode']
                if m == 'all':
                    await read(1 << 30)
                elif m in ('with', 'break', 'cancel'):
                    async with it:
                        await read(1 << 30 if m == 'with' else plan['take'] if m == 'break' else 1 << 30)
                    marks['closed'] = 1
                elif m == 'drop':
                    await read(plan['take'])
                elif m == 'close':
                    await read(plan['take'])
                    await it.close()
                    marks['closed'] = 1
                else:
                    async with it:
                        pass
                    marks['closed'] = 1

            t = asyncio.ensure_future(consumer())
            schedule_cancel(w, loop, t, plan['op'], 'consumer')
            done, pend = await asyncio.wait([t], timeout=1000)
            requested = 'cancel_at' in plan['op'] or 'cancel_step' in plan['op']
            what = f'{plan["mode"]}/{plan["end"]} max {cap} src {plan["src"]} {plan["kind"]} got {len(got)} of {len(plan["items"])} {st}'
            check(not pend, 'hang', f'consumer never finishes: {what}; {w.describe_threads()}')
            early = plan['mode'] in ('break', 'close', 'drop') and len(got) >= plan['take']
            if t.cancelled() and plan['end'] == 'raise' and isinstance(exc, asyncio.CancelledError) and not requested:
                check(len(got) == len(plan['items']), 'items-lost', f'exception after {len(got)} items: {what}')
            elif t.cancelled():
                check(requested, 'spurious-cancel', what)
                w.probe('nontrivial')
                if 'closed' not in marks:
                    # __aexit__ itself may have been interrupted: the generator must still end
                    pass
            elif t.exception() is not None:
                e = t.exception()
                check(plan['end'] == 'raise' and e is exc, 'wrong-exception', f'{e!r} {what}')
                check(len(got) == len(plan['items']), 'items-lost', f'exception after {len(got)} items: {what}')
            else:
                if plan['mode'] == 'noiter' or early:
                    w.probe('nontrivial')
                else:
                    check(plan['end'] == 'stop', 'exception-lost', what)
                    check(len(got) == len(plan['items']), 'items-lost', what)
            if 'closed' in marks or (t.done() and not t.cancelled() and plan['mode'] != 'noiter' and not early):
                # everything is over: the generator is neither running nor will it run again
                st['ended'] = w.elapsed()
                check(it.closed, 'not-closed', what)
            await settle(5 + max(plan['items'] + [0]))
            if plan['mode'] in ('with', 'break', 'close', 'cancel', 'noiter', 'drop') or not early:
                if st['started'] and plan['src'] == 'gen':
                    del t
                    live = [x.name for x in w.threads[1:] if x.state != 'done' and 'lock' not in x.reason]
                    check(not st['alive'] or st['closed_gen'], 'generator-not-closed', f'{what} {live}')
                # the thread that ran the generator is free again
                fut = [pool.submit(lambda: 1) for _ in range(2)]
                d2, p2 = await calm_wait(fut, 50)
                check(not p2, 'thread-not-released', f'pool thread still occupied by the generator: {what}; {w.describe_threads()}')
                if plan['kind'] == 'separate':
                    for _ in range(50):
                        live = [x.name for x in w.threads[1:] if x.state != 'done']
                        if len(live) <= 2:
                            break
                        await settle(1)
                    check(len(live) <= 2, 'thread-not-released', f'the generator thread is still alive: {what} {live}')
            pool.shutdown()

        run_async(w, main, 'hang')
        if w.fault_counts or plan['end'] == 'raise':
            w.probe('nontrivial')


PROP = P()
