import asyncio
import threading
import time

from .common import *


class P:
    ID = 'C12'
    LISTS = ('jobs',)
    REAL = ['aiomisc.thread_pool (ThreadPoolExecutor)', 'threading', 'queue', 'asyncio (pure Python)']
    STUB = ['user functions', 'clock', 'selector', 'thread scheduler']
    RULE = ('a pool with running and queued jobs is shut down (wait or not, once or twice, from the loop or after the loop '
            'stopped) at a seeded instant while its threads are preempted and stalled; non-trivial: a job was running or '
            'queued at shutdown')

    def gen(self, rng, tier):
        n = rng.choice((0, 1, 2, 4, 8, 12))
        jobs = [dict(t=grid(rng, 0.2, 0.02), d=rng.choice((0, 0.01, 0.1, 0.3, 2, 30))) for _ in range(n)]
        return dict(mw=rng.choice((1, 2, 3, 5)), jobs=jobs, at=grid(rng, 0.4, 0.02),
                    step=rng.choice((None, None, rng.randrange(1, 60))), wait=rng.choice((1, 1, 0)),
                    twice=rng.choice((0, 1)), late=rng.choice((0, 1, 1)), after=rng.choice((0, 0, 1)), sched=sched_threads(rng))

    def run(self, w, plan):
        from aiomisc import ThreadPoolExecutor
        from aiomisc.thread_pool import ThreadPoolException
        runs = {}
        marks = {}

        def func(i):
            check(i not in runs, 'ran-twice', f'job {i}')
            runs[i] = dict(start=w.elapsed(), end=None)
            w.trace('start', i)
            if 'quiet' in marks:
                violate('ran-after-shutdown', f'job {i} started after shutdown() returned and its threads ended')
            if plan['jobs'][i]['d']:
                time.sleep(plan['jobs'][i]['d'])
            runs[i]['end'] = w.elapsed()
            return ('res', i)

        base = len(w.threads)
        loop = new_loop()

        async def main():
            pool = marks['pool'] = ThreadPoolExecutor(plan['mw'])
            futs = marks['futs'] = {}
            shut = loop.create_future()

            def go():
                if not shut.done():
                    shut.set_result(None)

            if plan['step'] is not None:
                w.at_handle(w.handles + plan['step'], go)
            loop.call_later(plan['at'], go)

            def submit(i):
                if 'shut' in marks:
                    return
                futs[i] = pool.submit(func, i)
            for i, op in enumerate(plan['jobs']):
                loop.call_later(op['t'], submit, i)
            await shut
            if plan['after']:
                return
            shutdown()
            if plan['late']:
                try:
                    pool.submit(func, 999)
                    violate('submit-after-shutdown', 'submit() after shutdown() did not raise')
                except RuntimeError:
                    pass
            await scenario()

        def shutdown():
            marks['shut'] = w.elapsed()
            w.fault('shutdown')
            pend = [i for i, f in marks['futs'].items() if not f.done()]
            if pend:
                w.probe('nontrivial')
            marks['pool'].shutdown(wait=bool(plan['wait']))
            took = w.elapsed() - marks['shut']
            w.trace('shutdown', len(pend))
            running = [i for i, r in runs.items() if r['end'] is None]
            check(took <= 10.2 + slack(plan, w) + 4 * w.fault_counts.get('thread-stall', 0), 'shutdown-too-long', f'{took:.3f}s')
            if plan['wait']:
                if running:
                    check(took >= 9.9, 'shutdown-did-not-wait', f'returned after {took:.3f}s with jobs {running} still running')
            else:
                check(took <= 0.5 + slack(plan, w) + 4 * w.fault_counts.get('thread-stall', 0), 'shutdown-waited', f'{took:.3f}s')
            if plan['twice']:
                marks['pool'].shutdown(wait=True)

        async def scenario():
            futs = marks['futs']
            done, pend = await asyncio.wait(futs.values(), timeout=1) if futs else ((), ())
            check(not pend, 'future-never-resolved', f'futures {[i for i in futs if not futs[i].done()]} are pending after shutdown')
            for i, f in futs.items():
                e = f.exception()
                if e is None:
                    check(f.result() == ('res', i) and i in runs and runs[i]['end'] is not None, 'wrong-result', f'{i} {f}')
                else:
                    check(isinstance(e, ThreadPoolException), 'wrong-exception', f'{i} {e!r}')
                    r = runs.get(i)
                    if r and r['end'] is not None:
                        check(r['end'] >= marks['shut'] - 0.2 - slack(plan, w) - 4 * w.fault_counts.get('thread-stall', 0),
                              'result-dropped', f'{i} had finished at {r["end"]} before shutdown at {marks["shut"]}')
            await settle(60)
            alive = [t.name for t in w.threads[base:] if t.state != 'done']
            check(not alive, 'thread-leaked', f'pool threads still alive a minute after shutdown: {alive}')
            marks['quiet'] = 1
            check(not w.thread_crashes, 'thread-crashed', str(w.thread_crashes))
            await settle(5)

        def stuck():
            violate('hang', f'{w.describe_threads()}')
        w.on_deadlock = stuck
        loop.run_until_complete(main())
        if plan['after']:
            shutdown()
            loop.run_until_complete(scenario())


PROP = P()
