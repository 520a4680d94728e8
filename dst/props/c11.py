import asyncio
import contextvars
import threading
import time

from .common import *

VAR = contextvars.ContextVar('var', default=None)


class X(Exception):
    pass


class BX(BaseException):
    pass


KINDS = ('ok', 'ok', 'ok', 'ok', 'X', 'BX', 'cancelled', 'exit', 'stopiter')


class P:
    ID = 'C11'
    LISTS = ('jobs',)
    REAL = ['aiomisc.thread_pool (ThreadPoolExecutor, threaded, run_in_executor)', 'threading', 'queue', 'concurrent.futures',
            'asyncio (pure Python)']
    STUB = ['user functions', 'clock', 'selector', 'thread scheduler']
    RULE = ('jobs submitted to one pool from the loop (threaded, run_in_executor, loop.run_in_executor, submit), each with '
            'a blocking time, an outcome (value, Exception, BaseException, SystemExit, StopIteration) and possibly a '
            'cancelled caller; threads are preempted and stalled at seeded points; non-trivial: a preemption, a failing '
            'job or a cancellation happened')

    def gen(self, rng, tier):
        n = rng.choice((1, 2, 4, 8, 14))
        mw = rng.choice((1, 1, 2, 3, 4, 7))
        barrier = rng.random() < 0.2
        jobs = []
        for i in range(min(n, mw) if barrier else n):
            op = dict(t=0 if barrier else grid(rng, rng.choice((0, 0.1, 1)), 0.02), d=rng.choice((0, 0, 0.01, 0.1, 0.3)),
                      o='ok' if barrier else rng.choice(KINDS), how=rng.choice(('threaded', 'rie', 'loop', 'submit')))
            if not barrier:
                maybe_cancel(rng, op, 0.25, 0.4, 40, 0.02)
            jobs.append(op)
        s = sched_threads(rng)
        return dict(mw=mw, jobs=jobs, barrier=int(barrier), sched=s)

    def run(self, w, plan):
        from aiomisc import ThreadPoolExecutor, threaded
        from aiomisc.thread_pool import run_in_executor
        mw = plan['mw']
        runs = {i: [] for i in range(len(plan['jobs']))}
        excs = {}
        busy = [0]
        bar = threading.Event()
        arrived = [0]
        jobs = list(plan['jobs'])
        barrier = [plan['barrier']]
        second = [0]

        def func(i, *, k):
            r = dict(start=w.elapsed(), end=None, thread=threading.get_ident())
            check(k == ('k', i), 'wrong-arguments', f'{k}')
            check(VAR.get() == ('ctx', i), 'context-lost', f'job {i} sees context variable {VAR.get()}')
            check(r['thread'] != 1, 'ran-in-loop-thread', f'job {i} ran in the event loop thread')
            runs[i].append(r)
            check(len(runs[i]) == 1, 'ran-twice', f'job {i} ran twice')
            VAR.set('changed')
            busy[0] += 1
            check(busy[0] <= mw, 'too-many-threads', f'{busy[0]} jobs run at once, max_workers {mw}')
            w.trace('start', i)
            op = jobs[i]
            if barrier[0] and i >= second[0]:
                arrived[0] += 1
                if arrived[0] == len(jobs) - second[0]:
                    bar.set()
                if not bar.wait(50):
                    violate('starved', f'only {arrived[0]} of {len(jobs) - second[0]} jobs run concurrently, max_workers {mw}')
            if op['d']:
                time.sleep(op['d'])
            busy[0] -= 1
            r['end'] = w.elapsed()
            w.trace('end', i)
            o = op['o']
            if o == 'ok':
                return ('res', i)
            e = excs[i] = {'X': X, 'BX': BX, 'cancelled': asyncio.CancelledError, 'exit': SystemExit,
                           'stopiter': StopIteration}[o](i)
            raise e

        tf = threaded(func)

        async def main():
            loop = asyncio.get_running_loop()
            pool = ThreadPoolExecutor(mw)
            loop.set_default_executor(pool)
            ts = {}

            async def caller(i, op):
                VAR.set(('ctx', i))
                if op['how'] == 'threaded':
                    aw = tf(i, k=('k', i))
                elif op['how'] == 'rie':
                    aw = run_in_executor(func, args=(i,), kwargs=dict(k=('k', i)), executor=pool)
                elif op['how'] == 'loop':
                    aw = loop.run_in_executor(pool, lambda: func(i, k=('k', i)))
                else:
                    aw = pool.submit(func, i, k=('k', i))
                VAR.set('later')
                op['submitted'] = w.elapsed()
                try:
                    return ('ret', await aw)
                except asyncio.CancelledError as e:
                    op['cancelled'] = w.elapsed()
                    raise
                except BaseException as e:
                    return ('exc', e)

            for i, op in sorted(enumerate(plan['jobs']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                t = asyncio.ensure_future(caller(i, op))
                ts[i] = t
                schedule_cancel(w, loop, t, op, i)
            done, pend = await asyncio.wait(ts.values(), timeout=1000)
            check(not pend, 'never-completes', f'jobs {[i for i in ts if not ts[i].done()]} never completed; runs {runs}; '
                                               f'{w.describe_threads()}')
            for i, t in ts.items():
                self.judge(w, plan, i, plan['jobs'][i], t, runs[i], excs)
            # the pool still works at full width
            while busy[0]:
                await asyncio.sleep(0.05)
            base = len(plan['jobs'])        # a job cancelled above might start as late as now
            jobs.extend(dict(d=0, o='ok', how='submit') for _ in range(mw))
            second[0] = base
            barrier[0] = 1
            arrived[0] = 0
            bar.clear()
            for i in range(base, base + mw):
                runs[i] = []
            ts = {i: asyncio.ensure_future(caller(i, jobs[i])) for i in range(base, base + mw)}
            done, pend = await asyncio.wait(ts.values(), timeout=1000)
            check(not pend, 'pool-degraded', f'after the workload {len(pend)} of {mw} jobs do not complete')
            for i, t in ts.items():
                check(t.result() == ('ret', ('res', i)), 'wrong-result', f'{t.result()}')
            w.trace('done')
            pool.shutdown()

        run_async(w, main, 'never-completes')
        if w.fault_counts:
            w.probe('nontrivial')

    def judge(self, w, plan, i, op, t, rs, excs):
        requested = 'cancel_at' in op or 'cancel_step' in op
        what = f'job {i} {op}: runs {rs}, task {t}'
        if t.cancelled():
            if op['o'] == 'cancelled' and rs and rs[0]['end'] is not None:
                return
            check(requested, 'spurious-cancel', what)
            if rs and 'cancelled' in op:
                # a job cancelled while still queued must not be run later
                check(rs[0]['start'] <= op['cancelled'] + 0.05 + slack(plan, w) + 4 * w.fault_counts.get('thread-stall', 0),
                      'cancelled-job-ran', what)
            w.probe('nontrivial')
            return
        how, v = t.result()
        check(len(rs) == 1, 'no-execution', what)
        if op['o'] == 'ok':
            check(how == 'ret' and v == ('res', i), 'wrong-result', what)
            return
        check(how == 'exc', 'exception-lost', what)
        w.probe('nontrivial')
        e = excs[i]
        if op['o'] == 'stopiter':
            check(v is e or v.__cause__ is e, 'wrong-exception', what)
        else:
            check(v is e, 'wrong-exception', what)


PROP = P()
