import asyncio
import contextvars
import functools
import threading
import time

from .common import *

VAR = contextvars.ContextVar('var14', default=None)


class X(Exception):
    pass


class P:
    ID = 'C14'
    LISTS = ('jobs',)
    REAL = ['aiomisc.thread_pool (run_in_new_thread, threaded_separate, wait_coroutine, sync_await, sync_wait_coroutine)',
            'threading', 'asyncio (pure Python)']
    STUB = ['user functions and coroutines', 'clock', 'selector', 'thread scheduler']
    RULE = ('threads started by threaded_separate/run_in_new_thread whose functions call coroutines on the loop through '
            'sync_await, sync_wait_coroutine or wait_coroutine; coroutines succeed, fail, are cancelled or cancel '
            'themselves; callers are cancelled; threads preempted and stalled at seeded points; non-trivial: a failure, a '
            'cancellation or a preemption happened')

    def gen(self, rng, tier):
        jobs = []
        for i in range(rng.choice((1, 2, 4, 8))):
            op = dict(t=grid(rng, 0.2, 0.02), d=rng.choice((0, 0, 0.05)), how=rng.choice(('sep', 'sep', 'new', 'pool')),
                      o=rng.choice(('ok', 'ok', 'X', 'exit')), noret=0,
                      call=rng.choice(('func', 'func', 'partial', 'object')),
                      calls=[dict(via=rng.choice(('sync_await', 'sync_wait', 'wait')), d=rng.choice((0, 0, 0.05, 0.2)),
                                  o=rng.choice(('ok', 'ok', 'X', 'selfcancel', 'killed')))
                             for _ in range(rng.choice((0, 0, 1, 2, 3)))])
            maybe_cancel(rng, op, 0.2, 0.4, 40, 0.02)
            jobs.append(op)
        return dict(jobs=jobs, sched=sched_threads(rng))

    def run(self, w, plan):
        import aiomisc
        from aiomisc import threaded_separate, sync_await, threaded
        from aiomisc.thread_pool import run_in_new_thread, wait_coroutine, sync_wait_coroutine
        from aiomisc.compat import set_current_loop
        runs = {}
        excs = {}
        live = {}

        async def coro(i, k, *, tag):
            check(tag == ('t', i, k), 'wrong-arguments', f'{tag}')
            check(threading.get_ident() == 1, 'ran-outside-loop', f'coroutine of job {i} ran in thread {threading.get_ident()}')
            c = plan['jobs'][i]['calls'][k]
            rec = runs[i]['calls'][-1]
            rec['n'] += 1
            w.trace('coro', i, k)
            if c['o'] == 'killed':
                t = asyncio.current_task()
                asyncio.get_running_loop().call_later(c['d'] / 2 + 0.001, t.cancel)
                w.fault('cancel')
                await asyncio.sleep(c['d'] + 1)
            if c['d']:
                await asyncio.sleep(c['d'])
            rec['end'] = w.elapsed()
            if c['o'] == 'ok':
                return ('cres', i, k)
            if c['o'] == 'selfcancel':
                raise asyncio.CancelledError
            rec['exc'] = X(i, k)
            raise rec['exc']

        loop = new_loop()

        def func(i, *, tag):
            check(i not in runs, 'ran-twice', f'job {i}')
            me = threading.get_ident()
            check(me != 1, 'ran-in-loop-thread', f'job {i}')
            if plan['jobs'][i]['how'] != 'pool':
                check(me not in live, 'thread-shared', f'job {i} shares thread {me} with {live.get(me)}')
                live[me] = i
            check(VAR.get() == ('ctx', i), 'context-lost', f'job {i} sees {VAR.get()}')
            runs[i] = dict(start=w.elapsed(), end=None, calls=[])
            op = plan['jobs'][i]
            w.trace('start', i)
            if op['d']:
                time.sleep(op['d'])
            for k, c in enumerate(op['calls']):
                rec = dict(n=0, end=None, exc=None)
                runs[i]['calls'].append(rec)
                how = v = None
                try:
                    if c['via'] == 'sync_await':
                        v = sync_await(coro, i, k, tag=('t', i, k))
                    elif c['via'] == 'sync_wait':
                        v = sync_wait_coroutine(loop, coro, i, k, tag=('t', i, k))
                    else:
                        v = wait_coroutine(coro(i, k, tag=('t', i, k)), loop)
                    how = 'ok'
                except asyncio.CancelledError:
                    how = 'cancelled'
                except X as e:
                    how, v = 'X', e
                w.trace('call', i, k, how)
                exp = dict(ok='ok', X='X', selfcancel='cancelled', killed='cancelled')[c['o']]
                check(how == exp, 'wrong-call-outcome', f'job {i} call {k} {c}: {how} {v!r}')
                check(rec['n'] == 1, 'coroutine-count', f'job {i} call {k}: coroutine ran {rec["n"]} times')
                if how == 'ok':
                    check(v == ('cres', i, k), 'wrong-result', f'{v}')
                if how == 'X':
                    check(v is rec['exc'], 'wrong-exception', f'{v}')
                if how == 'cancelled':
                    w.probe('nontrivial')
            runs[i]['end'] = w.elapsed()
            w.trace('end', i)
            if op['o'] == 'ok':
                return ('res', i)
            excs[i] = (X if op['o'] == 'X' else SystemExit)(i)
            raise excs[i]

        async def main():
            set_current_loop(loop)
            pool = aiomisc.ThreadPoolExecutor(8)
            loop.set_default_executor(pool)

            class Callable:
                def __call__(self, *a, **kw):
                    return func(*a, **kw)
            funcs = dict(func=func, partial=functools.partial(func), object=Callable())
            sep = {k: threaded_separate(f) for k, f in funcs.items()}
            thr = {k: threaded(f) for k, f in funcs.items()}
            ts = {}

            async def caller(i, op):
                VAR.set(('ctx', i))
                if op['how'] == 'sep':
                    aw = sep[op.get('call', 'func')](i, tag=1)
                elif op['how'] == 'new':
                    aw = run_in_new_thread(funcs[op.get('call', 'func')], args=(i,), kwargs=dict(tag=1))
                else:
                    aw = thr[op.get('call', 'func')](i, tag=1)
                VAR.set('later')
                try:
                    return ('ret', await aw)
                except asyncio.CancelledError:
                    raise
                except BaseException as e:
                    return ('exc', e)
            for i, op in sorted(enumerate(plan['jobs']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                t = ts[i] = asyncio.ensure_future(caller(i, op))
                schedule_cancel(w, loop, t, op, i)
            await asyncio.wait(ts.values(), timeout=500)
            for i, t in ts.items():
                op = plan['jobs'][i]
                what = f'job {i} {op} {t} {runs.get(i)}; {w.describe_threads()}'
                check(t.done(), 'never-completes', what)
                if t.cancelled():
                    check('cancel_at' in op or 'cancel_step' in op, 'spurious-cancel', what)
                    w.probe('nontrivial')
                    continue
                how, v = t.result()
                check(i in runs, 'not-run', what)
                if op['o'] == 'ok':
                    check(how == 'ret' and v == ('res', i), 'wrong-result', what)
                else:
                    check(how == 'exc' and v is excs[i], 'wrong-exception', what)
            await settle(30)
            for i, r in runs.items():
                check(r['end'] is not None, 'thread-blocked-forever', f'job {i} {plan["jobs"][i]}: {r}; {w.describe_threads()}')
            pool.shutdown()
            await settle(30)
            alive = [t.name for t in w.threads[1:] if t.state != 'done']
            check(not alive, 'thread-leaked', str(alive))

        def stuck():
            violate('thread-blocked-forever', f'{w.describe_threads()} runs {runs}')
        w.on_deadlock = stuck
        loop.run_until_complete(main())
        if w.fault_counts:
            w.probe('nontrivial')


PROP = P()
