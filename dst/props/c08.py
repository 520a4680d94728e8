import asyncio

from .common import *


class X(Exception):
    pass


class P:
    ID = 'C08'
    LISTS = ('aws',)
    REAL = ['aiomisc.utils (select, cancel_tasks, shield)', 'asyncio (pure Python)']
    STUB = ['awaited user coroutines', 'clock', 'selector']
    RULE = ('select() over coroutines, tasks and futures with scripted durations, outcomes and slow cancellation, with '
            'timeout, return_exceptions, cancel and wait options and cancelled callers; cancel_tasks() over tasks that '
            'take time to stop; shield() with cancelled callers; non-trivial: two awaitables finished in the same loop '
            'iteration, a caller was cancelled, or cancellation took time')

    def gen(self, rng, tier):
        kind = rng.choice(('select', 'select', 'select', 'cancel_tasks', 'shield'))
        aws = [dict(d=rng.choice((0, 0, 0.1, 0.1, 0.2, 0.3, 5)), o=rng.choice(('ok', 'ok', 'ok', 'exc')),
                    c=rng.choice((0, 0, 0.15, 0.4)), kind=rng.choice(('coro', 'task', 'future')),
                    cx=rng.choice((0, 0, 0, 1)))
               for _ in range(rng.choice((1, 2, 3, 5)))]
        tmo = rng.choice((None, None, 0.15, 0.25))
        if tmo is not None:
            for a in aws:
                a['cx'] = 0
        op = dict(t=0)
        maybe_cancel(rng, op, 0.35, 0.5, 25, 0.05)
        return dict(kind=kind, aws=aws, op=op, timeout=tmo, cancel=rng.choice((1, 1, 0)),
                    wait=rng.choice((1, 1, 0)), rexc=rng.choice((0, 1)), twice=rng.choice((0, 1)), sched=sched_async(rng))

    def run(self, w, plan):
        from aiomisc import select, cancel_tasks, shield
        recs = []

        def mk(i, a, loop):
            rec = dict(i=i, start=None, end=None, how=None, v=None, cut=None, seq=None)
            recs.append(rec)

            async def body():
                rec['start'] = w.elapsed()
                try:
                    if a['d']:
                        await asyncio.sleep(a['d'])
                except asyncio.CancelledError:
                    rec['cut'] = w.elapsed()
                    w.trace('cut', i)
                    if a['c']:
                        w.probe('nontrivial')
                        try:
                            await asyncio.sleep(a['c'])
                        except asyncio.CancelledError:
                            rec['cut2'] = w.elapsed()
                    rec['end'], rec['how'] = w.elapsed(), 'cut'
                    if a['cx']:
                        raise X('in cleanup')
                    raise
                rec['end'], rec['how'] = w.elapsed(), a['o']
                rec['seq'] = w.handles
                w.trace('end', i)
                if a['o'] == 'exc':
                    rec['v'] = X(i)
                    raise rec['v']
                rec['v'] = ('r', i)
                return rec['v']
            if a['kind'] == 'coro':
                return body()
            if a['kind'] == 'task':
                return loop.create_task(body())
            fut = loop.create_future()
            rec['start'] = w.elapsed()
            rec['fut'] = fut

            def done():
                if fut.done():
                    return
                rec['end'], rec['how'], rec['seq'] = w.elapsed(), a['o'], w.handles
                if a['o'] == 'exc':
                    rec['v'] = X(i)
                    fut.set_exception(rec['v'])
                else:
                    rec['v'] = ('r', i)
                    fut.set_result(rec['v'])
            loop.call_later(a['d'], done)
            return fut

        async def t_select():
            loop = asyncio.get_running_loop()
            aws = [mk(i, a, loop) for i, a in enumerate(plan['aws'])]
            snap = {}

            async def caller():
                try:
                    return await select(*aws, timeout=plan['timeout'], cancel=bool(plan['cancel']), wait=bool(plan['wait']),
                                        return_exceptions=bool(plan['rexc']))
                finally:
                    snap['at'] = w.elapsed()
                    snap['handles'] = w.handles
                    snap['live'] = [r['i'] for r in recs if r['start'] is not None and r['end'] is None and 'fut' not in r]
            t = loop.create_task(caller())
            schedule_cancel(w, loop, t, plan['op'], 'select')
            o = await outcome(w, t)
            w.trace('out', o.kind)
            requested = 'cancel_at' in plan['op'] or 'cancel_step' in plan['op']
            finished = [r for r in recs if r['how'] in ('ok', 'exc')]
            what = f'{o} snap {snap} recs {recs}'
            tmo = plan['timeout'] is not None and snap.get('at', 0) >= plan['timeout'] - 1e-6
            if o.kind == 'cancelled':
                check(requested, 'spurious-cancel', what)
                w.probe('nontrivial')
                if recs and 'at' in snap:
                    check(not snap['live'] or 'again' in snap, 'orphan-after-cancel', what)
            elif o.kind == 'exc':
                check(not plan['rexc'], 'exception-raised', what)
                check(isinstance(o.value, X) and any(r['v'] is o.value for r in finished), 'wrong-exception', what)
                self.first(w, plan, [r for r in recs if r['v'] is o.value][0], recs, what)
            else:
                res = o.value
                check(len(res) == len(aws), 'wrong-length', what)
                if not res.done():
                    check(plan['timeout'] is not None, 'no-result', what)
                    check(snap['at'] >= plan['timeout'] - 1e-6, 'early-timeout', what)
                    for r in recs:
                        if r['how'] in ('ok', 'exc'):
                            check(r['end'] >= plan['timeout'] - 1e-3 - slack(plan, w), 'result-lost', what)
                else:
                    r = recs[res.result_idx]
                    check(r['how'] in ('ok', 'exc') and r['v'] is res.value, 'wrong-result', what)
                    check(bool(res.is_exception) == (r['how'] == 'exc'), 'wrong-result', what)
                    check(not res.is_exception or plan['rexc'], 'exception-swallowed', what)
                    check(list(res) == [res.value if i == res.result_idx else None for i in range(len(aws))], 'wrong-iteration', what)
                    if not res.is_exception:
                        check(res.result() is res.value, 'wrong-result', what)
                    self.first(w, plan, r, recs, what)
            if o.kind != 'cancelled':
                if plan['cancel'] and plan['wait']:
                    check(not snap['live'], 'orphan', 'select() returned but some awaitables still run: ' + what)
                extra = max([a['c'] for a in plan['aws']] + [0]) if plan['cancel'] and plan['wait'] else 0
                if finished:
                    check(snap['at'] <= min(r['end'] for r in finished) + extra + slack(plan, w) + 0.01, 'late', what)
                if plan['timeout'] is not None:
                    check(snap['at'] <= plan['timeout'] + extra + slack(plan, w) + 0.01, 'late', what)
            await settle(1)
            for r, a in zip(recs, plan['aws']):
                if 'fut' in r:
                    continue
                if plan['cancel'] and o.kind != 'cancelled':
                    check(r['end'] is not None or r['start'] is None, 'not-cancelled', f'awaitable {r} still runs after select()')
                if not plan['cancel'] and o.kind != 'cancelled':
                    check(r['cut'] is None, 'cancelled-needlessly', f'{r} was cancelled with cancel=False')

        async def t_cancel_tasks():
            loop = asyncio.get_running_loop()
            aws = [mk(i, a, loop) for i, a in enumerate(plan['aws'])]
            aws = [asyncio.ensure_future(x) for x in aws]
            await asyncio.sleep(0.12)
            done_before = [x.done() for x in aws]
            arg = set(aws) if plan['twice'] else list(aws)
            t0 = w.elapsed()
            fut = cancel_tasks(arg)

            async def caller():
                await fut
            t = loop.create_task(caller())
            schedule_cancel(w, loop, t, plan['op'], 'cancel_tasks')
            o = await outcome(w, t)
            if o.kind == 'cancelled':
                check('cancel_at' in plan['op'] or 'cancel_step' in plan['op'], 'spurious-cancel', f'{o}')
                w.probe('nontrivial')
                await settle(1)
            else:
                check(o.kind == 'ok', 'raised', f'cancel_tasks() raised {o}')
            for x, r, d in zip(aws, recs, done_before):
                check(x.done(), 'not-done', f'cancel_tasks() completed but {r} is not done')
                if d:
                    check(not x.cancelled() and r['how'] in ('ok', 'exc'), 'finished-task-touched', f'{r}')
                elif 'fut' in r:
                    check(isinstance(x.exception() if not x.cancelled() else asyncio.CancelledError(), asyncio.CancelledError),
                          'not-cancelled', f'{r}')
                else:
                    check(r['start'] is None or r['cut'] is not None or r['end'] <= t0 + 1e-3 + slack(plan, w), 'not-cancelled', f'{r}')
                if not x.cancelled():
                    x.exception()

        async def t_shield():
            loop = asyncio.get_running_loop()
            got = []
            for i, a in enumerate(plan['aws']):
                a['kind'] = 'coro'

                @shield
                async def func(i, a, *, k):
                    check(k == i, 'wrong-arguments', f'{k}')
                    return await mk(i, a, loop)

                t = loop.create_task(func(i, a, k=i))
                schedule_cancel(w, loop, t, plan['op'], i)
                got.append((i, t))
            for i, t in got:
                o = await outcome(w, t)
                if o.kind == 'cancelled':
                    w.probe('nontrivial')
                    check('cancel_at' in plan['op'] or 'cancel_step' in plan['op'], 'spurious-cancel', f'{o}')
            await settle(6)
            for r in recs:
                check(r['cut'] is None, 'shield-broken', f'a shielded coroutine was cancelled: {r}')
                check(r['end'] is not None, 'shield-lost', f'a shielded coroutine did not finish: {r}')
            for i, t in got:
                rs = [r for r in recs if r['i'] == i]
                if not t.cancelled():
                    check(rs, 'shield-lost', f'{i} never ran')
                    e = t.exception()
                    check(e is rs[0]['v'] if e else t.result() == rs[0]['v'], 'wrong-result', f'{t} {rs}')

        main = dict(select=t_select, cancel_tasks=t_cancel_tasks, shield=t_shield)[plan['kind']]
        run_async(w, main, 'hang')

    def first(self, w, plan, r, recs, what):
        """r won: nobody finished in an earlier loop iteration than it did."""
        for x in recs:
            if x is r or x['end'] is None or x['how'] == 'cut':
                continue
            if x['end'] == r['end'] or abs(x['end'] - r['end']) < 1e-3:
                w.probe('nontrivial')
                continue
            if 'fut' in x or 'fut' in r or plan['aws'][x['i']]['kind'] == 'task' or plan['aws'][r['i']]['kind'] == 'task':
                # completion order of futures is seen with one callback of latency
                check(x['end'] >= r['end'] - 0.001 - slack(plan, w), 'not-first', what)
                continue
            check(x['end'] >= r['end'], 'not-first', what)


PROP = P()
