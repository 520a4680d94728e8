import asyncio

from .common import *


class E(Exception):
    pass


class P:
    ID = 'C01'
    TITLE = 'aggregate'
    LISTS = ('calls', 'execs')
    REAL = ['aiomisc.aggregate', 'asyncio (pure Python)']
    STUB = ['aggregated user function', 'clock', 'selector']
    RULE = ('calls to an aggregated function at grid times, with per-execution duration/outcome, caller '
            'cancellations at simulated times or before the n-th loop callback; non-trivial: two or more '
            'callers shared a batch or a cancellation/failure hit a pending batch')

    def gen(self, rng, tier):
        n = rng.choice((1, 2, 3, 4, 6, 9, 14))
        leeway = rng.choice((0.05, 0.1, 0.5))
        kind = rng.choice(('sync', 'sync', 'async'))
        maxc = rng.choice((None, 1, 2, 2, 3, 3, 5))
        horizon = rng.choice((0, 0.05, 0.2, 1.0))
        pc = rng.choice((0, 0, 0.15, 0.4))
        pf = rng.choice((0, 0, 0.3))
        calls = []
        for i in range(n):
            op = dict(t=grid(rng, horizon, 0.05) if rng.random() < .8 else round(rng.random() * horizon, 4))
            maybe_cancel(rng, op, pc, leeway + 0.3, 8 + 6 * n, 0.05)
            calls.append(op)
        execs = []
        for i in range(n + 4):
            e = dict(d=rng.choice((0, 0, 0.05, 0.1, 0.3)))
            r = rng.random()
            if r < pf:
                e['o'] = rng.choice(('raise', 'raise', 'raise', 'short', 'gen') if kind == 'sync' else ('raise', 'unset', 'mixed', 'early'))
            execs.append(e)
        return dict(kind=kind, leeway=leeway, maxc=maxc, obj=kind != 'sync' and rng.random() < 0.2, calls=calls, execs=execs, sched=sched_async(rng))

    def run(self, w, plan):
        from aiomisc import aggregate, aggregate_async
        from aiomisc.aggregate import ResultNotSetError
        maxc, leeway = plan['maxc'], plan['leeway']
        execs = []           # dict(args, start, end, how, exc)
        submitted = {}

        def begin(vals):
            k = len(execs)
            spec = plan['execs'][k] if k < len(plan['execs']) else dict(d=0)
            rec = dict(k=k, args=tuple(vals), start=w.elapsed(), end=None, how='running', exc=None, set={})
            execs.append(rec)
            w.trace('exec', k, rec['args'])
            check(len(vals) >= 1, 'empty-batch', 'executed with no arguments')
            if maxc is not None:
                check(len(vals) <= maxc, 'batch-too-large', f'batch of {len(vals)} > max_count {maxc}')
            check(len(set(vals)) == len(vals), 'duplicate-arg', f'argument repeated inside a batch {vals}')
            for r in execs[:-1]:
                if set(r['args']) & set(vals):
                    check(r['how'] == 'cancelled', 'double-execution',
                          f'{sorted(set(r["args"]) & set(vals))} executed again although execution '
                          f'{r["k"]} is/was {r["how"]}')
            for v in vals:
                check(v in submitted, 'foreign-arg', f'{v} was never submitted')
            first = min(submitted[v] for v in vals)
            full = maxc is not None and len(vals) == maxc
            prior = [r for r in execs[:-1] if set(r['args']) & set(vals)]
            if not prior:
                check(full or w.elapsed() >= first + leeway - 1e-6, 'executed-early',
                      f'batch {vals} executed {w.elapsed() - first:.4f}s after its first call; not full, leeway {leeway}')
                # a caller cancelled while the window was open leaves its argument behind;
                # lateness is judged from the callers still waiting
                live = [submitted[v] for v in vals if not tasks[v].cancelling()] or [w.elapsed()]
                due = max(submitted[v] for v in vals) if full else max(first + leeway, min(live))
                check(w.elapsed() <= due + slack(plan, w) + cancelled_slack[0], 'executed-late',
                      f'batch {vals} executed at {w.elapsed():.4f}, due {due:.4f}')
            return rec, spec

        cancelled_slack = [0.0]

        async def body(rec, spec):
            try:
                if spec['d']:
                    await asyncio.sleep(spec['d'])
            except asyncio.CancelledError:
                rec['how'] = 'cancelled'
                rec['end'] = w.elapsed()
                w.trace('exec-cancelled', rec['k'])
                raise

        if plan['kind'] == 'sync':
            @aggregate(leeway * 1000, maxc)
            async def func(*args):
                rec, spec = begin(args)
                await body(rec, spec)
                rec['end'] = w.elapsed()
                if spec.get('o') == 'raise':
                    rec['exc'] = E(rec['k'])
                    rec['how'] = 'raised'
                    raise rec['exc']
                rec['how'] = 'done'
                n = len(args) - (spec.get('o') == 'short')
                for i, v in enumerate(args):
                    rec['set'][v] = ('ok', v * 10 + 1) if i < n else ('unset', None)
                res = [v * 10 + 1 for v in args[:n]]
                return (x for x in res) if spec.get('o') == 'gen' else res
        else:
            async def lowlevel(*args):
                rec, spec = begin([a.value for a in args])
                o = spec.get('o')

                def put(a, kind, x):
                    if not a.future.done():
                        rec['set'][a.value] = (kind, x)
                        (a.future.set_result if kind == 'ok' else a.future.set_exception)(x)
                if o == 'early':
                    put(args[0], 'ok', args[0].value * 10 + 1)
                await body(rec, spec)
                rec['end'] = w.elapsed()
                if o == 'raise':
                    rec['exc'] = E(rec['k'])
                    rec['how'] = 'raised'
                    raise rec['exc']
                for i, a in enumerate(args):
                    if o == 'unset' and i % 2:
                        rec['set'].setdefault(a.value, ('unset', None))
                    elif o == 'mixed' and i % 2:
                        put(a, 'exc', E((rec['k'], a.value)))
                    else:
                        put(a, 'ok', a.value * 10 + 1)
                rec['how'] = 'done'

            class Callable:
                async def __call__(self, *args):
                    await lowlevel(*args)
            func = aggregate_async(leeway * 1000, maxc)(Callable() if plan.get('obj') else lowlevel)

        tasks = {}
        done_at = {}

        async def caller(i):
            submitted[i] = w.elapsed()
            w.trace('call', i)
            return await func(i)

        async def main():
            loop = asyncio.get_running_loop()
            outs = {}
            for i, op in sorted(enumerate(plan['calls']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                t = tasks[i] = asyncio.ensure_future(caller(i))
                schedule_cancel(w, loop, t, op, i)
                t.add_done_callback(lambda t, i=i: done_at.setdefault(i, w.elapsed()))
            for i, t in tasks.items():
                outs[i] = await outcome(w, t)
                w.trace('out', i, outs[i].kind, repr(outs[i].value))
            return outs

        outs = run_async(w, main, 'caller-never-completes')
        for i, o in sorted(outs.items()):
            op = plan['calls'][i]
            was_cancelled = 'cancel_at' in op or 'cancel_step' in op
            mine = [r for r in execs if i in r['args']]
            if o.kind == 'cancelled':
                check(was_cancelled, 'spurious-cancel', f'caller {i} got CancelledError but nobody cancelled it')
                continue
            check(mine, 'result-without-execution', f'caller {i}: {o} but no execution had its argument')
            fin = mine[-1]
            exp = None
            for r in mine:
                if i in r['set']:
                    exp = r['set'][i]
                    break
            if exp is None or exp[0] == 'unset':
                if fin['how'] == 'raised':
                    exp = ('exc', fin['exc'])
                elif exp is not None:
                    check(o.kind == 'exc' and isinstance(o.value, ResultNotSetError), 'unset-result',
                          f'caller {i}: expected ResultNotSetError, got {o}')
                    continue
            check(exp is not None, 'no-outcome', f'caller {i}: {o}, executions {mine}')
            check(o.kind == exp[0] and o.value == exp[1], 'wrong-result',
                  f'caller {i}: got {o}, the execution produced {exp}')
            check(done_at[i] <= fin['end'] + slack(plan, w), 'outcome-late',
                  f'caller {i} completed at {done_at[i]:.4f}, its execution ended at {fin["end"]:.4f}')
        for i in tasks:
            check(i in outs, 'caller-never-completes', str(i))
        if any(len(r['args']) > 1 for r in execs) or any(r['how'] != 'done' for r in execs):
            w.probe('nontrivial')
        if any(r['how'] == 'cancelled' for r in execs):
            w.probe('executor-cancelled')
        if any(r['how'] == 'raised' for r in execs):
            w.probe('execution-failed')


PROP = P()
