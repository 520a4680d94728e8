import asyncio
import threading

from .common import *


class P:
    ID = 'C04'
    LISTS = ('ops',)
    REAL = ['aiomisc.context', 'asyncio (pure Python)', 'threading']
    STUB = ['clock', 'selector', 'thread scheduler']
    RULE = ('gets, sets (from the loop and from other threads) and waiter cancellations over a few keys of the contexts '
            'of one or two loops; non-trivial: a waiter was pending when a set, a cancel or a second set happened')

    def gen(self, rng, tier):
        n = rng.choice((2, 4, 8, 14))
        keys = rng.choice((1, 1, 2, 3))
        ops = []
        for i in range(n):
            r = rng.random()
            op = dict(t=grid(rng, 0.4, 0.05), key=rng.randrange(keys))
            if r < 0.5:
                op['op'] = rng.choice(('get', 'get', 'getfut'))
                maybe_cancel(rng, op, 0.35, 0.3, 30, 0.05)
            elif r < 0.8:
                op['op'] = 'set'
                op['dup'] = rng.choice((0, 0, 1))
            else:
                op['op'] = 'tset'
                op['dup'] = rng.choice((0, 0, 1, 2))
            ops.append(op)
        return dict(ops=ops, keys=keys, sched=sched_threads(rng))

    def run(self, w, plan):
        from aiomisc import Context, get_context
        sets = {k: [] for k in range(plan['keys'])}      # (value, called, returned)
        gets = []

        async def main():
            loop = asyncio.get_running_loop()
            ctx = Context(loop)
            check(get_context() is ctx and get_context(loop) is ctx, 'wrong-context', 'get_context() is not the loop\'s context')
            threads, tasks = [], []

            def do_set(k, i, n):
                for j in range(n):
                    rec = dict(v=(i, j), a=w.now, b=None, thr=threading.get_ident())
                    sets[k].append(rec)
                    (ctx if (i + j) % 2 else get_context(loop))[k] = rec['v']
                    rec['b'] = w.now
                    w.trace('set', k, i, j)

            async def getter(rec):
                try:
                    rec['v'] = await ctx[rec['key']]
                    rec['how'] = 'ok'
                except asyncio.CancelledError:
                    rec['how'] = 'cancelled'
                    raise
                finally:
                    rec['b'] = w.now
                    w.trace('got', rec['i'], rec['how'], rec.get('v'))

            async def fgetter(rec, fut):
                try:
                    rec['v'] = await fut
                    rec['how'] = 'ok'
                except asyncio.CancelledError:
                    rec['how'] = 'cancelled'
                    raise
                finally:
                    rec['b'] = w.now

            for i, op in sorted(enumerate(plan['ops']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                if op['op'] in ('get', 'getfut'):
                    rec = dict(i=i, key=op['key'], a=w.now, b=None, how='pending',
                               req='cancel_at' in op or 'cancel_step' in op)
                    gets.append(rec)
                    if op['op'] == 'get':
                        t = asyncio.ensure_future(getter(rec))
                    else:
                        t = asyncio.ensure_future(fgetter(rec, ctx[op['key']]))
                    tasks.append((t, rec))
                    schedule_cancel(w, loop, t, op, i)
                elif op['op'] == 'set':
                    do_set(op['key'], i, 1 + op['dup'])
                else:
                    th = threading.Thread(target=do_set, args=(op['key'], i, 1 + op['dup']))
                    th.start()
                    threads.append(th)
            while any(t.is_alive() for t in threads):
                await asyncio.sleep(0.05)
            await settle(0.5)
            check(not w.thread_crashes, 'set-raised', str(w.thread_crashes))
            for t, rec in tasks:
                if rec['how'] == 'pending' and t.cancelled():
                    rec['how'] = 'cancelled'
                if sets[rec['key']]:
                    check(t.done(), 'waiter-never-woken', f'get {rec} is still pending although the key was set {sets[rec["key"]]}')
            # what the context holds now
            for k in range(plan['keys']):
                if not sets[k]:
                    continue
                v = await asyncio.wait_for(ctx[k], 5)
                last = [s for s in sets[k] if not any(o['a'] > s['b'] for o in sets[k])]
                check(v in [s['v'] for s in last], 'stale-value', f'key {k} holds {v}, sets were {sets[k]}')
            for t, rec in tasks:
                if not t.done():
                    t.cancel()
            await asyncio.gather(*[t for t, _ in tasks], return_exceptions=True)
            ctx.close()
            try:
                get_context(loop)
                violate('context-after-close', 'get_context() still returns a closed context')
            except KeyError:
                pass
            return loop

        loop = run_async(w, main, 'waiter-never-woken')
        loop.close()
        try:
            get_context(loop)
            violate('context-after-close', 'get_context() of a closed loop returned a context')
        except (RuntimeError, KeyError):
            pass
        for rec in gets:
            k = rec['key']
            if rec['how'] == 'cancelled':
                check(rec['req'] or not sets[k], 'cancelled-by-another', f'waiter {rec} was cancelled although nobody cancelled it')
            if rec['how'] != 'ok':
                continue
            cand = [s for s in sets[k] if s['v'] == rec['v']]
            check(cand, 'value-from-nowhere', f'{rec} sets {sets[k]}')
            s = cand[0]
            check(s['a'] <= rec['b'], 'value-from-future', f'{rec} {s}')
            # no later set was already visible when the get started (one loop turn of latency is allowed)
            newer = [o for o in sets[k] if o['a'] > s['b'] and o['b'] < rec['a'] - 30_000_000]
            check(w.fault_counts.get('loop-stall') or w.fault_counts.get('timer-late') or not newer
                  or w.fault_counts.get('thread-stall'), 'stale-value', f'get {rec} returned {s} though {newer} was set before')
            if any(s['b'] > rec['a'] for s in cand):
                w.probe('nontrivial')


PROP = P()
