import asyncio

from .common import *


class A(Exception):
    pass


class A1(A):
    pass


class B(Exception):
    pass


KINDS = {'A': A, 'A1': A1, 'B': B, 'T': asyncio.TimeoutError}


class P:
    ID = 'C02'
    LISTS = ('callers',)
    REAL = ['aiomisc.timeout', 'aiomisc.backoff', 'asyncio (pure Python)']
    STUB = ['decorated user function', 'clock', 'selector']
    RULE = ('one to four concurrent calls of a function under timeout/asyncbackoff/asyncretry; each attempt of each '
            'call has its own duration and outcome; callers are cancelled at simulated times or before the n-th loop '
            'callback; non-trivial: an attempt failed, timed out or was cancelled')

    def gen(self, rng, tier):
        deco = rng.choice(('timeout', 'backoff', 'backoff', 'backoff', 'retry'))
        at = rng.choice((None, 0.13, 0.33)) if deco != 'timeout' else rng.choice((0.13, 0.33))
        dl = rng.choice((None, 0.217, 0.517, 1.017))
        pause = rng.choice((0, 0, 0.1, 0.2))
        tries = rng.choice((None, 1, 2, 3, 4))
        if deco == 'retry':
            at = dl = None
        if dl is None and tries is None:
            tries = 5
        if deco == 'timeout':
            dl, pause, tries = None, 0, 1
        exc = rng.choice((['A'], ['A'], ['A1'], ['A', 'B'], []))
        giveup = rng.choice(([], [], ['A1'], ['B'], ['A']))
        callers = []
        for i in range(rng.choice((1, 1, 2, 3, 4))):
            atts = []
            for k in range(rng.choice((1, 2, 3, 5))):
                atts.append(dict(d=rng.choice((0, 0, 0.05, 0.1, 0.2, 0.4) if tries or pause else (0.05, 0.1, 0.2, 0.4)),
                                 o=rng.choice(('ok', 'A', 'A', 'A1', 'B', 'T')), c=rng.choice((0, 0, 0, 0.02))))
            op = dict(t=grid(rng, 0.2, 0.05), atts=atts, again=rng.choice((0, 0, 1)))
            maybe_cancel(rng, op, 0.25, 0.6, 40, 0.05)
            callers.append(op)
        return dict(style=rng.choice((0, 1, 2)), deco=deco, at=at, dl=dl, pause=pause, tries=tries, exc=exc, giveup=giveup, callers=callers,
                    sched=sched_async(rng))

    def run(self, w, plan):
        import aiomisc
        at, dl, pause, tries = plan['at'], plan['dl'], plan['pause'], plan['tries']
        retryable = tuple(KINDS[k] for k in plan['exc']) + (asyncio.TimeoutError,)
        if plan['deco'] == 'retry':
            retryable = tuple(KINDS[k] for k in plan['exc']) + (asyncio.TimeoutError,)
        gup = tuple(KINDS[k] for k in plan['giveup'])

        async def func(i, tag, *, kw):
            rec = calls[i][-1]
            check(tag == ('tag', i) and kw == i * 3, 'wrong-arguments', f'{i}: {tag} {kw}')
            atts = rec['atts']
            check(not atts or atts[-1]['end'] is not None, 'overlapping-attempts',
                  f'call {i}: attempt {len(atts)} started while attempt {len(atts) - 1} is running')
            check(rec['end'] is None, 'attempt-after-end', f'call {i} has ended but an attempt started')
            k = len(atts)
            spec = plan['callers'][i]['atts']
            spec = spec[min(k, len(spec) - 1)]
            a = dict(start=w.elapsed(), end=None, how=None, v=None, why=None)
            atts.append(a)
            w.trace('attempt', i, k)
            try:
                if spec['d']:
                    await asyncio.sleep(spec['d'])
            except asyncio.CancelledError:
                a['cut'] = w.elapsed()
                if spec['c']:
                    w.probe('slow-cancel')
                    try:
                        await asyncio.sleep(spec['c'])
                    except asyncio.CancelledError:
                        pass
                a['end'], a['how'] = w.elapsed(), 'cancelled'
                raise
            a['end'] = w.elapsed()
            if spec['o'] == 'ok':
                a['how'], a['v'] = 'ok', ('result', i, k)
                return a['v']
            a['how'], a['v'] = 'exc', KINDS[spec['o']](i, k)
            raise a['v']

        def giveup(e):
            return isinstance(e, gup)

        if plan['deco'] == 'timeout':
            wrapped = aiomisc.timeout(at)(func)
        elif plan['deco'] == 'retry':
            wrapped = aiomisc.asyncretry(tries, exceptions=tuple(KINDS[k] for k in plan['exc']), pause=pause,
                                         giveup=giveup if gup else None)(func)
        else:
            ex = tuple(KINDS[k] for k in plan['exc'])
            n = plan.get('style', 0)        # exceptions by keyword, by position, or both
            pos, key = ((), ex) if n == 0 else (ex, ()) if n == 1 else (ex[:1], ex[1:])
            wrapped = aiomisc.asyncbackoff(at, dl, pause or (None if n else 0), *pos, exceptions=key,
                                           max_tries=tries, giveup=giveup if gup else None)(func)
        calls = {i: [] for i in range(len(plan['callers']))}

        async def caller(i):
            for n in range(1 + plan['callers'][i]['again']):
                rec = dict(start=w.elapsed(), end=None, atts=[], out=None)
                calls[i].append(rec)
                o = await outcome(w, wrapped(i, ('tag', i), kw=i * 3))
                rec['end'], rec['out'] = w.elapsed(), o
                w.trace('out', i, o.kind, repr(o.value))
                if o.kind == 'cancelled':
                    raise o.value

        async def main():
            loop = asyncio.get_running_loop()
            ts = []
            for i, op in sorted(enumerate(plan['callers']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                t = asyncio.ensure_future(caller(i))
                ts.append(t)
                schedule_cancel(w, loop, t, op, i)
                t.op = i
            await asyncio.gather(*ts, return_exceptions=True)
            n = {i: [len(r['atts']) for r in recs] for i, recs in calls.items()}
            await settle(2)
            check(n == {i: [len(r['atts']) for r in recs] for i, recs in calls.items()}, 'attempt-after-end',
                  'attempts were started after every call had ended')

        run_async(w, main, 'call-never-completes')
        eps = 1e-5
        for i, recs in sorted(calls.items()):
            op = plan['callers'][i]
            requested = 'cancel_at' in op or 'cancel_step' in op
            for rec in recs:
                self.judge(w, plan, i, rec, requested, at, dl, pause, tries, retryable, gup, eps)

    def judge(self, w, plan, i, rec, requested, at, dl, pause, tries, retryable, gup, eps):
        o, atts = rec['out'], rec['atts']
        sl = slack(plan, w) + 0.02
        what = f'call {i}: {o}, attempts {atts}, params {dict(at=at, dl=dl, pause=pause, tries=tries)}'
        if o is None:
            check(requested, 'no-outcome', what)
            return
        if not atts:
            check(o.kind == 'cancelled' and requested, 'no-attempt', what)
            return
        if tries is not None:
            check(len(atts) <= tries, 'too-many-attempts', what)
        for a in atts:
            check(a['end'] is not None, 'attempt-still-running', what)
            if a['how'] != 'ok':
                w.probe('nontrivial')
        limit = rec['start'] + dl if dl is not None else None
        # why each attempt stopped
        for k, a in enumerate(atts):
            last = k == len(atts) - 1
            cut = a.get('cut')
            if at is not None:
                check((cut or a['end']) <= a['start'] + at + sl, 'attempt-exceeded-timeout', what)
            if cut is not None:
                by_at = at is not None and cut >= a['start'] + at - eps
                by_dl = limit is not None and cut >= limit - eps
                check(by_at or by_dl or (requested and last), 'attempt-cut-early', what)
                if not last:
                    check(by_at, 'retried-after-cut', what)
                a['why'] = 'at' if by_at else 'dl' if by_dl else 'cancel'
            if not last:
                nxt = atts[k + 1]
                ok = a['how'] == 'cancelled' or (a['how'] == 'exc' and isinstance(a['v'], retryable))
                check(ok, 'retried-needlessly', what)
                if a['how'] == 'exc':
                    check(not isinstance(a['v'], gup) or not gup, 'retried-after-giveup', what)
                elif gup:
                    check(not issubclass(asyncio.TimeoutError, gup), 'retried-after-giveup', what)
                check(nxt['start'] >= a['end'] + pause - eps, 'pause-too-short', what)
                check(nxt['start'] <= a['end'] + pause + sl, 'pause-too-long', what)
                if limit is not None:
                    check(nxt['start'] <= limit + sl, 'attempt-after-deadline', what)
        if limit is not None:
            check(rec['end'] <= limit + sl, 'deadline-exceeded', what)
        a = atts[-1]
        if o.kind == 'cancelled':
            check(requested, 'spurious-cancel', what)
            return
        failures = [x for x in atts if x['how'] == 'exc' or (x['how'] == 'cancelled' and x['why'] == 'at')]
        near = limit is not None and a['end'] >= limit - 0.003 - eps
        if a['how'] == 'ok' and not near:
            late = at is not None and a['end'] >= a['start'] + at - 0.003
            if late and o.kind == 'exc' and isinstance(o.value, asyncio.TimeoutError):
                return
            check(o.kind == 'ok' and o.value == a['v'], 'result-lost', what)
            return
        if o.kind == 'ok':
            check(a['how'] == 'ok' and o.value == a['v'], 'wrong-result', what)
            return
        if a['how'] == 'exc':
            final = (not isinstance(a['v'], retryable) or (tries is not None and len(atts) >= tries)
                     or (gup and isinstance(a['v'], gup)))
            late = at is not None and a['end'] >= a['start'] + at - 0.003
            if late and isinstance(o.value, asyncio.TimeoutError):
                return
            if not final:
                check(limit is not None and rec['end'] >= limit - eps, 'gave-up-early', what)
            if near and isinstance(o.value, asyncio.TimeoutError) or (near and o.value in [x['v'] for x in atts]):
                return
            check(o.value is a['v'], 'wrong-exception', what)
            return
        # the last attempt was cut
        final = (tries is not None and len(atts) >= tries) or (gup and issubclass(asyncio.TimeoutError, gup))
        if a['why'] == 'at':
            if not final and plan['deco'] != 'timeout':
                check(limit is not None and rec['end'] >= limit - eps, 'gave-up-early', what)
            prev = [x['v'] for x in atts if x['how'] == 'exc']
            if limit is not None and max(a['cut'], a['end']) >= limit - 0.003 and o.value in prev:
                return
            check(isinstance(o.value, asyncio.TimeoutError), 'wrong-exception', what)
            return
        check(limit is not None and rec['end'] >= limit - eps, 'gave-up-early', what)
        prev = [x for x in failures if x is not a]
        if prev and prev[-1]['how'] == 'exc':
            check(o.value is prev[-1]['v'], 'wrong-exception', what)
        else:
            check(isinstance(o.value, asyncio.TimeoutError), 'wrong-exception', what)


PROP = P()
