import asyncio

from .common import *


class X(Exception):
    pass


def matches(spec, ts):
    """Reference cron matcher (UTC) for the five/six-field specs used here."""
    import time
    tm = time.gmtime(ts)
    f = spec.split()
    vals = [tm.tm_min, tm.tm_hour, tm.tm_mday, tm.tm_mon, (tm.tm_wday + 1) % 7]
    if len(f) == 5:
        f = f + ['0']
    vals.append(tm.tm_sec)
    lows = (0, 0, 1, 1, 0, 0)
    for s, v, lo in zip(f, vals, lows):
        if s == '*':
            continue
        ok = False
        for part in s.split(','):
            if part.startswith('*/'):
                ok |= (v - lo) % int(part[2:]) == 0
            elif '-' in part:
                a, b = part.split('-')
                ok |= int(a) <= v <= int(b)
            else:
                ok |= v == int(part)
        if not ok:
            return False
    return True


def next_after(spec, ts, strict_int):
    """First matching whole second > ts."""
    t = int(ts) + 1
    step = 1 if len(spec.split()) == 6 else None
    for _ in range(400000):
        if matches(spec, t):
            return t
        if step:
            t += 1
        else:
            t = t - t % 60 + 60 if t % 60 or not matches(spec, t) else t
    raise AssertionError('no match')


class P:
    ID = 'C07'
    LISTS = ('execs',)
    REAL = ['aiomisc.cron', 'aiomisc.service.cron', 'aiomisc.recurring', 'croniter', 'asyncio (pure Python)']
    STUB = ['user callback', 'clocks (wall and monotonic)', 'selector']
    RULE = ('a cron callback or a CronService with one to three registered callbacks over minutes to days of simulated '
            'time, starting at a random wall-clock instant; calls take time (possibly longer than the period), fail or '
            'cancel themselves; the wall clock is stepped forward; stop at a random time; non-trivial: a call overran '
            'its period, failed, or the clock was stepped')

    SPECS = ('* * * * *', '*/2 * * * *', '*/5 * * * *', '30 * * * *', '0 */3 * * *', '15,45 * * * *', '* * * * * */5',
             '* * * * * *', '* * * * * 10-12', '0 0 * * *', '59 23 * * *', '10 4 * * 1-5')

    def gen(self, rng, tier):
        cbs = []
        kind = rng.choice(('cb', 'cb', 'service'))
        for i in range(1 if kind == 'cb' else rng.choice((1, 2, 3))):
            cbs.append(dict(spec=rng.choice(self.SPECS)))
        fine = any(len(c['spec'].split()) == 6 for c in cbs)
        coarse = all(c['spec'].split()[1] != '*' for c in cbs)
        horizon = rng.choice((20, 40)) if fine else rng.choice((200000, 90000)) if coarse else rng.choice((400, 4000))
        period = 1 if fine else 60
        execs = [dict(d=rng.choice((0, 0, 0, 0.3, 1.4, 2.5)) * period, o=rng.choice(('ok', 'ok', 'ok', 'X', 'Y', 'cancel')))
                 for _ in range(rng.choice((4, 12)))]
        s = sched_async(rng)
        s['wall0'] = rng.randrange(1500000000, 1900000000) + rng.choice((0, 0.25, 0.999999))
        s['t0'] = 1000
        return dict(kind=kind, cbs=cbs, horizon=horizon, execs=execs, shield=rng.choice((0, 0, 1)),
                    suppress=rng.choice((0, 1)), restart=rng.choice((0, 0, 1)) if kind == 'cb' else 0,
                    step=dict(at=round(rng.random() * horizon, 3), by=rng.choice((0.5, 7, 90, 4000)))
                    if rng.random() < 0.25 else None,
                    stop=round(rng.random() * horizon, 3), sched=s, limits=dict(time=2000000))

    def run(self, w, plan):
        from aiomisc.cron import CronCallback
        from aiomisc.service.cron import CronService
        import aiomisc.service.cron as csm
        from dst import boot
        for c in (CronCallback, getattr(csm, 'StoreItem', None)):
            if c is not None:
                c.__hash__ = boot._sim_hash         # sets of callbacks: seeded order
        calls = {i: [] for i in range(len(plan['cbs']))}
        marks = {}
        steps = []
        cnt = [0]

        def wall():
            return (w.now + w.wall_offset) / 1e9

        def mk(i):
            async def cb(*args, **kw):
                if plan['kind'] == 'cb':
                    check(args == (1, 'a') and kw == {'k': 2}, 'wrong-arguments', f'{args} {kw}')
                k = cnt[0]
                cnt[0] += 1
                s = plan['execs'][k] if k < len(plan['execs']) else dict(d=0, o='ok')
                check(not calls[i] or calls[i][-1]['end'] is not None, 'overlap', f'cron call of {i} overlaps with the previous one')
                check('stopped' not in marks, 'call-after-stop', f'called at {w.elapsed()} after stop()')
                rec = dict(start=wall(), m=w.elapsed(), end=None, how=s['o'])
                calls[i].append(rec)
                w.trace('call', i, round(rec['start'], 3))
                try:
                    if s['d']:
                        await asyncio.sleep(s['d'])
                    if s['o'] == 'X':
                        raise X()
                    if s['o'] == 'Y':
                        raise KeyError()
                    if s['o'] == 'cancel':
                        rec['own'] = 1
                        raise asyncio.CancelledError
                except asyncio.CancelledError:
                    if 'own' not in rec:
                        check('stop' in marks and not plan['shield'], 'spurious-cancel', f'cron call of {i} cancelled')
                        rec['how'] = 'cut'
                    raise
                finally:
                    rec['end'], rec['mend'] = wall(), w.elapsed()
            return cb

        async def main():
            loop = asyncio.get_running_loop()
            sup = (X,) if plan['suppress'] else ()
            started = wall()
            if plan['kind'] == 'cb':
                obj = CronCallback(mk(0), 1, 'a', k=2)
                obj.start(plan['cbs'][0]['spec'], shield=bool(plan['shield']), suppress_exceptions=sup)

                def again():
                    if 'stop' not in marks:
                        try:
                            obj.start('* * * * * *')
                        except asyncio.InvalidStateError:
                            return
                        violate('started-twice', 'start() of a started callback succeeded')
                loop.call_later(plan['sched'].get('hash', 0) % 60, again)
            else:
                obj = CronService()
                obj.set_loop(loop)
                for i, c in enumerate(plan['cbs']):
                    obj.register(mk(i), c['spec'], shield=bool(plan['shield']), suppress_exceptions=sup)
                await obj.start()
            if plan['step']:
                def step():
                    w.fault('wall-clock-step')
                    steps.append((w.elapsed(), wall(), plan['step']['by']))
                    w.wall_offset += int(plan['step']['by'] * 1e9)
                loop.call_later(plan['step']['at'], step)
            await asyncio.sleep(plan['stop'])
            marks['stop'] = wall()
            running = [i for i in calls if calls[i] and calls[i][-1]['end'] is None]
            if plan['kind'] == 'cb':
                o = await outcome(w, asyncio.wait_for(asyncio.gather(obj.stop(), return_exceptions=True), 10))
            else:
                o = await outcome(w, asyncio.wait_for(obj.stop(), 10))
            check(o.kind == 'ok', 'stop-failed', f'{o}')
            marks['stopped'] = wall()
            if running:
                w.probe('stopped-while-running')
            if not plan['shield']:
                for i in calls:
                    check(not calls[i] or calls[i][-1]['end'] is not None, 'running-after-stop', f'{i}')
            self.judge(w, plan, started, marks['stop'], calls, steps)
            if plan['restart']:
                await asyncio.sleep(400)
                n = len(calls[0])
                marks.clear()
                plan['execs'] = []
                obj.start('* * * * * *')
                await asyncio.sleep(6)
                marks['stop'] = 1
                obj.stop()
                check(len(calls[0]) - n >= 3, 'restart-dead', f'{len(calls[0]) - n} calls in 6 s after a restart')
            else:
                await asyncio.sleep(200000 if plan['horizon'] > 10000 else 4000)

        run_async(w, main, 'hang')
        if w.probes or w.fault_counts.get('wall-clock-step'):
            w.probe('nontrivial')

    def judge(self, w, plan, started, stop, calls, steps):
        sl = slack(plan, w) + 0.01
        for i, c in enumerate(plan['cbs']):
            spec = c['spec']
            ask = started
            for r in list(calls[i]):
                due = next_after(spec, ask, True)
                jump = 0
                for (m, wl, by) in steps:
                    if wl >= ask - 1e-6 and wl <= r['start'] and wl < due + sl:
                        jump = by
                late = r['start'] - due
                check(late >= -1e-3, 'called-early', f'{spec}: call at {r["start"]:.4f} due {due} (asked {ask:.4f}) {steps}')
                check(late <= sl + jump, 'called-late', f'{spec}: call at {r["start"]:.4f} due {due} {steps}')
                if r['how'] != 'ok':
                    w.probe('nontrivial')
                ask = r['end'] if r['end'] is not None else stop
                if r['end'] and next_after(spec, r['start'], True) < r['end']:
                    w.probe('overrun')
            if calls[i] and (calls[i][-1]['end'] is None or calls[i][-1]['end'] > stop - 0.001):
                continue
            due = next_after(spec, ask, True)
            extra = sum(by for _, wl, by in steps if wl >= ask - 1e-6)
            check(due + sl + extra >= stop, 'call-missed', f'{spec}: due {due}, not called before stop at {stop:.3f}; calls {calls[i][-2:]}')


PROP = P()
