import asyncio

from .common import *


class F(Exception):
    pass


class F1(F):
    pass


class U(Exception):
    pass


class Model:
    """Reference state machine, written from the documented behaviour.

    The window of `rt` seconds is divided in ten slots aligned to the loop
    clock; a call belongs to the slot it began in, and contributes its result
    when it ends.  Time arguments are exact; `fuzzy` is set when a decision
    falls so close to a boundary that either answer is right.
    """

    def __init__(self, ratio, rt, pt, bt, ct):
        self.ratio, self.rt, self.pt, self.bt, self.ct = ratio, rt, pt or rt, bt or rt, ct or rt
        self.slots = []         # [slot, counts]
        self.state = 'PASSING'
        self.stuck = 0
        self.rec_at = 0
        self.last = None

    def slot(self, t):
        return int((t * 10) - ((t * 10) % self.rt))

    def near(self, t, x):
        return abs(t - x) < 2e-4

    def boundary(self, t):
        return (self.slot(t) != self.slot(t + 2e-4) or self.near(t, self.stuck)
                or self.near(t - self.rec_at, self.ct))

    def begin(self, t):
        fuzzy = self.slot(t) != self.slot(t + 1e-4) or self.near(t, self.stuck)
        s = self.slot(t)
        if not self.slots or self.slots[-1][0] != s:
            self.slots.append([s, dict(ok=0, fail=0, total=0)])
            self.slots = self.slots[-10:]
        counts = self.slots[-1][1]
        if t < self.stuck:
            return counts, fuzzy
        if self.state == 'BROKEN':
            self.state, self.rec_at = 'RECOVERING', t
        elif self.state == 'PASSING' and len(self.slots) < 10:
            pass
        else:
            used = [c for b, c in self.slots if b >= s - self.rt * 10]
            bad = sum(1 for c in used if c['total'] and c['fail'] / c['total'] >= self.ratio)
            share = bad / len(used)
            if self.state == 'PASSING':
                if share >= 1:
                    self.trip(t)
            elif share >= 0.5 * self.ratio:
                self.trip(t)
            elif t - self.rec_at >= self.ct:
                self.state, self.stuck = 'PASSING', t + self.pt
                fuzzy = fuzzy or self.near(t - self.rec_at, self.ct)
            else:
                fuzzy = fuzzy or self.near(t - self.rec_at, self.ct)
        return counts, fuzzy

    def trip(self, t):
        self.state, self.stuck = 'BROKEN', t + self.bt
        self.slots = []


class P:
    ID = 'C03'
    LISTS = ('phases',)
    REAL = ['aiomisc.circuit_breaker', 'asyncio (pure Python)']
    STUB = ['protected function', 'clock', 'selector', 'random source (seeded)']
    RULE = ('phases of calls (rate, failure probability, duration, sync/async/context/cutout, counted and uncounted '
            'exceptions, cancellations) through one circuit breaker on the simulated clock; non-trivial: the breaker tripped')

    def gen(self, rng, tier):
        rt = rng.choice((1, 2, 2, 5))
        phases = []
        for i in range(rng.choice((1, 3, 5, 8))):
            phases.append(dict(n=rng.choice((2, 8, 20, 30, 45)), gap=rng.choice((0.03, 0.1, 0.1, 0.1, 0.4, 1.5)) * rt,
                               fail=rng.choice((0, 0, 0.3, 0.6, 1, 1, 1)), kind=rng.choice(('async', 'async', 'sync', 'ctx')),
                               d=rng.choice((0, 0, 0.05, 0.7)), unc=rng.choice((0, 0, 0, 0.3)),
                               cancel=rng.choice((0, 0, 0, 0.3))))
        if rng.random() < .7:
            k = rng.randrange(len(phases))
            phases[k:k] = [dict(n=rng.choice((15, 22, 35)), gap=0.1 * rt, fail=rng.choice((1, 1, 0.9)), kind=rng.choice(('async', 'sync', 'ctx')),
                                d=0, unc=0, cancel=0),
                           dict(n=rng.choice((5, 20, 40)), gap=rng.choice((0.05, 0.1, 0.2)) * rt, fail=rng.choice((0, 0, 0.2, 1)),
                                kind=rng.choice(('async', 'sync', 'ctx')), d=rng.choice((0, 0.05)), unc=0, cancel=0)]
        pt, bt, ct = rng.choice((None, 1, 3, 3 * rt)), rng.choice((None, 1, 4)), rng.choice((None, 1, 3))
        insp = rng.choice((None, None, 'half', 'raise'))
        x = rng.random()
        if x < .3:
            # trips, recovers fully and fails again at once
            insp = None
            kind = rng.choice(('sync', 'ctx', 'async'))
            gap = rng.choice((0.05, 0.09)) * rt
            bad = dict(n=int(1.2 * rt / gap) + 4, gap=gap, fail=1, kind=kind, d=0, unc=0, cancel=0)
            good = dict(bad, n=int(((bt or rt) + (ct or rt) * 1.1) / gap) + 2, fail=0)
            phases = [bad, good, dict(bad, n=int((1.2 * rt + (pt or rt)) / gap))]
        elif x < .38:
            # very many calls while recovering: the share let through is visible
            insp = None
            gap = 0.05 * rt
            bad = dict(n=int(1.2 * rt / gap) + 4, gap=gap, fail=1, kind='sync', d=0, unc=0, cancel=0)
            phases = [bad, dict(bad, n=2, gap=(bt or rt) / 2 + 0.01, fail=0), dict(bad, n=700, gap=(ct or rt) / 600, fail=0)]
        return dict(rt=rt, ratio=rng.choice((0.2, 0.5, 0.9, 1.0)), pt=pt, bt=bt, ct=ct, phases=phases,
                    insp=insp, cutout=rng.choice((0, 0, 1, 2)),
                    seed2=rng.randrange(1 << 30),
                    sched=dict(t0=rng.choice((100, 1000, 54321)), hash=rng.randrange(1 << 30)))

    def run(self, w, plan):
        import random
        from aiomisc import CircuitBreaker, CircuitBroken, cutout
        import aiomisc.circuit_breaker as cbm
        made = []
        insp = None
        if plan['insp'] == 'half':
            insp = lambda e: e.args[0] % 2
        elif plan['insp'] == 'raise':
            def insp(e):
                raise ValueError('inspector')
        rng = random.Random(plan['seed2'])
        kw = dict(passing_time=plan['pt'], broken_time=plan['bt'], recovery_time=plan['ct'], exception_inspector=insp)

        async def main():
            loop = asyncio.get_running_loop()
            if plan['cutout']:
                real = cbm.CircuitBreaker

                def grab(*a, **k):
                    made.append(real(*a, **k))
                    return made[-1]
                cbm.CircuitBreaker = grab
            else:
                made.append(CircuitBreaker(plan['ratio'], plan['rt'], exceptions=[F], **kw))
            m = Model(plan['ratio'], plan['rt'], plan['pt'], plan['bt'], plan['ct'])
            ncall = [0]
            started = []
            pend = set()
            bad = []
            broken_until = [0.0]
            rec = {k: [0, 0.0, 0] for k in (0, 1, 2)}

            def result(counts, i, how, exc=None):
                """the reference model learns the call's result"""
                if how == 'ok':
                    counts['ok'] += 1
                    m.last = None
                elif how == 'F':
                    m.last = exc
                    if plan['insp'] == 'half':
                        counts['fail'] += i % 2
                    else:
                        counts['fail'] += 1
                counts['total'] += 1

            def pick(ph):
                x = rng.random()
                if rng.random() < ph['unc']:
                    return 'U'
                return ('F1' if rng.random() < .2 else 'F') if x < ph['fail'] else 'ok'

            async def abody(i, o, d, *, kw):
                check(kw == ('kw', i), 'wrong-arguments', f'call {i}: {kw!r}')
                started.append(i)
                if d:
                    await asyncio.sleep(d)
                return fin(i, o)

            def fin(i, o):
                if o == 'F':
                    raise F(i)
                if o == 'F1':
                    raise F1(i)
                if o == 'U':
                    raise U(i)
                return ('res', i)

            def sbody(i, o, *, kw):
                check(kw == ('kw', i), 'wrong-arguments', f'call {i}: {kw!r}')
                started.append(i)
                return fin(i, o)

            if plan['cutout']:
                acut = cutout(plan['ratio'], plan['rt'], F, **kw)(abody if plan['cutout'] == 1 else sbody)

            cb = made[-1]

            def begin(i):
                t = loop.time()
                before = m.state
                counts, fuzzy = m.begin(t)
                return t, before, counts, fuzzy

            def after_begin(i, t, before, counts, fuzzy, exc, ran):
                got = cb.state.name
                if got != m.state:
                    check(fuzzy, 'wrong-state', f'call {i} at {t:.4f}: state {got}, reference {m.state} (was {before}); '
                                                f'slots {m.slots} stuck {m.stuck}')
                    w.probe('boundary')
                    m.state = got
                    if got == 'BROKEN':
                        m.trip(t)
                w.trace('call', i, got, ran)
                if not fuzzy:
                    left = max(m.stuck - loop.time(), 0)
                    check(abs(cb.get_state_delay() - left) < 1e-3, 'wrong-state-delay', f'call {i}: {cb.get_state_delay()} expected {left}')
                if m.state == 'PASSING':
                    check(ran, 'blocked-while-passing', f'call {i} was rejected in PASSING state')
                elif m.state == 'BROKEN':
                    w.probe('nontrivial')
                    check(not ran, 'call-while-broken', f'call {i} ran while the circuit is broken')
                else:
                    w.probe('recovering')
                    x = 2 ** ((t - m.rec_at) / m.ct)
                    if x > 2 + 1e-3:
                        check(ran, 'blocked-after-recovery', f'call {i} rejected {t - m.rec_at:.3f}s into recovery {m.ct}s')
                    if x <= 1 + 1e-6 or t - m.rec_at < 1e-5:
                        check(not ran, 'unprotected-recovery', f'call {i} ran at the very start of recovery')
                    if (t - m.rec_at) < m.ct:
                        # a call is let through with probability 2^x - 1 after the share x of the recovery time
                        q = int((t - m.rec_at) / m.ct * 2)
                        for k in (q, 2):
                            rec[k][0] += ran
                            rec[k][1] += x - 1
                            rec[k][2] += 1
                            n = rec[k][2]
                            # Hoeffding: a deviation this large has probability below 1e-13
                            check(abs(rec[k][0] - rec[k][1]) < 4 * n ** .5, 'wrong-recovery-share',
                                  f'{rec[k][0]} of {n} calls let through while recovering, expected about {rec[k][1]:.0f}')
                if not ran:
                    check(isinstance(exc, CircuitBroken), 'wrong-rejection', f'{exc!r}')
                    check(exc.last_exception is m.last, 'wrong-last-exception', f'{exc.last_exception!r} expected {m.last!r}')

            async def acall(i, o, ph, b, use):
                t, before, counts, fuzzy = b
                # runs synchronously up to the first suspension
                try:
                    v = await use(abody, i, o, ph['d'], kw=('kw', i))
                except asyncio.CancelledError:
                    if i in started:
                        result(counts, i, 'cancelled')
                    raise
                except CircuitBroken as e:
                    after_begin(i, t, before, counts, fuzzy, e, i in started)
                    return
                except (F, U) as e:
                    check(e.args == (i,) and type(e).__name__ == o, 'wrong-exception', f'{e!r} for {i} {o}')
                    result(counts, i, 'F' if isinstance(e, F) else 'U', e)
                    return
                except Violation:
                    raise
                except Exception as e:
                    violate('wrong-exception', f'{e!r} for {i} {o}')
                check(o == 'ok' and v == ('res', i), 'wrong-result', f'{v} for {i} {o}')
                result(counts, i, 'ok')

            for ph in plan['phases']:
                for _ in range(ph['n']):
                    await asyncio.sleep(ph['gap'] * (0.9 + 0.2 * rng.random()))
                    i = ncall[0]
                    ncall[0] += 1
                    o = pick(ph)
                    kind = ('async', 'sync')[plan['cutout'] - 1] if plan['cutout'] else ph['kind']
                    while m.boundary(loop.time()):
                        await asyncio.sleep(0.0003)     # either side of a boundary would be right
                    t, before, counts, fuzzy = b = begin(i)
                    if kind == 'sync' or (kind == 'ctx' and not ph['d']):
                        exc = None
                        try:
                            if plan['cutout']:
                                v = acut(i, o, kw=('kw', i))
                            elif kind == 'sync':
                                v = cb.call(sbody, i, o, kw=('kw', i))
                            else:
                                with cb.context():
                                    v = sbody(i, o, kw=('kw', i))
                            check(o == 'ok' and v == ('res', i), 'wrong-result', f'{v}')
                        except CircuitBroken as e:
                            exc = e
                        except (F, U) as e:
                            check(e.args == (i,) and type(e).__name__ == o, 'wrong-exception', f'{e!r} for {i} {o}')
                            exc = e
                        except Violation:
                            raise
                        except Exception as e:
                            violate('wrong-exception', f'{e!r} for {i} {o}')
                        after_begin(i, t, before, counts, fuzzy, exc, i in started)
                        if i in started:
                            result(counts, i, 'ok' if exc is None else 'F' if isinstance(exc, F) else 'U', exc)
                    else:
                        if plan['cutout']:
                            use = lambda f, *a, **k: acut(*a, **k)
                        elif kind == 'ctx':
                            async def use(f, *a, **k):
                                with cb.context():
                                    return await f(*a, **k)
                        else:
                            use = cb.call_async
                        # step the coroutine until it suspends, so that nothing else happens in between
                        task = loop.create_task(acall(i, o, ph, b, use))
                        pend.add(task)
                        task.add_done_callback(pend.discard)
                        task.add_done_callback(lambda t: t.cancelled() or t.exception() and bad.append(t.exception()))
                        await asyncio.sleep(0)
                        if i in started:
                            after_begin(i, t, before, counts, fuzzy, None, True)
                        if rng.random() < ph['cancel'] and not task.done():
                            w.fault('cancel')
                            loop.call_later(ph['d'] / 2, task.cancel)
                    if bad:
                        raise bad[0]
            while pend:
                await asyncio.sleep(0.1)
            if bad:
                raise bad[0]

        run_async(w, main, 'hang')


PROP = P()
