import asyncio
import logging

from .common import *


class X(Exception):
    pass


class Y(Exception):
    pass


class P:
    ID = 'C06'
    LISTS = ('execs', 'strat')
    REAL = ['aiomisc.recurring', 'aiomisc.periodic', 'aiomisc.service.periodic', 'asyncio (pure Python)']
    STUB = ['user callback and strategy', 'clock', 'selector']
    RULE = ('a PeriodicCallback, a PeriodicService or a RecurringCallback with a scripted strategy; every call has its '
            'own duration and outcome (ok, listed exception, unlisted exception, self-cancel); stop() at a simulated '
            'time or before the n-th loop callback, possibly followed by a restart; non-trivial: stop hit a running call, '
            'a call failed, or a strategy skipped')

    def gen(self, rng, tier):
        kind = rng.choice(('periodic', 'periodic', 'service', 'recurring'))
        sync = rng.choice((0, 0, 1))
        execs = [dict(d=0 if sync else rng.choice((0, 0, 0.03, 0.1, 0.35)),
                      o=rng.choice(('ok', 'ok', 'ok', 'X', 'Y', 'cancel')), c=rng.choice((0, 0, 0.05)), ce=rng.choice((0, 0, 1)))
                 for _ in range(rng.choice((3, 8, 20)))]
        strat = [rng.choice((0.1, 0.2, 0.05, 0, 'skip:0.1', 'skip:0.1', 'skip:0', 'neg', 'stop', 'bad'))
                 if rng.random() < 0.8 else 0.1 for _ in range(rng.choice((3, 8, 20)))]
        p = dict(kind=kind, sync=sync, execs=execs, strat=strat, interval=rng.choice((0.1, 0.25)),
                 delay=rng.choice((0, 0, 0.15)), shield=rng.choice((0, 0, 1)) if kind != 'service' else 0,
                 suppress=rng.choice((0, 1)), restart=rng.choice((0, 0, 1)), aio_strat=rng.choice((0, 1)),
                 sched=sched_async(rng))
        p['stop'] = dict(at=grid(rng, 1.2, 0.05)) if rng.random() < 0.5 else dict(step=rng.randrange(1, 120))
        return p

    def run(self, w, plan):
        from aiomisc.recurring import RecurringCallback, StrategySkip, StrategyStop
        from aiomisc import PeriodicCallback
        from aiomisc.service.periodic import PeriodicService
        st = dict(running=0, gen=0)
        calls, asks = [], []
        marks = {}

        def begin(args, kw):
            if plan['kind'] != 'service':
                check(args == (1, 'a') and kw == {'k': 2}, 'wrong-arguments', f'{args} {kw}')
            k = len(calls)
            rec = dict(k=k, start=w.elapsed(), end=None, how=None, gen=st['gen'])
            if not (plan['shield'] and st['gen']):
                check(st['running'] == 0, 'overlap', f'call {k} started while another is running')
            check('stopped' not in marks, 'call-after-stop', f'call {k} started at {w.elapsed()} after stop() completed')
            if 'stop' in marks:
                check(rec['start'] <= marks['stop'] + 1e-3 + slack(plan, w), 'call-after-stop', f'call {k} started after stop()')
            calls.append(rec)
            st['running'] += 1
            w.trace('call', k)
            s = plan['execs'][k] if k < len(plan['execs']) else dict(d=0, o='ok', c=0)
            return rec, s

        def end(rec, s):
            rec['end'] = w.elapsed()
            st['running'] -= 1
            rec['how'] = s['o']
            if s['o'] == 'X':
                raise X()
            if s['o'] == 'Y':
                raise Y()

        async def acb(*args, **kw):
            rec, s = begin(args, kw)
            try:
                if s['d']:
                    await asyncio.sleep(s['d'])
                elif s['o'] == 'cancel':
                    await asyncio.sleep(0)
            except asyncio.CancelledError:
                w.probe('stopped-while-running')
                check('stop' in marks and not plan['shield'], 'spurious-cancel', f'call {rec["k"]} was cancelled')
                if s['c']:
                    await asyncio.sleep(s['c'])
                rec['end'], rec['how'] = w.elapsed(), 'cut'
                st['running'] -= 1
                check(rec['end'] <= marks['stop'] + s['c'] + slack(plan, w), 'stop-late', f'{rec} was cancelled late, stop at {marks["stop"]}')
                if s.get('ce'):
                    w.probe('fails-when-cancelled')
                    raise Y()
                raise
            if s['o'] == 'cancel':
                rec['end'], rec['how'] = w.elapsed(), 'cancel'
                st['running'] -= 1
                raise asyncio.CancelledError
            end(rec, s)

        def scb(*args, **kw):
            rec, s = begin(args, kw)
            if s['o'] == 'cancel':
                s = dict(s, o='ok')
            end(rec, s)

        cb = scb if plan['sync'] else acb
        suppress = (X,) if plan['suppress'] else ()
        logged = []

        class Handler(logging.Handler):
            def emit(self, r):
                if r.levelno >= logging.ERROR and r.exc_info and isinstance(r.exc_info[1], (X, Y)):
                    logged.append(type(r.exc_info[1]).__name__)
        handler = Handler()
        logger = logging.getLogger('aiomisc')

        async def main():
            loop = asyncio.get_running_loop()
            started = w.elapsed()
            obj = task = None
            if plan['kind'] == 'service':
                class S(PeriodicService):
                    interval = plan['interval']
                    delay = plan['delay']

                    async def callback(self):
                        r = cb()
                        if r is not None:
                            await r
                obj = S(interval=plan["interval"], delay=plan["delay"])
                obj.set_loop(loop)
                await obj.start()
            elif plan['kind'] == 'periodic':
                obj = PeriodicCallback(cb, 1, 'a', k=2)
                obj.start(plan['interval'], delay=plan['delay'], shield=bool(plan['shield']), suppress_exceptions=suppress)

                def again():
                    if 'stop' not in marks:
                        try:
                            obj.start(0.01)
                        except asyncio.InvalidStateError:
                            return
                        violate('started-twice', 'start() of a started callback succeeded')
                loop.call_later(plan['sched'].get('hash', 0) % 60 / 100, again)
            else:
                def strategy(r):
                    k = len(asks)
                    s = plan['strat'][k] if k < len(plan['strat']) else 0.1
                    asks.append(dict(at=w.elapsed(), s=s, ncalls=len(calls)))
                    check(st['running'] == 0 , 'strategy-during-call', 'strategy asked while a call is running')
                    w.trace('strategy', s)
                    if s == 'stop':
                        raise StrategyStop()
                    if s == 'bad':
                        return 'bad'
                    if s == 'neg':
                        return -1
                    if isinstance(s, str):
                        raise StrategySkip(float(s[5:]))
                    return s
                if plan['aio_strat']:
                    sync_strategy = strategy

                    async def strategy(r):
                        return sync_strategy(r)
                obj = RecurringCallback(cb, 1, 'a', k=2)
                task = obj.start(strategy, shield=bool(plan['shield']), suppress_exceptions=suppress)
            stopping = loop.create_future()

            def go():
                if not stopping.done():
                    stopping.set_result(None)
            if 'at' in plan['stop']:
                loop.call_later(plan['stop']['at'], go)
            else:
                w.at_handle(w.handles + plan['stop']['step'], go)
                loop.call_later(2.0, go)
            await stopping
            marks['stop'] = w.elapsed()
            w.trace('stop')
            w.fault('stop')
            was_running = st['running']
            ended = task is not None and task.done()
            if plan['kind'] == 'service':
                await asyncio.wait_for(obj.stop(), 30)
            elif plan['kind'] == 'periodic':
                o = await outcome(w, asyncio.wait_for(obj.stop(return_exceptions=True), 30))
                check(o.kind == 'ok', 'stop-failed', f'{o}')
                o = await outcome(w, obj.stop())
                check(o.kind == 'exc' and isinstance(o.value, RuntimeError), 'stop-not-started', f'stop() of a stopped callback: {o}')
            else:
                task.cancel()
                await asyncio.wait([task], timeout=30)
                check(task.done(), 'stop-hangs', 'the recurring task survived cancellation')
                if ended:
                    check(not task.cancelled() and task.exception() is None and task.result() is None, 'wrong-end', f'{task}')
                else:
                    check(task.cancelled(), 'wrong-end', f'{task} was cancelled')
            if not plan['shield']:
                check(st['running'] == 0, 'running-after-stop', 'a call is still running although stop() completed')
            marks['stopped'] = w.elapsed()
            n = len(calls)
            await settle(1)
            check(st['running'] == 0, 'running-after-stop', 'a call is still running long after stop()')
            for c in calls:
                check(c['end'] is not None, 'call-lost', f'{c}')
                if plan['shield']:
                    check(c['how'] != 'cut', 'shielded-call-cancelled', f'{c}')
            self.judge(w, plan, started, marks['stop'], calls, asks, ended)
            bad = [c['how'] for c in calls if c['how'] in ('X', 'Y') and not (c['how'] == 'X' and suppress and plan['kind'] != 'service')
                   and c['end'] < marks['stop'] - 1e-3]
            allowed = bad + [c['how'] for c in calls if c['how'] in ('X', 'Y') and not (c['how'] == 'X' and suppress and plan['kind'] != 'service')
                             and c['end'] >= marks['stop'] - 1e-3] + ['Y'] * sum(c['how'] == 'cut' for c in calls)
            check(len(bad) <= len(logged) <= len(allowed) and logged[:len(bad)] == bad, 'errors-logged',
                  f'logged errors {logged}, failed calls {bad} (suppressed: {suppress})')
            if plan['restart'] and plan['kind'] == 'periodic':
                marks.clear()
                st['gen'] = 1
                n = len(calls)
                plan['execs'] = []
                t0 = w.elapsed()
                obj.start(plan['interval'])
                await asyncio.sleep(plan['interval'] * 3.5 + slack(plan, w) * 4)
                check(len(calls) - n >= 3, 'restart-dead', f'only {len(calls) - n} calls after a restart')
                marks['stop'] = w.elapsed()
                await obj.stop(return_exceptions=True)
                marks['stopped'] = w.elapsed()
                await settle(0.5)

        logger.addHandler(handler)
        try:
            run_async(w, main, 'hang')
        finally:
            logger.removeHandler(handler)
        if w.probes or any(c['how'] != 'ok' for c in calls):
            w.probe('nontrivial')

    def judge(self, w, plan, started, stop, calls, asks, ended):
        eps = 1e-6
        sl = slack(plan, w) + 0.002
        if plan['kind'] != 'recurring':
            due = started + plan['delay']
            for c in calls:
                check(c['start'] >= due - eps, 'called-early', f'call {c} due {due}')
                check(c['start'] <= due + sl, 'called-late', f'call {c} due {due}')
                due = c['end'] + plan['interval']
            if calls and calls[-1]['end'] > stop:
                return
            check(due + sl >= stop, 'call-missed', f'a call was due at {due:.4f} but none was made before stop at {stop:.4f}')
            return
        # recurring: replay the strategy script
        due_ask = started
        n = 0
        for k, a in enumerate(asks):
            check(a['at'] >= due_ask - eps, 'strategy-early', f'{a} due {due_ask}')
            check(a['at'] <= due_ask + sl, 'strategy-late', f'{a} due {due_ask}')
            s = a['s']
            check(a['ncalls'] == n, 'call-count', f'{a}: expected {n} calls before it')
            if s in ('stop', 'bad'):
                check(k == len(asks) - 1, 'continued-after-stop', f'strategy {s!r} must end the recurring task')
                check(len(calls) == n, 'continued-after-stop', f'calls made after strategy {s!r}')
                check(ended or a['at'] >= stop - 0.001, 'not-ended', f'strategy {s!r} did not end the task')
                return
            if isinstance(s, str) and s.startswith('skip'):
                due_ask = a['at'] + float(s[5:])
                continue
            d = 0 if s == 'neg' else s
            due = a['at'] + d
            if n < len(calls):
                c = calls[n]
                check(c['start'] >= due - eps, 'called-early', f'call {c} due {due}')
                check(c['start'] <= due + sl, 'called-late', f'call {c} due {due}')
                due_ask = c['end']
                n += 1
            else:
                check(due + sl >= stop, 'call-missed', f'call due at {due}, stop at {stop}')
                return
        check(n == len(calls), 'call-count', f'{len(calls)} calls for {n} strategy answers')
        check(due_ask + sl >= stop, 'strategy-missed', f'strategy due at {due_ask}, stop at {stop}')


PROP = P()
