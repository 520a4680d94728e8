import asyncio
import signal
import time

from .common import *


class P:
    ID = 'C10'
    LISTS = ('svcs', 'bg', 'jobs')
    REAL = ['aiomisc.entrypoint', 'aiomisc.service.base', 'aiomisc.thread_pool', 'aiomisc.utils']
    STUB = ['user services', 'signal delivery', 'clock', 'selector', 'thread scheduler']
    RULE = ('SIGINT/SIGTERM (one or several) delivered to the main thread between any two lines of an entrypoint program at a '
            'seeded instant, while the body runs, waits for closing() or is just being left; services, background tasks and '
            'thread jobs of seeded stop durations around the shutdown timeout; non-trivial: a signal was handled by aiomisc')
    RUNS = (8000, 250000)

    def gen(self, rng, tier):
        timeout = rng.choice((0.5, 2.0, 60.0))
        durs = (0, 0, 0.1, 0.3, timeout * 0.6, timeout * 2)
        how = rng.choice(('forever', 'run', 'run-closing', 'async-closing'))
        return dict(svcs=[dict(kind=rng.choice(('ret', 'ev')), start=rng.choice((0, 0.1)), slow=rng.choice((0, 0, 0.1)),
                               stop=rng.choice(durs), efail=rng.random() < 0.1) for _ in range(rng.choice((0, 1, 1, 2, 3)))],
                    bg=[dict(slow=rng.choice((0, 0, 0.2))) for _ in range(rng.choice((0, 0, 1, 2)))],
                    jobs=[dict(d=rng.choice((0.1, 1.0, 30.0))) for _ in range(rng.choice((0, 0, 0, 1)))],
                    timeout=timeout, how=how, tail=rng.choice((0, 0, 0.2)), body=rng.choice((1e5, 1e5, 1.0)),
                    sigs=[dict(sig=rng.choice((2, 15)), t=rng.choice((1.0, 1.0, grid(rng, 2, 0.1))), us=rng.choice((0, rng.randrange(400))))
                          for _ in range(rng.choice((1, 1, 2, 3)))],
                    sched=sched_async(rng))

    def run(self, w, plan):
        import aiomisc
        from aiomisc import Service, entrypoint, threaded
        S = {}
        marks = {}
        B = []
        how = plan['how']

        class Boom(Exception):
            pass

        class Svc(Service):
            async def start(self):
                r = S[self.idx]
                await asyncio.sleep(self.op['start'])
                r['ready'] = w.elapsed()
                try:
                    if self.op['kind'] == 'ev':
                        self.start_event.set()
                        await asyncio.sleep(1e6)
                except asyncio.CancelledError:
                    await asyncio.sleep(self.op['slow'])
                    raise
                finally:
                    r['start_end'] = w.elapsed()

            async def stop(self, exception=None):
                r = S[self.idx]
                r['stops'] += 1
                w.trace('stop', self.idx)
                check(r['stops'] == 1, 'stopped-twice', f'service {self.idx}: {r}')
                check(r['start_end'] is not None, 'stop-during-start', f'{r}')
                r['exc'] = exception
                r['stop'] = w.elapsed()
                try:
                    await asyncio.sleep(self.op['stop'])
                except asyncio.CancelledError:
                    r['cut'] = w.elapsed()
                    raise
                r['stop_end'] = w.elapsed()
                w.trace('stopped', self.idx)
                if self.op['efail']:
                    w.fault('stop-fails')
                    raise Boom(self.idx)

        svcs = []
        for i, op in enumerate(plan['svcs']):
            S[i] = dict(ready=None, start_end=None, stops=0, stop=None, stop_end=None, exc=None, cut=None)
            svcs.append(Svc(idx=i, op=op))

        async def background(j, op):
            try:
                await asyncio.sleep(1e6)
            except asyncio.CancelledError:
                await asyncio.sleep(op['slow'])
                raise

        async def closer(ep):
            await ep.closing()
            marks['closing'] = w.elapsed()

        @threaded
        def job(d):
            time.sleep(d)

        async def setup(ep):
            marks['ep'] = ep
            marks['loop'] = asyncio.get_running_loop()
            for j, op in enumerate(plan['bg']):
                B.append(asyncio.ensure_future(background(j, op)))
            B.append(asyncio.ensure_future(closer(ep)))
            marks['jobs'] = [asyncio.ensure_future(job(op['d'])) for op in plan['jobs']]
            B.extend(marks['jobs'])
            marks['body'] = w.elapsed()

        async def body(ep):
            await setup(ep)
            try:
                if how.endswith('closing'):
                    await ep.closing()
                    marks['main-closing'] = w.elapsed()
                    await asyncio.sleep(plan['tail'])
                else:
                    await asyncio.sleep(plan['body'])
                return 'body-result'
            finally:
                marks['body_end'] = w.elapsed()

        def original(*a):
            marks['original'] = marks.get('original', 0) + 1

        for s in (2, 15):
            signal.signal(s, original)

        handled = []

        def deliver(sig):
            if 'body' in marks and not handled and 'body_end' not in marks and 'forever_end' not in marks:
                check(signal.getsignal(sig) is not original, 'signal-not-handled', f'signal {sig} has no handler while the program runs: {marks}')
            if 'body' not in marks or signal.getsignal(sig) is original:
                return                      # outside the window in which aiomisc handles signals
            w.trace('signal', sig)
            handled.append(w.elapsed())
            w.probe('nontrivial')
            w.deliver_signal(sig)

        for s in plan['sigs']:
            w.after(s['t'] + s['us'] * 1e-6, lambda s=s: deliver(s['sig']))

        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + f' {S}')
        w.on_limit = lambda what: violate('hang', f'{what} {S} {marks} handled {handled}')
        kw = dict(log_config=False, shutdown_timeout=plan['timeout'])
        try:
            if how == 'async-closing':
                loop = new_loop()

                async def amain():
                    async with entrypoint(*svcs, **kw) as ep:
                        r = await body(ep)
                    marks['left'] = w.elapsed()
                    return r
                if not plan['sigs']:
                    return
                loop.call_later(200, lambda: loop.stop())
                out = ('ret', loop.run_until_complete(amain()))
            elif how == 'forever':
                ep = entrypoint(*svcs, **kw)
                with ep as loop:
                    loop.run_until_complete(setup(ep))
                    loop.call_later(200, loop.stop)
                    loop.run_forever()
                    marks['forever_end'] = w.elapsed()
                out = ('ret', None)
            else:
                async def rmain():
                    return await asyncio.wait_for(body(entrypoint.get_current()), 200)
                out = ('ret', aiomisc.run(rmain(), *svcs, **kw))
        except Violation:
            raise
        except BaseException as e:
            out = ('exc', e)
        end = w.elapsed()
        w.trace('out', out[0], type(out[1]).__name__)
        if not handled:
            check(out[0] == 'ret' or isinstance(out[1], (Boom, asyncio.TimeoutError)) or end >= 199, 'program-failed', lambda: f'no signal, but {how} ended with {out[1]!r} {S} {marks}')
            return
        what = f'{how} {out} {S} {marks} handled {handled} end {end:.3f}'
        t0 = handled[0]
        raced = 'body_end' in marks and marks['body_end'] <= t0 + 0.3 and not how.endswith('closing')
        for s in (2, 15):
            check(signal.getsignal(s) is original, 'handler-not-restored', f'signal {s}: {signal.getsignal(s)}; {what}')
        check('original' not in marks, 'original-called', 'a signal went to the previous handler while aiomisc should handle it')
        noise = slack(plan, w) + 0.05
        jobmax = min(max([op['d'] for op in plan['jobs']] + [0]), 10.3) if how != 'async-closing' else 0
        need = max([op['slow'] for op in plan['svcs'] if op['kind'] == 'ev'] + [0]) + max([op['stop'] for op in plan['svcs']] + [0])
        owner = how != 'async-closing'
        slowbg = max([op['slow'] for op in plan['bg']] + [0]) if owner else 0
        need += slowbg
        if raced:
            w.probe('raced-with-exit')
            for i, r in S.items():
                check(r['stops'] == 1, 'not-stopped', f'service {i}: {what}')
            return
        if 'closing' in marks or 'main-closing' in marks:
            for k in ('closing', 'main-closing'):
                if k in marks:
                    check(marks[k] <= t0 + noise, 'closing-late', what)
        elif plan['svcs'] or not owner:
            violate('closing-not-set', what)
        total = need + jobmax
        if total < plan['timeout'] - noise - 0.1:
            w.probe('graceful')
            for i, r in S.items():
                check(r['stops'] == 1, 'not-stopped', f'service {i}: {what}')
                check(r['stop_end'] is not None, 'stop-cut', f'service {i}: {what}')
                check(isinstance(r['exc'], Exception), 'no-stop-reason', f'service {i}: {what}')
            if not any(op['efail'] for op in plan['svcs']):
                if how == 'forever':
                    check(out == ('ret', None), 'wrong-outcome', what)
                elif how == 'run':
                    check(out[0] == 'exc' and isinstance(out[1], asyncio.CancelledError)
                          or plan['body'] < 2 and out == ('ret', 'body-result'), 'wrong-outcome', what)
                elif how == 'run-closing':
                    check(out == ('ret', 'body-result') or ((plan['tail'] or not plan['svcs']) and out[0] == 'exc' and
                          isinstance(out[1], asyncio.CancelledError)), 'wrong-outcome', what)
                elif plan['tail'] == 0 and plan['svcs']:
                    check(out == ('ret', 'body-result'), 'wrong-outcome', what)
                left = [t for t in B if not t.done()] if owner else []
                check(not left, 'task-leaked', f'{left} {what}')
            else:
                check(not isinstance(out[1], SystemExit), 'wrong-outcome', what)
            check(end <= t0 + total + plan['tail'] + 2 * noise, 'shutdown-late', what)
        elif need > plan['timeout'] + noise + 0.1 and max([op['stop'] for op in plan['svcs']] + [0]) > plan['timeout'] + noise + 0.1:
            w.probe('aborted')
            check(out[0] == 'exc' and isinstance(out[1], SystemExit) and out[1].code == 70, 'not-aborted', what)
            check(end >= t0 + plan['timeout'] - 0.01, 'aborted-early', what)
            check(end <= t0 + plan['timeout'] + jobmax + 0.3 + 2 * noise, 'aborted-late', what)
            for i, r in S.items():
                check(r['stops'] == 1, 'not-stopped', f'service {i}: {what}')
                if plan['svcs'][i]['stop'] < plan['timeout'] - 0.2 - noise:
                    check(r['stop_end'] is not None, 'stop-cut', f'service {i}: {what}')


PROP = P()
