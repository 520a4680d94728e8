import asyncio
import threading
import time

from .common import *


class P:
    ID = 'C09'
    LISTS = ('svcs', 'dyn', 'bg')
    REAL = ['aiomisc.entrypoint', 'aiomisc.signal', 'aiomisc.service.base', 'aiomisc.context', 'aiomisc.thread_pool', 'aiomisc.utils']
    STUB = ['user services', 'clock', 'selector', 'thread scheduler']
    RULE = ('an entrypoint (sync with, async with, run) over services whose start returns, fails, or keeps running after (or '
            'without) reporting readiness, whose stop takes time or fails; services started and stopped dynamically; a body '
            'that returns, raises or leaves background tasks; non-trivial: more than one service with time-consuming or failing phases')
    RUNS = (8000, 250000)

    def gen(self, rng, tier):
        def svc(dyn):
            return dict(start=rng.choice((0, 0, 0.1, 0.3, 1.0)), kind=rng.choice(('ret', 'ret', 'ev', 'ev', 'evret', 'noev') if not dyn
                                                                          else ('ret', 'ev', 'evret')),
                        sfail=rng.random() < 0.06, slowcancel=rng.choice((0, 0, 0, 0.2)), stop=rng.choice((0, 0, 0.1, 0.4, 2.0)),
                        efail=rng.random() < 0.12, tasks=rng.choice((0, 0, 1, 3)))
        return dict(svcs=[svc(0) for _ in range(rng.choice((0, 1, 1, 2, 3, 5)))],
                    dyn=[dict(svc(1), at=grid(rng, 0.5, 0.1), off=rng.choice((None, None, 0.2)), more=[svc(1) for _ in range(rng.choice((0, 0, 1, 2)))])
                         for _ in range(rng.choice((0, 0, 1, 2)))],
                    bg=[dict(slow=rng.choice((0, 0, 0.3))) for _ in range(rng.choice((0, 0, 1, 2)))],
                    thr=rng.choice((0, 0, 0.2, 1, 2)), how=rng.choice(('with', 'with', 'async', 'run')), body=rng.choice((0, 0.3, 1.0, 3.0)),
                    out=rng.choice(('ret', 'ret', 'raise')), recv=rng.choice((1, 1, 2, 0)), rslow=rng.choice((0, 0, 0.1)),
                    cancel_at=rng.choice((None, None, None, grid(rng, 1.5, 0.1))),
                    sched=sched_async(rng))

    def run(self, w, plan):
        import aiomisc
        from aiomisc import Service, entrypoint, get_context
        ev = []         # (what, key)
        S = {}

        class Boom(Exception):
            pass

        def log(what, key=None, **k):
            ev.append((what, key, w.elapsed(), k))
            w.trace(what, key)

        class Svc(Service):
            async def start(self):
                i, op = self.idx, self.op
                r = S[i]
                check(r['start'] is None, 'started-twice', f'service {i} started twice')
                check(asyncio.get_running_loop() is self.loop, 'wrong-loop', f'service {i}')
                check(self.context is get_context(), 'wrong-context', f'service {i} has another context')
                r['start'] = w.elapsed()
                log('start', i)
                r['task'] = asyncio.current_task()
                try:
                    for _ in range(op['tasks']):
                        r['bg'].append(self.loop.create_task(asyncio.sleep(1e6)))
                    await asyncio.sleep(op['start'])
                    if op['sfail']:
                        w.fault('start-fails')
                        log('start-failed', i)
                        raise Boom('start', i)
                    if op['kind'] in ('ev', 'evret'):
                        self.start_event.set()
                        log('ready', i)
                        r['ready'] = w.elapsed()
                        if op['kind'] == 'evret':
                            await asyncio.sleep(0.2)
                        else:
                            await asyncio.sleep(1e6)
                    elif op['kind'] == 'noev':
                        await asyncio.sleep(0.1)
                    log('started', i)
                    r['ready'] = r['ready'] or w.elapsed()
                    if op['kind'] == 'ret':
                        return ('result', i)
                except asyncio.CancelledError:
                    log('start-cancelled', i)
                    if op['slowcancel']:
                        w.fault('slow-cancel')
                        await asyncio.sleep(op['slowcancel'])
                    raise
                finally:
                    r['start_end'] = w.elapsed()
                    log('start-end', i)

            async def stop(self, exception=None):
                i, op = self.idx, self.op
                r = S[i]
                r['stops'] += 1
                check(r['stops'] == 1, 'stopped-twice', f'service {i}')
                check(r['start'] is not None or r.get('mid'), 'stopped-unstarted', f'service {i}')
                check(r['start'] is None or r['start_end'] is not None or r.get('dynstop'), 'stop-during-start', f'service {i} is stopped while its start() still runs: {r}')
                r['exc'] = exception
                log('stop', i)
                await asyncio.sleep(op['stop'])
                r['stop_end'] = w.elapsed()
                log('stopped', i)
                if op['efail']:
                    w.fault('stop-fails')
                    raise Boom('stop', i)

        def make(i, op):
            S[i] = dict(start=None, ready=None, start_end=None, stops=0, stop_end=None, exc=None, task=None, op=op, bg=[])
            return Svc(idx=i, op=op)

        svcs = [make(i, op) for i, op in enumerate(plan['svcs'])]
        recv = []

        def receivers():
            sig = []
            for k in range(plan['recv']):
                for name in ('PRE_START', 'POST_START', 'PRE_STOP', 'POST_STOP'):
                    def mk(name=name):
                        async def receiver(*, entrypoint, services):
                            # receivers are alike: number them in the order of the calls
                            k = len([1 for r in recv if r[0] == name and set(r[3]) == {s.idx for s in services}])
                            recv.append((name, k, len(ev), tuple(s.idx for s in services)))
                            log('signal', (name, k, tuple(sorted(s.idx for s in services))), ep=entrypoint)
                            if plan['rslow']:
                                await asyncio.sleep(plan['rslow'])
                            log('signal-end', (name, k, tuple(sorted(s.idx for s in services))))
                        return receiver
                    if (k + plan['sched'].get('hash', 0)) % 2:
                        getattr(entrypoint, name).connect(mk())
                    else:
                        check(callable(aiomisc.receiver(getattr(entrypoint, name))(mk())), 'receiver-lost', name)
                if plan['recv']:
                    async def removed(**kw):
                        violate('disconnected-receiver', f'a disconnected receiver of {name} was called')
                    getattr(entrypoint, name).connect(removed)
                    getattr(entrypoint, name).disconnect(removed)
            return sig
        receivers()
        B = {}
        marks = {}

        async def background(j, op):
            try:
                await asyncio.sleep(1e6)
            except asyncio.CancelledError:
                if op['slow']:
                    await asyncio.sleep(op['slow'])
                log('bg-cancelled', j)
                raise

        err = ValueError('body')

        async def body(ep):
            marks['body'] = w.elapsed()
            log('body')
            for i, r in S.items():
                if i < 100:
                    check(r['ready'] is not None, 'body-before-start', f'the body runs but service {i} is not started: {r}')
            check(get_context() is not None, 'no-context', '')
            if plan['recv']:
                ends = [e for e in ev if e[0] == 'signal-end' and e[1][0] == 'POST_START']
                check(len(ends) == plan['recv'], 'signal-missed', f'POST_START receivers completed: {ends}')
            try:
                get_context()['key'] = 'v'
                check(await get_context()['key'] == 'v', 'wrong-context', '')
                if plan['thr']:
                    B['thread'] = asyncio.ensure_future(thread_job())
                B['tasks'] = [asyncio.ensure_future(background(j, op)) for j, op in enumerate(plan['bg'])]

                async def dyn(j, op):
                    await asyncio.sleep(op['at'])
                    ops = {100 + 10 * j + k: o for k, o in enumerate([op] + op['more'])}
                    group = [make(i, o) for i, o in ops.items()]
                    for i in ops:
                        S[i]['mid'] = True
                    try:
                        await ep.start_services(*group)
                    except Boom as e:
                        check(e.args[0] == 'start' and e.args[1] in ops and ops[e.args[1]]['sfail'], 'wrong-exception', f'{e!r}')
                        for i in ops:
                            S[i]['groupfail'] = True
                        w.probe('group-start-failed', len(ops) > 1)
                        return
                    for i, o in ops.items():
                        S[i]['mid'] = False
                        check(S[i]['ready'] is not None, 'body-before-start', f'dynamic service {i} not started')
                        check(not o['sfail'], 'exception-lost', f'start of {i} failed silently')
                    if op['off'] is not None:
                        await asyncio.sleep(op['off'])
                        for i in ops:
                            S[i]['dynstop'] = S[i]['mid'] = True
                        try:
                            await ep.stop_services(*group)
                            check(not any(o['efail'] for o in ops.values()), 'exception-lost', f'stop of {list(ops)} failed silently')
                        except Boom as e:
                            check(e.args[0] == 'stop' and e.args[1] in ops and ops[e.args[1]]['efail'], 'wrong-exception', f'{e!r}')
                        for i in ops:
                            check(S[i]['stop_end'] is not None, 'stop-cut', f'{S[i]}')
                            S[i]['mid'] = False
                            S[i]['dynstopped'] = w.elapsed()
                await asyncio.gather(*[dyn(j, op) for j, op in enumerate(plan['dyn'])])
                await asyncio.sleep(plan['body'])
                if plan['out'] == 'raise':
                    raise err
                return 'body-result'
            except asyncio.CancelledError:
                marks['cancelled'] = w.elapsed()
                raise
            finally:
                log('body-end')
                marks['body_end'] = w.elapsed()

        @aiomisc.threaded
        def thread_job():
            marks['thread'] = 'running'
            time.sleep(plan['thr'])
            marks['thread'] = 'done'

        kw = dict(log_config=False)
        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + f' {S}')
        w.on_limit = lambda what: violate('hang', f'{what} {S}')
        how = plan['how']
        out = None
        w.fault('how-' + how, 0)
        try:
            if how == 'async':
                loop = new_loop()

                async def amain():
                    t = asyncio.current_task()
                    ep = entrypoint(*svcs, **kw)
                    async with ep:
                        if plan['cancel_at'] is not None:
                            loop.call_later(plan['cancel_at'], lambda: 'body_end' not in marks and (t.cancel(), w.fault('cancel')))
                        marks['ep'] = ep
                        r = await body(ep)
                    return r
                try:
                    out = ('ret', loop.run_until_complete(amain()))
                finally:
                    marks['after'] = w.elapsed()
            else:
                if how == 'with':
                    ep = marks['ep'] = entrypoint(*svcs, **kw)
                    with ep as loop:
                        task = loop.create_task(body(ep))
                        if plan['cancel_at'] is not None:
                            loop.call_later(plan['cancel_at'], lambda: 'body_end' not in marks and (task.cancel(), w.fault('cancel')))
                        out = ('ret', loop.run_until_complete(task))
                else:
                    async def rmain():
                        ep = marks['ep'] = entrypoint.get_current()
                        marks['loop'] = asyncio.get_running_loop()
                        t = asyncio.current_task()
                        if plan['cancel_at'] is not None:
                            marks['loop'].call_later(plan['cancel_at'], lambda: 'body_end' not in marks and (t.cancel(), w.fault('cancel')))
                        return await body(ep)
                    coro = rmain()
                    out = ('ret', aiomisc.run(coro, *svcs, **kw))
                    loop = marks['loop']
        except Violation:
            raise
        except BaseException as e:
            out = ('exc', e)
            if how == 'run':
                loop = marks.get('loop')
        w.trace('out', out[0], type(out[1]).__name__)
        self.verify(w, plan, S, ev, out, err, marks, Boom, loop if 'body' in marks else None, B, how)

    def verify(self, w, plan, S, ev, out, err, marks, Boom, loop, B, how):
        pos = {}
        for k, e in enumerate(ev):
            key = (e[0], e[1])
            pos.setdefault(key, k)
        dump = [(e[0], e[1]) for e in ev]
        static = [i for i in S if i < 100]
        if any(S[i]['op']['sfail'] for i in static):
            check(out[0] == 'exc' and isinstance(out[1], Boom) and out[1].args[0] == 'start', 'start-failure-lost', f'{out} {dump}')
            check('body' not in marks, 'body-after-failed-start', f'{dump}')
            w.probe('start-failed')
            return
        check('body' in marks, 'body-not-run', f'{out} {dump}')
        # concurrent start
        last = max([S[i]['op']['start'] + 0.1 * (S[i]['op']['kind'] == 'noev') for i in static] + [0]) + 2 * plan['recv'] * plan['rslow']
        check(marks['body'] <= last + slack(plan, w) + 0.05, 'start-not-concurrent', f'body ran at {marks["body"]:.3f}, services needed {last:.3f}')
        efails = [i for i in S if S[i]['op']['efail'] and S[i]['start'] is not None and 'dynstopped' not in S[i]
                  and (i < 100 or S[i]['ready'] is not None or not S[i]['op']['sfail'])]
        for i, r in S.items():
            if r['start'] is None or r.get('mid') and r.get('dynstop') and marks.get('cancelled'):
                continue                # its stop_services() call was cancelled in the middle
            if i >= 100 and r['op']['sfail'] and r['ready'] is None:
                continue
            check(r['stops'] == 1, 'not-stopped', f'service {i} was stopped {r["stops"]} times; {dump}')
            check(r['stop_end'] is not None, 'stop-cut', f'stop of service {i} was not completed: {r} {dump}')
            check(r['start_end'] is not None, 'start-leaked', f'start() of {i} is still running {r}')
            if 'dynstopped' in r:
                continue
            check(pos[('stop', i)] > pos[('body-end', None)] if not r.get('dynstop') else True, 'stop-before-exit', f'{dump}')
            if not r.get('dynstop'):
                e = r['exc']
                if marks.get('cancelled') and how == 'async':
                    check(isinstance(e, asyncio.CancelledError), 'wrong-stop-reason', f'{i} {e!r}')
                elif plan['out'] == 'raise' and not marks.get('cancelled'):
                    check(e is err, 'wrong-stop-reason', f'{i} {e!r}')
                elif not marks.get('cancelled'):
                    check(e is None, 'wrong-stop-reason', f'{i} {e!r}')
        for i, r in S.items():
            if r['start'] is None or r.get('mid') and (marks.get('cancelled') or r.get('groupfail')):
                continue
            for k in range(plan['recv']):
                def sig(name, what):
                    return [n for n, e in enumerate(ev) if e[0] == what and e[1][0] == name and e[1][1] == k and i in e[1][2]]
                a, b = sig('PRE_START', 'signal-end'), sig('POST_START', 'signal')
                check(len(a) == 1 and a[0] < pos[('start', i)], 'signal-order', f'PRE_START of {i}: {a} {dump}')
                check(len(b) == 1 or marks.get('cancelled'), 'signal-order', f'POST_START of {i}: {b} {dump}')
                if r['ready'] is not None and b and not marks.get('cancelled'):
                    mark = ('ready', i) if ('ready', i) in pos else ('started', i)
                    check(pos[mark] < b[0], 'signal-order', f'POST_START of {i} {dump}')
                if r['stops']:
                    a, b = sig('PRE_STOP', 'signal-end'), sig('POST_STOP', 'signal')
                    if marks.get('cancelled') and r.get('dynstop'):
                        continue
                    check(len(a) == 1 and a[0] < pos[('stop', i)], 'signal-order', f'PRE_STOP of {i}: {a} {dump}')
                    check(len(b) == 1 and b[0] > pos[('stopped', i)], 'signal-order', f'POST_STOP of {i}: {b} {dump}')
        # outcome
        boom = out[0] == 'exc' and isinstance(out[1], Boom)
        if marks.get('cancelled'):
            check(boom and any(r['op']['efail'] for r in S.values()) or out[0] == 'exc' and isinstance(out[1], asyncio.CancelledError), 'wrong-outcome', f'{out}')
        elif boom and out[1].args[0] == 'stop' and S[out[1].args[1]]['op']['sfail']:
            pass                        # a service whose dynamic start failed may be stopped too
        elif efails:
            check(boom and out[1].args[0] == 'stop', 'stop-failure-lost', f'{out} {dump}')
        elif plan['out'] == 'raise':
            check(out[0] == 'exc' and out[1] is err, 'wrong-outcome', f'{out}')
        else:
            check(out == ('ret', 'body-result'), 'wrong-outcome', f'{out}')
        if how in ('with', 'run'):
            check(loop.is_closed(), 'loop-not-closed', f'{out}')
            live = [t.get_name() for t in B.get('tasks', ()) if not t.done()]
            live += [f'service {i}' for i, r in S.items() for t in r['bg'] if not t.done()]
            check(not live, 'task-leaked', f'{live}')
            check(marks.get('thread') != 'running', 'thread-leaked', 'a thread of the pool is still at work')
            for t in B.get('tasks', ()):
                check(t.cancelled(), 'task-leaked', f'{t}')
            import gc
            left = [t.name for t in w.threads[1:] if t.state != 'done']
            if left:
                time.sleep(15)
                left = [t.name for t in w.threads[1:] if t.state != 'done']
            check(not left, 'thread-leaked', f'{left}')
        from aiomisc import get_context
        try:
            get_context(loop)
        except Exception:
            pass
        else:
            violate('context-leaked', 'the context of the entrypoint is still reachable')
        if len(S) > 1:
            w.probe('nontrivial')
        if efails:
            w.probe('stop-failed')


PROP = P()
