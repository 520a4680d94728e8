import asyncio
import signal
import time

from dst import world

from .common import *

ST = None


def here():
    return world.W.current.proc


def life(k):
    ls = ST['plan']['lives']
    return ls[k] if k < len(ls) else dict(k='forever', d=0, on='die', c=0, linger=0)


def work(tag):
    """Body of the child process."""
    w = world.W
    p = here()
    check(p is not None, 'ran-in-parent', 'in_process() runs in the application process')
    b = next(b for b in ST['births'] if b['pid'] == p.pid)
    check(tag == ('tag', 7), 'wrong-arguments', f'{tag}')
    check(b['entered'] is None, 'ran-twice', f'{b}')
    op = life(b['n'])
    b['entered'] = w.elapsed()
    w.trace('enter', b['n'])
    try:
        if op['k'] == 'forever':
            time.sleep(1e5)
        time.sleep(op['d'])
        b['left'] = w.elapsed()
        p.mem['linger'] = op['linger']
        if op['k'] == 'exc':
            raise ValueError('boom')
        if op['k'] == 'exit':
            raise SystemExit(3)
        if op['k'] == 'kill':
            ST['killed'].add(b['n'])
            w.kill(p.pid, signal.SIGKILL)
    except KeyboardInterrupt:
        b['ints'].append(w.elapsed())
        w.trace('interrupted', b['n'])
        p.mem['linger'] = op['linger']
        if op['on'] == 'cleanup':
            while w.elapsed() < b['ints'][0] + op['c']:
                try:
                    time.sleep(b['ints'][0] + op['c'] - w.elapsed())
                except KeyboardInterrupt:
                    b['ints'].append(w.elapsed())
            b['clean'] = True
        elif op['on'] == 'ignore':
            while True:
                try:
                    time.sleep(1e5)
                except KeyboardInterrupt:
                    b['ints'].append(w.elapsed())
        else:
            raise
    finally:
        b['left'] = b['left'] or w.elapsed()


class P:
    ID = 'C22'
    LISTS = ('lives', 'kills', 'nofork')
    REAL = ['aiomisc.service.process (both services, both sides)', 'aiomisc.entrypoint', 'aiomisc.periodic', 'aiomisc.thread_pool']
    STUB = ['multiprocessing.Process and Event (forked simulated processes which share memory)', 'signals', 'clock', 'schedulers']
    RULE = ('child processes which return, fail, exit, are killed at any time (also before they run), ignore or delay KeyboardInterrupt, or end '
            'slowly; the service is stopped by the end of the program or a signal at any moment, started with the entrypoint or later; non-trivial: '
            'a process was replaced or was running when the service stopped')
    RUNS = (8000, 150000)
    IMPORTS = ('aiomisc.service.process',)

    def gen(self, rng, tier):
        st = rng.choice((1, 3))
        respawn = rng.random() < 0.65
        lives = [dict(k=rng.choice(('ret', 'exc', 'exit', 'kill', 'forever', 'forever')), d=grid(rng, 2, 0.1),
                      on=rng.choice(('die', 'die', 'cleanup', 'ignore')), c=rng.choice((0.1, 0.5, st * 0.8, st * 2)),
                      linger=rng.choice((0, 0, 0, 0.1, st * 0.5, st * 3))) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
        kills = [dict(n=rng.randrange(3), sig=rng.choice((9, 9, 15)), t=rng.choice((0, 0, 1e-6, 1e-5, 0.0001, 0.01, 0.02, grid(rng, 3, 0.01)))) for _ in range(rng.choice((0, 0, 1, 1, 2)))]
        nofork = sorted(rng.sample(range(1, 5), rng.choice((0, 0, 1, 2)))) if respawn else []
        return dict(lives=lives, kills=kills, nofork=nofork, respawn=respawn, st=st, poll=rng.choice((0.5, 1, 5)), stop=rng.choice((0, 1e-6, 1e-5, 0.0001, 0.01, 0.1)) if rng.random() < 0.2 else grid(rng, rng.choice((1, 4, 12)), 0.05),
                    how=rng.choice(('with', 'with', 'signal', 'later', 'later-signal', 'later-cancel')), sched=sched_threads(rng))

    def run(self, w, plan):
        global ST
        from aiomisc import entrypoint
        from aiomisc.service import ProcessService, RespawningProcessService
        births = []
        ST = dict(plan=plan, births=births, killed=set())
        marks = {}
        killed = ST['killed']
        failed = []

        def born(p):
            n = len(births)
            alive = [b for b in births if b['dead'] is None]
            check(not alive, 'two-processes', lambda: f'process {n} is started while {alive} is alive')
            check('stopped' not in marks, 'started-after-stop', f'process {n} is started after stop() ended; {births} {marks}')
            b = dict(n=n, pid=p.pid, t=w.elapsed(), entered=None, left=None, ints=[], clean=False, dead=None, sigs=[])
            births.append(b)
            if n:
                w.probe('nontrivial')

            def dead():
                b['dead'] = w.elapsed()
                b['status'] = p.status
            p.on_exit.append(dead)
            for k in plan['kills']:
                if k['n'] == n:
                    def go(sig=k.get('sig', 9)):
                        if p.status is None and 'stop' not in marks:
                            if sig == 15 and b['entered'] is None:
                                return          # the handlers are not in place yet
                            w.fault('process-killed' if sig == 9 else 'process-terminated')
                            killed.add(n)
                            w.kill(p.pid, sig)
                            check(p.status is not None, 'handler-inherited', lambda: f'{b} survived signal {sig}: it runs a handler of the application')
                    w.after(k['t'], go)
        w.proc_hook = born

        def forking(_):
            if len(births) + len(failed) in plan['nofork']:
                w.fault('fork-fails')
                failed.append(w.elapsed())
                raise BlockingIOError(11, 'Resource temporarily unavailable')
        w.fork_hook = forking

        def on_kill(p, sig):
            for b in births:
                if b['pid'] == p.pid and b['n'] not in killed:
                    b['sigs'].append((sig, w.elapsed()))
        w.kill_hook = on_kill
        Base = RespawningProcessService if plan['respawn'] else ProcessService

        class Svc(Base):
            def get_process_kwargs(self):
                return {'tag': ('tag', 7)}

            def in_process(self, tag):
                work(tag)

            async def start(self):
                marks['start'] = w.elapsed()
                await super().start()
                marks['started'] = w.elapsed()

            async def stop(self, exception=None):
                marks['stop'] = w.elapsed()
                w.trace('stop')
                if any(b['dead'] is None for b in births):
                    w.probe('nontrivial')
                try:
                    await super().stop(exception)
                finally:
                    marks['stopped'] = w.elapsed()
                    w.trace('stopped')

        kw = dict(process_stop_timeout=plan['st'], name='svc')
        if plan['respawn']:
            kw['process_poll_timeout'] = plan['poll']
        svc = Svc(**kw)

        def info():
            return f'{marks} {births}'
        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + info())
        w.on_limit = lambda what: violate('hang', f'{what} {info()}')

        def watchdog():
            if 'start' in marks and not {'started', 'stop'} & set(marks) and w.elapsed() > marks['start'] + 30 + lag(plan, w):
                violate('start-hangs', info())
            w.after(20, watchdog)

        async def main(ep):
            at = w.elapsed() + plan['stop']
            beat.append(asyncio.ensure_future(heartbeat(w, plan, info)))
            if 'signal' in plan['how']:
                def sig():
                    if 'stop' not in marks:
                        w.deliver_signal(signal.SIGINT)
                w.after(plan['stop'], sig)
            if 'later' in plan['how']:
                start = asyncio.ensure_future(ep.start_services(svc))
                if plan['how'] == 'later-cancel':
                    await asyncio.wait([start], timeout=plan['stop'])
                    start.cancel()
                    await asyncio.wait([start])
                else:
                    await start
            if 'signal' in plan['how']:
                await asyncio.sleep(1e4)
            await asyncio.sleep(max(0, at - w.elapsed()))
            marks['end'] = w.elapsed()

        beat = []
        w.after(20, watchdog)
        try:
            with entrypoint(*([] if 'later' in plan['how'] else [svc]), log_config=False, pool_size=4, shutdown_timeout=1e5) as loop:
                ep = entrypoint.get_current()
                loop.run_until_complete(main(ep))
        except asyncio.CancelledError:
            check('signal' in plan['how'], 'wrong-outcome', info())
        except RuntimeError as e:
            check(plan['how'] == 'signal' and 'Event loop stopped' in str(e), 'wrong-outcome', f'{e!r} {info()}')
        time.sleep(0.5 + lag(plan, w))
        L = lag(plan, w)
        early = plan['how'] in ('later-signal', 'later-cancel')
        check('started' in marks or early, 'start-hangs', info())
        check(births or early, 'not-started', info())
        if 'started' in marks:
            b = births[0]
            ready = [t for t in (b['entered'], b['dead']) if t is not None]
            check(ready and min(ready) <= marks['started'] + 0.05 + L, 'started-early', lambda: f'start() ended before the process ran; {info()}')
            check(marks['started'] <= max(min(ready), marks['start']) + 0.25 + L, 'start-late', lambda: f'the process ran (or died) long before start() ended; {info()}')
        for b in births:
            if b['n'] not in killed and (b['dead'] is None or b['dead'] < marks.get('stop', 1e9)) and b['t'] + 0.3 + L < marks.get('stop', 0):
                check(b['entered'] is not None, 'not-run', lambda: f'in_process() was not called in {b}; {info()}')
        left = [b for b in births if b['dead'] is None]
        check(not left, 'process-left', lambda: f'process {left} is alive after stop(); {info()}')
        if 'stop' not in marks:
            check(not births, 'not-stopped', info())
            return
        stop = marks['stop']
        check(marks['stopped'] - stop <= 2 * plan['st'] + 0.5 + L, 'stop-late', info())
        for b, nxt in zip(births, births[1:] + [None]):
            op = life(b['n'])
            if plan['respawn']:
                due = b['dead'] + (plan['poll'] + 0.6) * (1 + sum(t >= b['dead'] for t in failed)) + L
                if b['dead'] < stop and 'started' in marks:
                    check((nxt['t'] if nxt else stop) <= due, 'not-respawned', lambda: f'{b} not replaced in time; {info()}')
            else:
                check(nxt is None, 'respawned', info())
            for s, t in b['sigs']:
                check(t >= stop - 1e-9, 'disturbed', lambda: f'{b} got a signal {s} before the service stops; {info()}')
            running = b['dead'] > stop
            if running and b['entered'] is not None and b['entered'] < stop and (b['left'] is None or b['left'] > stop + L + 0.1):
                check(b['ints'], 'not-interrupted', lambda: f'{b} has not got KeyboardInterrupt; {info()}')
                check(b['ints'][0] <= stop + 0.1 + L, 'interrupted-late', info())
                ended = op['on'] == 'die' or op['on'] == 'cleanup' and op['c'] + L + 0.1 < plan['st']
                if ended and op['linger'] + L + 0.1 < plan['st']:
                    check(not any(s == 9 for s, t in b['sigs']), 'killed-early', lambda: f'{b} has finished in time; {info()}')
                    check(marks['stopped'] <= b['dead'] + 0.2 + L, 'stop-late', info())
            if running:
                for s, t in b['sigs']:
                    if s == 9:
                        check(t >= stop + plan['st'] - 1e-6, 'killed-early', lambda: f'{b} {info()}')


PROP = P()
