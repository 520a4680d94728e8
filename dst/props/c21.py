import asyncio
import gc
import os
import signal
import time
from multiprocessing import ProcessError
from random import Random

from dst import world

from .common import *

ST = None           # state of the run, shared by all simulated processes: the observer


DEADLY = ('exit', 'exit0', '_exit', '_exit0', 'kill')


def suicides(plan):
    return {r['pid'] for i, rs in ST['runs'].items() for r in rs if plan['jobs'][i]['k'] in DEADLY and (r['how'] == 'SystemExit' or r.get('died'))}


class X(Exception):
    pass


class Unpickled(Exception):
    """Can be pickled, can not be unpickled."""

    def __init__(self, a, b):
        super().__init__(a)


class Unpicklable:
    def __reduce__(self):
        raise TypeError('cannot pickle this')


def here():
    return world.W.current.proc


def init(mode):
    p = here()
    if p.replaying:
        return
    w = world.W
    ST['init'] += 1
    w.trace('init', p.name)
    time.sleep(ST['plan']['init_d'])
    p.mem['init'] = 'done'
    if mode == 'fail':
        ST['failed'] = w.elapsed()
        raise X('initializer')


def job(i, kind, d, size, *, k):
    """Runs in a worker process."""
    w = world.W
    p = here()
    check(p is not None, 'ran-in-parent', f'job {i} runs in the application process')
    check(k == ('k', i), 'wrong-arguments', f'{i}: {k}')
    r = dict(pid=p.pid, start=w.elapsed(), end=None, how=None)
    ST['runs'][i].append(r)
    check(len(ST['runs'][i]) == 1, 'ran-twice', f'job {i}: {ST["runs"][i]}')
    check(not ST['busy'].get(p.pid), 'ran-nested', f'job {i} runs in a process running {ST["busy"].get(p.pid)}')
    if ST['plan']['init']:
        check(p.mem.get('init') == 'done', 'not-initialized', f'job {i} runs in a process without the initializer')
    ST['busy'][p.pid] = i
    w.trace('start', i)
    try:
        if kind == 'resist':
            end = w.elapsed() + d
            while w.elapsed() < end:
                try:
                    time.sleep(max(0, end - w.elapsed()))
                except asyncio.CancelledError:
                    r['how'] = 'resisted'
        elif d:
            time.sleep(d)
        if kind == 'exc':
            raise X(i)
        if kind == 'conn':
            raise ConnectionResetError(i)
        if kind == 'badexc':
            raise Unpickled(i, 2)
        if kind == 'badres':
            return Unpicklable()
        if kind == 'exit':
            raise SystemExit(1)
        if kind == 'exit0':
            raise SystemExit
        if kind == '_exit':
            os._exit(3)
        if kind == '_exit0':
            os._exit(0)
        if kind == 'kill':
            os.kill(os.getpid(), signal.SIGKILL)
        return ('res', i, b'x' * size)
    except BaseException as e:
        r['how'] = r['how'] or type(e).__name__
        raise
    finally:
        ST['busy'].pop(p.pid, None)
        r['end'] = w.elapsed()
        op = ST['plan']['jobs'][i]
        if 'cancel_end' in op and not ST['closing']:
            w.at_handle(w.handles + op['cancel_end'], ST['tasks'][i].cancel)
        w.trace('end', i, r['how'])


def meet(n):
    """Waits until n jobs run at once."""
    ST['met'] += 1
    end = world.W.elapsed() + 100 + ST['lag']()
    while ST['met'] < n and world.W.elapsed() < end:
        time.sleep(0.05)
    return ST['met'] >= n


class P:
    ID = 'C21'
    LISTS = ('jobs', 'kills', 'strangers')
    REAL = ['aiomisc.worker_pool', 'aiomisc_worker (supervisor, forking, worker, protocol) in every process', 'aiomisc.thread_pool', 'asyncio streams', 'pickle']
    STUB = ['processes (threads with their own pid, signals, descriptors, modules; fork by replay)', 'kernel sockets', 'signals', 'clock', 'schedulers']
    RULE = ('jobs of all outcomes on a pool of simulated processes which start slowly, are killed while idle or busy and kill themselves; callers '
            'cancelled at any time or step; results too big for the socket buffer; failing initializers; pool closed while jobs run; non-trivial: a process died, '
            'a cancellation or a close met a running job')
    RUNS = (5000, 100000)

    def gen(self, rng, tier):
        workers = rng.choice((1, 1, 2, 3))
        jobs = []
        for i in range(rng.choice((1, 2, 4, 8, 12))):
            op = dict(t=grid(rng, rng.choice((0, 1, 3)), 0.02), d=rng.choice((0, 0, 0.001, 0.02, 0.1, 0.5, 2)),
                      k=rng.choice(('ok',) * 8 + ('exc', 'exc', 'conn', 'resist', 'exit', 'exit0', '_exit', '_exit0', 'kill', 'badres', 'badexc', 'badarg')),
                      size=rng.choice((0, 0, 0, 0, 100, 70000, 300000)))
            maybe_cancel(rng, op, 0.3, 1.5, 60, 0.01)
            if rng.random() < 0.1:
                op['cancel_end'] = rng.randrange(12)        # steps of the loop after the end of the function
            jobs.append(op)
        kills = [dict(t=grid(rng, 4, 0.02), k=rng.randrange(3)) for _ in range(rng.choice((0, 0, 0, 1, 2)))]
        close = rng.choice((None, None, None, grid(rng, 3, 0.05)))
        net = dict(window=rng.choice((65536, 65536, 4096)), short=rng.choice((0, 0.3)))
        if rng.random() < 0.3:
            net['reuseport_unix'] = False
        strangers = [dict(t=grid(rng, rng.choice((0.1, 1, 3)), 0.02), k=rng.choice(('digest', 'digest', 'id', 'any', 'silent', 'eof', 'badinit', 'badinit', 'garbage')))
                     for _ in range(rng.choice((0, 0, 0, 1, 2)))]
        return dict(strangers=strangers, close2=rng.choice((None, None, 0, 0.01, 0.5)), workers=workers, overflow=rng.choice((0, 0, 1, 3)), jobs=jobs, kills=kills, close=close,
                    init=rng.choice(('', '', 'ok')) if rng.random() < 0.9 else 'fail', init_d=rng.choice((0, 0.1, 1)),
                    net=net, sched=sched_threads(rng))

    def run(self, w, plan):
        global ST
        from aiomisc import ThreadPoolExecutor, WorkerPool
        n = plan['workers']
        ST = dict(plan=plan, runs={i: [] for i in range(len(plan['jobs']))}, busy={}, init=0, met=0, lag=lambda: lag(plan, w))
        self.cancelled = cancelled = {}
        submitted = self.submitted = {}
        ts = ST['tasks'] = {}
        ST['failed'] = None
        rng = Random(len(plan['jobs']))
        killed = set()
        deaths = []         # (time, pid) of worker processes
        closing = ST['closing'] = []
        supervisor = []

        def watch(p):
            def dead():
                deaths.append((w.elapsed(), p.pid, p.status))
                b = ST['busy'].pop(p.pid, None)
                if b is not None:
                    ST['runs'][b][0]['died'] = w.elapsed()
                w.probe('nontrivial')
            p.on_exit.append(dead)

        def born(p):
            if p.parent is None:
                supervisor.append(p)
            else:
                watch(p)
        w.proc_hook = born

        async def main():
            loop = asyncio.get_running_loop()
            loop.set_default_executor(ThreadPoolExecutor(4))
            kw = dict(initializer=init, initializer_args=(plan['init'],)) if plan['init'] else {}
            pool = WorkerPool(n, plan['overflow'], **kw)
            await pool.start()

            async def call(i, op):
                submitted[i] = w.elapsed()
                args = (i, op['k'], op['d'], op['size'] if op['k'] != 'badarg' else Unpicklable())
                try:
                    return await pool.create_task(job, *args, k=('k', i))
                except asyncio.CancelledError:
                    cancelled[i] = w.elapsed()
                    raise

            probing = []

            def killer(k):
                def go():
                    live = [p for p in w.procs.values() if p.parent is supervisor[0] and p.status is None and not p.starting]
                    if live and not probing:
                        w.fault('worker-killed')
                        w.kernel += 1
                        killed.add(live[k['k'] % len(live)].pid)
                        try:
                            w.kill(live[k['k'] % len(live)].pid, signal.SIGKILL)
                        finally:
                            w.kernel -= 1
                loop.call_later(max(0, k['t'] - w.elapsed()), go)
            for k in plan['kills']:
                killer(k)

            async def stranger(op):
                from aiomisc_worker import PacketTypes
                from aiomisc_worker.protocol import AsyncProtocol
                await asyncio.sleep(op['t'])
                if closing:
                    return
                try:
                    reader, writer = await asyncio.open_unix_connection(pool.address)
                except (ConnectionError, FileNotFoundError):
                    check(closing or plan['init'] == 'fail', 'refused', 'connection refused')
                    return
                p = AsyncProtocol(reader, writer)
                try:
                    if op['k'] in ('digest', 'id', 'any'):
                        wid = b'x' * 16 if op['k'] == 'id' else rng.choice(pool.worker_ids)
                        await p.send((PacketTypes.AUTH if op['k'] != 'any' else PacketTypes.STARTED, wid, rng.randbytes(32), 77777))
                    if op['k'] == 'badinit':
                        await p.send((PacketTypes.BAD_INITIALIZER, rng.choice(pool.worker_ids), rng.randbytes(32), 77777))
                        await p.send((PacketTypes.EXCEPTION, X('stranger')))
                    if op['k'] == 'garbage':
                        await p.send(rng.choice((None, (1, 2), 'x', (PacketTypes.AUTH,))))
                    if op['k'] == 'eof':
                        return
                    got = None
                    while True:
                        got = await asyncio.wait_for(p.receive(), 100 + lag(plan, w))
                        w.trace('stranger', op['k'], str(got)[:60])
                        kind = got[0] if isinstance(got, tuple) else got
                        check(kind != PacketTypes.REQUEST, 'stranger-served', lambda: f'a connection without the cookie ({op}) was given {str(got)[:200]}')
                except asyncio.TimeoutError:
                    check(op['k'] == 'silent' or closing, 'stranger-kept', f'{op}: {got} and nothing else')
                except (asyncio.IncompleteReadError, ConnectionError):
                    w.probe('nontrivial')
                finally:
                    writer.close()
            guests = [asyncio.ensure_future(stranger(op)) for op in plan['strangers']]

            async def close():
                if not closing:
                    closing.append(w.elapsed())
                if any(v for v in ST['busy'].values()):
                    w.probe('nontrivial')

                async def ends():
                    before = [i for i, t in ts.items() if not t.done()]
                    await pool.close()
                    for _ in range(30):
                        await asyncio.sleep(0)
                    check(all(ts[i].done() for i in before), 'close-early', lambda: f'close() is over, but calls {[i for i in before if not ts[i].done()]} are still pending')
                cs = [asyncio.ensure_future(ends())]
                if plan['close2'] is not None:
                    await asyncio.sleep(plan['close2'])
                    cs.append(asyncio.ensure_future(ends()))
                done, p = await asyncio.wait(cs, timeout=100 + lag(plan, w))
                check(not p, 'close-hangs', 'close() never ends')
                for t in cs:
                    t.result()
                w.trace('closed')
                check(w.elapsed() - closing[0] <= 2 + lag(plan, w), 'close-slow', f'close() took {w.elapsed() - closing[0]}')
            closer = None
            if plan['close'] is not None:
                async def later():
                    await asyncio.sleep(plan['close'])
                    await close()
                closer = asyncio.ensure_future(later())
            for i, op in sorted(enumerate(plan['jobs']), key=lambda x: (x[1]['t'], x[0])):
                if op['t'] > w.elapsed():
                    await asyncio.sleep(op['t'] - w.elapsed())
                ts[i] = asyncio.ensure_future(call(i, op))
                schedule_cancel(w, loop, ts[i], op, i)
            if closer is not None:
                await closer
            total = sum(op['d'] for op in plan['jobs'])
            done, pend = await asyncio.wait(ts.values(), timeout=200 + total + lag(plan, w))
            hung = [i for i, t in ts.items() if t in pend]
            check(not pend, 'never-completes', lambda: f'calls {hung} never complete ({[plan["jobs"][i] for i in hung][:3]}); runs {[ST["runs"][i] for i in hung][:3]}; closing {closing} '
                  f'deaths {deaths}; {describe_tasks(loop)} {w.describe_threads()} {w.net.fds}')
            for i, t in ts.items():
                self.judge(w, plan, i, plan['jobs'][i], t, ST['runs'][i], deaths, closing)
            errors = [i for i, t in ts.items() if not t.cancelled() and isinstance(t.exception(), ProcessError)]
            if plan['init'] != 'fail':
                odd = [d for d in deaths if d[1] not in killed and d[1] not in suicides(plan) and not (closing and d[0] >= closing[0])]
                check(not odd, 'worker-died', lambda: f'workers {odd} died for no reason: {ST["runs"]} {deaths} {killed}')
            own = sum(1 for i in errors if ST['runs'][i] and plan['jobs'][i]['k'] in DEADLY)
            check(len(errors) - own <= sum(1 for d in deaths if d[1] not in suicides(plan)), 'too-many-failed',
                  f'calls {errors} failed with ProcessError, but only {deaths} died')
            if not closing and plan['init'] != 'fail':
                probing.append(1)
                await settle(1)
                for t in guests:
                    if t.done():
                        t.result()
                # the pool is as good as new: all the workers take jobs
                d, p = await asyncio.wait([asyncio.ensure_future(pool.create_task(meet, n)) for _ in range(n)], timeout=300 + lag(plan, w))
                check(not p and all(t.exception() is None and t.result() for t in d), 'pool-degraded',
                      lambda: f'{n} calls do not run at once: {ST["met"]}; {[t.exception() or t.result() for t in d]}, deaths {deaths} '
                      f'{[(x.name, x.status) for x in w.procs.values()]} {describe_tasks(loop)}')
            if not closing:
                await close()
            late = asyncio.ensure_future(pool.create_task(job, 0, 'ok', 0, 0, k=('k', 0)))
            d, p = await asyncio.wait([late], timeout=20 + lag(plan, w))
            check(d, 'never-completes', 'create_task() of a closed pool never completes')
            check(late.cancelled() or late.exception() is not None, 'closed-pool-runs', f'{late}')
            if guests:
                d, p = await asyncio.wait(guests, timeout=300 + 2 * lag(plan, w))
                for t in d:
                    t.result()
            for _ in range(2):
                await settle(4 + lag(plan, w))
                gc.collect()        # asyncio drops a connection accepted within server.close() without closing it
            left = [p.name for p in w.procs.values() if p.status is None]
            check(not left, 'process-left', lambda: f'processes {left} are left 8 s after close(); {w.describe_threads()} {w.net.fds}')
            tasks = asyncio.all_tasks(loop) - {asyncio.current_task()}
            check(not tasks, 'task-left', lambda: describe_tasks(loop))

        run_async(w, main, 'never-completes')

    def judge(self, w, plan, i, op, t, rs, deaths, closing):
        requested = any(k in op for k in ('cancel_at', 'cancel_step', 'cancel_end'))
        what = f'job {i} {op}: runs {rs}, {t}, deaths {deaths}, closing {closing}'
        eps = 0.05 + lag(plan, w)
        closed = [c for c in closing]
        if t.cancelled():
            if plan['init'] == 'fail' and not requested and not closed and ST['failed'] is not None:
                check(self.submitted.get(i, 1e9) > ST['failed'] - eps, 'wrong-exception', what)
            check(requested or closed or plan['init'] == 'fail', 'spurious-cancel', what)
            c = self.cancelled.get(i)
            check(c is not None or not rs, 'cancelled-job-ran', what)
            if rs:
                r = rs[0]
                check(r['start'] <= c + eps, 'cancelled-job-ran', what)
                if op['k'] != 'resist':
                    end = r.get('died', r['end'])
                    stop = w.elapsed() if end is None else end
                    check(stop <= max(c, r['start']) + eps, 'cancelled-job-goes-on', what)
            w.probe('nontrivial')
            return
        e = t.exception()
        if plan['init'] == 'fail':
            check(e is not None and not rs, 'initializer-ignored', what)
            check(isinstance(e, X) and e.args == ('initializer',) or closed or self.submitted[i] > ST['failed'] - eps and isinstance(e, RuntimeError),
                  'wrong-exception', what)
            return
        if isinstance(e, ProcessError):
            if rs and op['k'] in DEADLY:
                return
            check(any(d[0] >= self.submitted[i] - eps for d in deaths), 'spurious-process-error', what)
            if rs:
                check(any(d[1] == rs[0]['pid'] for d in deaths), 'spurious-process-error', what)
            return
        if isinstance(e, RuntimeError) and closed and not rs:
            check(self.submitted[i] >= closed[0] - eps, 'closed-early', what)
            return
        if op['k'] == 'badarg':
            check(not rs and isinstance(e, TypeError), 'wrong-exception', what)
            return
        check(len(rs) == 1, 'no-execution', what)
        if op['k'] in ('ok', 'resist'):
            check(e is None and t.result() == ('res', i, b'x' * op['size']), 'wrong-result', lambda: what[:1500])
        elif op['k'] == 'conn':
            check(isinstance(e, ConnectionResetError) and e.args == (i,), 'wrong-exception', what)
        elif op['k'] == 'exc':
            check(isinstance(e, X) and e.args == (i,), 'wrong-exception', what)
        else:
            check(e is not None, 'exception-lost', what)
            if op['k'] in ('badexc', 'badres'):
                check(isinstance(e, (TypeError, ProcessError)) or 'pickle' in repr(e).lower(), 'wrong-exception', what)
            else:
                violate('wrong-exception', what)


PROP = P()
