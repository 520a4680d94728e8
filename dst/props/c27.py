import asyncio
import logging
import pstats
import sys
import time
import tracemalloc

from .common import *


class P:
    ID = 'C27'
    LISTS = ('work',)
    REAL = ['aiomisc.service.tracer', 'aiomisc.service.profiler', 'aiomisc.periodic', 'aiomisc.recurring', 'aiomisc.entrypoint', 'aiomisc.thread_pool', 'cProfile', 'pstats', 'asyncio (pure Python)']
    STUB = ['tracemalloc (scripted snapshots)', 'files of Stats.dump_stats', 'clock', 'selector', 'thread scheduler']
    RULE = ('memory tracers and profilers with an interval, slow or failing snapshots and dumps, run next to other work and stopped at any moment, also during a report; '
            'non-trivial: a snapshot or dump failed, was slow, or the service stopped during one')
    RUNS = (3000, 60000)
    IMPORTS = ('aiomisc.service.tracer', 'aiomisc.service.profiler')

    def gen(self, rng, tier):
        kind = rng.choice(('memory', 'memory', 'profiler'))
        work = [dict(t=grid(rng, 3, 0.1), n=i) for i in range(rng.choice((0, 2, 5, 8)))]
        return dict(kind=kind, work=work, interval=rng.choice((0.2, 0.5, 1)), slow=rng.choice((0, 0, 0.1, 0.7, 3)), fail=sorted(rng.sample(range(1, 8), rng.choice((0, 0, 1, 3)))),
                    stop=rng.choice((0.01, 0.25, 1.0, 1.05, 3.0, grid(rng, 4, 0.05))), again=rng.random() < 0.3, start_delay=rng.choice((0, 0, 0.3)),
                    path=rng.random() < 0.7, sched=sched_threads(rng) if kind == 'memory' else sched_async(rng))

    def run(self, w, plan):
        from aiomisc import entrypoint
        from aiomisc.service.profiler import Profiler
        from aiomisc.service.tracer import MemoryTracer
        m = dict(tracing=0, snaps=[], diffs=[], reports=[], dumps=[], stop=None, stopped=None, start=None)
        marked = []                 # (time, marker name)
        memory = plan['kind'] == 'memory'

        def info():
            return f'{m} {marked}'

        class Stat:
            count = count_diff = size = size_diff = 10
            traceback = 'here'

        class Snap:
            def __init__(self, i):
                self.i = i

            def compare_to(self, old, key, cumulative=False):
                check(self.i > 1 and old.i == 1 and key == 'lineno', 'wrong-comparison', lambda: f'{self.i} {old.i} {key} {info()}')
                m['diffs'].append((w.elapsed(), self.i))
                if self.i in plan['fail']:
                    w.fault('snapshot-fails')
                    raise MemoryError(self.i)
                s = Stat()
                s.count = 1000000 + self.i
                return [s] * 50

        def take():
            i = len(m['snaps']) + 1
            if not m['tracing']:
                raise RuntimeError('the tracemalloc module must be tracing memory allocations to take a snapshot')
            m['snaps'].append(w.elapsed())
            if i > 1 and plan['slow']:
                w.fault('slow-snapshot')
                time.sleep(plan['slow'])
            return Snap(i)

        def tm_start(n=1):
            m['tracing'] = 1

        def tm_stop():
            m['tracing'] = 0
        import aiomisc.service.tracer as mod
        for name, fake in (('start', tm_start), ('stop', tm_stop), ('take_snapshot', take), ('is_tracing', lambda: bool(m['tracing']))):
            real = getattr(tracemalloc, name)
            for k, v in list(vars(mod).items()):
                if v is real:
                    setattr(mod, k, fake)
            setattr(tracemalloc, name, fake)

        def dump(self, path):
            check(path == '/nowhere/x', 'wrong-path', f'{path}')
            m['dumps'].append((w.elapsed(), sorted(k[2] for k in self.stats if k[2].startswith('marker_'))))
            if len(m['dumps']) in plan['fail']:
                w.fault('dump-fails')
                raise OSError(28, 'full')
        pstats.Stats.dump_stats = dump

        class Handler(logging.Handler):
            def emit(self, r):
                msg = r.getMessage()
                if 'Top memory usage' in msg or 'function calls' in msg:
                    m['reports'].append((w.elapsed(), msg))
                    w.trace('report')
        h = Handler()
        lg = logging.getLogger('aiomisc')
        lg.addHandler(h)
        lg.setLevel(10)
        lg.propagate = False

        class Marks:
            async def start(self):
                if plan['start_delay']:
                    await asyncio.sleep(plan['start_delay'])
                await super().start()
                m['start'] = w.elapsed()

            async def stop(self, exception=None):
                m['stop'] = w.elapsed()
                await super().stop(exception)
                m['stopped'] = w.elapsed()
                w.trace('stopped')

        if memory:
            class Svc(Marks, MemoryTracer):
                pass
        else:
            class Svc(Marks, Profiler):
                pass
        kw = dict(interval=plan['interval'])
        if not memory and plan['path']:
            kw['path'] = '/nowhere/x'
        if not memory:
            kw['top_results'] = 1000

        def session():
            svc = Svc(**kw)
            m.update(tracing=0, snaps=[], diffs=[], reports=[], dumps=[], stop=None, stopped=None, start=None)
            del marked[:]
            t0 = w.elapsed()

            async def main():
                async def worker(op):
                    await asyncio.sleep(op['t'])
                    ns = {}
                    exec(f'def marker_{op["n"]}(): return 1', ns)
                    ns[f'marker_{op["n"]}']()
                    marked.append((w.elapsed(), f'marker_{op["n"]}'))

                async def heart():
                    while True:
                        t = w.elapsed()
                        await asyncio.sleep(0.05)
                        late = w.elapsed() - t - 0.05
                        check(late <= lag(plan, w) + 0.01, 'loop-blocked', lambda: f'the loop was blocked for {late} s {info()}')
                hb = asyncio.ensure_future(heart())
                ts = [asyncio.ensure_future(worker(op)) for op in plan['work']]
                await asyncio.sleep(plan['stop'])
                for t in ts:
                    t.cancel()
                await asyncio.gather(*ts, return_exceptions=True)
                hb.cancel()
                await asyncio.gather(hb, return_exceptions=True)
                if hb.done() and not hb.cancelled():
                    hb.result()
            with entrypoint(svc, loop=loop, log_config=False):
                loop.run_until_complete(main())
            check(m['stopped'] is not None, 'not-stopped', info)

            async def rest():
                await asyncio.sleep(3 * plan['interval'] + 2 * plan['slow'] + lag(plan, w))
                for _ in range(200):        # a thread may still be at its report
                    if len(m['reports']) >= len([i for _, i in m['diffs'] if i not in plan['fail']]) and len(m['diffs']) + 1 >= len(m['snaps']):
                        break
                    await asyncio.sleep(1)
                left = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
                check(not left, 'task-left', lambda: f'{left} {info()}')
            n = len(m['snaps'])
            loop.run_until_complete(rest())
            L = lag(plan, w) + 0.02
            stop, stopped = m['stop'], m['stopped']
            check(stopped - stop <= L, 'stop-late', info)
            if memory:
                check(not m['tracing'], 'left-on', info)
            else:
                check(sys.monitoring.get_tool(2) is None, 'left-on', lambda: f'the profiler is active after stop() {info()}')
            # nothing is reported after the stop, but by a thread which was at it
            if memory:
                check(all(t <= stopped + L for t in m['snaps']), 'report-after-stop', info)
                check(all(t <= stopped + plan['slow'] + L for t, _ in m['reports']), 'report-after-stop', info)
            else:
                check(all(t <= stopped for t, _ in m['reports']), 'report-after-stop', info)
            # reports come in time
            per = plan['interval']
            if memory:
                starts = m['snaps'][1:]
                fin = {i: t for t, i in m['diffs']}
                prev = m['start']
                wait = 0
                for k, t in enumerate(starts):
                    check(prev + wait - 1e-3 <= t, 'report-early', lambda: f'report {k} {info()}')
                    check(t <= prev + wait + L, 'report-late', lambda: f'report {k} {info()}')
                    if k + 2 not in fin:
                        check(t + plan['slow'] + L >= stop, 'report-lost', lambda: f'report {k} {info()}')
                        prev = None
                        break
                    prev, wait = fin[k + 2], per
                if prev is not None:
                    check(prev + wait + L >= stop, 'reports-ended', info)
                want = [i for t, i in m['diffs'] if i not in plan['fail']]
                got = [next((i for i in range(2, 200) if f'{1000000 + i} ' in msg), None) for t, msg in m['reports']]
                check(got == want, 'wrong-report', lambda: f'{got} {want} {info()}')
                for t, msg in m['reports']:
                    check(msg.count('here') == svc.top_results, 'wrong-report', lambda: f'{msg}')
            else:
                prev, wait = m['start'], 0
                for k, (t, msg) in enumerate(m['reports']):
                    check(prev + wait - 1e-3 <= t, 'report-early', lambda: f'report {k} {info()}')
                    check(t <= prev + wait + L, 'report-late', lambda: f'report {k} {info()}')
                    prev, wait = t, per
                    for at, name in marked:
                        if at < t:
                            check(f'({name})' in msg, 'not-profiled', lambda: f'{name} at {at} is not in the report at {t}: {msg}')
                check(prev + wait + L >= stop, 'reports-ended', info)
                check(len(m['dumps']) == (len(m['reports']) if plan['path'] else 0), 'wrong-dump', info)
                for t, names in m['dumps']:
                    for at, name in marked:
                        check(at >= t or name in names, 'not-profiled', lambda: f'{name} at {at}: {info()}')
            if w.fault_counts:
                w.probe('nontrivial')

        loop = new_loop()
        w.on_deadlock = lambda: violate('hang', '; '.join(w.describe_threads()) + describe_tasks(loop) + info())
        w.on_limit = lambda what: violate('hang', f'{what} {describe_tasks(loop)} {info()}')
        session()
        if plan['again']:
            session()


PROP = P()
