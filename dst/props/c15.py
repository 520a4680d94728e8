import asyncio
import gc
import logging
import threading
import time

from .common import *


class P:
    ID = 'C15'
    LISTS = ('emits', 'targets', 'unhandled')
    REAL = ['aiomisc.log.ThreadedHandler', 'aiomisc.log.basic_config', 'logging', 'threading', 'queue']
    STUB = ['target handlers', 'clock', 'thread scheduler']
    RULE = ('records logged from the loop and from other threads through a ThreadedHandler (buffered or not, bounded or '
            'not) or basic_config with several handlers, towards targets that are slow, blocked for a while or raising; '
            'flush() and close() at seeded instants; threads preempted and stalled; non-trivial: a target was slow or '
            'raised, or a preemption happened')

    def gen(self, rng, tier):
        n = rng.choice((1, 3, 6, 12, 25))
        emits = [dict(t=grid(rng, rng.choice((0, 0.3, 1)), 0.05), thr=rng.choice((0, 0, 1, 2)), flush=rng.random() < 0.1)
                 for _ in range(n)]
        targets = [dict(d=rng.choice((0, 0, 0, 0.01, 0.2, 0.7)), o=rng.choice(('ok', 'ok', 'ok', 'raise'))) for _ in range(n)]
        return dict(emits=emits, targets=targets, n=rng.choice((1, 1, 2)), interval=rng.choice((0.05, 0.1, 0.2)),
                    buffered=rng.choice((1, 1, 0)), size=rng.choice((0, 0, 0, 2, 5)), how=rng.choice(('handler', 'handler', 'basic', 'basic', 'wrap')),
                    unhandled=[dict(t=grid(rng, 1, 0.05), kind=rng.choice(('callback', 'task', 'future'))) for _ in range(rng.choice((0, 0, 1, 3)))],
                    close=rng.choice(('at-end', 'at-end', 'quiet', 'none')), sched=sched_threads(rng))

    def run(self, w, plan):
        from aiomisc.log import ThreadedHandler, basic_config
        got = {h: [] for h in range(plan['n'])}
        sent = []
        blocked = []

        loose = {h: [] for h in range(plan['n'])}
        logged_at = {}
        seen = {h: 0 for h in range(plan['n'])}       # whatever went through the buffer

        class Loose(Exception):
            pass

        class Target(logging.Handler):
            def __init__(self, h):
                super().__init__()
                self.h = h
                self.k = 0
                self.free = 0

            def emit(self, record):
                seen[self.h] += 1
                if record.exc_info and isinstance(record.exc_info[1], Loose):
                    check(threading.get_ident() not in lthreads, 'handled-in-caller', 'the target handler ran in a logging thread')
                    loose[self.h].append(record.exc_info[1].args[0])
                    return
                if not isinstance(record.msg, tuple):
                    return
                s = plan['targets'][self.k] if self.k < len(plan['targets']) else dict(d=0, o='ok')
                self.k += 1
                check(threading.get_ident() not in lthreads, 'handled-in-caller', 'the target handler ran in a logging thread')
                got[self.h].append(record.msg)
                w.trace('handled', self.h, record.msg)
                late = w.elapsed() - max(self.free, logged_at[record.msg])
                check(late <= 2 * plan['interval'] + 0.05 + lag(plan, w), 'record-late', lambda: f'{record.msg} reached the target {late:.3f} s after it was '
                      f'logged and the target was idle; flush interval {plan["interval"]}')
                if s['d']:
                    w.fault('slow-target')
                    time.sleep(s['d'])
                self.free = w.elapsed()
                if s['o'] == 'raise':
                    w.fault('target-raises')
                    raise RuntimeError('target')

        lthreads = {1}
        logger = logging.getLogger('sim')
        logger.setLevel(logging.INFO)
        plist = {0: [], 1: [], 2: []}
        for i, e in enumerate(plan['emits']):
            plist[e['thr']].append((e['t'], i, e['flush']))
        for l in plist.values():
            l.sort()

        def noise():
            f = w.fault_counts
            return 0.0603 * f.get('loop-stall', 0) + 0.0205 * f.get('timer-late', 0)

        def emitter(thr, sleep):
            lthreads.add(threading.get_ident())
            for t, i, fl in plist[thr]:
                if t > w.elapsed():
                    yield t - w.elapsed()
                t0, f0, su, n0 = w.now, w.fault_counts.get('thread-stall', 0), w.stall_until, noise()
                if fl:
                    for h in handlers:
                        h.flush()
                sent.append((thr, i))
                logged_at[thr, i] = w.elapsed()
                try:
                    logger.info((thr, i))
                except Exception as e:
                    violate('logging-raised', f'log call {i} raised {e!r}')
                took = (w.now - t0) / 1e9
                w.trace('logged', i)
                if (plan['buffered'] or not plan['size']) and w.fault_counts.get('thread-stall', 0) == f0 and su <= t0:
                    check(took <= 0.02 + noise() - n0, 'caller-blocked', f'log call {i} took {took:.3f}s of simulated time although no thread '
                                                          f'was stalled: {w.describe_threads()}')
            lthreads.discard(threading.get_ident()) if thr else None

        def thread(thr):
            for s in emitter(thr, time.sleep):
                time.sleep(s)

        handlers = []
        loop = new_loop()

        def fail(k):
            raise Loose(k)

        async def afail(k):
            raise Loose(k)

        async def unhandled(k, op):
            await asyncio.sleep(op['t'])
            w.fault('unhandled-exception')
            if op['kind'] == 'callback':
                loop.call_soon(fail, k)
            elif op['kind'] == 'task':
                asyncio.ensure_future(afail(k))
            else:
                loop.create_future().set_exception(Loose(k))

        async def main():
            un = [asyncio.ensure_future(unhandled(k, op)) for k, op in enumerate(plan.get('unhandled', ())) if plan['how'] == 'basic']
            ths = [threading.Thread(target=thread, args=(k,)) for k in (1, 2) if plist[k]]
            for t in ths:
                t.start()
            for s in emitter(0, None):
                await asyncio.sleep(s)
            while any(t.is_alive() for t in ths):
                await asyncio.sleep(0.05)
            if plan['close'] == 'quiet':
                await settle(sum(s['d'] for s in plan['targets']) * plan['n'] + 3)
            if un:
                await asyncio.wait(un)
                await settle(1)
                gc.collect()        # an exception nobody retrieved is reported when its task is collected
            if plan['close'] != 'none' and plan['how'] != 'basic':
                for h in handlers:
                    h.close()
                w.fault('close')
            await settle(sum(s['d'] for s in plan['targets']) * 2 + 20)

        targets = [Target(h) for h in range(plan['n'])]
        logger.handlers.clear()
        logger.propagate = plan['how'] == 'basic'
        nthr = len(w.threads)
        if plan['how'] == 'wrap':
            plan['buffered'] = 1
        if plan['how'] != 'basic':
            for t in targets:
                if plan['how'] == 'wrap':
                    import warnings
                    from aiomisc.log import wrap_logging_handler
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        h = wrap_logging_handler(t, buffer_size=plan['size'], flush_interval=plan['interval'], loop=loop)
                else:
                    h = ThreadedHandler(t, flush_interval=plan['interval'], buffered=bool(plan['buffered']), queue_size=plan['size'])
                    h.start()
                handlers.append(h)
                logger.addHandler(h)
        else:
            basic_config(level='info', log_format='disabled', buffered=bool(plan['buffered']), buffer_size=plan['size'],
                         flush_interval=plan['interval'], loop=loop, handlers=targets)
        w.on_deadlock = lambda: violate('hang', f'{w.describe_threads()}')
        loop.run_until_complete(main())
        check(not w.thread_crashes, 'thread-crashed', str(w.thread_crashes))
        if plan['close'] != 'none' and plan['how'] != 'basic':
            left = [t.name for t in w.threads[nthr:] if t.state != 'done']
            check(not left, 'thread-left', f'threads {left} still run after close()')
        elif plan['how'] == 'basic':
            want = list(range(len(plan.get('unhandled', ()))))
            for h in loose if not (plan['size'] and plan['buffered']) else ():
                check(sorted(loose[h]) == want, 'unhandled-lost', f'handler {h} got unhandled exceptions {loose[h]} of {want}')
        bounded = plan['size'] and plan['buffered']
        for h in range(plan['n']):
            if not bounded:
                check(sorted(got[h]) == sorted(sent), 'records-lost', f'handler {h} got {got[h]}, sent {sent}')
            else:
                check(len(set(got[h])) == len(got[h]) and set(got[h]) <= set(sent), 'records-duplicated', f'{got[h]}')
                check(seen[h] >= min(len(sent), plan['size']), 'records-lost', f'{got[h]} of {sent}')
            for thr in (0, 1, 2):
                mine = [m for m in got[h] if m[0] == thr]
                order = [m for m in sent if m[0] == thr and m in mine]
                check(mine == order, 'records-reordered', f'handler {h} thread {thr}: {mine} sent as {order}')
        if w.fault_counts:
            w.probe('nontrivial')


PROP = P()
