"""Shared helpers for the property workloads."""
import asyncio
import os

from dst import world
from dst.world import Violation

STRESS = os.environ.get('DST_STRESS')       # soundness tests of the checks: as many stalls as possible


def violate(cls, msg):
    """End the run here: code under test must not be able to swallow the report."""
    world.W.finish_violation(Violation(cls, msg))


def check(cond, cls, msg):
    if not cond:
        violate(cls, msg() if callable(msg) else msg)


def sched_async(rng):
    """Scheduling noise for single-threaded event-loop workloads."""
    s = dict(t0=rng.choice((100, 1000, 54321)), hash=rng.randrange(1 << 30))
    mode = rng.choice(('quiet', 'jitter', 'stall', 'both'))
    if mode in ('jitter', 'both'):
        s['jitter'] = 1
    if mode in ('stall', 'both'):
        s['loopstall'] = rng.choice((0.002, 0.01, 0.05))
    return s


def sched_threads(rng):
    """Scheduling policy for workloads with several threads."""
    s = sched_async(rng)
    s['gap'] = rng.choice((0, 2, 4, 8, 20, 60, 200, 600))
    if s['gap'] and rng.random() < 0.5:
        s['stall'] = rng.choice((0.05, 0.2, 0.5))
        s['stall_max'] = rng.choice((0.001, 0.05, 1.0))
    s['pick'] = rng.choice((0.0, 0.2, 0.6, 1.0))
    if rng.random() < 0.3:
        s['max_preempt'] = rng.choice((1, 2, 3, 5))
    if STRESS:
        s.update(gap=rng.choice((2, 4, 8, 20)), stall=0.5, stall_max=1.0, loopstall=0.05, jitter=1)
        s.pop('max_preempt', None)
    return s


def slack(plan, w):
    """Legal lateness (s) accumulated by injected stalls so far, plus scheduling noise."""
    f = w.fault_counts
    return (0.005 + 0.0603 * f.get('loop-stall', 0) + 0.0205 * f.get('timer-late', 0)
            + w.steps * 2e-7 + w.handles * 2e-6 + w.loop_iters * 2e-6)


def lag(plan, w):
    """slack() plus every thread stall injected so far."""
    return slack(plan, w) + w.stall_total


def new_loop():
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    return loop


def run_async(w, main, hang_cls='hang', hang_msg=None):
    """Run main() to completion on a fresh simulated loop.

    A deadlock (nothing runnable, no timer pending) or an exhausted step budget
    is reported as hang_cls: something awaited can never complete.
    """
    loop = new_loop()

    def stuck(*a):
        raise Violation(hang_cls, (hang_msg() if callable(hang_msg) else hang_msg) or
                        'the run can never complete: ' + '; '.join(w.describe_threads()) + ' '
                        + describe_tasks(loop))
    w.on_deadlock = stuck
    if w.on_limit is None:
        w.on_limit = lambda what: violate('no-progress', f'{what} budget exhausted: ' + describe_tasks(loop))
    return loop.run_until_complete(main())


def describe_tasks(loop):
    out = []
    for t in sorted(asyncio.all_tasks(loop), key=lambda t: t.get_name()):
        c = t.get_coro()
        out.append(f'{t.get_name()}:{getattr(c, "__qualname__", c)}')
    return 'tasks=' + ','.join(out[:12])


class Outcome:
    """How an awaited call ended."""
    __slots__ = ('kind', 'value', 'at')

    def __init__(self, kind, value, at):
        self.kind, self.value, self.at = kind, value, at

    def __repr__(self):
        return f'{self.kind}({self.value!r})@{self.at:.4f}'


async def heartbeat(w, plan, info=lambda: '', step=0.05):
    """The loop stays responsive: nothing but injected delays holds it up."""
    while True:
        t = w.elapsed()
        await asyncio.sleep(step)
        late = w.elapsed() - t - step
        if late > lag(plan, w) + 0.01:
            violate('loop-blocked', f'the loop was blocked for {late:.3f} s {info()}')


async def settle(secs=0.0):
    """Faults stop: sleep, then let everything that is ready run (a stall may make timers and wake-ups due at once)."""
    w = world.W
    w.calm += 1
    try:
        await asyncio.sleep(secs + max(0, w.stall_until - w.now) / 1e9)
        for _ in range(30):
            await asyncio.sleep(0)
    finally:
        w.calm -= 1


async def calm_wait(aws, timeout):
    """asyncio.wait() while no new stalls happen."""
    w = world.W
    w.calm += 1
    try:
        return await asyncio.wait(aws, timeout=timeout + max(0, w.stall_until - w.now) / 1e9)
    finally:
        w.calm -= 1


async def outcome(w, aw):
    try:
        r = await aw
        return Outcome('ok', r, w.elapsed())
    except asyncio.CancelledError as e:
        return Outcome('cancelled', e, w.elapsed())
    except Violation:
        raise
    except BaseException as e:
        return Outcome('exc', e, w.elapsed())


def grid(rng, hi, step):
    return round(rng.randrange(int(hi / step) + 1) * step, 6)


def schedule_cancel(w, loop, task, op, name):
    """Fault: cancel `task` at op['cancel_at'] (s) or before loop callback op['cancel_step']."""
    def go():
        if not task.done():
            w.fault('cancel')
            w.trace('cancel', name)
            task.cancel()
    if op.get('cancel_at') is not None:
        loop.call_later(max(0, op['cancel_at'] - w.elapsed()), go)
    if op.get('cancel_step') is not None:
        w.at_handle(w.handles + op['cancel_step'], go)


def maybe_cancel(rng, op, p, horizon, steps=60, step=0.05):
    if rng.random() < p:
        if rng.random() < 0.5:
            op['cancel_at'] = round(op.get('t', 0) + grid(rng, horizon, step), 6)
        else:
            op['cancel_step'] = rng.randrange(1, steps)
    return op
