"""The event loop: asyncio's own selector loop over the simulated selector.

Only _run_once gets bookkeeping: a per-iteration CPU cost, hooks that inject
faults at the n-th iteration, and a step limit.
"""
import asyncio
import asyncio.events
import asyncio.unix_events
import heapq

from . import world
from .net import SimSelector


class SimEventLoop(asyncio.unix_events._UnixSelectorEventLoop):
    def __init__(self, selector=None):
        super().__init__(selector or SimSelector())
        self._selector.loop = self
        w = world.W
        w.loops.append(self)
        self.slow_callback_duration = 1e9

    def __del__(self, *a):
        pass


def install():
    asyncio.unix_events._UnixDefaultEventLoopPolicy._loop_factory = SimEventLoop
    asyncio.SelectorEventLoop = SimEventLoop
    asyncio.unix_events.SelectorEventLoop = SimEventLoop
    # faults inserted at the n-th handle executed by any loop
    real_run = asyncio.events.Handle._run

    def _run(self):
        w = world.W
        if w is not None:
            w.handles += 1
            w.now += 1000
            hs = w.handle_faults
            if hs and hs[0][0] <= w.handles:
                while hs and hs[0][0] <= w.handles:
                    _, _, fn = heapq.heappop(hs)
                    fn()
                if self._cancelled:
                    return
        real_run(self)

    asyncio.events.Handle._run = _run
    asyncio.Handle._run = _run


def on_iteration(self, sel):
    self.loop_iters += 1
    if self.loop_iters > self.max_iters:
        self._limit('loop-iterations')
    if self.p_loopstall and self.choose('loopstall', 4, self.p_loopstall) and not self.calm:
        c = self.made.get(f'loopstall#{self.stream_n["loopstall"] - 1}', 0)
        self.now += (0, 200000, 5000000, 60000000)[c % 4]
        self.fault('loop-stall')
    for inv in self.invariants:
        inv()


def at_handle(self, n, fn):
    """Call fn just before the n-th event-loop callback of the run."""
    self.seq += 1
    heapq.heappush(self.handle_faults, (n, self.seq, fn))


world.World.on_iteration = on_iteration
world.World.at_handle = at_handle
world.World.p_loopstall = 0.0
