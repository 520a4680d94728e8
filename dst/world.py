"""The simulated world: virtual clock, event heap, thread scheduler, choices.

Exactly one (real) thread runs at any time; every hand-over is decided here,
from the run's PRNG or from a recorded choice.  Nothing reads a real clock.
"""
import heapq
import json
import os
import random
import _thread
import hashlib


class _Real:
    pass


real = _Real()
real.allocate_lock = _thread.allocate_lock
real.start_new_thread = _thread.start_new_thread
real.get_ident = _thread.get_ident

W = None            # the active world (None outside a run)

# Seconds of thread stalls injected into a run at most: generous deadlines of the checks are never reached by stalls
MAX_STALL = float(os.environ.get('DST_MAX_STALL', 12))

RUN, BLOCKED, DONE = 'run', 'blocked', 'done'


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls = cls
        self.msg = msg


class SimThread:
    __slots__ = ('tid', 'gate', 'state', 'name', 'ycount', 'token', 'woken',
                 'sentinels', 'pending', 'daemon', 'proc', 'reason', 'nopreempt', 'where', 'nsig')

    def __init__(self, tid, name):
        self.tid = tid
        self.name = name
        self.gate = real.allocate_lock()
        self.gate.acquire()
        self.state = RUN
        self.ycount = 0
        self.token = 0
        self.woken = False
        self.sentinels = []
        self.pending = None
        self.proc = None
        self.reason = ''
        self.nopreempt = 0
        self.where = ''
        self.nsig = 0               # signals handled so far


class World:
    def __init__(self, seed, sched=None, choices=None, limits=None):
        self.seed = seed
        sched = sched or {}
        self.now = int(sched.get('t0', 1000)) * 10 ** 9
        self.t_start = self.now
        self.wall_offset = int(sched.get('wall0', 1700000000)) * 10 ** 9 - self.now
        self.heap = []
        self.seq = 0
        self.rng = random.Random(f'choices:{seed}')
        self.entropy = random.Random(f'entropy:{seed}')
        self.hash_seed = sched.get('hash', seed)
        self.hash_rng = random.Random(f'hash:{self.hash_seed}')
        self.replay = choices is not None
        self.given = choices or {}
        self.made = {}
        self.stream_n = {}
        self.threads = []
        self.runq = []              # runnable threads other than current, FIFO
        self.active = False
        self.kernel = 0
        self.steps = 0
        self.switches = 0
        self.sched_sig = hashlib.blake2b(digest_size=16)
        limits = limits or {}
        self.max_steps = limits.get('steps', 400000)
        self.max_time = limits.get('time', 100000) * 10 ** 9
        self.trace_log = []
        self.fault_counts = {}
        self.probes = {}
        self.out_fd = None
        self.finished = False
        # preemption policy
        self.p_gap = sched.get('gap', 0)        # mean yields between preemptions; 0 = never
        self.stall_total = 0.0                  # (s) injected by stalls so far
        self.calm = 0                           # >0: no new stalls (the faults have stopped)
        self.stall_until = 0                    # (ns) when the last injected thread stall ends
        self.p_stall = sched.get('stall', 0.0)  # probability that a preemption is a stall
        self.stall_max = sched.get('stall_max', 0.5)
        self.pick_rand = sched.get('pick', 0.0)  # probability of non-FIFO pick
        self.jitter = sched.get('jitter', 0)    # timer lateness class
        self.max_preempt = sched.get('max_preempt', 10 ** 9)
        self.countdown = self._gap()
        self.on_deadlock = None
        self.on_limit = None
        self.invariants = []
        t = SimThread(0, 'main')
        self.threads.append(t)
        self.current = t
        self.switch_log = []
        self.node_procs = None
        self.fs = None
        self.net = None
        self.linelog = None
        self.loops = []
        self.handles = 0
        self.handle_faults = []
        self.loop_iters = 0
        self.max_iters = limits.get('iters', 60000)
        self.p_loopstall = sched.get('loopstall', 0.0)
        self.thread_crashes = []
        self.procs = {}
        self.next_pid = 100
        self.notes = []

    # ------------------------------------------------------------ choices
    def choose(self, stream, n, p=1.0):
        """A recorded choice in range(n); 0 is the default (benign) one."""
        if n <= 1:
            return 0
        k = self.stream_n.get(stream, 0)
        self.stream_n[stream] = k + 1
        key = f'{stream}#{k}'
        if self.replay:
            v = self.given.get(key, 0) % n
        else:
            if p < 1.0 and self.rng.random() >= p:
                v = 0
            else:
                v = self.rng.randrange(n)
        if v:
            self.made[key] = v
        return v

    def _gap(self):
        if not self.p_gap:
            return 1 << 60
        g = self.p_gap
        if g <= 1:
            return 1
        return 1 + int(self.rng.expovariate(1.0 / g))

    def next_hash(self):
        return self.hash_rng.getrandbits(60)

    # ------------------------------------------------------------ log
    def trace(self, *ev):
        self.trace_log.append((self.now - self.t_start,) + ev)

    def fault(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # ------------------------------------------------------------ time
    def tick_clock(self):
        self.now += 200
        return self.now

    def mono(self):
        return self.now / 1e9

    def elapsed(self):
        return (self.now - self.t_start) / 1e9

    def at(self, when_ns, fn):
        self.seq += 1
        heapq.heappush(self.heap, (when_ns if when_ns > self.now else self.now, self.seq, fn))
        return self.seq

    def after(self, secs, fn):
        return self.at(self.now + int(secs * 1e9), fn)

    def _run_due(self):
        heap = self.heap
        while heap and heap[0][0] <= self.now:
            _, _, fn = heapq.heappop(heap)
            self.kernel += 1
            try:
                fn()
            finally:
                self.kernel -= 1

    # ------------------------------------------------------------ threads
    def new_thread(self, name):
        t = SimThread(len(self.threads), name)
        self.threads.append(t)
        return t

    def make_runnable(self, t):
        if t.state is BLOCKED:
            t.state = RUN
            self.runq.append(t)

    def wake(self, t):
        if t.state is BLOCKED:
            t.woken = True
            t.token += 1
            t.state = RUN
            self.runq.append(t)

    def _timeout_fn(self, t, token):
        def fire():
            if t.state is BLOCKED and t.token == token:
                t.token += 1
                t.woken = False
                t.state = RUN
                self.runq.append(t)
        return fire

    def block(self, timeout=None, reason=''):
        """Block the current thread; True if woken, False if timed out."""
        me = self.current
        if self.kernel:
            raise RuntimeError('block() in kernel context: ' + reason)
        me.state = BLOCKED
        me.woken = False
        me.reason = reason
        if timeout is not None:
            ns = timeout * 1e9
            ns = int(ns) + (0 if ns == int(ns) else 1)
            if self.jitter and ns > 0:
                c = self.choose('late', 6, 0.3)
                if c:
                    ns += (0, 1000, 50000, 900000, 3000000, 20000000)[c] * (self.jitter if c > 3 else 1)
                    self.fault('timer-late')
            self.at(self.now + ns, self._timeout_fn(me, me.token))
        self._dispatch(me)
        me.reason = ''
        if me.pending:
            self._deliver(me)
        return me.woken

    def _deliver(self, me):
        fn = me.pending.pop(0)
        me.nsig += 1
        fn()

    def _dispatch(self, me):
        while True:
            self._run_due()
            if self.runq:
                i = 0
                if len(self.runq) > 1 and (self.replay or self.pick_rand):
                    i = self.choose('pick', len(self.runq), self.pick_rand)
                nxt = self.runq.pop(i)
                if nxt is me:
                    return
                self._switch(me, nxt)
                return
            if not self.heap:
                self._deadlock()
            t = self.heap[0][0]
            if t > self.now:
                self.now = t
                if self.now - self.t_start > self.max_time:
                    self._limit('time')

    def _switch(self, me, nxt):
        self.switches += 1
        self.sched_sig.update(b'%d,' % nxt.tid)
        self.current = nxt
        nxt.gate.release()
        if me is not None:
            me.gate.acquire()

    def yield_point(self, kind=''):
        if self.kernel or not self.active:
            return
        me = self.current
        me.ycount += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self._limit('steps')
        self.now += 100
        if self.heap and self.heap[0][0] <= self.now:
            self._run_due()
            if me.state is DONE:            # its process was killed
                self.park(me)
        if me.pending:
            self._deliver(me)
        if me.nopreempt:
            return
        if self.replay:
            v = self.given.get(f'T{me.tid}:{me.ycount}')
            if v is None:
                return
        else:
            if not self.runq:
                if self.p_stall <= 0 or len(self.threads) == 1:
                    return
            self.countdown -= 1
            if self.countdown > 0:
                return
            self.countdown = self._gap()
            if self.max_preempt <= 0:
                return
            self.max_preempt -= 1
            if self.p_stall and self.stall_total < MAX_STALL and self.rng.random() < self.p_stall:
                v = -int(1000 * self.rng.choice((1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.2, 1.0, 3.0)) * self.stall_max * 1e6)
                v = v or -1000
            elif self.runq:
                v = 1 + self.rng.randrange(len(self.runq))
            else:
                return
        if v < 0 and self.calm:
            return
        self.made[f'T{me.tid}:{me.ycount}'] = v
        if v > 0:
            if not self.runq:
                return
            nxt = self.runq.pop((v - 1) % len(self.runq))
            self.runq.append(me)
            self.fault('preempt')
            self._switch(me, nxt)
        else:
            self.fault('thread-stall')
            self.stall_until = max(self.stall_until, self.now - v)
            self.stall_total -= v / 1e9
            me.state = BLOCKED
            me.woken = False
            me.reason = 'stall'
            token = me.token
            self.at(self.now - v, self._timeout_fn(me, token))
            self._dispatch(me)
        if me.pending:
            self._deliver(me)

    def sleep(self, secs):
        me = self.current
        if self.kernel:
            return
        deadline = self.now + int(secs * 1e9)
        self.block(secs, 'sleep')
        while self.now < deadline:          # interrupted by a handled signal (PEP 475)
            self.block((deadline - self.now) / 1e9, 'sleep')

    def exit_thread(self, me):
        me.state = DONE
        for l in me.sentinels:
            l._force_release(self)
        me.sentinels = []
        while True:
            self._run_due()
            if self.runq:
                i = 0
                if len(self.runq) > 1 and (self.replay or self.pick_rand):
                    i = self.choose('pick', len(self.runq), self.pick_rand)
                nxt = self.runq.pop(i)
                self._switch(None, nxt)
                return
            if not self.heap:
                self._deadlock()
            t = self.heap[0][0]
            if t > self.now:
                self.now = t
                if self.now - self.t_start > self.max_time:
                    self._limit('time')

    # ------------------------------------------------------------ end of run
    def describe_threads(self):
        return [f'{t.name}:{t.state}:{t.reason}' for t in self.threads if t.state is not DONE]

    def _deadlock(self):
        if self.on_deadlock is not None:
            try:
                self.on_deadlock()
            except Violation as v:
                self.finish_violation(v)
        self.finish('violation', cls='deadlock',
                    msg='no thread can run and no timer is pending: ' + '; '.join(self.describe_threads()))

    def _limit(self, what):
        if self.on_limit is not None:
            try:
                self.on_limit(what)
            except Violation as v:
                self.finish_violation(v)
        self.finish('violation', cls='no-progress',
                    msg=f'{what} limit exceeded after {self.elapsed():.3f} simulated s, {self.steps} steps: '
                        + '; '.join(self.describe_threads()))

    def finish_violation(self, v):
        self.finish('violation', cls=v.cls, msg=v.msg)

    def digest(self):
        h = hashlib.blake2b(digest_size=16)
        for ev in self.trace_log:
            h.update(repr(ev).encode())
        h.update(self.sched_sig.digest())
        h.update(str(self.now).encode())
        return h.hexdigest()

    def finish(self, status, cls=None, msg=None, **extra):
        if self.finished:
            real._exit(3)
        self.finished = True
        self.active = False
        sig = hashlib.blake2b(digest_size=8)
        for ev in self.trace_log:
            sig.update(repr(ev[1:]).encode())
        res = dict(status=status, digest=self.digest(), steps=self.steps,
                   switches=self.switches, sim=self.elapsed(), faults=self.fault_counts,
                   probes=self.probes, sig=sig.hexdigest() + self.sched_sig.hexdigest()[:16],
                   nev=len(self.trace_log), **extra)
        if cls:
            res['cls'] = cls
            res['msg'] = str(msg)[:4000]
        if status == 'violation' or self.want_full:
            res['choices'] = self.made
            res['trace'] = [list(map(_j, ev)) for ev in self.trace_log[-400:]]
        data = json.dumps(res).encode()
        fd = self.out_fd
        while data:
            n = os.write(fd, data)
            data = data[n:]
        real._exit(0)

    want_full = False


def _j(x):
    return x if isinstance(x, (int, float, str, bool, type(None))) else repr(x)


class SimLock:
    """Replaces _thread.allocate_lock(): same interface, simulated blocking."""
    __slots__ = ('_held', '_waiters', '__weakref__')

    def __init__(self):
        self._held = False
        self._waiters = None

    def acquire(self, blocking=True, timeout=-1):
        w = W
        if w is None or not w.active:
            if self._held:
                if not blocking:
                    return False
                raise RuntimeError('deadlock outside simulation')
            self._held = True
            return True
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        w.yield_point('acquire')
        if not self._held:
            self._held = True
            return True
        if not blocking or timeout == 0:
            return False
        if w.kernel:
            raise RuntimeError('lock wait in kernel context')
        me = w.current
        deadline = None if timeout is None or timeout < 0 else w.now + int(timeout * 1e9)
        if self._waiters is None:
            self._waiters = []
        while self._held:
            self._waiters.append(me)
            left = None
            if deadline is not None:
                left = (deadline - w.now) / 1e9
                if left <= 0:
                    self._waiters.remove(me)
                    return False
            ok = False
            try:
                ok = w.block(left, 'lock')
            finally:
                if not ok or me in self._waiters:
                    try:
                        self._waiters.remove(me)
                    except ValueError:
                        # woken for this lock but unwinding: pass the wake on
                        if not ok and self._waiters and not self._held:
                            w.wake(self._waiters.pop(0))
            if not ok and self._held and deadline is not None and w.now >= deadline:
                return False
        self._held = True
        return True

    def _force_release(self, w):
        self._held = False
        if self._waiters:
            w.wake(self._waiters.pop(0))

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        w = W
        if w is None or not w.active:
            return
        if self._waiters:
            i = 0
            if len(self._waiters) > 1 and (w.replay or w.pick_rand):
                i = w.choose('lockpick', len(self._waiters), w.pick_rand)
            w.wake(self._waiters.pop(i))
        w.yield_point('release')

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._held

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._held = False
        self._waiters = None

    def __repr__(self):
        return f'<{"locked" if self._held else "unlocked"} SimLock>'


def set_sentinel():
    l = SimLock()
    w = W
    if w is not None and w.active:
        w.current.sentinels.append(l)
    return l


def get_ident():
    w = W
    return 1 if w is None else w.current.tid + 1


def start_new_thread(func, args, kwargs=None):
    w = W
    if w is None or not w.active:
        raise RuntimeError('thread started outside a simulated run')
    name = getattr(getattr(func, '__self__', None), '_name', None) or getattr(func, '__name__', 'thread')
    if w.spawn_hook is not None:
        w.spawn_hook(name)
    t = w.new_thread(name)
    t.proc = w.current.proc

    def boot():
        t.gate.acquire()
        try:
            func(*args, **(kwargs or {}))
        except SystemExit:
            pass
        except BaseException as e:      # what CPython prints and swallows
            w.trace('thread-crash', t.tid, type(e).__name__)
            w.thread_crashes.append((t.name, e))
        w.exit_thread(t)

    t.state = RUN
    w.runq.append(t)
    real.start_new_thread(boot, ())
    w.yield_point('spawn')
    return t.tid + 1


World.spawn_hook = None
