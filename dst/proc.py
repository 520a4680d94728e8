"""Signals and processes.

A simulated process is one simulated thread (its main thread) with its own pid,
signal dispositions, stdin, atexit list, sockets and fresh copies of the
modules of the worker package.  It runs the real code.  fork() is faithful: the
child runs the program of its parent from the start, with every recorded result
(bytes of stdin, pids, wait statuses) played back, up to the point of the fork.
A killed process never runs again: its thread is parked, its descriptors are
closed by the kernel and its parent can reap it.
"""
import sys
import types

from . import world
from .world import real, DONE, BLOCKED

FRESH = ('aiomisc_worker',)     # packages whose submodules are private to each process
_codes = {}
_mains = {}


class SigState:
    def __init__(self):
        self.handlers = {}


class Proc:
    def __init__(self, w, parent, name):
        w.next_pid += 1
        self.pid = w.next_pid
        self.parent = parent            # None: the application process
        self.name = name
        self.threads = []
        self.sig = SigState()
        self.stdin = None
        self.atexit = []
        self.status = None              # wait status once dead
        self.reaped = False
        self.waiters = []
        self.waiters_children = []
        self.on_exit = []
        self.starting = True            # the interpreter is not up yet: signals have their default action
        self.log = []
        self.play = None
        self.entry = None
        self.mem = {}
        w.procs[self.pid] = self
        if w.proc_hook is not None:
            w.proc_hook(self)

    @property
    def replaying(self):
        return self.play is not None

    def record(self, kind, fn):
        if self.play is None:
            try:
                res = fn()
            except OSError as e:
                self.log.append((kind, None, e))
                raise
            self.log.append((kind, res, None))
            return res
        if not self.play:
            world.W.finish('error', cls='harness-error', msg=f'replay of a forked process ran past its fork: {kind}')
        k, res, exc = self.play.pop(0)
        if k != kind:
            world.W.finish('error', cls='harness-error', msg=f'replay of a forked process diverged: {k} != {kind}')
        if exc is not None:
            raise exc
        return res


class Pipe:
    """Standard input of a process."""

    def __init__(self):
        self.buf = bytearray()
        self.wclosed = False
        self.rclosed = False
        self.waiters = []

    def notify(self):
        w = world.W
        for t in self.waiters:
            w.wake(t)
        self.waiters.clear()


class PipeWriter:
    def __init__(self, pipe):
        self.pipe = pipe
        self.pend = b''
        self.closed = False

    def write(self, data):
        if self.closed:
            raise ValueError('write to closed file')
        self.pend += bytes(data)
        if len(self.pend) > 8192:
            self.flush()
        return len(data)

    def flush(self):
        world.W.yield_point('pipe')
        if self.pend and self.pipe.rclosed:
            self.pend = b''
            raise BrokenPipeError(32, 'Broken pipe')
        self.pipe.buf += self.pend
        self.pend = b''
        self.pipe.notify()

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self.pipe.wclosed = True
            self.pipe.notify()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class StdinBuffer:
    def read(self, size=-1):
        w = world.W
        p = w.current.proc
        if p is None:
            return b''
        return p.record('stdin', lambda: self._read(p, size))

    @staticmethod
    def _read(p, size):
        w = world.W
        pipe = p.stdin
        if pipe is None or pipe.rclosed:
            raise ValueError('read of closed file')
        while not pipe.wclosed and (size < 0 or len(pipe.buf) < size):
            pipe.waiters.append(w.current)
            w.block(None, 'stdin')
        if size < 0:
            size = len(pipe.buf)
        data = bytes(pipe.buf[:size])
        del pipe.buf[:size]
        return data

    def close(self):
        StdinProxy.close(None)


class StdinProxy:
    buffer = StdinBuffer()
    closed = False

    def close(self):
        p = world.W.current.proc if world.W is not None else None
        if p is not None and p.stdin is not None:
            p.stdin.rclosed = True

    def fileno(self):
        return 0

    def isatty(self):
        return False


# ---------------------------------------------------------------- fresh modules
def compile_fresh():
    """Compile the sources of the process-private modules once (in the parent of all runs)."""
    import ast
    import os
    repo = os.environ.get('DST_REPO', '/repo')
    for pkg in FRESH:
        d = os.path.join(repo, pkg)
        for f in sorted(os.listdir(d)):
            if f.endswith('.py') and f != '__init__.py':
                path = os.path.join(d, f)
                with open(path, 'rb') as fp:
                    src = fp.read()
                _codes[f'{pkg}.{f[:-3]}'] = (compile(src, path, 'exec', dont_inherit=True), path)
                tree = ast.parse(src)
                tail = [n for n in tree.body if isinstance(n, ast.If) and '__name__' in ast.dump(n.test)]
                head = [n for n in tree.body if n not in tail]
                _mains[f'{pkg}.{f[:-3]}'] = tuple(compile(ast.Module(body=b, type_ignores=[]), path, 'exec', dont_inherit=True)
                                                  for b in (head, tail)) + (path,)
    return [c for c, _ in _codes.values()]


class _Finder:
    """Serves the private modules of the process being created from the compiled sources."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        w = world.W
        if name not in _codes or w is None or w.current.proc is None:
            return None
        import importlib.util
        return importlib.util.spec_from_loader(name, _Finder, origin=_codes[name][1])

    @staticmethod
    def create_module(spec):
        return None

    @staticmethod
    def exec_module(m):
        m.__file__ = _codes[m.__spec__.name][1]
        exec(_codes[m.__spec__.name][0], m.__dict__)


def run_module(name):
    """python -m name, in the current simulated process."""
    pkg = name if name in FRESH else name.rpartition('.')[0]
    head, tail, path = _mains[name + '.__main__' if name in FRESH else name]
    saved = {k: sys.modules.pop(k) for k in list(sys.modules) if k.rpartition('.')[0] in FRESH}
    g = types.ModuleType('__main__').__dict__
    g.update(__file__=path, __package__=pkg)
    w = world.W
    w.kernel += 1
    try:
        exec(head, g)           # imports, with modules private to this process
    finally:
        w.kernel -= 1
        for k in [k for k in sys.modules if k.rpartition('.')[0] in FRESH]:
            del sys.modules[k]
        for k, m in saved.items():
            sys.modules[k] = m
            setattr(sys.modules[pkg], k.rpartition('.')[2], m)
    exec(tail, g)               # if __name__ == '__main__': ...


# ---------------------------------------------------------------- life of a process
def start_process(w, proc, target):
    """Start the main thread of a new process."""
    t = w.new_thread(proc.name)
    t.proc = proc
    proc.threads.append(t)
    proc.entry = target

    def boot():
        import signal
        t.gate.acquire()
        w.enter(t)
        status = None
        try:
            try:
                if proc.starting:
                    w.sleep((0.02, 0.05, 0.2, 1.0)[w.choose('startup', 4, 0.5)])
                    proc.starting = False
                    w.enter(t)
                target()
                status = 0
            except SystemExit as e:
                c = e.code
                status = 0 if c is None else (c & 0xff) << 8 if isinstance(c, int) else 1 << 8
            except KeyboardInterrupt:
                status = int(signal.SIGINT)
            except BaseException as e:
                import traceback
                w.trace('proc-crash', proc.name, type(e).__name__, traceback.format_exc())
                status = 1 << 8
            if proc.play is not None:
                w.finish('error', cls='harness-error', msg='a forked process ended before its fork was replayed')
            while proc.atexit:
                f, a, k = proc.atexit.pop()
                try:
                    f(*a, **k)
                except BaseException as e:
                    w.trace('atexit-crash', proc.name, type(e).__name__)
        except BaseException as e:              # a signal which arrived while ending
            w.trace('proc-crash', proc.name, type(e).__name__)
            status = status or 1 << 8
        w.proc_exit(proc, status)

    t.state = world.RUN
    w.runq.append(t)
    real.start_new_thread(boot, ())
    return proc


class Popen:
    def __init__(self, args, stdin=None, env=None, **kw):
        w = world.W
        assert args[1] == '-m' and not kw, (args, kw)
        w.yield_point('popen')
        if w.popen_hook is not None:
            w.popen_hook(args)
        p = Proc(w, w.current.proc, 'proc:' + args[2])
        self._p = p
        self.pid = p.pid
        self.args = args
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None
        if stdin is not None:
            p.stdin = Pipe()
            self.stdin = PipeWriter(p.stdin)
        start_process(w, p, lambda: run_module(args[2]))
        w.yield_point('popen')

    def poll(self):
        world.W.yield_point('poll')
        if self.returncode is None and self._p.status is not None:
            self._p.reaped = True
            s = self._p.status
            self.returncode = -(s & 0x7f) if s & 0x7f else s >> 8
        return self.returncode

    def wait(self, timeout=None):
        w = world.W
        if not w.wait_exit(self._p, timeout):
            import subprocess
            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def send_signal(self, sig):
        self.poll()
        if self.returncode is None:
            world.W.kill(self.pid, sig)

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None:
            if input:
                self.stdin.write(input)
            self.stdin.close()
        self.wait(timeout)
        return None, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.stdin is not None:
            self.stdin.close()
        self.wait()


# ---------------------------------------------------------------- multiprocessing
class MPEvent:
    """multiprocessing.Event: operations are atomic, waiters in any process."""

    def __init__(self, ctx=None):
        self._flag = False
        self._waiters = []

    def is_set(self):
        world.W.yield_point('mp-event')
        return self._flag

    def set(self):
        w = world.W
        w.yield_point('mp-event')
        self._flag = True
        for t in self._waiters:
            w.wake(t)
        self._waiters.clear()

    def clear(self):
        world.W.yield_point('mp-event')
        self._flag = False

    def wait(self, timeout=None):
        w = world.W
        w.yield_point('mp-event')
        deadline = None if timeout is None else w.now + int(timeout * 1e9)
        while not self._flag:
            left = None
            if deadline is not None:
                left = (deadline - w.now) / 1e9
                if left <= 0:
                    break
            me = w.current
            self._waiters.append(me)
            try:
                w.block(left, 'mp-event')
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        return self._flag


def _inherited(*a):
    """A handler which a forked child inherited: it acts on the child's copy of the memory."""
    world.W.fault('inherited-signal-handler')


class MPProcess:
    """multiprocessing.Process forked from the application (memory is shared: the harness must not care)."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name = name or 'Process'
        self.daemon = bool(daemon)
        self._p = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        import signal
        w = world.W
        assert self._p is None, 'cannot start a process twice'
        assert w.current.proc is None, 'not simulated: process started by a child process'
        w.yield_point('fork')
        if w.fork_hook is not None:
            w.fork_hook(None)
        p = self._p = Proc(w, None, 'mp:' + str(self.name))
        p.starting = False
        for sig, h in w.sigstate().handlers.items():
            std = h in (signal.SIG_DFL, signal.SIG_IGN, signal.default_int_handler) or h is None
            p.sig.handlers[sig] = h if std else _inherited

        def target():
            status = 0
            try:
                w.sleep((0, 0.001, 0.02, 0.2)[w.choose('startup', 4, 0.5)])
                self.run()
            except SystemExit as e:
                c = e.code
                status = 0 if c is None else c if isinstance(c, int) else 1
            except BaseException:
                status = 1
            end = w.now + int(p.mem.get('linger', 0) * 1e9)
            while w.now < end:
                try:
                    w.sleep((end - w.now) / 1e9)
                except BaseException:
                    status = 1
            raise SystemExit(status)

        start_process(w, p, target)
        w.yield_point('fork')

    @property
    def pid(self):
        return self._p.pid if self._p is not None else None

    ident = pid

    @property
    def exitcode(self):
        if self._p is None or self._p.status is None:
            return None
        self._p.reaped = True
        s = self._p.status
        return -(s & 0x7f) if s & 0x7f else s >> 8

    def is_alive(self):
        if self._p is None:
            return False
        world.W.yield_point('is_alive')
        return self.exitcode is None

    def join(self, timeout=None):
        w = world.W
        assert self._p is not None, 'can only join a started process'
        w.wait_exit(self._p, timeout)
        self.exitcode

    def kill(self):
        if self.is_alive():
            world.W.kill(self.pid, 9)

    def terminate(self):
        if self.is_alive():
            world.W.kill(self.pid, 15)

    def close(self):
        if self.is_alive():
            raise ValueError('Cannot close a process while it is still running.')


# ---------------------------------------------------------------- world methods
def _default(proc, sig):
    import signal
    sig = int(sig)
    if proc is not None and proc.starting:
        return signal.SIG_DFL
    return signal.default_int_handler if sig == int(signal.SIGINT) else signal.SIG_DFL


def _sigstate(self):
    p = self.current.proc
    if p is not None:
        return p.sig
    if self._main_sig is None:
        self._main_sig = SigState()
    return self._main_sig


def _kill(self, pid, sig):
    import signal
    if not self.kernel:
        self.yield_point('kill')
    p = self.procs.get(pid)
    sig = int(sig)
    if pid == 10:
        self.deliver_signal(sig)
        return
    if p is None or p.reaped:
        raise ProcessLookupError(3, 'No such process')
    if self.kill_hook is not None:
        self.kill_hook(p, sig)
    if p.status is not None or sig == 0:
        return
    h = p.sig.handlers.get(sig, _default(p, sig))
    self.trace('kill', p.name, sig)
    if sig == int(signal.SIGKILL) or h == signal.SIG_DFL:
        if sig in (int(signal.SIGCHLD), int(signal.SIGWINCH)):
            return
        self.proc_exit(p, sig)
        return
    if h == signal.SIG_IGN:
        return
    t = p.threads[0]

    def run():
        f = p.sig.handlers.get(sig, _default(p, sig))
        if callable(f):
            f(sig, None)
    run.sig = sig
    if any(getattr(f, 'sig', None) == sig for f in t.pending or ()):
        self.fault('signals-coalesced')
        return
    t.pending = (t.pending or []) + [run]
    self.wake(t)
    if t is self.current and not self.kernel:
        self.yield_point('signal')


def _proc_exit(self, p, status):
    """The end of a process, however it came; does not return in a thread of that process."""
    me = self.current
    if p.status is None:
        self.kernel += 1
        try:
            p.status = status
            self.trace('exit', p.name, status)
            for s in list(self.net.fds.values()):
                if s._proc is p:
                    s.close()
            if p.stdin is not None:
                p.stdin.rclosed = True
            for t in p.threads:
                t.state = DONE
                t.pending = None
                if t in self.runq:
                    self.runq.remove(t)
            for c in self.procs.values():
                if c.parent is p:
                    c.parent = 'init'
                    if c.status is not None:
                        c.reaped = True
            if p.parent == 'init':
                p.reaped = True
            for t in p.waiters:
                self.wake(t)
            p.waiters.clear()
            if isinstance(p.parent, Proc):
                for t in p.parent.waiters_children:
                    self.wake(t)
                p.parent.waiters_children.clear()
            for f in p.on_exit:
                f()
        finally:
            self.kernel -= 1
    if me in p.threads and not self.kernel:
        self.park(me)


def _park(self, me):
    """The current thread is dead: run the others, never return."""
    self.exit_thread(me)
    l = real.allocate_lock()
    l.acquire()
    l.acquire()


def _enter(self, t):
    """Hand over to a thread just released for the first time."""
    if t.state is DONE:
        self.park(t)


def _wait_exit(self, p, timeout=None):
    deadline = None if timeout is None else self.now + int(timeout * 1e9)
    while p.status is None:
        left = None
        if deadline is not None:
            left = (deadline - self.now) / 1e9
            if left <= 0:
                return False
        p.waiters.append(self.current)
        self.block(left, 'waitpid')
        if self.current in p.waiters:
            p.waiters.remove(self.current)
    return True


def _getpid(self):
    p = self.current.proc
    return 10 if p is None else p.pid


def _deliver_main(self, sig):
    """Deliver a signal to the main (application) thread."""
    st = self._main_sig or SigState()
    h = st.handlers.get(int(sig))
    self.fault('signal')
    if callable(h):
        main = self.threads[0]
        main.pending = (main.pending or []) + [lambda: h(int(sig), None)]
        self.wake(main)
        return True
    return False


def _fork():
    w = world.W
    p = w.current.proc
    if p is None:
        raise RuntimeError('fork of the application process is not simulated')
    if p.play is not None and not p.play:
        # this is the child: the replay ends here
        p.play = None
        p.log.append(('fork', 0, None))
        w.kernel -= 1
        p.starting = False
        w.yield_point('fork')
        return 0

    def do():
        w.yield_point('fork')
        if w.fork_hook is not None:
            w.fork_hook(p)
        c = Proc(w, p, f'{p.name}+')
        c.log = list(p.log)
        c.play = list(p.log)
        c.starting = False
        c.mem = dict(p.mem)
        c.stdin = p.stdin
        c.sig.handlers = dict(p.sig.handlers)
        entry = p.entry

        def child():
            w.kernel += 1
            entry()

        start_process(w, c, child)
        c.entry = entry
        c.name = f'{p.name}{c.pid}'
        return c.pid
    pid = p.record('fork', do)
    if not p.replaying:
        w.yield_point('forked')
    return pid


def _wait_any():
    w = world.W
    p = w.current.proc

    def do():
        w.yield_point('wait')
        while True:
            kids = [c for c in w.procs.values() if c.parent is p and not c.reaped]
            if not kids:
                raise ChildProcessError(10, 'No child processes')
            dead = [c for c in kids if c.status is not None]
            if dead:
                c = dead[w.choose('wait', len(dead), 0.5)]
                c.reaped = True
                return c.pid, c.status
            p.waiters_children.append(w.current)
            w.block(None, 'wait')
            if w.current in p.waiters_children:
                p.waiters_children.remove(w.current)
    return p.record('wait', do)


def _waitpid(pid, options):
    import os
    w = world.W
    p = w.current.proc
    if pid == -1 and not options:
        return _wait_any()
    c = w.procs.get(pid)
    if c is None or c.reaped or c.parent is not p:
        raise ChildProcessError(10, 'No child processes')

    def do():
        if options & os.WNOHANG:
            w.yield_point('waitpid')
            if c.status is None:
                return 0, 0
        else:
            w.wait_exit(c)
        c.reaped = True
        return c.pid, c.status
    return p.record('wait', do) if p is not None else do()


def install(os, signal):
    import atexit
    import builtins
    import subprocess

    def state():
        w = world.W
        if w is None:
            return None
        return w.sigstate()

    def cur():
        w = world.W
        return w.current.proc if w is not None else None

    def sim_signal(sig, handler):
        st = state()
        if st is None:
            return signal.SIG_DFL
        w = world.W
        if w.current.tid != 0 and w.current.proc is None:
            raise ValueError('signal only works in main thread of the main interpreter')
        old = st.handlers.get(int(sig), _default(cur(), sig))
        st.handlers[int(sig)] = handler
        return old

    def sim_getsignal(sig):
        st = state()
        if st is None:
            return _default(None, sig)
        return st.handlers.get(int(sig), _default(cur(), sig))

    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
    signal.set_wakeup_fd = lambda fd, **k: -1
    signal.siginterrupt = lambda *a: None

    def kill(pid, sig):
        w = world.W
        if w is None:
            raise RuntimeError('kill outside a simulated run')
        return w.kill(pid, sig)

    os.kill = kill
    os.killpg = lambda *a: (_ for _ in ()).throw(PermissionError('killpg'))

    def getpid():
        w = world.W
        return 10 if w is None else w.getpid()

    os.getpid = getpid
    real.waitpid = os.waitpid
    os.fork = _fork
    os.wait = _wait_any
    os.waitpid = _waitpid

    def _exit(code):
        p = cur()
        if p is None:
            world.W.finish('violation', cls='process-exit', msg=f'os._exit({code}) in the application process')
        world.W.proc_exit(p, (code & 0xff) << 8)

    os._exit = _exit
    subprocess.Popen = Popen
    import multiprocessing
    import multiprocessing.synchronize
    multiprocessing.Process, multiprocessing.Event = MPProcess, MPEvent
    real.stdin = sys.stdin
    sys.stdin = StdinProxy()
    sys.executable = sys.executable or '/usr/bin/python3'
    if not hasattr(builtins, 'exit'):
        def exit(code=None):
            raise SystemExit(code)
        builtins.exit = builtins.quit = exit

    _register, _unregister = atexit.register, atexit.unregister

    def register(f, *a, **k):
        p = cur()
        if p is None:
            return _register(f, *a, **k)
        p.atexit.append((f, a, k))
        return f

    def unregister(f):
        p = cur()
        if p is None:
            return _unregister(f)
        p.atexit[:] = [x for x in p.atexit if x[0] != f]

    atexit.register, atexit.unregister = register, unregister
    sys.meta_path.insert(0, _Finder)


def install_logging(logging):
    """Log calls of simulated processes go nowhere (their stderr is not part of the simulation)."""
    is_enabled = logging.Logger.isEnabledFor
    basic = logging.basicConfig

    def isEnabledFor(self, level):
        w = world.W
        if w is not None and w.current.proc is not None:
            return False
        return is_enabled(self, level)

    def basicConfig(**kw):
        w = world.W
        if w is not None and w.current.proc is not None:
            return
        return basic(**kw)

    logging.Logger.isEnabledFor = isEnabledFor
    logging.basicConfig = basicConfig


W = world.World
W.sigstate = _sigstate
W.kill = _kill
W.getpid = _getpid
W._main_sig = None
W.deliver_signal = _deliver_main
W.proc_exit = _proc_exit
W.park = _park
W.enter = _enter
W.wait_exit = _wait_exit
W.popen_hook = None
W.kill_hook = None
W.fork_hook = None
W.proc_hook = None


def wrap_basic_config():
    """Simulated processes do not configure the logging of the application."""
    import aiomisc_log
    orig = aiomisc_log.basic_config

    def basic_config(*a, **k):
        w = world.W
        if w is not None and w.current.proc is not None:
            return None
        return orig(*a, **k)

    for name, m in list(sys.modules.items()):
        if name.split('.')[0] in ('aiomisc', 'aiomisc_log') and vars(m).get('basic_config') is orig:
            m.basic_config = basic_config
