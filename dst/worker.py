"""Worker process: imports everything once, then forks one child per run."""
import sys
import os

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    SITE = os.environ['DST_SITE']
    if SITE not in sys.path:
        sys.path.append(SITE)

from dst import boot            # noqa: F401  (installs every seam)
from dst import world
from dst import proc as proc_mod
from dst.world import World, Violation, real

import gc
import json
import random
import select as _select
import traceback
import importlib

REPO = os.path.realpath(boot.REPO)
_poll = _select.poll


def child(prop, job, fd):
    devnull = os.open('/dev/null', os.O_RDWR)
    if not os.environ.get('DST_STDERR'):
        os.dup2(devnull, 2)
        os.dup2(devnull, 1)
    plan = strict(job['plan'])
    w = World(plan['seed'], plan.get('sched'), job.get('choices'), plan.get('limits'))
    w.want_full = bool(job.get('full'))
    w.out_fd = fd
    from dst.net import Net
    from dst.fs import FS
    world.W = w
    w.net = Net(w, plan.get('net'))
    w.fs = FS(w, plan.get('fs'))
    random.seed(f'rand:{plan["seed"]}')
    gc.disable()
    gc.enable = gc.disable = lambda: None           # collection would run finalizers at uncontrolled points
    w.active = True
    try:
        prop.run(w, plan)
    except Violation as v:
        w.finish_violation(v)
    except BaseException as e:
        fin_exception(w, e)
    w.finish('ok')


def fin_exception(w, e):
    tb = traceback.format_exception(e)
    last = None
    t = e.__traceback__
    while t is not None:
        f = os.path.realpath(t.tb_frame.f_code.co_filename)
        if f.startswith(REPO + os.sep):
            last = 'repo'
        elif os.sep + 'dst' + os.sep in f:
            last = 'harness' if not f.endswith(('world.py', 'net.py', 'loop.py', 'fs.py', 'proc.py')) else last
        t = t.tb_next
    if last == 'repo':
        w.finish('violation', cls='unexpected-exception:' + type(e).__name__, msg=''.join(tb[-6:]))
    w.finish('error', cls='harness-error', msg=''.join(tb[-12:]))


def run_one(prop, job, wall):
    r, wr = os.pipe()
    pid = real.fork()
    if pid == 0:
        try:
            os.close(r)
            if os.environ.get('DST_FH'):        # where does a run that never ends spend its time
                import faulthandler
                faulthandler.dump_traceback_later(float(os.environ['DST_FH']))
            child(prop, job, wr)
        except BaseException:
            try:
                os.write(wr, json.dumps(dict(status='error', cls='harness-error',
                                             msg=traceback.format_exc())).encode())
            finally:
                real._exit(4)
        real._exit(5)
    os.close(wr)
    buf = b''
    p = _poll()
    p.register(r, _select.POLLIN | _select.POLLHUP)
    deadline = real.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - real.monotonic()
        if left <= 0:
            timed_out = True
            break
        if not p.poll(left * 1000):
            continue
        chunk = os.read(r, 1 << 20)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        real.kill(pid, 9)
    _, st, ru = os.wait4(pid, 0)
    if timed_out:
        cpu = ru.ru_utime + ru.ru_stime
        if cpu > 0.7 * wall:        # runs take milliseconds: the code under test spins without a wait the simulator could see
            return dict(status='violation', cls='spin', msg=f'the run does not end: {cpu:.0f} s of processor time without a simulated step limit reached',
                        sim=0, steps=0, switches=0, faults={}, probes={}, sig='spin', digest='spin', choices=None, trace=[])
        return dict(status='error', cls='wall-timeout', msg=f'run exceeded {wall}s of wall time')
    try:
        return json.loads(buf)
    except ValueError:
        return dict(status='error', cls='child-died', msg=f'status {st}, output {buf[:300]!r}')


def instrument(prefixes, codes=()):
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, 'dst')
    seen = {}

    def on_line(code, line):
        w = world.W
        if w is not None and w.active:
            w.yield_point('line')

    mon.register_callback(tool, mon.events.LINE, on_line)

    def walk(code):
        if id(code) in seen:
            return
        seen[id(code)] = code
        mon.set_local_events(tool, code, mon.events.LINE)
        for c in code.co_consts:
            if hasattr(c, 'co_consts'):
                walk(c)

    for c in codes:
        walk(c)
    import types
    done = {}           # keeps the objects alive, for their ids

    def visit(obj, depth=0):
        if id(obj) in done or depth > 6:
            return
        done[id(obj)] = obj
        if isinstance(obj, types.FunctionType):
            f = os.path.realpath(obj.__code__.co_filename)
            if f.startswith(prefixes):
                walk(obj.__code__)
            visit(getattr(obj, '__wrapped__', None), depth + 1)
            for cell in obj.__closure__ or ():
                try:
                    visit(cell.cell_contents, depth + 1)
                except ValueError:
                    pass
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__, depth + 1)
        elif isinstance(obj, property):
            for g in (obj.fget, obj.fset, obj.fdel):
                visit(g, depth + 1)
        elif isinstance(obj, type):
            if obj.__module__ and obj.__module__.split('.')[0].startswith('aiomisc'):
                for v in list(vars(obj).values()):
                    visit(v, depth + 1)

    for name, m in list(sys.modules.items()):
        if m is not None and name.split('.')[0] in ('aiomisc', 'aiomisc_log', 'aiomisc_worker'):
            for v in list(vars(m).values()):
                visit(v)
    return len(seen)


def main():
    name = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    mod = importlib.import_module(f'dst.props.{name.lower()}')
    prop = mod.PROP
    for m in getattr(prop, 'IMPORTS', ()):      # whatever is imported later has no yield points
        importlib.import_module(m)
    import aiomisc
    assert os.path.realpath(aiomisc.__file__).startswith(REPO + os.sep), aiomisc.__file__
    import aiomisc.service.base
    proc_mod.wrap_basic_config()
    n = instrument((REPO + '/aiomisc',), proc_mod.compile_fresh())
    aiomisc.service.base.Service.__hash__ = boot._sim_hash      # sets of services: seeded order
    aiomisc.signal.set, aiomisc.signal.frozenset = boot.SimSet, boot.SimFrozenSet
    gc.collect()
    gc.freeze()
    wall = float(os.environ.get('DST_WALL', '30'))
    meta = dict(runs=getattr(prop, 'RUNS', (12000, 250000)), lists=prop.LISTS, rule=prop.RULE, real=prop.REAL,
                stub=prop.STUB, assumptions=getattr(prop, 'ASSUME', []), budget=getattr(prop, 'BUDGET', (100, 900)),
                level=getattr(prop, 'LEVEL', 'exploration'), batch=getattr(prop, 'BATCH', 20))
    out.write(json.dumps(dict(ready=True, instrumented=n, meta=meta)) + '\n')
    out.flush()
    for line in real.stdin:
        msg = json.loads(line)
        if 'seeds' in msg:
            res = dict(id=msg['id'], runs=[], viol=[])
            for seed in msg['seeds']:
                plan = make_plan(prop, seed, msg['tier'])
                r = run_one(prop, dict(plan=plan, full=msg.get('full')), wall)
                if r['status'] != 'ok':
                    res['viol'].append(dict(plan=plan, res=r))
                    r = dict(r)
                    r.pop('trace', None)
                    r.pop('choices', None)
                if not msg.get('full'):
                    r.pop('trace', None)
                    r.pop('choices', None)
                r['seed'] = seed
                res['runs'].append(r)
                if r.get('cls') in ('wall-timeout', 'spin'):
                    break
            out.write(json.dumps(res) + '\n')
        else:
            r = run_one(prop, dict(plan=msg['plan'], choices=msg.get('choices'), full=True), wall)
            out.write(json.dumps(dict(id=msg['id'], res=r)) + '\n')
        out.flush()


class Strict(dict):
    """A plan: reading a key it lacks (a minimiser may have dropped it) voids the run, even inside code which swallows errors."""

    def __missing__(self, key):
        if world.W is not None and world.W.active:
            world.W.finish('error', cls='harness-error', msg=f'the plan has no {key!r}')
        raise KeyError(key)


def strict(x):
    if isinstance(x, dict):
        return Strict({k: strict(v) for k, v in x.items()})
    if isinstance(x, list):
        return [strict(v) for v in x]
    return x


def make_plan(prop, seed, tier):
    rng = random.Random(f'{prop.ID}:{seed}')
    plan = prop.gen(rng, tier)
    plan['seed'] = seed
    return json.loads(json.dumps(plan))


if __name__ == '__main__':
    try:
        main()
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        real._exit(3)
    real._exit(0)
