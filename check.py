#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--runs N] [--replay FILE] ...

Deterministic-simulation check of one property against /repo's working tree.
"""
import argparse
import hashlib
import json
import os
import queue
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('DST_PYTHON', '/opt/venv/bin/python')
if not os.path.exists(PY):
    PY = sys.executable


def site():
    v = os.path.dirname(os.path.dirname(PY))
    lib = os.path.join(v, 'lib')
    for d in sorted(os.listdir(lib)) if os.path.isdir(lib) else ():
        p = os.path.join(lib, d, 'site-packages')
        if os.path.isdir(p):
            return p
    import sysconfig
    return sysconfig.get_paths()['purelib']


SITE = site()


class Worker:
    def __init__(self, prop, hashseed='0', wall=30):
        env = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': hashseed, 'DST_SITE': SITE,
               'DST_REPO': os.environ.get('DST_REPO', '/repo'), 'PYTHONDONTWRITEBYTECODE': '1',
               'LANG': 'C.UTF-8', 'DST_WALL': str(wall), 'HOME': '/nonexistent', 'DST_VERIF': HERE}
        for k in ('DST_STDERR', 'DST_FH'):
            if os.environ.get(k):
                env[k] = os.environ[k]
        self.p = subprocess.Popen([PY, '-S', os.path.join(HERE, 'dst', 'worker.py'), prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=HERE, text=True)
        self.hello = None
        self.lock = threading.Lock()

    def ready(self):
        if self.hello is None:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError('worker failed to start')
            self.hello = json.loads(line)
        return self.hello

    def call(self, msg):
        with self.lock:
            self.ready()
            self.p.stdin.write(json.dumps(msg) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('worker died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()


class Pool:
    def __init__(self, prop, n, wall):
        self.workers = [Worker(prop, wall=wall) for _ in range(n)]

    def map(self, jobs, on_result, stop=lambda: False):
        """jobs: iterable of messages; on_result(msg, result)."""
        it = iter(jobs)
        lock = threading.Lock()
        errors = []

        def loop(wk):
            try:
                while not stop():
                    with lock:
                        msg = next(it, None)
                    if msg is None:
                        return
                    r = wk.call(msg)
                    with lock:
                        on_result(msg, r)
            except Exception as e:
                errors.append(e)
        ts = [threading.Thread(target=loop, args=(wk,)) for wk in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]

    def many(self, plans):
        out = [None] * len(plans)

        def on(msg, r):
            out[msg['id']] = r['res']
        self.map([dict(id=i, plan=p, choices=c) for i, (p, c) in enumerate(plans)], on)
        return out

    def close(self):
        for wk in self.workers:
            wk.close()


# ------------------------------------------------------------------ minimise
def minimise(pool, plan, choices, cls, lists, budget):
    t0 = time.monotonic()
    tried = 0

    def ok(r):
        return r['status'] == 'violation' and r['cls'] == cls

    def attempt(cands):
        nonlocal tried
        for i in range(0, len(cands), 16):
            part = cands[i:i + 16]
            if time.monotonic() - t0 > budget:
                return None
            tried += len(part)
            res = pool.many(part)
            for (p, c), r in zip(part, res):
                if ok(r):
                    return p, r['choices']
        return None

    cur = (plan, choices)
    base = pool.many([cur])[0]
    if not ok(base):
        return None, base, tried
    cur = (plan, base['choices'])
    # all scheduling noise off at once?
    r = attempt([(plan, {})])
    if r:
        cur = r
    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for key in lists:
            lst = cur[0].get(key)
            if not isinstance(lst, list) or not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                lst = cur[0][key]
                cands = []
                for i in range(0, len(lst), size):
                    p = dict(cur[0])
                    p[key] = lst[:i] + lst[i + size:]
                    cands.append((p, cur[1]))
                r = attempt(cands) if cands else None
                if r:
                    cur = r
                    changed = True
                    size = min(size, max(1, len(cur[0][key]) // 2))
                    if not cur[0][key]:
                        break
                else:
                    size //= 2
        ch = cur[1]
        if ch:
            keys = list(ch)
            size = max(1, len(keys) // 2)
            while size >= 1:
                keys = list(cur[1])
                cands = []
                for i in range(0, len(keys), size):
                    drop = set(keys[i:i + size])
                    cands.append((cur[0], {k: v for k, v in cur[1].items() if k not in drop}))
                r = attempt(cands) if cands else None
                if r and len(r[1]) < len(cur[1]):
                    cur = r
                    changed = True
                    size = min(size, max(1, len(cur[1]) // 2))
                    if not cur[1]:
                        break
                else:
                    size //= 2
        # drop optional fields of list elements (cancellations, failures ...)
        for key in lists:
            lst = cur[0].get(key)
            if not isinstance(lst, list):
                continue
            for i, el in enumerate(list(lst)):
                if not isinstance(el, dict):
                    continue
                for f in [f for f in el if f.startswith('cancel') or f in ('o', 'fault', 'stall')]:
                    p = dict(cur[0])
                    l2 = [dict(x) if isinstance(x, dict) else x for x in p[key]]
                    if i >= len(l2) or f not in l2[i]:
                        continue
                    del l2[i][f]
                    p[key] = l2
                    r = attempt([(p, cur[1])])
                    if r:
                        cur = r
                        changed = True
    return cur, base, tried


def load_known():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 8))
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--one', type=int, help='run a single seed and print its trace')
    ap.add_argument('--determinism', type=int, help='run N seeds twice under different conditions')
    ap.add_argument('--stats', action='store_true')
    a = ap.parse_args()
    pid = a.prop.upper()
    if a.replay:
        return replay(pid, a)
    if a.one is not None:
        wk = Worker(pid.lower())
        r = wk.call(dict(id=0, seeds=[a.one], tier=a.tier, full=True))
        wk.close()
        run = r['viol'][0]['res'] if r['viol'] else r['runs'][0]
        if r['viol']:
            print(json.dumps(r['viol'][0]['plan'], indent=None))
        for ev in run.pop('trace', []):
            print(ev)
        print(json.dumps(run, indent=1))
        return 0
    if a.determinism:
        return determinism(pid, a)
    return explore(pid, a)


def determinism(pid, a):
    """Run the same seeds in separate worker processes, under other hash seeds and batch orders."""
    seeds = [a.seed * 10000000 + i for i in range(a.determinism)]
    digests = []
    for k, hs in enumerate(('0', '1', '4242', 'random')):
        wks = [Worker(pid.lower(), hs) for _ in range((8, 3, 5, 8)[k])]
        res = {}
        order = seeds if k % 2 == 0 else seeds[::-1]
        ts = []

        def go(wk, part):
            for s in range(0, len(part), 10):
                for r in wk.call(dict(id=0, seeds=part[s:s + 10], tier=a.tier))['runs']:
                    res[r['seed']] = r.get('digest', r['status'])
        for i, wk in enumerate(wks):
            t = threading.Thread(target=go, args=(wk, order[i::len(wks)]))
            t.start()
            ts.append(t)
        for t in ts:
            t.join()
        for wk in wks:
            wk.close()
        digests.append(res)
    bad = [s for s in seeds if len({d.get(s) for d in digests}) != 1]
    print(f'{pid}: determinism {len(seeds)} seeds x {len(digests)} configurations, {len(bad)} diverged {bad[:10]}')
    return 1 if bad else 0


def replay(pid, a):
    rep = json.load(open(a.replay))
    wk = Worker(pid.lower())
    r = wk.call(dict(id=0, plan=rep['plan'], choices=rep['choices']))['res']
    wk.close()
    if a.trace:
        for ev in r.get('trace', []):
            print(ev)
    same = r['status'] == 'violation' and r['cls'] == rep['cls']
    print(f"replay {a.replay}: status={r['status']} class={r.get('cls')} "
          f"digest={'same' if r.get('digest') == rep.get('digest') else 'DIFFERENT'}")
    if r.get('msg'):
        print(r['msg'])
    if r['status'] == 'violation':
        print(f'VIOLATION property={pid} replay={a.replay}')
    return 1 if r['status'] == 'violation' else (0 if r['status'] == 'ok' else 2)


def explore(pid, a):
    t0 = time.monotonic()
    tier = a.tier
    pool = Pool(pid.lower(), a.jobs, 30)
    try:
        meta = pool.workers[0].ready()['meta']
    except RuntimeError as e:
        print(f'check error: {e}', file=sys.stderr)
        return 2
    n = a.runs or meta['runs'][0 if tier == 'quick' else 1]
    budget = a.budget or (meta.get('budget', [60, 600])[0 if tier == 'quick' else 1])
    batch = meta.get('batch', 20)
    agg = dict(runs=0, sim=0.0, steps=0, switches=0, faults={}, probes={}, errors=0, nontrivial=0)
    sigs = set()
    nt_sigs = set()
    samples = []
    viols = []
    errors = []
    known = [k for k in load_known() if k['property'] == pid and not k.get('fixed')]
    known_hits = {}
    detlist = []
    stop_flag = []

    def known_of(v):
        for k in known:
            if v['res'].get('cls') == k['class'] and all(s in v['res'].get('msg', '') for s in k.get('contains', [])):
                return k
        return None

    def jobs():
        i = 0
        jid = 0
        while i < n:
            if time.monotonic() - t0 > budget:
                return
            yield dict(id=jid, seeds=[a.seed * 10000000 + j for j in range(i, min(n, i + batch))], tier=tier)
            i += batch
            jid += 1

    def on(msg, r):
        for run in r['runs']:
            agg['runs'] += 1
            if run['status'] == 'error':
                continue
            agg['sim'] += run['sim']
            agg['steps'] += run['steps']
            agg['switches'] += run['switches']
            for k, v in run['faults'].items():
                agg['faults'][k] = agg['faults'].get(k, 0) + v
            for k, v in run['probes'].items():
                agg['probes'][k] = agg['probes'].get(k, 0) + 1
            sigs.add(run['sig'])
            if run['probes'].get('nontrivial'):
                nt_sigs.add(run['sig'])
            if len(detlist) < meta.get('det', 24) and run['seed'] % 7 == 0:
                detlist.append((run['seed'], run.get('digest')))
        for v in r['viol']:
            if v['res']['status'] == 'error':
                errors.append(v)
                if len(errors) > 20:
                    stop_flag.append(1)
            else:
                k = known_of(v)
                if k is not None:
                    known_hits.setdefault(k['id'], []).append(v)
                else:
                    viols.append(v)
                    if len(viols) >= 3:
                        stop_flag.append(1)

    try:
        pool.map(jobs(), on, lambda: bool(stop_flag))
    except RuntimeError as e:
        print(f'check error: {e}', file=sys.stderr)
        return 2
    wall_search = time.monotonic() - t0
    # determinism sample: same seeds, fresh process, other hash seed
    det_bad = 0
    if detlist and not viols and not errors:
        wk = Worker(pid.lower(), '4242', meta.get('wall', 30))
        r = wk.call(dict(id=0, seeds=[s for s, _ in detlist], tier=tier))
        wk.close()
        got = {x['seed']: x.get('digest') for x in r['runs']}
        det_bad = sum(1 for s, d in detlist if got.get(s) != d)
    # one sample run in full
    if not viols:
        r = pool.workers[0].call(dict(id=0, seeds=[a.seed * 10000000], tier=tier, full=True))
        run = r['viol'][0]['res'] if r['viol'] else r['runs'][0]
        samples.append(dict(seed=a.seed * 10000000, status=run['status'], sim_s=run.get('sim'),
                            faults=run.get('faults'), trace=run.get('trace', [])[:60]))
    rc = 0
    out_viol = []
    if viols:
        seen = set()
        for v in sorted(viols, key=lambda v: len(json.dumps(v['plan'])))[:3]:
            cls = v['res']['cls']
            if cls in seen:
                continue
            seen.add(cls)
            cur, base, tried = (None, None, 0)
            if not a.no_min and cls != 'spin':
                cur, base, tried = minimise(pool, v['plan'], v['res']['choices'], cls, meta.get('lists', []),
                                            meta.get('min_budget', 40))
            plan, choices = cur or (v['plan'], v['res']['choices'])
            wk = Worker(pid.lower(), '77', meta.get('wall', 30))
            final = wk.call(dict(id=0, plan=plan, choices=choices))['res']
            again = wk.call(dict(id=0, plan=plan, choices=choices))['res']
            wk.close()
            if final['status'] != 'violation' or final.get('digest') != again.get('digest'):
                # fall back to the unminimised run
                plan, choices = v['plan'], v['res']['choices']
                final = pool.many([(plan, choices)])[0]
            os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
            path = os.path.join(HERE, 'replays', f'{pid}-{v["plan"]["seed"]}.json')
            json.dump(dict(property=pid, cls=cls, msg=final.get('msg') or v['res']['msg'], seed=v['plan']['seed'],
                           plan=plan, choices=choices, digest=final.get('digest'),
                           original_choices=len(v['res']['choices'] or ()), minimise_runs=tried,
                           reproduced=final['status'] == 'violation', trace=final.get('trace')),
                      open(path, 'w'), indent=1)
            print(f'{pid} seed={v["plan"]["seed"]} class={cls}: {v["res"]["msg"][:600]}')
            print(f'  minimised: {len(json.dumps(plan))} bytes of plan, {len(choices or ())} non-default choices '
                  f'({tried} runs); replay reproduces: {final["status"] == "violation"}')
            out_viol.append((cls, path))
        for cls, path in out_viol:
            print(f'VIOLATION property={pid} replay={path}')
        rc = 1
    elif errors:
        for v in errors[:3]:
            print(f'{pid} harness error seed={v["plan"]["seed"]}: {v["res"].get("cls")} {v["res"].get("msg")}',
                  file=sys.stderr)
        rc = 2
    elif det_bad:
        # the verdicts stand (every violation is replayed on its own); recorded in the evidence
        print(f'{pid}: note: {det_bad} of {len(detlist)} re-executed runs diverged', file=sys.stderr)
    for kid, vs in sorted(known_hits.items()):
        k = next(k for k in known if k['id'] == kid)
        print(f'KNOWN-FINDING: property={pid} {k["what"]} ({len(vs)} runs, e.g. seed {vs[0]["plan"]["seed"]})')
    for k in known:
        if k['id'] not in known_hits:
            # demonstrate the listed finding from its committed plan
            print(f'KNOWN-FINDING: property={pid} {k["what"]} (not hit in this run)')
    pool.close()
    wall = time.monotonic() - t0
    ev = dict(property=pid, tier=tier, seed=a.seed, level=meta.get('level', 'exploration'),
              coverage=dict(
                  evaluations=agg['runs'], distinct_nontrivial=len(nt_sigs), rule=meta['rule'],
                  samples=samples,
                  distinct_histories=len(sigs),
                  runs_per_hour=int(agg['runs'] / max(wall_search, 1e-9) * 3600),
                  simulated_seconds=round(agg['sim'], 3), scheduler_steps=agg['steps'],
                  context_switches=agg['switches'], faults_injected=agg['faults'],
                  probes_runs_hit=agg['probes'], seed_range=[a.seed * 10000000, a.seed * 10000000 + agg['runs'] - 1],
                  determinism_reruns=len(detlist), determinism_diverged=det_bad,
                  components_real=meta['real'], components_stub=meta['stub'],
                  known_findings_hit={k: len(v) for k, v in known_hits.items()},
                  harness_errors=len(errors)),
              assumptions=meta.get('assumptions', []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} {tier}: {agg["runs"]} runs, {len(sigs)} distinct, {agg["sim"]:.0f} simulated s, '
          f'{len(viols)} violations, {len(errors)} errors, {wall:.1f}s wall')
    if a.stats:
        print(json.dumps(dict(faults=agg['faults'], probes=agg['probes'], nt=len(nt_sigs)), indent=1))
    return rc


if __name__ == '__main__':
    sys.exit(main())
