"""Builds and tries planted bugs (development tool; no check uses it).

seed.py make SPEC.py...   spec: BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]; writes ../seeded/<id>/
seed.py try [ID...]       clean demo, patched demo, then the property's quick check on the patched copy
seed.py tests [ID...]     stable tests on the patched copies, 4 at a time
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=1200):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def copy(tag):
    d = f'/tmp/seedtree.{tag}'
    shutil.rmtree(d, ignore_errors=True)
    sh(f'cp -a {os.environ.get("SEED_REPO", "/repo")} {d}')
    sh('git checkout -q -- .', d)
    return d


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        d = copy('make.' + b['id'])
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times:', old[:60])
                ok = False
            open(p, 'w').write(s.replace(old, new))
        if ok:
            out = os.path.join(SEEDED, b['id'])
            os.makedirs(out, exist_ok=True)
            patch = sh('git diff', d)[1]
            open(out + '/patch.diff', 'w').write(patch)
            open(out + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            open(out + '/demo.sh', 'w').write('#!/bin/sh\n# run in /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                              'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
            print('made', b['id'])
        shutil.rmtree(d)


def ids(args):
    return args or sorted(os.listdir(SEEDED))


def one(i, jobs=8):
    prop = json.load(open(f'{SEEDED}/{i}/meta.json'))['property']
    rc, out = sh('git apply --check ' + f'{SEEDED}/{i}/patch.diff', os.environ.get('SEED_REPO', '/repo'))
    if rc:
        return f'{i} {prop}: PATCH DOES NOT APPLY'
    d = copy(i)
    env = dict(PYTHONPATH=d)
    c, co = sh(f'sh {SEEDED}/{i}/demo.sh', d, env)
    sh(f'git apply {SEEDED}/{i}/patch.diff', d)
    m, mo = sh(f'sh {SEEDED}/{i}/demo.sh', d, env)
    k, ko = sh(f'python3 {HERE}/check.py {prop} --tier quick', HERE, dict(DST_REPO=d, VERIF_SEED='1', DST_JOBS=str(jobs)))
    shutil.rmtree(d)
    v = [l for l in ko.splitlines() if l.startswith('VIOLATION')]
    bad = '' if c == 0 and m != 0 else f' BAD DEMO clean={c} patched={m}\n{co[-600:]}\n{mo[-600:]}'
    return f'{i} {prop}: demo {c}/{m} check {k} {"CAUGHT" if k == 1 and v else "MISSED"} {ko.strip().splitlines()[-1][:150]}{bad}'


def tests(i):
    d = copy('t.' + i)
    sh(f'git apply {SEEDED}/{i}/patch.diff', d)
    env = dict(PYTHONPATH=d, HOME='/root', LANG='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    rep = f'/tmp/seedrep.{i}'
    os.makedirs(rep, exist_ok=True)
    for name, rest in (('tests', '--doctest-modules --ignore=tests/test_cron.py tests'), ('docs', 'docs/source')):
        sh(f'timeout 740 {PY} -m pytest -q -p no:cacheprovider --timeout=60 --aiomisc-test-timeout=60 --continue-on-collection-errors '
           f'-o junit_family=xunit2 --junitxml={rep}/{name}.xml {rest}', d, env, 900)
    sh(f'{PY} /opt/vp/results.py {rep}/out.json "junit:{rep}/*.xml"', d)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    try:
        r = json.load(open(f'{rep}/out.json'))
    except Exception as e:
        return f'{i}: no results {e}'
    finally:
        shutil.rmtree(d)
        shutil.rmtree(rep)
    passed = set(r['passed']) if isinstance(r.get('passed'), list) else {k for k, v in r.items() if v in ('passed', True)}
    broken = [b for b in base if b not in passed]
    return f'{i}: stable tests broken {len(broken)} {broken[:3]}'


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for a in args:
            make(a)
    elif cmd == 'try':
        for i in ids(args):
            r = one(i)
            print(r, flush=True)
            f = os.path.join(HERE, 'tools/results.json')
            res = json.load(open(f)) if os.path.exists(f) else {}
            res[i] = 'caught' if ' CAUGHT ' in r else 'missed'
            json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
    else:
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(tests, ids(args)):
                print(r, flush=True)
