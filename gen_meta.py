"""Writes properties.jsonl and MANIFEST.json from catalog.py (run by hand; results are committed)."""
import json
import os

from catalog import CATALOG, NOT_APPLICABLE

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'deterministic simulation with fault injection: seeded schedule and fault search'
props, checks = [], []
for c in sorted(CATALOG, key=lambda c: c['id']):
    assert len(c['title']) <= 80, (c['id'], len(c['title']))
    props.append(dict(
        id=c['id'], title=c['title'], statement=c['statement'],
        quantifier=dict(over=c['over'], text=c['quant']), why_tests_cant=c['why'],
        anchors=dict(files=c['files'], mechanism=[dict(name=a, where=b) for a, b in c['mech']],
                     observe_at=c['observe'], hook_needed=None)))
    checks.append(dict(
        property=c['id'], quick_cmd=f'python3 check.py {c["id"]} --tier quick',
        thorough_cmd=f'python3 check.py {c["id"]} --tier thorough',
        technique=TECH, level='exploration',
        level_note='Seeded search over simulated executions of the real code; not exhaustive. ' + (c['note'] or
                   'Trusts the simulator (clock, threads, sockets, event-loop selector) and CPython\'s pure-Python asyncio.')))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd='python3 -m compileall -q check.py dst', checks=checks,
           hooks=dict(guard='AIOMISC_DST', enable='no hooks are needed: every seam is installed from outside by dst/boot.py', source_commits=[]),
           not_applicable=NOT_APPLICABLE)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


def section(text, name, end, body):
    a, b = text.index(f'<!-- {name} -->') + len(f'<!-- {name} -->'), text.index(f'<!-- {end} -->')
    return text[:a] + '\n' + body + '\n' + text[b:]


import importlib
import sys
sys.path.insert(0, HERE)
body = []
for c in sorted(CATALOG, key=lambda c: c['id']):
    P = importlib.import_module('dst.props.' + c['id'].lower()).PROP
    body.append(f"### {c['id']} {c['title']}\n\n{c['statement']}\n\n*Explored:* {P.RULE}. *Quantified over:* {c['quant']}.\n\n"
                f"*Oracle:* {c['design']}\n\n*Why not tests:* {c['why']}\n\n*Real:* {', '.join(P.REAL)}. *Stub:* {', '.join(P.STUB)}. "
                f"*Runs:* quick {getattr(P, 'RUNS', (12000, 250000))[0]}, thorough up to {getattr(P, 'RUNS', (12000, 250000))[1]}.\n")
body.append('### Not applicable\n\n' + ('\n'.join(f"* {n['property']}: {n['reason']}" for n in NOT_APPLICABLE) or '(none listed)') + '\n')
d = open(os.path.join(HERE, 'DESIGN.md')).read()
d = section(d, 'generated', 'end', '\n'.join(body))
rows = []
sd = os.path.join(HERE, 'seeded')
try:
    res = json.load(open(os.path.join(HERE, 'tools/results.json')))
except OSError:
    res = {}
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    rows.append(f"* `{i}` ({m['property']}, {res.get(i, 'not yet tried')}): {m['what_it_breaks']}; needs {m['needs']}")
d = section(d, 'seeded', 'endseeded', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
ids = {c['id'] for c in CATALOG}
mods = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'dst/props')) if f.startswith('c') and f[1].isdigit()}
print(len(ids), 'properties; without module:', sorted(ids - mods), 'modules without entry:', sorted(mods - ids))
