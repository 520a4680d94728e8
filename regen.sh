#!/bin/sh
# Regenerate and validate properties.jsonl, MANIFEST.json (and the generated part of DESIGN.md).
cd "$(dirname "$0")" && python3 gen_meta.py && python3-vt - <<'PY'
import json,jsonschema
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
print('valid')
PY
