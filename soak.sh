#!/bin/sh
# Soundness soak: every check on the current tree with many seeds.  usage: soak.sh "SEEDS" [IDS...]
cd "$(dirname "$0")"; seeds=$1; shift
ids=${*:-$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")}
for s in $seeds; do for i in $ids; do VERIF_SEED=$s timeout 900 python3 check.py $i --tier ${TIER:-quick} 2>&1 | grep -v '^#' | tail -${TAIL:-4} | sed "s/^/[$s] /"; done; done
