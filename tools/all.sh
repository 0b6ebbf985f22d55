#!/bin/bash
# all.sh [ID...]: run the quick checks on /repo and print exit codes and times
cd "$(dirname "$0")/.."
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")
for i; do
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $i quick > /tmp/all.$i 2>&1
  echo "$i rc=$? $(($(date +%s)-s))s $(grep -c ^KNOWN-FINDING /tmp/all.$i) known"
done
