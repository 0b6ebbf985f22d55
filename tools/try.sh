#!/bin/bash
# Runs the check of each planted bug against it: tools/try.sh [ID-prefix...]
cd /verif
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for d in seeded/*; do
  id=$(basename $d); [ -n "$1" ] && ! printf '%s\n' "$@" | grep -q "^${id%%-*}$" && continue
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); timeout 900 ./check $p quick > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/try.out) $(grep -m1 UNCONFIRMED /tmp/try.out)"
done
