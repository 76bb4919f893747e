#!/bin/bash
# trybug.sh ID...: applies each planted change to /repo, runs the quick check of its property, undoes it.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  t=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 check.py $p quick > /tmp/trybug.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id: rc=$rc $(( $(date +%s) - t ))s $(grep -m1 VIOLATION /tmp/trybug.log) $(grep -m1 -iE 'key|message|failed' /tmp/trybug.log | cut -c1-200)"
done
