#!/bin/bash
# sens.sh [id ...]: applies each planted bug to /repo in turn, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.."
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -3
done
