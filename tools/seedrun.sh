#!/bin/bash
# runs each seeded bug's own check against it (apply, check, undo); prints one line per bug
cd /verif
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  t0=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash check.sh $p > /tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -E '^(VIOLATION|BOUNDED)' /tmp/seedrun.out | head -1 | cut -c1-160)"
done
