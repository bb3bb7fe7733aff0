#!/bin/bash
# Developer aid: tools/seeds.sh [id...]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  t=$(date +%s); out=$(VERIF_SEED=1 python3 run.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep VIOLATION | head -1 | cut -c1-160)"
  [ $rc = 1 ] || echo "$out" | tail -5
done
