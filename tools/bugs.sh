#!/bin/bash
# bugs.sh [id ...]: run the property's quick check against each seeded change
cd /verif
for d in seeded/${1:-*}/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/$d/patch.diff || { echo "$id NOAPPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -1)"
done
