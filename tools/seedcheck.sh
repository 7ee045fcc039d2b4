#!/bin/bash
# usage: seedcheck.sh [seed ids]   applies each planted bug, runs the check of
# its property, undoes the bug.  (runs against a scratch copy of /repo is not
# possible because checks read /repo)
cd /verif
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply seeded/$id/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLYFAIL"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -a VIOLATION | head -1)"
done
