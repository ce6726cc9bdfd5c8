#!/bin/bash
# try.sh [ids...]: run each planted bug's check against /repo with the bug applied; undo afterwards
cd "$(dirname "$0")/../.." || exit 1
export VERIF_SEED=1 VERIF_TIER=quick
ids=${*:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "NOAPPLY $i"; continue; }
  t=$(date +%s)
  o=$(timeout 900 ./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$o" | grep -m1 "VIOLATION property=$p")
  if [ $rc -eq 1 ] && [ -n "$v" ]; then r=CAUGHT; else r=MISSED; fi
  echo "$r $i rc=$rc $(( $(date +%s) - t ))s $(echo "$o" | grep -A2 -m1 VIOLATION | tr '\n' ' ' | cut -c1-260)"
done
