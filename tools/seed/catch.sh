#!/bin/bash
# catch.sh ids... : run each bug's own check against it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 timeout 900 python3 tools/check.py ${P:-$p} quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -m1 VIOLATION | cut -c1-220) $( [ $rc = 0 ] && echo MISSED; [ $rc = 2 ] && echo "$out" | tail -3)"
done
