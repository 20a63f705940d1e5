#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property (or those in
# $CHECKS) against /repo with the bug applied, and undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); out=$(timeout 900 ./run.sh $c 2>/tmp/catch.err); rc=$?
    echo "$id check $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
