#!/bin/bash
# catch.sh id... : applies each planted bug to /repo and runs its property's check
cd /verif
for b in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  [ -n "$CHK" ] && P=$CHK
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b APPLY FAILED"; continue; }
  for p in $P; do
  timeout 850 python3 check.py $p > /tmp/plant/$b.$p.log 2>&1; rc=$?
  echo "$b $p rc=$rc $(grep -m1 -E '^check |CHECK-ERROR|held' /tmp/plant/$b.$p.log | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
