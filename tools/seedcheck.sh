#!/bin/bash
# seedcheck.sh [ID...]: runs the quick check of each planted bug's property with the bug applied to /repo, undoing it afterwards
cd /verif; [ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
  s=$(date +%s); timeout 900 ./check.sh $p quick > /tmp/seedcheck.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/seedcheck.$id.log)
  [ $rc -eq 1 ] && [ $v -gt 0 ] && r=CAUGHT || r="MISSED(rc=$rc)"
  echo "$id $p $r $(( $(date +%s)-s ))s $(grep -m1 'case:' /tmp/seedcheck.$id.log)"
done
