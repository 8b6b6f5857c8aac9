#!/bin/bash
# try_seeded.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it. Developer tool.
cd /verif/seeded
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id $p DOES-NOT-APPLY"; continue; }
  s=$(date +%s)
  o=$(timeout 900 /verif/check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep -c "VIOLATION property=$p") $(echo "$o" | grep -B1 -m1 'VIOLATION' | head -1 | cut -c1-150)"
done
