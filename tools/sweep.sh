#!/bin/bash
# applies each seeded bug (args: names; default all) to /repo, runs the check of its property, undoes it
cd /verif/seeded
for d in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  (cd /verif && timeout 900 python3 check.py $p > /tmp/sweep.$d.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c '^VIOLATION' /tmp/sweep.$d.log) viol $(( $(date +%s) - s ))s $(tail -1 /tmp/sweep.$d.log | cut -c1-150)"
done
