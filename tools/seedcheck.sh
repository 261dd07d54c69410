#!/bin/bash
# seedcheck.sh [ID...]: quick checks against planted bugs (applied to /repo, undone)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 timeout 900 python3 run.py $p > /tmp/sc.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sc.out | cut -c1-150)"
done
