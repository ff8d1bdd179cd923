#!/bin/bash
# runbugs.sh [IDs]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p > /tmp/bug_$b.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -E '^VIOLATION' /tmp/bug_$b.log) $(grep -E '^failing input' /tmp/bug_$b.log | cut -c1-160) $(grep -E 'failed obligation:|outside reach:' /tmp/bug_$b.log | head -1 | cut -c1-200)"
done
