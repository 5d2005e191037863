#!/bin/bash
# catch.sh [ids...]: apply each planted bug of /verif/seeded to /repo, run its property's quick check, undo
cd /verif || exit 1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "repo dirty"; exit 1; }
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  t0=$(date +%s); out=$(python3-vt check.py $prop quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep VIOLATION | head -1)"
done
