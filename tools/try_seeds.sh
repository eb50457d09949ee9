#!/bin/bash
# try_seeds.sh NAME...: run the quick check of each planted bug's property against it (in /repo, undone straight afterwards)
cd /verif
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 bin/check.py ${CHECK:-$p} > /tmp/try.$n.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' /tmp/try.$n.log) | $(grep -v '^VIOLATION' /tmp/try.$n.log | head -1 | cut -c1-220)"
done
