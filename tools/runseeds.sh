#!/bin/bash
# runseeds.sh [-a] ids...: runs the check of each planted bug's property on a copy of /repo with the bug (dev helper)
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p > /tmp/rs.out 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s $(grep -m1 VIOLATION /tmp/rs.out)"
  cp /tmp/rs.out /tmp/rs-$id.out
done
