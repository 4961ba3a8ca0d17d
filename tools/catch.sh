#!/bin/bash
# catch.sh [ID ...]: apply each planted bug to /repo, run its property's quick check, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  t0=$(date +%s)
  VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3-vt check.py $p quick > /tmp/catch.$d.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(($(date +%s)-t0))s $(grep -m1 VIOLATION /tmp/catch.$d.out)"
done
