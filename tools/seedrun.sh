#!/bin/bash
# seedrun.sh ID...: runs the check of each planted bug's property against /repo with the bug applied, then undoes it.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} python3 /verif/bin/check $p ${TIER:-quick} >/tmp/seedrun.out 2>/tmp/seedrun.err; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-t0))s $(grep -c ^VIOLATION /tmp/seedrun.out) $(grep -h disagreement /tmp/seedrun.err | head -1 | cut -c1-200)"
done
