#!/bin/bash
# seedrun2.sh ID...: like seedrun.sh, against a scratch clone of /repo (VERIF_REPO), so that /repo is left alone.
S=/tmp/seedrepo2; [ -d $S/.git ] || git clone -q /repo $S
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id; p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$(date +%s); VERIF_REPO=$S VERIF_WORK=/tmp/seedwork2 VERIF_SEED=${VERIF_SEED:-1} python3 /verif/bin/check $p ${TIER:-quick} >/tmp/seedrun2.out 2>/tmp/seedrun2.err; rc=$?
  git -C $S checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-t0))s $(grep -c ^VIOLATION /tmp/seedrun2.out) $(grep -h disagreement /tmp/seedrun2.err | head -1 | cut -c1-200)"
done
