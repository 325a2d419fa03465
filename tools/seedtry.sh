#!/bin/bash
# seedtry.sh ID...: confirms planted bugs in a scratch copy of /repo: applies,
# builds, keeps the stable tests passing, demo 0 without and non-zero with it.
S=/tmp/seedrepo; V=/verif
mkdir -p /tmp/seedvp
for f in build.sh test.sh; do sed -e "s#/repo#$S#g" -e "s#/opt/vp/build.sh#/tmp/seedvp/build.sh#" /opt/vp/$f > /tmp/seedvp/$f; done
if [ ! -d $S/.git ]; then git clone -q /repo $S; fi
git -C $S fetch -q /repo HEAD && git -C $S checkout -q -f FETCH_HEAD
bash /tmp/seedvp/build.sh >/tmp/seedvp/b.log 2>&1 || { echo "base build failed"; exit 1; }
for id in "$@"; do
  d=$V/seeded/$id; t=$(mktemp -d /tmp/seeddemo.XXXX); cp -a $d/. $t/; rm -f $t/patch.diff $t/meta.json
  (cd $S && bash $t/demo.sh >/tmp/seedvp/$id.base.log 2>&1); b=$?
  if ! git -C $S apply $d/patch.diff; then echo "$id: patch does not apply"; continue; fi
  if bash /tmp/seedvp/test.sh /tmp/seedvp/o.json >/tmp/seedvp/t.log 2>&1; then :; fi
  bash /tmp/seedvp/build.sh >/tmp/seedvp/b.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/seedvp/b.log; }
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedvp/o.json'))
print(sorted(set(b['stable'])-set(o['passed']))[:5])")
  (cd $S && bash $t/demo.sh >/tmp/seedvp/$id.bug.log 2>&1); p=$?
  git -C $S checkout -q -f .
  echo "$id: demo base=$b bug=$p failing-stable-tests=$m"
  rm -rf "$t"
done
bash /tmp/seedvp/build.sh >/tmp/seedvp/b.log 2>&1
