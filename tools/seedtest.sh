#!/bin/bash
# seedtest.sh ID...: for each planted bug: demo passes unpatched; with the patch it builds, passes the stable tests,
# the demo fails, and the property's check reports it. Leaves /repo as it was.
cd /repo; [ -n "$(git status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  D=$(mktemp -d /tmp/sd.XXXX); cp -a $S/. $D/
  bash $D/demo.sh >$D/o0 2>&1; a=$?
  git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >$D/b 2>&1; b=$?
  t=skip; [ -z "$NOTEST" ] && { bash /opt/vp/test.sh $D/t.json >/dev/null 2>&1; t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$D/t.json'))
m=set(b['stable'])-set(t['passed']);print(len(m),list(m)[:3])"); }
  bash $D/demo.sh >$D/o1 2>&1; c=$?
  (cd /verif; python3 check.py $P >$D/c 2>&1); k=$?
  git checkout -q -- .
  echo "$id ($P): demo0=$a build=$b tests-missing=$t demo1=$c check=$k $(grep -m1 -B1 VIOL $D/c | head -1 | cut -c1-200)"
  [[ "$a$b$k" != 001 || $c == 0 ]] && { tail -3 $D/o1 | cut -c1-300; tail -3 $D/c| cut -c1-400; }
  rm -rf $D
done
