#!/bin/bash
# try_bug.sh ID [extra properties]: confirms a planted bug in a scratch copy of /repo, then runs the
# check of its property against it.
d=/verif/seeded/$1; id=$1; shift
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo is dirty"; exit 1; }
bash $d/demo.sh >/tmp/demo.ok 2>&1; echo "demo on the unchanged tree: $?"
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/demo.bad 2>&1; echo "demo with the patch: $? $(tail -1 /tmp/demo.bad | cut -c1-150)"
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/try.build 2>&1 || echo "BUILD FAILS"; bash /opt/vp/test.sh /tmp/try.json | tail -1; fi
cd /verif
for p in $prop $*; do
  VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p > /tmp/try.check.$p 2>&1; rc=$?
  echo "check $p: rc=$rc $(grep -m1 VIOLATION /tmp/try.check.$p) $(grep -m1 -i 'class\|violation at\|runs in' /tmp/try.check.$p | cut -c1-200)"
done
