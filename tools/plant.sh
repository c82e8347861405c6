#!/bin/bash
# plant.sh NAME : takes /repo's uncommitted change as seeded/NAME/patch.diff when
# it is given with -s, then validates: builds, stable tests pass, demo 0 on the
# clean tree and nonzero with the patch, and runs the property's quick check.
set -u
V=/verif
if [ "$1" = -s ]; then
  N=$2; mkdir -p $V/seeded/$N
  git -C /repo diff > $V/seeded/$N/patch.diff
  git -C /repo checkout -- .
else N=$1; fi
D=$V/seeded/$N
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash /opt/vp/build.sh > /tmp/plant-build.log 2>&1
T=$(mktemp -d); cp $D/demo* $T/ 2>/dev/null; rm -f $T/*.diff
(cd /repo && timeout 300 bash $T/demo.sh > /tmp/plant-demo0.log 2>&1); r0=$?
git -C /repo apply $D/patch.diff || { echo "$N: patch does not apply"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/plant-build.log 2>&1 || { echo "$N: BUILD FAILS"; tail -20 /tmp/plant-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant-out.json > /tmp/plant-test.log 2>&1
m=$(python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant-out.json'))
print(sorted(set(b['stable'])-set(o['passed']))[:5])
Q
)
(cd /repo && timeout 300 bash $T/demo.sh > /tmp/plant-demo1.log 2>&1); r1=$?
rm -rf "$T"
s=$(date +%s)
(cd $V && VERIF_SEED=1 python3 check.py $P > /tmp/plant-check.log 2>&1); c=$?
echo "$N: property=$P tests_lost=$m demo_clean=$r0 demo_patched=$r1 check_exit=$c $(grep -m1 'key:' /tmp/plant-check.log) $(($(date +%s)-s))s"
