#!/bin/bash
# usage: plant.sh ID PROPERTY [CHECK...]
# Takes the change made in /tmp/pl (a copy of /repo) and the demonstration in
# /tmp/demo_test.go, keeps them as seeded/ID if they count, and runs checks.
# The description (needs, what_it_breaks) is in /tmp/needs and /tmp/breaks.
ID=$1; PROP=$2; shift 2
S=/verif/seeded/$ID
mkdir -p $S
git -C /tmp/pl diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change"; exit 1; }
[ -e /tmp/demo_test.go ] && mv /tmp/demo_test.go $S/demo_test.go
cp /verif/tools/demo.sh $S/demo.sh; chmod +x $S/demo.sh
tar czf $S/shims.tgz -C /verif --sort=name --mtime=2026-01-01 --owner=0 --group=0 shims
python3 - "$S" "$PROP" <<'P'
import sys, json, os
s, p = sys.argv[1:]
if os.path.exists('/tmp/needs'):
    json.dump({"property": p, "needs": open('/tmp/needs').read().strip(), "what_it_breaks": open('/tmp/breaks').read().strip()}, open(s+'/meta.json','w'), indent=1)
    os.remove('/tmp/needs'); os.remove('/tmp/breaks')
P
cd /repo && git status --short | grep -q . && { echo "repo is dirty"; exit 1; }
git apply --check $S/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
python3 /verif/tools/orig.py $S/patch.diff
cd /repo && bash $S/demo.sh > /tmp/demo.ok 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -30 /tmp/demo.ok; exit 1; }
cd /tmp/pl && bash $S/demo.sh > /tmp/demo.bad 2>&1 && { echo "DEMO PASSES WITH THE BUG"; tail -30 /tmp/demo.bad; exit 1; }
grep -v "^ok\|^FAIL\|^---" /tmp/demo.bad | head -5
# stable tests, with the change applied to /repo for a moment
cd /repo && git apply $S/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant-tests.json >/dev/null 2>&1
git -C /repo checkout -q -- .
python3 - <<'P'
import json
a=json.load(open('/opt/vp/BASELINE.json')); b=json.load(open('/tmp/plant-tests.json'))
def passed(x): return set(x.get('passed', x.get('stable', [])) if isinstance(x, dict) else x)
m=passed(a)-passed(b)
print("stable tests:", "all pass" if passed(a) and not m else "BROKEN %s" % m)
P
for c in ${@:-$PROP}; do
	CXO_REPO=/tmp/pl timeout 900 python3 /verif/run.py $c > /tmp/plant.$c 2>&1; rc=$?
	echo "check $c: exit $rc: $(grep -m1 VIOLATION /tmp/plant.$c)"
done
git -C /tmp/pl checkout -q -- .
