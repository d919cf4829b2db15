#!/bin/bash
# plant.sh ID: with /repo's edits (working tree) as the planted change: saves patch, confirms build, tests, demo; then undoes it and confirms demo
# usage: make the edit in /repo, write seeded/ID/demo.sh, run this
id=$1; d=/verif/seeded/$id; mkdir -p $d
if ! git -C /repo diff --quiet; then git -C /repo diff > $d/patch.diff; else git -C /repo apply $d/patch.diff || exit 1; fi
cd /repo; bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/plant.log; git -C /repo checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
def st(x):
    for k in ('stable','stable_pass','passed'):
        if k in x: return set(x[k])
m=sorted(st(b)-st(o)); print('tests failing:',len(m),m[:5])
P
x=$(mktemp -d); cp -r $d/. $x/; rm -f $x/*.diff $x/meta.json
bash $x/demo.sh >/tmp/plant.demo 2>&1; echo "demo patched: $? (want nonzero): $(tail -2 /tmp/plant.demo | tr '\n' ' ')"
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
bash $x/demo.sh >/tmp/plant.demo 2>&1; echo "demo clean: $? (want 0): $(tail -2 /tmp/plant.demo | tr '\n' ' ')"
rm -rf "$x"
