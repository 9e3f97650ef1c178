#!/bin/bash
# usage: tools/seed.sh <id> <property>   reads /tmp/seed/<id>/{patch.py|patch.diff,main.rs,meta.json}
# verifies a planted bug in a scratch copy and stores it in seeded/<id>; prints what the check says.
id=$1; prop=$2; s=/tmp/seed/$id
W=/tmp/seedwt
set -e
if [ ! -d $W ]; then cp -a /repo $W; fi
cd $W; git checkout -q -- . ; git fetch -q /repo HEAD; git reset -q --hard FETCH_HEAD; git clean -fdq -e target
if [ -f $s/patch.py ]; then (cd $W && python3 $s/patch.py); git diff > $s/patch.diff; fi
[ -s $s/patch.diff ] || { echo EMPTY PATCH; exit 1; }
D=/verif/seeded/$id; rm -rf /verif/seeded/$id; mkdir -p $D
cp $s/patch.diff $s/meta.json $D/
if [ -f $s/demo.sh ]; then cp $s/demo.sh $s/* $D/; rm -f $D/patch.py; else
cp /verif/tools/demo/* $D/; cp $s/main.rs $D/main.rs; fi
cd $W; git checkout -q -- .
bash $D/demo.sh >/tmp/seed/$id/clean.log 2>&1 && echo "demo clean ok" || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/seed/$id/clean.log; exit 1; }
git apply $D/patch.diff
if bash $D/demo.sh >/tmp/seed/$id/bug.log 2>&1; then echo "DEMO PASSES WITH BUG"; exit 1; else echo "demo detects: $(tail -1 /tmp/seed/$id/bug.log | cut -c1-200)"; grep -q 'could not compile' /tmp/seed/$id/bug.log && exit 1; fi
sed "s|/repo|$W|g; s|/opt/vp/ws|/opt/vp/ws|g" /opt/vp/build.sh > /tmp/seed/build.sh
git checkout -q -- .
# build + tests against /repo itself (fast), then the check
git -C /repo apply $D/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed/$id/build.log 2>&1 || { echo BUILD FAILS; exit 1; }
bash /opt/vp/test.sh /tmp/seed/$id/o.json >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open('/tmp/seed/$id/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(o['passed'])
print('tests', 'OK' if not miss else f'BROKEN {miss}')
P
if [ "$prop" != none ]; then
set +e
timeout 900 bash /verif/check.sh $prop quick > /tmp/seed/$id/check.log 2>&1; c=$?
if [ $c = 1 ] && grep -q "VIOLATION property=$prop " /tmp/seed/$id/check.log; then echo "CAUGHT $id by $prop"; else echo "MISSED $id by $prop (exit $c)"; tail -3 /tmp/seed/$id/check.log; fi
fi
