#!/bin/bash
# seed.sh <id> <prop>: /tmp/sb holds the changed tree; writes patch.diff and verifies everything in /repo
id=$1; d=/verif/seeded/$id
git -C /repo status --short | grep -q . && { echo "repo dirty"; exit 1; }
[ -s $d/patch.diff ] || { echo no patch; exit 1; }
( cd /repo && bash $d/demo.sh >/tmp/d0.log 2>&1 ); r0=$?
git -C /repo apply $d/patch.diff || exit 1
( cd /repo && bash $d/demo.sh >/tmp/d1.log 2>&1 ); r1=$?
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; b=$?
bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/so.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(d['passed']); print('missing tests',[t for t in b['stable'] if t not in p])
P
echo "demo clean=$r0 patched=$r1 build=$b"; tail -3 /tmp/d0.log; tail -3 /tmp/d1.log
for p in ${@:2}; do s=$(date +%s); timeout 900 bash /verif/check.sh $p quick >/tmp/sc.log 2>&1; echo "check $p rc=$? $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/sc.log)"; done
git -C /repo checkout -- .
