#!/bin/bash
# tryseed.sh ID...: with the patch applied in /repo: builds, stable tests, demo, check; undone afterwards
cd "$(dirname "$0")/../.." || exit 3
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$SKIPDEMO" ] && { (cd /repo && bash $d/demo.sh) >/tmp/ts.demo0 2>&1; r0=$?; }
  git -C /repo apply $d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  tests=$(python3 - <<'P'
import json
o=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print("tests-ok" if set(b)<=set(o.get('passed',[])) else "TESTS-FAIL:%s"%(set(b)-set(o.get('passed',[]))))
P
)
  [ -z "$SKIPDEMO" ] && { (cd /repo && bash $d/demo.sh) >/tmp/ts.demo1 2>&1; r1=$?; }
  python3 vk/check.py ${P:-$p} > /tmp/ts.check 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p build=$rb $tests demo0=$r0 demo1=$r1 check=$rc $(grep -m1 VIOLATION /tmp/ts.check)"
done
