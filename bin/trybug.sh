#!/bin/bash
# trybug.sh ID...  (development tool): demo without the change, then with it: build, stable tests, demo, the property's quick check; restores /repo
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash /opt/vp/build.sh >/dev/null 2>&1; (cd /repo && bash $D/demo.sh >/tmp/demo0.log 2>&1); r0=$?
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
  t=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/tb.json'))['passed'];print(len([x for x in b if x not in o]))")
  (cd /repo && bash $D/demo.sh >/tmp/demo1.log 2>&1); r1=$?
  python3 /verif/bin/check.py $P --tier quick >/tmp/chk_$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$P demo(clean)=$r0 demo(bug)=$r1 tests-broken=$t check=$c $(grep -m1 VIOLATION /tmp/chk_$id.log)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
