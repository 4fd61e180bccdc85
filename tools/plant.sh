#!/bin/bash
# plant.sh ID... : verifies planted bugs: builds, passes the stable tests, demo fails with the patch and passes without, and which check sees it.
# (The change is applied to /repo only while this runs.)
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is dirty"; exit 2; }
if [ "$1" = --save ]; then shift; fi
base() { bash /opt/vp/build.sh >/dev/null 2>&1; }
base || { echo "base build failed"; exit 2; }
for id in "$@"; do d=/verif/seeded/$id
  bash $d/demo.sh >/tmp/plant.$id.demo0 2>&1 || { echo "$id: DEMO FAILS ON BASE"; tail -5 /tmp/plant.$id.demo0; continue; }
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/plant.$id.build 2>&1; then
    bash /opt/vp/test.sh /tmp/plant.$id.json >/dev/null 2>&1
    python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.%s.json'%sys.argv[1]))
s=set(b.get('stable') or b.get('passed') or b); lost=sorted(s-set(o['passed'])); print(sys.argv[1],'tests lost:',len(lost),lost[:3])
P
    if bash $d/demo.sh >/tmp/plant.$id.demo1 2>&1; then echo "$id: DEMO DOES NOT FAIL"; else echo "$id: demo fails with the change"; fi
    p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    (cd /verif && ./run.py $p >/tmp/plant.$id.check 2>&1; echo "$id: check $p exit $?"; grep -A1 VIOLATION /tmp/plant.$id.check | head -4)
  else echo "$id: DOES NOT BUILD"; tail -5 /tmp/plant.$id.build; fi
  git checkout -q -- .
done
base
