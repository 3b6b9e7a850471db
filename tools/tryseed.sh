#!/bin/bash
# Dev tool: apply seeded/<id> to /repo, build, run the stable tests, the demo and the property's check; undo.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; (bash $S/demo.sh >/tmp/seed/d0 2>&1; echo "demo clean rc=$?")
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed/b.log 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/seed/t.json >/tmp/seed/t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/seed/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print("stable tests lost:", sorted(set(b)-set(t['passed'])))
P
bash $S/demo.sh >/tmp/seed/d1 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/seed/d1
[ "$2" = nocheck ] || { cd /verif; timeout 900 python3 -B run.py $P --tier quick --seed 1 > /tmp/seed/c.log 2>&1; echo "check $P rc=$?"; grep -a VIOLATION /tmp/seed/c.log | head -2; }
git -C /repo checkout -q -- .
