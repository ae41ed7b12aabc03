#!/bin/bash
# trybug.sh ID [checks...]: demo on clean, demo on patched, checks on patched, then restore.
id=$1; shift
cd /repo && git checkout -q -- . 
bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; echo "demo clean rc=$?"
git apply /verif/seeded/$id/patch.diff || exit 1
bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1; echo "demo patched rc=$?"; tail -3 /tmp/demo.out
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
for c in ${@:-$p}; do /verif/run.sh $c quick > /tmp/chk.out 2>&1; echo "check $c rc=$?"; grep -E "^violation|VIOLATION|ERROR" /tmp/chk.out | cut -c1-400 | head -4; done
git checkout -q -- .; git status --short | head
