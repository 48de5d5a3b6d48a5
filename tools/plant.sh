#!/bin/bash
# plant.sh <seed-id> [check]: confirms a planted bug in a scratch copy of /repo that is mounted over /repo
# (in a mount namespace of its own): builds, stable tests pass, demo fails with it and passes without; then runs the check
id=$1
[ -d /tmp/plant ] || cp -a /repo /tmp/plant
exec unshare -m bash -c '
id='$id'; chk='$2'
mount --bind /tmp/plant /repo || exit 9
'"head=$(git -C /repo rev-parse HEAD)"'
cd /repo; git checkout -q -- . ; git fetch -q /verif/../repo 2>/dev/null
git reset -q --hard $head 2>/dev/null || { echo "scratch copy is behind"; exit 8; }
git apply /verif/seeded/$id/patch.diff || exit 7
bash /opt/vp/build.sh >/tmp/plant.build.log 2>&1 || { echo BUILD FAILS; grep -m5 error: /tmp/plant.build.log; git checkout -q -- .; exit 6; }
bash /opt/vp/test.sh /tmp/plant.t.json >/dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]);t=set(json.load(open("/tmp/plant.t.json"))["passed"])
print("stable tests failing:", len(b-t), sorted(b-t)[:5])
P
rm -rf /tmp/plantdemo; cp -r /verif/seeded/$id /tmp/plantdemo
bash /tmp/plantdemo/demo.sh >/tmp/plant.demo1 2>&1; echo "demo with the bug: $? ($(tail -1 /tmp/plant.demo1 | cut -c1-200))"
[ -n "$chk" ] && { cd /verif; python3 tools/check.py $chk 2>&1 | tail -3 | cut -c1-300; cd /repo; }
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.build.log 2>&1
bash /tmp/plantdemo/demo.sh >/tmp/plant.demo0 2>&1; echo "demo without: $? ($(tail -1 /tmp/plant.demo0 | cut -c1-200))"
'
