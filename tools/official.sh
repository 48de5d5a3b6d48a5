#!/bin/bash
# official.sh: the repository's own build and stable tests on /repo's working tree
bash /opt/vp/build.sh >/tmp/official.log 2>&1 || { echo BUILD FAILS; grep -m5 error: /tmp/official.log; exit 1; }
bash /opt/vp/test.sh /tmp/official.json >/dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]);t=set(json.load(open("/tmp/official.json"))["passed"])
print("stable tests failing:", len(b-t), sorted(b-t)[:12])
P
