#!/usr/bin/env python3
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from registry import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import re
_d = open(V + '/tools/gen_design.py').read()
_ns = {}
exec(_d[_d.index('NA = {'):_d.index('EXTRA')], _ns)
NA = _ns['NA']
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']} --tier quick",
                 "thorough_cmd": f"python3 tools/check.py {p['id']} --tier thorough",
                 "technique": CHECKS[p["id"]]["technique"], "level": CHECKS[p["id"]]["level"],
                 "level_note": CHECKS[p["id"]]["note"]} for p in props if p["id"] in CHECKS],
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "not built")} for p in props if p["id"] not in CHECKS],
     "notes": "Every check builds its harness from /repo's working tree (tools/build.py, objects cached by content in .cache) "
              "and enumerates its whole bounded space; see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
