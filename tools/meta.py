#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in tools/props.py, so the two stay in step."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = []
for p in PROPS + NA:
    d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
         "quantifier": {"over": p["over"], "text": p["quant"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                     "observe_at": p.get("observe", ["output and exit status of the compiled program"]), "hook_needed": False}}
    assert len(d["title"]) <= 80, d["title"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    out.append(json.dumps(d))
open(ROOT + "/properties.jsonl", "w").write("\n".join(out) + "\n")
checks = []
for p in PROPS:
    assert os.path.exists(ROOT + "/checks/" + p["id"].lower() + ".py"), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check " + p["id"],
                   "thorough_cmd": "python3 check %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
     "notes": "Static analysis only: every check rebuilds its view of /repo (LLVM IR, Go SSA or the generated-C fragments the code generator can emit) on each run."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(PROPS), "claimed", len(NA), "not applicable")
