#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and checker/rules/explain_gen.go from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA
root = os.path.dirname(here)
def pj(p):
    anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    assert len(p["title"]) <= 80, p["title"]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": anchors}
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in sorted(P + NA, key=lambda p: p["id"]):
        f.write(json.dumps(pj(p)) + "\n")
m = {"version": 1, "setup_cmd": "sh run.sh build", "checks": [], "not_applicable": [],
     "notes": "All checks are static: they load, type-check and abstractly interpret /repo's current source. No hooks in /repo."}
for p in sorted(P, key=lambda p: p["id"]):
    m["checks"].append({"property": p["id"], "quick_cmd": "sh run.sh check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough sh run.sh check " + p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"]})
for p in sorted(NA, key=lambda p: p["id"]):
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
with open(os.path.join(root, "checker/rules/explain_gen.go"), "w") as f:
    f.write("// Code generated by tools/gen.py; DO NOT EDIT.\n\npackage rules\n\nfunc init() {\n")
    for p in sorted(P, key=lambda p: p["id"]):
        f.write("\texplain[%s] = %s\n" % (json.dumps(p["id"]), json.dumps(p["explain"])))
    f.write("}\n")
