#!/usr/bin/env python3
"""Generates DESIGN.md from design_head.md, props.py and catch.txt."""
import os, re, sys, json
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P, NA, TRUST
root = os.path.dirname(here)
out = [open(os.path.join(here, "design_head.md")).read().rstrip() + "\n"]
out.append("\n## The properties\n")
for p in sorted(P, key=lambda p: p["id"]):
    out.append("\n### %s %s\n" % (p["id"], p["title"]))
    out.append("\nTechnique: %s.\n" % p["technique"])
    out.append("\nAnalysed, and rules applied: %s\n" % p["explain"])
    out.append("\nCoverage and bounds: %s\n" % p["note"].replace(TRUST, "").strip())
    out.append("\nQuantifies over %s. %s\n" % (p["qtext"], p["why"]))
out.append("\n## Not applicable\n\n")
for p in sorted(NA, key=lambda p: p["id"]):
    out.append("- %s %s: %s\n" % (p["id"], p["title"], p["reason"]))
out.append("\n## Planted bugs and the checks that catch them\n\n")
out.append("From `python3 tools/seedtool.py check`, which applies each patch in a scratch copy, confirms that it builds, passes the tests and fails its demonstration, and runs all checks.\n\n")
out.append("| bug | for | caught by | needs |\n|---|---|---|---|\n")
for l in sorted(open(os.path.join(here, "catch.txt"))):
    m = re.match(r"(\S+): (\S+) \((\S+)\) violations: (\[.*?\])", l)
    if not m: continue
    try:
        meta = json.load(open(os.path.join(root, "seeded", m[1], "meta.json")))
    except OSError:
        continue
    out.append("| %s | %s | %s | %s |\n" % (m[1], m[3], ", ".join(eval(m[4])) or "none", meta["needs"].replace("|", "/")))
open(os.path.join(root, "DESIGN.md"), "w").write("".join(out))
