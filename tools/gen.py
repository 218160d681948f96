#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA

TRUST = ("Trusted: go/types and go/ssa of golang.org/x/tools, the analyser in nscheck/, the model of sync, time, context, errors and "
         "gonum calls it uses, and that accessor methods (UID, Attrs, From, ...) of user supplied values are pure. ")

lines, checks, na = [], [], []
for p in PROPS:
    lines.append(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}))
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    if p.get("draft"):
        na.append({"property": p["id"], "reason": "the check is not written yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "./check %s -tier=thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"] + " " + TRUST,
    })
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of the SSA form of /repo by /verif/nscheck; nothing of /repo is executed. See DESIGN.md."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    if n > 3:
        print("long statement", p["id"], n)
print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")
