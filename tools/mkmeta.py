#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (and props_*.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []      # properties
CHECKS = [] # manifest checks
NA = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         technique=None, level="exploration", note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
    if na:
        NA.append({"property": id, "reason": na})
    elif technique:
        CHECKS.append({"property": id, "quick_cmd": "./run.sh %s" % id,
                       "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % id,
                       "evidence_file": "evidence/%s.json" % id,
                       "technique": technique, "level": level, "level_note": note})

HOOKS = None
for f in sorted(os.listdir(here)):
    if f.startswith("props_") and f.endswith(".py"):
        exec(compile(open(os.path.join(here, f)).read(), f, "exec"))

with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in sorted(P, key=lambda p: p["id"]):
        o.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": sorted(CHECKS, key=lambda c: c["property"]), "not_applicable": NA,
     "notes": "run.sh builds the harness below harness/ into the repository's modules through a build overlay (nothing is written into /repo) and runs one property's monitor. ./run.sh ID --case name:index replays a case."}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
