#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA, NOTE
root = os.path.dirname(here)
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
            "quantifier": {"over": p.get("over", ["programs", "inputs"]), "text": " ".join(p["quant"].split())},
            "why_tests_cant": " ".join(p["why"].split()),
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "state": [], "observe_at": p.get("observe", ["object file", "console", "exit code"]), "hook_needed": None}}) + "\n")
m = {"version": 1,
     "setup_cmd": "make -s -C engine OUT=$PWD/build && test -x build/usym",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's unmodified sources to LLVM IR", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in PROPS:
    m["checks"].append({
        "property": p["id"], "quick_cmd": "python3-vt check.py " + p["id"].lower(),
        "thorough_cmd": "env VERIF_TIER=thorough python3-vt check.py " + p["id"].lower(),
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "symbolic execution of the assembler's LLVM IR (whole program) + Z3 QF_BV; specification decided per path; counterexamples replayed on uasm.exe",
        "level": "model_checking", "level_note": " ".join((p["note"] + " " + NOTE).split())})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
