#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one catalogue (tools/catalogue.py)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalogue import P, NA
V = "/verif"
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p.get("over", ["inputs"]), "text": p["all"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p.get("observe"): d["anchors"]["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")
na = {x["property"] for x in NA}
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": NA}
for p in P:
    if p["id"] in na: continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3-vt check.py %s --tier quick" % p["id"], "thorough_cmd": "python3-vt check.py %s --tier thorough" % p["id"],
        "technique": p.get("technique", "contract-based deductive verification of the extracted MIR"), "level": p.get("level", "proof"), "level_note": p["note"]})
m["notes"] = "No hooks in /repo: every harness compiles the files of /repo where they lie."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
