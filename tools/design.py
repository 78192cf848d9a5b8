#!/usr/bin/env python3
"""writes DESIGN.md; `design.py --collect` first merges the last results of /tmp/bugs.log into tools/caught.json"""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalogue import P, NA
V = "/verif"
C = V + "/tools/caught.json"
caught = json.load(open(C)) if os.path.exists(C) else {}
if "--collect" in sys.argv:
    for l in open("/tmp/bugs.log"):
        m = re.match(r"(\S+): demo base=0 build=0 tests=0 .* demo bug=(\d+) \| check (\S+): exit (\d)(.*)", l)
        if m and m[2] != "0":
            caught[m[1]] = {"check": m[3], "caught": m[4] == "1", "input": m[4] == "1" and "no-failing-input" not in m[5]}
    caught = {k: v for k, v in sorted(caught.items()) if os.path.exists(V + "/seeded/" + k)}
    json.dump(caught, open(C, "w"), indent=1)
out = [open(V + "/tools/design_head.md").read()]
out.append("## 3. The properties\n\nFor each: what is claimed, where it lives in the code, how it is decided and within what bounds.\n")
for p in P:
    out.append("### %s  %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*For all:* %s. *Why tests cannot:* %s\n" % (p["all"].rstrip("."), p["why"]))
    out.append("*Anchors:* " + "; ".join("%s (%s)" % (a, b) for a, b in p["mech"]) + ".\n")
    if p.get("how"): out.append("*Specified:* " + p["how"] + "\n")
    out.append("*Decided by:* %s. %s\n" % (p.get("technique", "contract-based deductive verification of the extracted MIR"), p["note"]))
if NA:
    out.append("Listed and not claimed:\n\n" + "\n".join("* %s: %s" % (x["property"], x["reason"]) for x in NA) + "\n")
out.append("## 4. Defects found\n\nEvery one was found by a failing obligation (or while writing the contract) and confirmed against the compiled code.\n")
for f in json.load(open(V + "/known_findings.json"))["findings"]:
    out.append("* " + (f["record"] if f.get("fixed") else "recorded, not repaired: property=%s %s" % (f["property"], f["what"])))
out.append("\nA repaired defect suppresses nothing: its obligations are part of the check. A recorded one is matched by unit and failing condition, and\nprinted as KNOWN-FINDING; anything else the same check finds is still a violation.\n")
notes = V + "/tools/design_notes.md"
if os.path.exists(notes): out.append(open(notes).read())
out.append("## 6. Planted bugs\n\nEach was written from the property's text and the code, and confirmed: it applies, builds, passes the stable tests, and its demonstration fails with\nit and passes without. `tools/bugs.sh` reruns all of that.\n")
out.append("| bug | property | needs | breaks | caught |\n|---|---|---|---|---|")
for d in sorted(os.listdir(V + "/seeded")):
    m = V + "/seeded/%s/meta.json" % d
    if not os.path.exists(m): continue
    m = json.load(open(m)); r = caught.get(d)
    s = "not run" if r is None else ("%s, %s" % (r["check"], "with a failing input" if r["input"] else "by a failed obligation") if r["caught"] else "missed")
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], s))
open(V + "/DESIGN.md", "w").write("\n".join(out).rstrip() + "\n")
