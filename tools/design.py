#!/usr/bin/env python3
"""fills the generated parts of DESIGN.md (from tools/DESIGN.in.md): property table, findings, planted bugs"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import props
P = sorted(props.PROPS, key=lambda p: p["id"])
t = []
for p in P:
    tech, level, note, na = p["_"]
    ok = not na and os.path.exists(os.path.join(H, "contracts", p["id"].lower() + ".py"))
    t.append("### %s %s\n\n%s\n\n*Ranges over:* %s\n\n*Why tests cannot settle it:* %s\n\n*Decided by:* %s\n" % (
        p["id"], p["title"], p["statement"], p["quantifier"]["text"], p["why_tests_cant"],
        ("contracts in `contracts/%s.py` on %s. %s" % (p["id"].lower(), ", ".join("%s (%s)" % (m["name"], m["where"]) for m in p["anchors"]["mechanism"]), note))
        if ok else "not applicable: " + (na or "no contract has been written for it yet")))
f = ["* %s" % k["what"] for k in json.load(open(os.path.join(H, "known_findings.json")))]
s = ["| id | property | needs | caught by |", "|---|---|---|---|"]
C = os.path.join(H, "tools", "caught.json")
caught = json.load(open(C)) if os.path.exists(C) else {}
for b in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", b, "meta.json")))
    s.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, m["property"] + " check")))
d = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
d = d.replace("@TABLE@", "\n".join(t)).replace("@FIND@", "\n".join(f)).replace("@SEED@", "\n".join(s))
open(os.path.join(H, "DESIGN.md"), "w").write(d)
