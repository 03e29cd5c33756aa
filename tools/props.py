#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP = ["inputs"]
PROPS = []
NA = []


def P(id, title, statement, quant, why, files, mech, over=INP, state=(), observe=(), technique="", level="proof", note="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": quant}, why_tests_cant=why,
                      anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                               "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                               "observe_at": list(observe), "hook_needed": None}))
    PROPS[-1]["_"] = (technique, level, note, na)


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            q = {k: v for k, v in p.items() if k != "_"}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        tech, level, note, why = p["_"]
        if why or not os.path.exists(os.path.join(HERE, "contracts", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": why or "no contract has been written for it yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                       "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "technique": tech or "function contracts on the real code, discharged by a deductive verifier over its LLVM IR",
                       "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks compile /repo's current sources to LLVM IR on every run (engine/build.py); no hooks are needed in /repo."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")
