"""contracts/baseline.json from the evidence of a clean run: which contracts are
discharged on the unchanged tree, and the hash of the compiled code.  Run after
every check has been run on the unchanged tree."""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, "contracts", "baseline.json")
out = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(R + "/evidence/C*.json")):
    d = json.load(open(f))
    if len(sys.argv) > 1 and d["property"] not in sys.argv[1:]:
        continue
    c = d["coverage"]
    if "contracts" not in c or d["violations"]:
        print("skipped", f)
        continue
    out[d["property"]] = {"ir": c["compiled_code_sha256"], "proved": sorted(k for k, v in c["contracts"].items() if v["status"] == "proved")}
json.dump(out, open(p, "w"), indent=0, sort_keys=True)
