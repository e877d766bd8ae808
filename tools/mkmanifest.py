"""Writes /verif/MANIFEST.json from properties.jsonl and checks/."""
import importlib.util, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
        n = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s" % p["id"],
            "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": m.group(1) if m else "property-based testing (Hypothesis) against a reference model",
            "level": "exploration",
            "level_note": n.group(1) if n else "Randomised search with shrinking: no violation among the generated cases; never establishes absence. Trusts the reference oracle in the check, numpy and the compiler.",
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Every check builds aipy from /repo's working tree into a scratch copy under /verif/.build and searches generated inputs; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
