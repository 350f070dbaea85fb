"""Writes /verif/MANIFEST.json from the check modules present (their constants are read, not run)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "LEVEL", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} --tier quick", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json", "technique": "model checking: " + c["TECHNIQUE"],
                   "level": c["LEVEL"], "level_note": c.get("NOTE", "")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks import the library from /repo's working tree; no hooks in /repo are needed (nondeterminism is intercepted from outside)."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
