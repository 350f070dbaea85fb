"""Rewrites the 'fixed' list of known_findings.json from the fix: commits in /repo (property per commit below)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(ROOT, "tools", "fixprops.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: ") and not h.startswith("3ed0357"):   # 3ed0357 was replaced by a later commit
        ps = [p for k, p in PROP.items() if k in s]
        assert len(ps) == 1, (s, ps)
        out.append(f"fixed: property={ps[0]} {h} {s[5:]}")
p = os.path.join(ROOT, "known_findings.json")
d = json.load(open(p)); d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
print(len(out), "fixes")
