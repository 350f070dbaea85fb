"""Writes DESIGN.md from properties.jsonl, the check modules, known_findings.json, seeded/ and the texts below
(run with the repository's interpreter: . /opt/vp/env/env.sh; PYTHONPATH=/repo:/verif /opt/venv/bin/python tools/mkdesign.py)."""
import importlib
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
known = json.load(open(f"{V}/known_findings.json"))
out = [open(f"{V}/tools/design_head.md").read()]
notes = {}
cur = None
for l in open(f"{V}/tools/design_notes.md"):
    m = re.match(r"## (C\d\d)", l)
    if m:
        cur = m.group(1)
        notes[cur] = []
    elif cur:
        notes[cur].append(l)
seeded = {}
for d in sorted(os.listdir(f"{V}/seeded")):
    f = f"{V}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        seeded.setdefault(m["property"], []).append((d, m))
for p in props:
    i = p["id"]
    if not os.path.exists(f"{V}/checks/{i.lower()}.py"):
        out.append(f"### {i} — {p['title']}\n\nNo check (see MANIFEST.json not_applicable).\n")
        continue
    c = importlib.import_module(f"checks.{i.lower()}")
    b = (lambda t: c.BOUNDS(t) if callable(c.BOUNDS) else c.BOUNDS)
    o = [f"### {i} — {p['title']}\n", p["statement"] + "\n", f"* **Decided by:** {c.TECHNIQUE}." + (f" {c.NOTE}" if getattr(c, "NOTE", "") else "")]
    o.append(f"* **Bounds (quick):** {b('quick')}.")
    if b("thorough") != b("quick"):
        o.append(f"* **Bounds (thorough):** {b('thorough')}.")
    if getattr(c, "ASSUMPTIONS", None):
        o.append("* **Assumes:** " + "; ".join(c.ASSUMPTIONS) + ".")
    o.append(f"* **Why tests cannot settle it:** {p['why_tests_cant']}")
    nf = [f for f in known["fixed"] if f"property={i} " in f]
    if nf:
        o.append(f"* **Defects repaired:** {len(nf)} (section 6).")
    kf = [f for f in known["findings"] if f["property"] == i]
    if kf:
        o.append("* **Known findings (not repaired):** " + " ".join(f"`{f['signature']}`" for f in kf) + " — see section 5.")
    if i in seeded:
        o.append("* **Planted bugs kept for it:** " + "; ".join(f"`{d}` ({m['what_it_breaks']})" for d, m in seeded[i]) + ".")
    t = "".join(notes.get(i, [])).strip()
    if t:
        o.append(t)
    out.append("\n".join(o) + "\n")
out.append(open(f"{V}/tools/design_tail.md").read())
fnd = ["## 5. Known findings (genuine, not repaired)\n", "Each is suppressed only by its exact signature in known_findings.json; any other violation of the same property is reported.\n"]
fnd += [f"* **{f['property']}** `{f['signature']}`: {f['what']}" for f in known["findings"]]
out.append("\n".join(fnd) + "\n")
fx = ["## 6. Defects repaired by `fix:` commits\n"] + [f"* {f.removeprefix('fixed: ')}" for f in known["fixed"]]
out.append("\n".join(fx) + "\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
print(len("\n".join(out)), "characters")
