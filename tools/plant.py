"""Plants one bug: plant(id, prop, edits, demo, needs, breaks). Builds /verif/seeded/<id>, confirms the
demonstration on the unchanged and the changed tree, and shows whether the property's check catches it.
The scratch copy is /tmp/seedrepo (git worktree copy of /repo, refreshed per bug)."""
import json, os, subprocess, sys
V = "/verif"
S = "/tmp/seedrepo"
PRE = '''import sys, os, warnings
warnings.simplefilter("ignore")
import logging; logging.disable(logging.CRITICAL)
import numpy as np
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def fresh(dst=S):
    if not os.path.exists(dst):
        sh(f"cp -a /repo {dst}")
    sh(f"cd {dst} && git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")


def demo(d, tree):
    return subprocess.run(["bash", f"{d}/demo.sh"], cwd=tree, capture_output=True, text=True, timeout=300)


def plant(id, prop, edits, demo_src, needs, breaks, check=True, extra=()):
    fresh()
    for f, old, new in edits:
        p = f"{S}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh(f"cd {S} && git diff").stdout)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env/env.sh 2>/dev/null\nexport OMP_NUM_THREADS=2 PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(f"{d}/demo.py", "w").write(PRE + demo_src.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    a = demo(d, "/repo")
    b = demo(d, S)
    ok = a.returncode == 0 and b.returncode != 0
    print(f"{id}: demo clean rc={a.returncode} patched rc={b.returncode} {'OK' if ok else 'BAD'}")
    if not ok:
        print(a.stdout[-1500:], a.stderr[-1500:], "-----", b.stdout[-800:], b.stderr[-800:])
        return False
    print("   ", (b.stderr or b.stdout).strip().splitlines()[-1][:200] if (b.stderr or b.stdout).strip() else "")
    if check:
        return run_check(id, prop, extra)
    return True


def run_check(id, prop, extra=()):
    for p in (prop, *extra):
        env = {**os.environ, "VERIF_REPO": S}
        r = subprocess.run([f"{V}/check.sh", p, "--tier", "quick"], capture_output=True, text=True, env=env)
        got = f"VIOLATION property={p}" in r.stdout
        print(f"    {p}: {'CAUGHT' if got and r.returncode == 1 else 'MISSED rc=%d' % r.returncode}", (r.stdout.strip().splitlines() or [""])[0][:150] if got else r.stdout[-300:] + r.stderr[-500:])
        for l in r.stdout.splitlines():
            if got and l.startswith("  ") and "trace" not in l:
                print("       ", l.strip()[:220])
    return got


def recheck(id):
    """Apply an existing seeded bug and run its check."""
    fresh()
    m = json.load(open(f"{V}/seeded/{id}/meta.json"))
    r = sh(f"cd {S} && git apply {V}/seeded/{id}/patch.diff")
    if r.returncode:
        print(id, "does not apply", r.stderr)
        return False
    a, b = demo(f"{V}/seeded/{id}", "/repo"), demo(f"{V}/seeded/{id}", S)
    print(f"{id}: demo clean rc={a.returncode} patched rc={b.returncode}")
    return run_check(id, m["property"])


def tests(ids):
    """Run the stable tests with all the given bugs applied at once (they must touch different lines)."""
    dst = "/tmp/seedtests"
    fresh(dst)
    for id in ids:
        r = sh(f"cd {dst} && git apply {V}/seeded/{id}/patch.diff")
        if r.returncode:
            print("skip (conflict)", id)
    sh(f"sed 's#/repo#{dst}#g' /opt/vp/test.sh > /tmp/seedtests.sh; bash /tmp/seedtests.sh /tmp/seedtests.json > /tmp/seedtests.log 2>&1")
    base = json.load(open("/opt/vp/BASELINE.json"))
    got = json.load(open("/tmp/seedtests.json"))
    print(sh("tail -5 /tmp/seedtests.log").stdout)
    return base, got


if __name__ == "__main__":
    if sys.argv[1] == "recheck":
        ids = sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
        bad = [i for i in ids if not recheck(i)]
        print("MISSED:", bad)
    elif sys.argv[1] == "tests":
        base, got = tests(sys.argv[2:])
        def passed(x):
            for k in ("passed", "pass", "stable"):
                if k in x:
                    return set(x[k])
            return set(k for k, v in x.items() if v in ("pass", "passed"))
        print("stable tests failing:", sorted(passed(base) - passed(got)))
