"""Runner shared by all checks: shards an exhaustively enumerated space over processes, collects
coverage, turns every disagreement into a replayable file, and writes the evidence file.

A check module (checks/cNN.py) provides
    PROPERTY, LEVEL, BOUNDS(tier)->str, ASSUMPTIONS
    jobs(tier) -> list of JSON-able job descriptions (together they are the whole bounded space)
    run(job, st) -> explores one job completely, reporting to the Stats object `st`
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from multiprocessing.connection import wait as mp_wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOB_LIMIT_S = float(os.environ.get("VERIF_JOB_LIMIT", "420"))


class Violation(Exception):
    """The property is broken. `sig` identifies what fails (for the known-findings file)."""

    def __init__(self, sig: str, msg: str, trace=None):
        super().__init__(msg)
        self.sig, self.msg, self.trace = sig, msg, trace


def h64(x) -> int:
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Stats:
    def __init__(self) -> None:
        self.transitions = 0      # operations executed on the real code and compared with the model
        self.traces = 0           # complete executions replayed on the real code
        self.states: set[int] = set()   # distinct model states reached (hashed)
        self.outcomes: set[int] = set()  # distinct observed results (hashed)
        self.samples: list = []
        self.findings: list = []  # violations recorded without aborting the job
        self.ctx = None           # what is being executed right now; reported if the code raises

    def state(self, key) -> None:
        self.states.add(h64(key))

    def outcome(self, key) -> None:
        self.outcomes.add(h64(key))

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def trace(self, sample=None) -> None:
        self.traces += 1
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def check(self, cond, sig: str, msg, trace=None) -> None:
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg, trace if trace is not None else self.ctx)

    def record(self, sig: str, msg: str, trace=None) -> None:
        """Report a violation but carry on exploring (used where known findings may occur)."""
        if not any(f["sig"] == sig for f in self.findings):
            self.findings.append({"sig": sig, "msg": msg, "trace": jsonable(trace if trace is not None else self.ctx)})


def jsonable(x, depth=0):
    if depth > 8:
        return repr(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)


def _run_one(mod, job):
    st = Stats()
    t = time.time()
    try:
        mod.run(job, st)
    except Violation as v:
        st.findings.append({"sig": v.sig, "msg": v.msg, "trace": jsonable(v.trace)})
    except MemoryError:
        raise
    except Exception as e:  # the code under test raised where the model says the operation is legal
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename)}:{f.name}" for f in tb[-6:]]
        st.findings.append({
            "sig": f"exception:{type(e).__name__}",
            "msg": f"unexpected {type(e).__name__}: {e} (at {' > '.join(where)})",
            "trace": jsonable(st.ctx), "tb": traceback.format_exc()[-3000:]})
    for f in st.findings:
        f["job"] = job
    return {"transitions": st.transitions, "traces": st.traces, "states": st.states,
            "outcomes": st.outcomes, "samples": st.samples, "findings": st.findings,
            "wall": time.time() - t}


def _worker(mod, conn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        os.setpgid(0, 0)   # so that children of a stuck worker can be ended with it
    except OSError:
        pass
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        i, job = msg
        try:
            conn.send((i, _run_one(mod, job)))
        except BaseException as e:  # noqa: BLE001
            conn.send((i, {"error": "".join(traceback.format_exception(e))}))


def _kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        p.kill()


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main(mod, argv=None) -> int:
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = mod.PROPERTY
    t0 = time.time()
    if "--replay" in argv:
        data = json.load(open(argv[argv.index("--replay") + 1]))
        r = _run_one(mod, data["job"])
        print(json.dumps(r["findings"], indent=1)[:6000])
        return 1 if r["findings"] else 0
    if hasattr(mod, "setup"):
        try:
            mod.setup(tier)
        except Exception as e:  # code under test cannot even be used
            return _finish(mod, tier, seed, t0, [], [{"sig": "setup", "msg": f"setup failed: {type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:], "job": None}], 0)
    jobs = mod.jobs(tier)
    if "--only" in argv:
        key = argv[argv.index("--only") + 1]
        jobs = [j for j in jobs if key in json.dumps(j)]
    nproc = int(os.environ.get("VERIF_PROCS", str(min(8, os.cpu_count() or 1))))
    verbose = "-v" in argv
    results, findings = [], []
    pending = list(enumerate(jobs))[::-1]
    ctx = mp.get_context("fork")
    slots = {}
    known = {k["signature"] for k in load_known() if k["property"] == prop}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(mod, b), daemon=False)
        p.start()
        b.close()
        slots[a] = [p, None, 0.0]

    for _ in range(min(nproc, len(jobs))):
        spawn()
    for c in list(slots):
        if pending:
            i, j = pending.pop()
            c.send((i, j))
            slots[c][1:] = [(i, j), time.time()]
    stop = False
    while any(s[1] is not None for s in slots.values()) and not stop:
        ready = mp_wait([c for c, s in slots.items() if s[1] is not None], timeout=1.0)
        for c in ready:
            p, (i, j), _ = slots[c]
            try:
                _, r = c.recv()
            except (EOFError, OSError):
                p.join()
                findings.append({"sig": "crash", "msg": f"process running the code died (exit {p.exitcode})", "trace": j, "job": j})
                del slots[c]
                stop = True
                continue
            if "error" in r:
                print(r["error"], file=sys.stderr)
                for s in slots.values():
                    _kill(s[0])
                return 2
            results.append(r)
            if verbose:
                print(f"  job {i} {json.dumps(j)[:100]} {r['wall']:.1f}s tr={r['transitions']} traces={r['traces']} states={len(r['states'])} findings={[f['sig'] for f in r['findings']]}", flush=True)
            findings += r["findings"]
            if any(f["sig"] not in known for f in r["findings"]):
                stop = True
            slots[c][1] = None
            if pending and not stop:
                i, j = pending.pop()
                c.send((i, j))
                slots[c][1:] = [(i, j), time.time()]
        now = time.time()
        for c, s in list(slots.items()):
            if s[1] is not None and now - s[2] > JOB_LIMIT_S:
                findings.append({"sig": "no-termination", "msg": f"exploration of job did not finish within {JOB_LIMIT_S:.0f}s (normally seconds): the code loops or blocks forever", "trace": s[1][1], "job": s[1][1]})
                stop = True
    for c, s in slots.items():
        if s[1] is None and not stop:
            try:
                c.send(None)
            except OSError:
                pass
            s[0].join(timeout=5)
        if s[0].is_alive():
            _kill(s[0])
    return _finish(mod, tier, seed, t0, results, findings, len(jobs))


def _finish(mod, tier, seed, t0, results, findings, njobs) -> int:
    prop = mod.PROPERTY
    known = {k["signature"]: k for k in load_known() if k["property"] == prop}
    states, outcomes, samples = set(), set(), []
    tr = traces = 0
    for r in results:
        states |= r["states"]
        outcomes |= r["outcomes"]
        tr += r["transitions"]
        traces += r["traces"]
        if len(samples) < 4:
            samples += r["samples"][:1]
    new = [f for f in findings if f["sig"] not in known]
    old = {f["sig"] for f in findings if f["sig"] in known}
    level = mod.LEVEL
    cov = {
        "bounds": mod.BOUNDS(tier) if callable(getattr(mod, "BOUNDS", None)) else getattr(mod, "BOUNDS", ""),
        "jobs": njobs, "jobs_completed": len(results), "distinct_outcomes": len(outcomes),
        "samples": [jsonable(s) for s in samples] or ["(none)"],
        "exhaustive": len(results) == njobs and not new and njobs > 0,
    }
    if level == "model_checking":
        cov.update(states=len(states), transitions=tr, traces_validated_against_impl=traces)
    else:
        cov.update(evaluations=traces, distinct_nontrivial=len(states), transitions=tr,
                   rule=getattr(mod, "RULE", "every case of the enumerated space; a case counts as distinct by its canonical state"))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "violations": len(new),
          "wall_s": round(time.time() - t0, 3)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for sig in sorted(old):
        print(f"KNOWN-FINDING: property={prop} {known[sig]['what']}")
    print(f"{prop} tier={tier} jobs={len(results)}/{njobs} states={len(states)} transitions={tr} traces={traces} outcomes={len(outcomes)} wall={time.time()-t0:.1f}s")
    if new:
        f = new[0]
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "replay_cmd": f"check.sh {prop} --replay {path}", **f}, fh, indent=1)
        print(f"  {f['sig']}: {f['msg']}"[:1500])
        print(f"  trace: {json.dumps(jsonable(f.get('trace')))[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if njobs == 0 or (traces == 0 and tr == 0):
        print("vacuous exploration", file=sys.stderr)
        return 2
    return 0


def run_check(prop: str, argv) -> int:
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception:
        # A tree on which the library cannot even be imported is broken, but that is not for a
        # property check to decide: report as an error unless it is caused by the code under test.
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        if f'File "{REPO}/' in tb:
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{prop}.json")
            json.dump({"property": prop, "sig": "import", "msg": tb}, open(path, "w"))
            json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
                       "level": "other", "coverage": {"explanation": "the code under test could not be imported"}, "wall_s": 0.0, "violations": 1},
                      open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"))
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        return 2
    return main(mod, argv)
