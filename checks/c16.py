"""C16: vectorised stepping, every completion schedule, on the real BaseVectorEnv."""
import itertools
import types

import numpy as np

import tianshou.env.worker.ray as ray_mod
import tianshou.env.worker.subproc as sp
from mc.envs import CtlWorker, LogEnv, Misuse, make_ctl
from mc.explore import Chooser, explore
from tianshou.env import DummyVectorEnv
from tianshou.env.venv_wrappers import VectorEnvNormObs, VectorEnvWrapper
from tianshou.env.worker.ray import RayEnvWorker
from tianshou.env.worker.subproc import SubprocEnvWorker

PROPERTY = "C16"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real BaseVectorEnv under a controlled worker: every operation sequence x every admissible wait() answer, plus closure over the reachable (in-flight, ready) states; the back-ends' own wait() explored under a controlled connection/clock"
NOTE = "The controlled worker answers wait() with every ordered selection the contract allows; a second command, an early or double fetch, or an attribute access while working is detected at the worker."
ASSUMPTIONS = ["ids within one call are distinct (documented)", "ray itself is replaced by a stand-in with ray.wait's documented contract"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"2 environments: all sequences of step/fetch/reset/attribute/seed/illegal calls x all wait answers to depth {3 if q else 4}; 3 environments: depth {2 if q else 3}; "
            f"closure of reachable in-flight/ready orders for 2-{3 if q else 4} environments, every minimum number, with and without time limit; synchronous mode: every id order and subset of 3 to depth {2 if q else 3}; "
            "Subproc/Ray wait(): 1-3 (4) workers, every arrival order and clock advance")


def jobs(tier):
    q = tier == "quick"
    out = []
    for wn, to in ((1, None), (1, 1.0), (2, 1.0)):
        for first in range(N_OPS2):
            out.append(["seq", 2, wn, to, 3 if q else 4, first, False])
    for first in range(0, N_OPS3):
        for wn, to in ((1, None), (2, None), (2, 1.0), (3, 1.0)):
            out.append(["seq", 3, wn, to, 2 if q else 3, first, False])
    for first in range(N_OPS2):
        out.append(["seq", 2, 1, None, 2 if q else 3, first, True])
    for wn, to in ((1, None), (2, 1.0)):
        for first in range(N_OPS2):
            out.append(["seq", 2, wn, to, 3 if q else 4, first, "dummy"])
    for first in range(N_OPS3):
        for wn, to in ((2, None), (3, 1.0)):
            out.append(["seq", 3, wn, to, 2 if q else 3, first, "dummy"])
    for n in (2, 3) if q else (2, 3, 4):
        for wn in range(1, n + 1):
            for to in (None, 1.0):
                if wn == n and to is None:
                    continue
                out.append(["closure", n, wn, to])
    for cls in ("ctl", "dummy", "wrap"):
        for a in range(len(SYNC_OPS)):
            out.append(["sync", cls, 2 if q else 3, a])
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for wn in range(1, n + 2):
            out.append(["subwait", n, wn])
            out.append(["raywait", n, wn])
    out.append(["ctor"])
    return out


# ---------------------------------------------------------------------------------------------
class Model:
    """What the user is promised, kept independently of the code."""

    def __init__(self, venv, envs, is_async, wait_num, timeout, st):
        self.v, self.envs, self.n = venv, envs, len(envs)
        self.is_async, self.wait_num, self.timeout, self.st = is_async, wait_num, timeout, st
        self.inflight = {}      # id -> expected result
        self.logs = [[] for _ in envs]
        self.closed = False
        self.act = 0

    # expected effects -------------------------------------------------------------------
    def exp_step(self, i, a):
        e = self.envs[i]
        ep, t, k = self.ep[i], self.t[i] + 1, self.k[i] + 1
        self.t[i], self.k[i] = t, k
        L = e.lens[ep % len(e.lens)]
        end = t >= L
        tr = end and ep in e.trunc
        self.logs[i].append(("step", a, ep, t, end, self.nr[i]))
        if end:
            self.nr[i] = True
        return ([float(i), float(ep), float(t)], i * 64.0 + ep * 8.0 + t, bool(end and not tr), bool(tr),
                {"k": k, "e": i, "a": a, "env_id": i})

    def exp_reset(self, i, seed, options):
        self.ep[i] += 1
        self.t[i] = 0
        self.nr[i] = False
        self.logs[i].append(("reset", seed, repr(options), self.ep[i]))
        return [float(i), float(self.ep[i]), 0.0], {"k": self.k[i], "e": i, "r": True}

    def start(self):
        self.ep = [-1] * self.n
        self.t = [0] * self.n
        self.k = [0] * self.n
        self.nr = [True] * self.n

    def logs_ok(self):
        for i, e in enumerate(self.envs):
            self.st.check(e.log == self.logs[i], "log", lambda: f"environment {i} was driven by {e.log}, expected {self.logs[i]}")

    def rows(self, ret, ids_expected):
        st = self.st
        obs, rew, te, tr, info = ret
        st.check(len(obs) == len(rew) == len(te) == len(tr) == len(info), "rows", lambda: f"lengths {[len(x) for x in ret]}")
        got = [d["env_id"] for d in info]
        st.check(len(set(got)) == len(got), "dup", lambda: f"labels {got}")
        if ids_expected is not None:
            st.check(got == list(ids_expected), "order", lambda: f"results labelled {got}, requested {list(ids_expected)}")
        for r in range(len(info)):
            i = int(info[r]["env_id"])
            st.check(i in self.inflight, "unsubmitted", lambda: f"result of environment {i}, which had no action in flight ({list(self.inflight)})")
            exp = self.inflight.pop(i)
            g = ([float(x) for x in obs[r]], float(rew[r]), bool(te[r]), bool(tr[r]), dict(info[r]))
            st.check(g == (exp[0], exp[1], exp[2], exp[3], exp[4]), "result", lambda: f"environment {i}: returned {g}, its own result was {exp}")
        return got

    def refused(self, fn, what, exc=(AssertionError, ValueError, RuntimeError)):
        try:
            fn()
        except Misuse:
            raise
        except exc:
            self.logs_ok()
            return
        self.st.check(False, "accepted", f"{what} was accepted")

    # operations -------------------------------------------------------------------------
    def step(self, S, as_type="list"):
        acts = []
        for _ in S:
            self.act += 1
            acts.append(self.act % 100)
        ids = conv(S, as_type)
        if any(i in self.inflight for i in S) or self.closed:
            self.refused(lambda: self.v.step(np.array(acts), ids), f"step({S}) with {list(self.inflight)} in flight")
            return
        exp = {i: self.exp_step(i, a) for i, a in zip(S, acts)}
        self.inflight.update(exp)
        n0 = len(self.inflight)
        ret = self.v.step(np.array(acts), ids)
        self.after(ret, S, n0)

    def fetch(self):
        if not self.is_async:
            self.refused(lambda: self.v.step(None), "step(None) in synchronous mode")
            return
        if not self.inflight:
            return            # nothing to fetch: not claimed
        n0 = len(self.inflight)
        ret = self.v.step(None)
        self.after(ret, None, n0)

    def after(self, ret, S, n0):
        got = self.rows(ret, S if not self.is_async else None)
        self.logs_ok()
        if self.is_async:
            need = min(self.wait_num, n0) if self.timeout is None else 1
            self.st.check(len(got) >= need, "early", lambda: f"returned {len(got)} results with {n0} in flight, minimum {self.wait_num}, time limit {self.timeout}")
            for wn, to, nw, _ in CtlWorker.waits[-1:]:
                self.st.check(min(wn, nw) == min(self.wait_num, n0) and to == self.timeout and nw == n0, "waitargs",
                              lambda: f"waited for {wn} of {nw} with limit {to}; expected {self.wait_num} of {n0} with limit {self.timeout}")
        else:
            self.st.check(not self.inflight, "lost", lambda: f"no result for {list(self.inflight)}")

    def reset(self, S, as_type="list", **kw):
        ids = conv(S, as_type)
        if any(i in self.inflight for i in S) or self.closed:
            self.refused(lambda: self.v.reset(ids, **kw), f"reset({S}) with {list(self.inflight)} in flight")
            return
        exp = [self.exp_reset(i, kw.get("seed"), kw.get("options")) for i in S]
        obs, info = self.v.reset(ids, **kw)
        g = [([float(x) for x in o], dict(d)) for o, d in zip(obs, info, strict=True)]
        self.st.check(g == [(o, d) for o, d in exp], "reset", lambda: f"reset({S}) returned {g}, expected {exp}")
        self.logs_ok()

    def getattr(self, S, as_type="list"):
        ids = conv(S, as_type)
        if any(i in self.inflight for i in S) or self.closed:
            self.refused(lambda: self.v.get_env_attr("tag", ids), f"get_env_attr({S}) with {list(self.inflight)} in flight")
            return
        got = self.v.get_env_attr("tag", ids)
        exp = [self.envs[i].tag for i in S]
        self.st.check(list(got) == exp, "getattr", lambda: f"get_env_attr({S}) = {got}, expected {exp}")

    def setattr(self, S, as_type="list"):
        ids = conv(S, as_type)
        self.act += 1
        val = ("set", self.act)
        tags = [e.tag for e in self.envs]
        if any(i in self.inflight for i in S) or self.closed:
            self.refused(lambda: self.v.set_env_attr("tag", val, ids), f"set_env_attr({S}) with {list(self.inflight)} in flight")
        else:
            self.v.set_env_attr("tag", val, ids)
            for i in S:
                tags[i] = val
        self.st.check([e.tag for e in self.envs] == tags, "setattr", lambda: f"after set_env_attr({S}): {[e.tag for e in self.envs]}, expected {tags}")

    def seed(self, s):
        if self.inflight or self.closed:
            self.refused(lambda: self.v.seed(s), f"seed({s}) with {list(self.inflight)} in flight")
            return
        lst = [None] * self.n if s is None else ([s + i for i in range(self.n)] if isinstance(s, int) else list(s))
        got = self.v.seed(s)
        if isinstance(self.v_inner().workers[0], CtlWorker):
            for i in range(self.n):
                self.logs[i].append(("seed", lst[i]))
            self.st.check([list(x) for x in got] == [[lst[i], i] for i in range(self.n)], "seed", lambda: f"seed({s}) returned {got}")
        else:
            for i in range(self.n):
                self.exp_reset(i, lst[i], None)
        self.logs_ok()

    def v_inner(self):
        v = self.v
        while isinstance(v, VectorEnvWrapper):
            v = v.venv
        return v

    def badlen(self, S):
        self.refused(lambda: self.v.step(np.arange(len(S) + 1), S), "step with more actions than environments")
        if len(S) > 1:
            self.refused(lambda: self.v.step(np.arange(len(S) - 1), S), "step with fewer actions than environments")

    def render(self):
        if self.inflight or self.closed:
            self.refused(lambda: self.v.render(), f"render with {list(self.inflight)} in flight")
            return
        got = self.v.render()
        for i in range(self.n):
            self.logs[i].append(("render",))
        exp = [("frame", i, self.k[i]) for i in range(self.n)]
        self.st.check(list(got) == exp, "render", lambda: f"render() = {got}, expected {exp}")
        self.logs_ok()

    def close(self):
        if self.closed:
            self.refused(lambda: self.v.close(), "second close()")
        else:
            self.v.close()
            self.closed = True
        self.st.check([e.closed for e in self.envs] == [1] * self.n, "close", lambda: f"environments closed {[e.closed for e in self.envs]} times")

    def apply(self, op):
        self.st.ctx_ops.append(op)
        self.st.step()
        getattr(self, op[0])(*op[1:-1], **op[-1])


def conv(S, as_type):
    if as_type == "none":
        return None
    if as_type == "int":
        return S[0]
    if as_type == "npint":
        return np.int64(S[0])
    if as_type == "arr":
        return np.array(S)
    return list(S)


O = lambda name, *a, **k: (name, *a, k)
OPS2 = [O("step", (0,)), O("step", (1,), "int"), O("step", (0, 1), "none"), O("step", (1, 0), "arr"), O("fetch"),
        O("reset", (0,), "int"), O("reset", (0, 1), "none"), O("reset", (1, 0)), O("getattr", (1, 0)), O("setattr", (1,), "int"),
        O("seed", 3), O("badlen", (0,)), O("render"), O("close")]
OPS3 = [O("step", (0,)), O("step", (2, 0), "arr"), O("step", (1, 2)), O("step", (0, 1, 2), "none"), O("step", (2, 1, 0)),
        O("fetch"), O("reset", (1,), "npint"), O("reset", (2, 0), "arr"), O("getattr", (2, 0, 1)), O("setattr", (1, 2)),
        O("badlen", (1, 0)), O("seed", [4, 9, 2])]
SYNC_OPS = ([O("step", p, "arr" if len(p) == 2 else "list") for r in (1, 2, 3) for p in itertools.permutations(range(3), r)]
            + [O("step", (0, 1, 2), "none"), O("step", (2,), "int"), O("step", (1,), "npint"), O("fetch")]
            + [O("reset", p) for p in ((2, 0), (1,), (2, 1, 0))] + [O("reset", (0, 1, 2), "none", seed=5), O("reset", (1,), "int", options={"a": 1})]
            + [O("getattr", (2, 0)), O("getattr", (1,), "int"), O("getattr", (0, 1, 2), "none"), O("setattr", (2, 0), "arr"), O("setattr", (0, 1, 2), "none"),
               O("seed", None), O("seed", 7), O("seed", 0), O("seed", [9, 3, 5]), O("badlen", (2, 0)), O("render"), O("close")])
N_OPS2, N_OPS3 = len(OPS2), len(OPS3)


def fresh(n, ch, wn, to, st, cls="ctl", wrap=False, max_empty=1):
    envs = [LogEnv(i, lens=(2 + i, 1), trunc=(1,)) for i in range(n)]
    if cls == "dummy":
        CtlWorker.waits = []
        v = DummyVectorEnv([lambda e=e: e for e in envs], wn, to)
    else:
        v = make_ctl(envs, ch, wn, to, max_empty=max_empty)
    if wrap:
        v = VectorEnvWrapper(v)
    m = Model(v, envs, not CtlWorker.sync if cls == "ctl" else v.is_async, wn or n, to, st)
    m.start()
    st.ctx_ops = []
    st.ctx = {"n": n, "wait_num": wn, "timeout": to, "class": cls, "ops": st.ctx_ops, "waits": CtlWorker.waits}
    st.check(len(v) == n, "len", f"len {len(v)}")
    m.apply(O("reset", tuple(range(n)), "none"))
    return m


def drain(m):
    """Fetch all that is in flight: nothing submitted may be missing at the end."""
    while m.inflight:
        m.apply(O("fetch"))


def run(job, st):
    globals()["run_" + job[0]](job, st)


def run_seq(job, st):
    _, n, wn, to, depth, first, wrap = job
    ops = OPS2 if n == 2 else OPS3

    def ex(ch):
        m = fresh(n, ch, wn, to, st, "dummy" if wrap == "dummy" else "ctl", wrap=wrap is True)
        m.apply(ops[first])
        for _ in range(depth - 1):
            if m.closed:
                break
            m.apply(ops[ch.choose(len(ops))])
        if m.closed:
            for op in ops:
                if op[0] not in ("fetch", "badlen"):
                    m.apply(op)
            m.refused(lambda: m.v.step(None), "step(None) after close")
        else:
            CtlWorker.empty = 99
            drain(m)
            m.apply(O("reset", tuple(range(n)), "none"))
        return tuple(tuple(e.log) for e in m.envs)

    for ch, res in explore(ex):
        st.outcome(res)
        st.trace({"ops": [list(o[:2]) for o in st.ctx_ops], "waits": [list(w) for w in CtlWorker.waits]})


def run_closure(job, st):
    """All reachable (order of in-flight ids, order of ready ids) states; every operation from each."""
    _, n, wn, to = job
    subs = [p for r in range(1, n + 1) for p in itertools.permutations(range(n), r)]
    ops = ([O("step", s) for s in subs] + [O("fetch")] + [O("reset", s) for s in subs] + [O("getattr", s) for s in subs]
           + [O("setattr", s) for s in subs if len(s) < 2] + [O("seed", 1), O("render"), O("badlen", (0,))])
    seen, frontier = {}, [[]]

    def key(m):
        return (tuple(m.inflight), tuple(getattr(m.v, "waiting_id", ())), tuple(getattr(m.v, "ready_id", ())))

    seen_init = False
    while frontier:
        nxt = []
        for path in frontier:      # path: list of (op index, wait answers)
            for oi in range(len(ops)):
                def ex(ch, path=path, oi=oi):
                    pre = [c for _, ws in path for c in ws]
                    fixed = Chooser(pre)
                    m = fresh(n, fixed, wn, to, st, max_empty=0)
                    for o, _ in path:
                        m.apply(ops[o])
                    CtlWorker.chooser = ch
                    m.apply(ops[oi])
                    return m
                if not seen_init:
                    m0 = fresh(n, Chooser(), wn, to, st)
                    seen[key(m0)] = True
                    seen_init = True
                for ch, m in explore(ex):
                    k = key(m)
                    st.state((n, k))
                    st.trace()
                    if k not in seen:
                        seen[k] = True
                        nxt.append([*path, (oi, [c for c, _ in ch.log])])
        frontier = nxt


def run_sync(job, st):
    _, cls, depth, first = job
    wrap = cls == "wrap"

    def ex(ch):
        m = fresh(3, ch, None, None, st, "dummy" if cls == "dummy" else "ctl", wrap=wrap)
        m.apply(SYNC_OPS[first])
        for _ in range(depth - 1):
            m.apply(SYNC_OPS[ch.choose(len(SYNC_OPS))])
        return tuple(tuple(e.log) for e in m.envs)

    for ch, res in explore(ex):
        st.outcome(res)
        st.trace({"ops": [list(o[:2]) for o in st.ctx_ops]})


def run_ctor(job, st):
    envs = [LogEnv(i) for i in range(3)]
    fns = [lambda e=e: e for e in envs]
    for wn in (4, -1, 1, 2, 3, None):
        for to in (None, 0, -1.0, 0.5):
            st.step()
            st.ctx = [wn, to]
            ok = (wn is None or 1 <= wn <= 3) and (to is None or to > 0)
            try:
                v = DummyVectorEnv(fns, wn, to)
            except AssertionError:
                st.check(not ok, "ctor", f"wait_num={wn} timeout={to} refused")
                continue
            st.check(ok, "ctor", f"wait_num={wn} timeout={to} accepted")
            st.check(v.is_async == (to is not None or wn not in (None, 3)), "async", f"is_async={v.is_async} for wait_num={wn} timeout={to}")
    st.trace()


# ---- the back-ends' own wait() -----------------------------------------------------------------
class Conn:
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"c{self.i}"


def run_subwait(job, st):
    """SubprocEnvWorker.wait under a controlled multiprocessing.connection.wait and clock."""
    _, n, wn = job
    real_wait, real_time = sp.connection, sp.time
    for timeout in (None, 2.0):
        def ex(ch, timeout=timeout):
            clock = [10.0]
            arrived = []
            workers = [types.SimpleNamespace(parent_remote=Conn(i), result=None) for i in range(n)]
            calls = [0]

            def fake_wait(conns, timeout=None):
                st.step()
                calls[0] += 1
                conns = list(conns)
                st.check(len(conns) > 0, "hang", "connection.wait() on an empty list without need")
                if calls[0] > 3 * n + 3:
                    st.check(False, "loop", "wait() keeps asking")
                left = [c for c in conns if c.i not in arrived]
                ready = [c for c in conns if c.i in arrived]
                # what happens next: time passes by 0/1 (if limited), then some further results arrive
                alts = [p for r in range(len(left), 0, -1) for p in itertools.permutations(left, r)]
                if timeout is not None:
                    alts.append(())
                adv = 0.0
                if timeout is not None:
                    adv = [0.0, 1.0][ch.choose(2)]
                if adv > (timeout if timeout is not None else 0) + 1e-9:
                    adv = timeout
                sel = alts[ch.choose(len(alts))] if alts else ()
                if not sel and not ready:
                    clock[0] += timeout
                    return []
                clock[0] += adv
                arrived.extend(c.i for c in sel)
                return ready + list(sel)

            def now():
                return clock[0]

            sp.connection = types.SimpleNamespace(wait=fake_wait, Connection=real_wait.Connection)
            sp.time = types.SimpleNamespace(time=now, monotonic=now, perf_counter=now)
            try:
                got = SubprocEnvWorker.wait(workers, wn, timeout)
            finally:
                sp.connection, sp.time = real_wait, real_time
            ids = [w.parent_remote.i for w in got]
            st.check(len(set(ids)) == len(ids), "dup", lambda: f"workers {ids} returned")
            st.check(set(ids) <= set(arrived), "notready", lambda: f"workers {ids} returned, finished {arrived}")
            st.check(set(ids) == set(arrived), "forgotten", lambda: f"workers {ids} returned, finished {arrived}")
            expired = timeout is not None and clock[0] >= 10.0 + timeout
            st.check(len(ids) >= min(wn, n) or expired, "early", lambda: f"returned {ids} with minimum {wn} of {n} before the limit (clock +{clock[0] - 10})")
            return tuple(ids)

        st.ctx = {"n": n, "wait_num": wn, "timeout": timeout}
        for ch, res in explore(ex):
            st.outcome((timeout, res))
            st.trace({"n": n, "min": wn, "limit": timeout, "returned": list(res)})


def run_raywait(job, st):
    _, n, wn = job
    had = hasattr(ray_mod, "ray")
    real = getattr(ray_mod, "ray", None)
    for timeout in (None, 2.0):
        def ex(ch, timeout=timeout):
            workers = [types.SimpleNamespace(result=Conn(i)) for i in range(n)]
            done = []

            def fake(refs, num_returns=1, timeout=None):
                st.step()
                refs = list(refs)
                if not 0 < num_returns <= len(refs):
                    raise ValueError("num_returns cannot be greater than the number of ray_waitables provided or less than one.")
                alts = [p for p in itertools.permutations(refs, num_returns)]
                if timeout is not None:
                    alts += [p for r in range(num_returns) for p in itertools.permutations(refs, r)]
                sel = list(alts[ch.choose(len(alts))])
                done.extend(c.i for c in sel)
                return sel, [c for c in refs if c not in sel]

            ray_mod.ray = types.SimpleNamespace(wait=fake)
            try:
                got = RayEnvWorker.wait(workers, wn, timeout)
            finally:
                if had:
                    ray_mod.ray = real
                else:
                    del ray_mod.ray
            ids = [w.result.i for w in got]
            st.check(ids == done, "raywait", lambda: f"workers {ids} returned, finished {done}")
            st.check(len(ids) >= min(wn, n) or timeout is not None, "early", lambda: f"returned {ids} with minimum {wn} of {n}")
            return tuple(ids)

        st.ctx = {"n": n, "wait_num": wn, "timeout": timeout, "ray": True}
        for ch, res in explore(ex):
            st.outcome((timeout, res))
            st.trace()
