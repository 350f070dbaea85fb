"""C17: the in-process, subprocess and shared-memory back-ends side by side on the same call sequences."""
import copy
import itertools
import multiprocessing as mp
import os
import pickle
import shutil
import tempfile
import types

import gymnasium as gym
import numpy as np

import tianshou.env.worker.ray as ray_mod
from mc.explore import explore
from tianshou.env import DummyVectorEnv, ShmemVectorEnv, SubprocVectorEnv
from tianshou.env.venvs import BaseVectorEnv, RayVectorEnv
from tianshou.env.worker.subproc import ShArray

PROPERTY = "C17"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive call sequences executed in lock step on the real back-ends (real worker processes and shared memory) with the environments' own definition as oracle; all earlier results re-checked after every call"
NOTE = "All sequences of a depth are run back to back on the same live workers, each starting with a reset, so worker state carried over between sequences is exercised too."
ASSUMPTIONS = ["environments return fresh objects of the data type of their observation space", "ray is replaced by a synchronous stand-in that pickles arguments and results",
               "errors raised inside an environment are not compared (they cannot cross a process boundary unchanged)"]


def B(dt, *shape):
    return gym.spaces.Box(0, 100, shape, dt)


S = gym.spaces
SPACES = {
    "f32": B(np.float32, 3), "f64m": B(np.float64, 2, 2), "u8": B(np.uint8, 2, 2, 1), "i64": B(np.int64, 2), "scalar": B(np.float32), "empty": B(np.float32, 0),
    "i16": B(np.int16, 1), "disc": S.Discrete(50), "md": S.MultiDiscrete([50, 60, 70]), "mb": S.MultiBinary(4),
    "dict": S.Dict({"a": B(np.float32, 2), "b": B(np.uint8, 1)}),
    "dictdisc": S.Dict({"a": S.Discrete(50), "b": B(np.float64, 2), "c": S.MultiBinary(3)}),
    "nest": S.Dict({"x": S.Dict({"y": B(np.float32, 2), "d": S.Discrete(50)}), "t": S.Tuple((B(np.float64, 1), S.Discrete(50), S.Dict({"z": B(np.int64, 2)})))}),
    "tuple": S.Tuple((B(np.float32, 2), S.Discrete(50))),
    "tuptup": S.Tuple((S.Tuple((B(np.float32, 2),)), S.Dict({"q": S.Discrete(50)}))),
}


def fill(space, v, kind):
    """A value of the space determined by the small integer v."""
    if isinstance(space, S.Dict):
        d = {k: fill(s, v + 3 * i + 1, kind) for i, (k, s) in enumerate(space.spaces.items())}
        return dict(reversed(d.items())) if kind % 2 else d     # the order of the keys means nothing
    if isinstance(space, S.Tuple):
        return tuple(fill(s, v + 5 * i + 2, kind) for i, s in enumerate(space.spaces))
    if isinstance(space, S.Discrete):
        return int(v % 50) if kind % 2 else np.int64(v % 50)
    n = int(np.prod(space.shape))
    if isinstance(space, S.MultiBinary):
        return np.array([(v >> i) & 1 for i in range(n)], dtype=space.dtype).reshape(space.shape)
    arr = np.array([(v + 7 * i) % 50 for i in range(n)], dtype=space.dtype).reshape(space.shape)
    if kind == 2 and arr.ndim > 1:
        arr = np.asfortranarray(arr)
    if kind == 3 and arr.ndim == 1 and n:
        arr = np.repeat(arr, 2)[::2]
    return arr


class Env(gym.Env):
    def __init__(self, eid, space, kind, logdir, rkind=0):
        self.eid, self.kind, self.rkind = eid, kind, rkind
        self.observation_space = space
        self.action_space = S.Discrete(9) if kind % 2 == 0 else B(np.float32, 2)
        self.logdir = logdir
        self.name = f"{os.getpid()}-{id(self)}-{next(COUNT)}"
        self.write("new")
        self.ep, self.t, self.acc = 0, 0, 0
        self.extra = eid * 10

    def write(self, what):
        with open(os.path.join(self.logdir, self.name), "a") as f:
            f.write(what + "\n")

    def val(self):
        return (self.eid * 17 + self.ep * 5 + self.t * 2 + self.acc + (self.extra["k"] if isinstance(self.extra, dict) else 0)) % 47

    def reset(self, seed=None, options=None):
        self.ep = (self.ep + 1) % 7 if seed is None else seed % 7
        self.t = 0
        self.acc = 0 if options is None else options["acc"]
        return fill(self.observation_space, self.val(), self.kind), {"n": self.ep, "arr": np.array([self.ep, self.eid])}

    def step(self, a):
        self.t += 1
        self.acc = (self.acc * 3 + int(np.sum(np.asarray(a)))) % 40
        rew = [float(self.acc), np.float32(self.acc), self.acc, np.array([self.acc, 1.0])][self.rkind]
        return fill(self.observation_space, self.val(), self.kind), rew, self.acc % 3 == 0, self.t % 4 == 0, {"n": self.t, "d": {"acc": self.acc, "arr": np.array([1.5 * self.acc])}}

    def render(self):
        return np.full((2,), self.val())

    def close(self):
        self.write("close")


COUNT = itertools.count()


class W(gym.Wrapper):
    pass


class FakeHandle:
    def __init__(self, obj):
        self._obj = obj

    def __getattr__(self, name):
        if name not in {"step", "reset", "close", "render", "seed", "get_env_attr", "set_env_attr"}:
            raise AttributeError(name)
        f = getattr(self._obj, name)
        return types.SimpleNamespace(remote=lambda *a, **k: pickle.dumps(f(*pickle.loads(pickle.dumps(a)), **k)))


class FakeRay:
    def is_initialized(self):
        return True

    def init(self, *a, **k):
        pass

    def remote(self, cls):
        return types.SimpleNamespace(options=lambda **k: types.SimpleNamespace(remote=lambda env: FakeHandle(cls(env))))

    def get(self, x):
        return pickle.loads(x)

    def wait(self, refs, num_returns=1, timeout=None):
        assert 0 < num_returns <= len(refs)
        return list(refs[:num_returns]), list(refs[num_returns:])


def BOUNDS(tier):
    q = tier == "quick"
    return (f"{len(SPACES)} observation spaces (Box of 5 types and ranks 0-3, Discrete, MultiDiscrete, MultiBinary, Dict, nested Dict/Tuple, Tuple), 2-3 environments with and without wrapper: all sequences of {len(OPS)} calls to depth "
            f"{3 if q else 4} on Dummy/Subproc/Shmem/Ray(stand-in) in lock step; asynchronous rounds; closing idle and while stepping; all shared-memory element types")


OPS = ["s", "s1", "s10", "r", "r0", "r10", "rk", "ga", "sa", "seed", "render", "space"]


def jobs(tier):
    q = tier == "quick"
    out = []
    big = ("dictdisc", "nest", "disc", "f32", "tuple")
    for sp in SPACES:
        for first in range(len(OPS)) if (sp in big and not q) or sp in ("nest", "f32") else [None]:
            out.append(["seq", sp, 3 if (sp in ("nest", "f32") and q) else 2 if q else (4 if sp in big else 3), first])
    for sp in ("f32", "disc", "nest", "dict"):
        for wn in (1, 2):
            out.append(["async", sp, wn, 2 if q else 3])
    out += [["close", sp] for sp in ("f32", "nest")] + [["sharray"]]
    return out


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in sorted(x.items())}
    if isinstance(x, tuple):
        return tuple(canon(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return ("obj", x.shape, [canon(v) for v in x.reshape(-1)])
    if isinstance(x, S.Space):
        return repr(x)
    a = np.asarray(x)
    return (str(a.dtype), a.shape, a.tolist())


def backends(fns, wn=None, timeout=None, ray=True):
    out = {"dummy": DummyVectorEnv(fns, wn, timeout), "subproc": SubprocVectorEnv(fns, wn, timeout), "shmem": ShmemVectorEnv(fns, wn, timeout),
           "subproc-shared": SubprocVectorEnv(fns, wn, timeout, share_memory=True, context="fork")}
    if ray:
        ray_mod.ray = FakeRay()
        import sys
        sys.modules["ray"] = ray_mod.ray
        out["ray"] = RayVectorEnv(fns, wn, timeout)
    return out


def ref_envs(n, sp, kind, wrap, logdir):
    rk = {"f32": 1, "disc": 2, "dict": 3}.get(sp, 0)

    def mk(i):
        e = Env(i, SPACES[sp], kind, logdir, rk)
        return W(e) if wrap else e
    return [lambda i=i: mk(i) for i in range(n)]


def acts(n, k, kind):
    if kind % 2 == 0:
        return np.array([(k * 2 + i) % 9 for i in range(n)])
    return np.array([[(k + i) % 5, i] for i in range(n)], dtype=np.float32)


def do(v, op, k, kind, n):
    """Performs one operation; returns a canonical description of everything observable and the raw results."""
    ids = {"s": None, "s1": [1], "s10": [n - 1, 0], "r": None, "r0": 0, "r10": np.array([1, 0]), "rk": [1]}.get(op)
    try:
        if op[0] == "s" and op in ("s", "s1", "s10"):
            r = v.step(acts(n if ids is None else len(ids), k, kind), ids)
        elif op == "rk":
            r = v.reset(ids, seed=k % 5, options={"acc": k % 11})
        elif op in ("r", "r0", "r10"):
            r = v.reset(ids)
        elif op == "ga":
            r = (v.get_env_attr("extra"), v.get_env_attr("extra", [1, 0]), v.get_env_attr("t", 1), v.get_env_attr("acc"))
        elif op == "sa":
            r = v.set_env_attr("extra", {"k": k}, [1])
        elif op == "seed":
            # the seeds used, and what random actions would come next (sampled from copies)
            r = v.seed(k % 6)
            r = (tuple(r), tuple(copy.deepcopy(s).sample() for s in v.action_space))
        elif op == "render":
            r = v.render()
        elif op == "space":
            r = (v.action_space, v.observation_space, len(v), v.env_num)
    except (TypeError, ValueError) as e:
        return ("raised", type(e).__name__), None
    if isinstance(r, list):
        r = tuple(r)
    if op == "ga":
        r = tuple(tuple(x) for x in r)
    if op == "space":
        r = (tuple(r[0]), tuple(r[1]), r[2], r[3])
    return canon(r), r


def run(job, st):
    logdir = tempfile.mkdtemp(prefix="vc17")
    try:
        globals()["run_" + job[0]](job, st, logdir)
    finally:
        for p in mp.active_children():
            p.terminate()
        shutil.rmtree(logdir, ignore_errors=True)


def closings(st, logdir, ctx):
    for f in os.listdir(logdir):
        lines = open(os.path.join(logdir, f)).read().split()
        st.check(lines == ["new", "close"], "close-count", lambda: f"{ctx}: an environment instance was {lines}")


def run_seq(job, st, logdir):
    _, sp, depth, first = job
    n = 3 if sp in ("nest", "dictdisc") else 2
    for kind, wrap in ((0, False), (1, True), (2, True), (3, False)):
        vs = backends(ref_envs(n, sp, kind, wrap, logdir))
        ctr = 0
        ref = [Env(i, SPACES[sp], kind, tempfile.gettempdir() if False else logdir, 0) for i in range(0)]
        try:
            d = depth if kind < 2 else min(depth, 2)
            for seq in itertools.product(OPS, repeat=d):
                if first is not None and seq[0] != OPS[first]:
                    continue
                kept = {b: [] for b in vs}
                hist = []
                for op in ("r", *seq):
                    ctr += 1
                    hist.append(op)
                    st.ctx = {"space": sp, "kind": kind, "wrapped": wrap, "calls": hist}
                    exp = None
                    for b, v in vs.items():
                        c, raw = do(v, op, ctr, kind, n)
                        st.step()
                        if exp is None:
                            exp = c
                        st.check(c == exp, f"differs:{b}", lambda: f"{op}: {b} returned {c}, in-process {exp}")
                        kept[b].append((op, c, raw))
                        for o2, c2, r2 in kept[b]:
                            if r2 is not None and o2 != "space":
                                st.check(canon(r2) == c2, f"aliased:{b}", lambda: f"{b}: what {o2} had returned changed after {op}: now {canon(r2)}, was {c2}")
                    st.outcome(repr(exp))
                st.trace()
                st.state((sp, kind, repr(exp)))
        finally:
            for v in vs.values():
                v.close()
        closings(st, logdir, f"{sp}")
        oracle(st, sp, kind, n, logdir)


def oracle(st, sp, kind, n, logdir):
    """The in-process back-end itself against direct stepping of the environments."""
    fns = ref_envs(n, sp, kind, False, logdir)
    ref = [f() for f in fns]
    v = DummyVectorEnv(fns)
    try:
        if sp.startswith("tup"):
            try:
                v.reset()
            except TypeError:
                return
            st.check(False, "tuple", "tuple observations neither refused nor documented")
        exp = [e.reset() for e in ref]
        obs, info = v.reset()
        for k in range(6):
            for i in range(n):
                st.check(canon(obs[i]) == canon(exp[i][0]) and canon(info[i]) == canon({**exp[i][-1], **({"env_id": i} if k else {})}), "oracle", lambda: f"environment {i}: {obs[i]} {info[i]}, expected {exp[i]}")
            a = acts(n, k, kind)
            exp = [e.step(a[i]) for i, e in enumerate(ref)]
            obs, rew, te, tr, info = v.step(a)
            for i in range(n):
                st.check(canon((rew[i], te[i], tr[i]))[1:] == canon((np.asarray(exp[i][1]), np.bool_(exp[i][2]), np.bool_(exp[i][3])))[1:], "oracle", lambda: f"environment {i}: {rew[i]}, {te[i]}, {tr[i]} expected {exp[i]}")
            st.step()
    finally:
        v.close()
        for e in ref:
            e.close()


def run_async(job, st, logdir):
    """Asynchronous rounds: whatever the schedule, per environment the results are those of in-process stepping."""
    _, sp, wn, rounds = job
    n, kind = 3, 0
    subsets = [list(s) for r in (1, 2, 3) for s in itertools.permutations(range(n), r)][::2]
    plain = backends(ref_envs(n, sp, kind, False, logdir), None, None, ray=False)
    vs = backends(ref_envs(n, sp, kind, False, logdir), wn, None)
    timed = SubprocVectorEnv(ref_envs(n, sp, kind, False, logdir), n, 5.0)
    vs["subproc-timed"] = timed
    dummy = plain["dummy"]
    ctr = 0
    try:
        for seq in itertools.product(subsets, repeat=rounds):
            st.ctx = {"space": sp, "wait_num": wn, "rounds": [list(s) for s in seq]}
            ctr += 1
            exp_r = canon(dummy.reset())
            for b, v in vs.items():
                st.check(canon(v.reset()) == exp_r, f"reset:{b}", f"{b}: reset differs")
            expected = {i: [] for i in range(n)}
            sub = []
            for k, ids in enumerate(seq):
                a = acts(len(ids), ctr + k, kind)
                sub.append((ids, a))
                r = dummy.step(a, ids)
                for j, i in enumerate(ids):
                    expected[i].append(canon(tuple(x[j] for x in r)))
            for b, v in vs.items():
                got = {i: [] for i in range(n)}
                kept = []
                busy = set()

                def take(r, need):
                    got_ids = [d["env_id"] for d in r[4]]
                    for j, i in enumerate(got_ids):
                        st.check(i in busy, "unasked", f"{b}: result of {i} not in flight")
                        busy.discard(i)
                        got[i].append(canon(tuple(x[j] for x in r)))
                    kept.append((r, canon(r)))
                    st.step()
                    st.check(len(got_ids) >= need, "early", f"{b}: {len(got_ids)} results, minimum {need}")
                for ids, a in sub:
                    while busy & set(ids):
                        r = v.step(None)
                        take(r, min(v.wait_num, len(busy)) if v.timeout is None else 1)
                    busy |= set(ids)
                    r = v.step(a, ids)
                    take(r, min(v.wait_num, len(busy)) if v.timeout is None else 1)
                while busy:
                    take(v.step(None), 1)
                st.check(got == expected, f"async:{b}", lambda: f"{b}: {got}, expected {expected}")
                for r, c in kept:
                    st.check(canon(r) == c, f"aliased:{b}", lambda: f"{b}: an earlier result changed to {canon(r)} from {c}")
                st.outcome(repr(got))
            st.trace()
    finally:
        for v in [*plain.values(), *vs.values()]:
            v.close()
    closings(st, logdir, sp)


def run_close(job, st, logdir):
    _, sp = job
    before = {p.pid for p in mp.active_children()}
    for mode in ("fresh", "reset", "stepped", "inflight", "seeded"):
        for b in ("dummy", "subproc", "shmem", "subproc-shared", "ray"):
            st.ctx = {"space": sp, "mode": mode, "backend": b}
            allv = backends(ref_envs(3, sp, 0, True, logdir), 1 if mode == "inflight" else None)
            v = allv.pop(b)
            for w in allv.values():
                w.close()
            if mode != "fresh":
                v.reset()
            if mode in ("stepped", "inflight"):
                v.step(acts(3, 1, 0), [0, 1, 2])
            if mode == "seeded":
                v.seed([3, 1, 2])
            v.close()
            left = {p.pid for p in mp.active_children()} - before
            st.check(not left, "alive", f"{b}: worker processes {left} still running after close()")
            closings(st, logdir, f"{b}/{mode}")
            for name, f in {"reset": lambda: v.reset(), "step": lambda: v.step(acts(3, 1, 0)), "seed": lambda: v.seed(1), "render": lambda: v.render(), "close": lambda: v.close(),
                            "get": lambda: v.get_env_attr("extra"), "set": lambda: v.set_env_attr("extra", 1), "space": lambda: v.action_space}.items():
                st.step()
                try:
                    f()
                except AssertionError:
                    continue
                st.check(False, "after-close", f"{b}: {name} works after close()")
            closings(st, logdir, f"{b}/{mode} after refused calls")
            st.state((mode, b))
            st.trace()


def run_sharray(job, st, logdir):
    for dt in (np.bool_, np.uint8, np.uint16, np.uint32, np.uint64, np.int8, np.int16, np.int32, np.int64, np.float32, np.float64):
        for shape in ((), (1,), (3,), (2, 3), (2, 1, 2), (0,)):
            a = ShArray(np.dtype(dt), shape, mp.get_context())
            n = int(np.prod(shape))
            vals = [np.array([(i * 37 + s) % 120 for i in range(n)]).astype(dt).reshape(shape) for s in range(3)]
            if np.issubdtype(dt, np.number) and n:
                info = np.iinfo(dt) if np.issubdtype(dt, np.integer) else np.finfo(dt)
                vals.append(np.full(shape, info.max, dtype=dt))
                vals.append(np.full(shape, info.min, dtype=dt))
            kept = []
            for x in vals + vals[::-1]:
                st.step()
                st.ctx = {"dtype": str(np.dtype(dt)), "shape": shape, "value": x.tolist()}
                src = x.copy()
                a.save(x)
                g = a.get()
                st.check(g.dtype == x.dtype and g.shape == x.shape and np.array_equal(g, x) and np.array_equal(x, src), "sharray", lambda: f"stored {x}, read {g}")
                kept.append((g, src))
                if x.ndim:
                    x2 = x.copy()
                    x2[...] = 0
            for g, src in kept:
                st.check(np.array_equal(g, src), "sharray-alias", lambda: f"value read earlier is now {g} instead of {src}")
            st.state((str(dt), shape))
    st.trace()
