"""C29: running statistics equal the statistics of everything seen."""
import itertools

import gymnasium as gym
import numpy as np
import torch

from tianshou.env import DummyVectorEnv, VectorEnvNormObs
from tianshou.utils import MovAvg, RunningMeanStd

PROPERTY = "C29"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive value sequences x every way of splitting them into batches, and exhaustive operation sequences of the normalising wrapper against a twin bare environment; oracle: population statistics recomputed from the list of everything seen"
NOTE = "Wrapper states are reached on real vector environments in synchronous and asynchronous mode; the twin runs the same environment without wrapper."
ASSUMPTIONS = ["observations are numeric arrays", "agreement within float32 rounding (1e-5 relative)"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"statistics: all sequences of up to {4 if q else 6} values from a grid (with repeats, large values, zeros) x all compositions into batches with an empty batch anywhere x scalar/vector/matrix data x 5 dtypes x initial values; normalisation over 5 clipping settings; "
            f"moving average: all sequences of up to {3 if q else 5} inputs of 13 kinds x window sizes 0-3; wrapper: all sequences of up to {3 if q else 5} of reset/step (all, subsets), switching of updates, sharing and removal of statistics, 2-3 environments, synchronous/asynchronous, updating or not")


GRID = {"quick": (-2.0, 0.0, 1.5, 300.0), "thorough": (-2.0, 0.0, 1.5, 300.0)}
SHAPES = ((), (2,), (2, 2))
DTYPES = (np.float64, np.float32, np.int64, np.uint8, np.int32)


def jobs(tier):
    q = tier == "quick"
    js = [["rms", a, b, 4 if q else 6] for a in range(4) for b in range(4)]
    js += [["norm"], ["movavg", 3 if q else 4]] if q else [["norm"]] + [["movavg", 4, a] for a in range(13)]
    js += [["wrap", n, mode, upd, 3 if q else 5, a] for n in (2, 3) for mode in ("sync", "async") for upd in (True, False) for a in range(4)]
    return js


def compositions(n):
    for cut in range(2 ** (n - 1)):
        parts, k = [], 1
        for i in range(n - 1):
            if cut >> i & 1:
                parts.append(k)
                k = 1
            else:
                k += 1
        yield [*parts, k]


def expand(v, shape, dtype):
    """A datum of the given shape whose entries differ."""
    a = np.full(shape, v, dtype=np.float64)
    if shape:
        a = a * 0.5 + np.arange(a.size).reshape(shape)
    return np.abs(a).astype(dtype) if np.dtype(dtype).kind == "u" else a.astype(dtype)


def close(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and np.all(np.abs(a - b) <= 1e-5 * (1 + np.abs(b)))


def rms(a, b, n, st):
    vals = GRID["quick"]
    for ln in range(2, n + 1):
        for rest in itertools.product(range(4), repeat=ln - 2):
            seq = [vals[i] for i in (a, b, *rest)]
            for si, shape in enumerate(SHAPES):
                for di, dt in enumerate(DTYPES):
                    if ln > 3 and (si + di + sum(rest)) % 5:
                        continue
                    data = np.stack([expand(v, shape, dt) for v in seq])
                    f = data.astype(np.float64)
                    for comp in compositions(ln):
                        empties = (None, 0, len(comp)) if ln <= 3 else (None, len(comp) - 1)
                        for e in empties:
                            r = RunningMeanStd(*((1.0, 2.0) if e == 0 else ()))
                            chunks, k = [], 0
                            for c in comp:
                                chunks.append(data[k:k + c])
                                k += c
                            if e is not None:
                                chunks.insert(e, data[:0])
                            seen = 0
                            for c in chunks:
                                keep = c.copy()
                                r.update(c)
                                st.step()
                                seen += len(c)
                                st.ctx = {"values": seq, "batches": [len(x) for x in chunks], "shape": shape, "dtype": str(np.dtype(dt)), "after": seen}
                                st.check(np.array_equal(c, keep), "data-changed", "update() changed its data")
                                st.check(r.count == seen, "count", f"count {r.count} after {seen} data")
                                if seen:
                                    sc = max(1.0, np.abs(f[:seen]).max() ** 2)
                                    st.check(close(r.mean, f[:seen].mean(0)), "mean", lambda: f"mean {r.mean}, of all data {f[:seen].mean(0)}")
                                    st.check(np.shape(r.var) == shape and np.all(np.abs(r.var - f[:seen].var(0)) <= 1e-5 * sc), "var", lambda: f"variance {r.var}, of all data {f[:seen].var(0)}")
                                elif e == 0:
                                    st.check(r.mean == 1.0 and r.var == 4.0, "initial", f"initial mean 1, standard deviation 2; now mean {r.mean}, variance {r.var}")
                            for x in (data, data[0] + 100, -f):
                                want = np.clip((x - f.mean(0)) / np.sqrt(f.var(0) + r.eps), -10, 10)
                                st.check(np.allclose(r.norm(x), want, atol=1e-3 + 1e-3 * np.abs(want).max(), rtol=1e-3) or np.any(f.var(0) < 1e-6 * sc), "norm", lambda: f"{x} normalised to {r.norm(x)}, expected {want}")
                    st.state((seq, shape, str(dt)))
            st.trace(st.ctx)


def norm(st):
    for m, s in itertools.product((0.0, 1.5, -3.0, np.array([1.0, -2.0])), (0.5, 1.0, 3.0, np.array([2.0, 0.25]))):
        for clip in (10.0, 1.0, 0.25, None):
            r = RunningMeanStd(m, s, clip)
            for x in (-100.0, -1.0, 0.0, 0.3, 7.0, np.array([1.0, -40.0]), np.array([[1.0, 2.0], [-9.0, 40.0], [0.0, 0.1]]), np.array([3, -3])):
                want = (x - m) / np.sqrt(np.square(s) + np.finfo(np.float32).eps)
                if clip is not None:
                    want = np.clip(want, -clip, clip)
                st.ctx = {"mean": m, "std": s, "clip": clip, "x": x}
                keep = np.copy(x)
                got = r.norm(x)
                st.step()
                st.check(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-6), "norm", lambda: f"{x} with mean {m} and standard deviation {s} normalised to {got}, expected {want}")
                st.check(np.array_equal(keep, x), "data-changed", "norm() changed its data")
                st.state((repr(m), repr(s), clip, repr(x)))
            st.check(r.count == 0 and np.array_equal(r.mean, m), "norm-updates", "norm() changed the statistics")
            st.trace(st.ctx)
    r, arr = RunningMeanStd(), np.array([[1.0, 2.0], [3.0, 5.0]])
    r.update(arr)
    m0, v0 = r.mean, r.var
    a, b = m0.copy(), v0.copy()
    r.update(arr * 3)
    st.check(np.array_equal(a, m0) and np.array_equal(b, v0), "earlier-values", "statistics handed out earlier changed with later data")


INF, NAN = float("inf"), float("nan")
INPUTS = [("1.0", 1.0, [1.0]), ("-4", -4, [-4]), ("inf", INF, []), ("nan", NAN, []), ("np.nan", np.nan, []), ("f32 nan", np.float32("nan"), []),
          ("list", [2.0, NAN, 6.0], [2.0, 6.0]), ("tensor", torch.tensor(0.5), [0.5]), ("tensor nan", torch.tensor([NAN]), []), ("tensor mixed", torch.tensor([[3.0, -INF], [NAN, 8.0]]), [3.0, 8.0]),
          ("array", np.array([7.0, -INF, 9.0]), [7.0, 9.0]), ("empty", [], []), ("f64", np.float64(2.25), [2.25])]


def movavg(n, *a, st):
    for size in (0, 1, 2, 3):
        for ln in range(1, n + 1):
            for seq in itertools.product(range(len(INPUTS)), repeat=ln):
                if a and seq[0] != a[0]:
                    continue
                m, seen = MovAvg(size), []
                for i in seq:
                    got = m.add(INPUTS[i][1])
                    seen += INPUTS[i][2]
                    last = seen[-size:] if size else seen
                    want, sd = (float(np.mean(last)), float(np.std(last))) if last else (0.0, 0.0)
                    st.ctx = {"size": size, "inputs": [INPUTS[j][0] for j in seq]}
                    st.step()
                    st.check(all(abs(x - want) < 1e-6 for x in (got, m.get(), m.mean())), "movavg", lambda: f"moving average {got} ({m.get()}, {m.mean()}), mean of the last {size or 'all'} finite values {last} is {want}")
                    st.check(abs(m.std() - sd) < 1e-6, "movavg-std", lambda: f"moving standard deviation {m.std()}, expected {sd}")
                st.state((size, tuple(seen[-3:])))
            st.trace(st.ctx)


class Env(gym.Env):
    def __init__(self, k):
        self.k, self.t, self.n = k, 0, 0
        self.observation_space = gym.spaces.Box(-1e6, 1e6, (2,))
        self.action_space = gym.spaces.Discrete(4)

    def obs(self):
        return np.array([self.k * 3.0 + self.t * self.t, 10.0 - self.n + 0.5 * self.t], dtype=np.float32)

    def reset(self, seed=None, options=None):
        self.n += 1
        self.t = 0
        return self.obs(), {"n": self.n, "k": self.k}

    def step(self, a):
        self.t += 1 + int(a)
        return self.obs(), float(self.t * (self.k + 1)), self.t > 4, self.n % 2 == 0, {"t": self.t, "k": self.k}


def wrap(n, mode, upd, depth, first, st):
    ids = [None, [0], list(range(n))[::-1], [n - 1]]
    ops = [("reset", i) for i in ids] + [("step", i) for i in ids] + [("toggle",), ("share",), ("none",), ("attr",)]
    for seq in itertools.product(ops, repeat=depth - 1):
        for o0 in ops[first * 3:first * 3 + 3]:
            mk = lambda: DummyVectorEnv([lambda k=k: Env(k) for k in range(n)], **({"wait_num": 1} if mode == "async" else {}))
            w, twin = VectorEnvNormObs(mk(), update_obs_rms=upd), mk()
            other = VectorEnvNormObs(mk())
            seen, on, active = [], upd, "own"
            other_seen = []
            alive = []

            def expect(obs, rec):
                cur = seen if active == "own" else other_seen
                if active != "none" and on and rec:
                    cur.extend(np.asarray(obs, dtype=np.float64))
                if active == "none":
                    return obs
                m, v = (np.mean(cur, axis=0), np.var(cur, axis=0)) if cur else (0.0, 1.0)
                return np.clip((obs - m) / np.sqrt(v + np.finfo(np.float32).eps), -10, 10)
            hist = [("reset", None), o0, *seq]
            ready = list(range(n))
            for k, op in enumerate(hist):
                st.ctx = {"environments": n, "mode": mode, "update": upd, "history": hist[:k + 1]}
                if op[0] == "reset":
                    if mode == "async" and len(w.waiting_id) != 0:
                        break
                    o, i = w.reset(op[1])
                    o2, i2 = twin.reset(op[1])
                    want = expect(o2, True)
                    st.check(list(i) == list(i2), "reset-info", f"infos {list(i)} and {list(i2)}")
                elif op[0] == "step":
                    if mode == "async" and k % 2 == 0 and len(w.waiting_id):
                        act, idx = None, None
                    else:
                        act, idx = np.array([(k + j) % 3 for j in range(n if op[1] is None else len(op[1]))]), op[1]
                        if mode == "async" and any(j in w.waiting_id for j in (op[1] or range(n))):
                            break
                    r, r2 = w.step(act, idx), twin.step(act, idx)
                    o, want = r[0], expect(r2[0], True)
                    st.check(len(r) == len(r2) and all(np.array_equal(x, y) for x, y in zip(r[1:], r2[1:], strict=True)), "other-results", lambda: f"step returned {r[1:]}, the bare environment {r2[1:]}")
                elif op[0] == "toggle":
                    on = w.update_obs_rms = not on
                    continue
                elif op[0] == "share":
                    w.set_obs_rms(other.get_obs_rms())
                    active = "other"
                    other.reset()
                    other_seen.extend(np.asarray(other.venv.workers[j].env.obs(), dtype=np.float64) for j in range(n))
                    continue
                elif op[0] == "none":
                    w.set_obs_rms(None)
                    active = "none"
                    continue
                else:
                    w.set_env_attr("k", 5, [0])
                    twin.set_env_attr("k", 5, [0])
                    st.check(w.get_env_attr("k") == twin.get_env_attr("k"), "attr", "attributes differ")
                    st.check(len(w) == n and w.is_async == twin.is_async and list(w.waiting_id) == list(twin.waiting_id) and w.action_space == twin.action_space and w.observation_space == twin.observation_space, "delegation", "the wrapper's description differs from its environment's")
                    continue
                st.step()
                st.check(np.shape(o) == np.shape(want) and np.allclose(o, want, atol=2e-3, rtol=1e-3), "observation", lambda: f"returned observation {o}, expected {want} (normalised with everything seen so far)")
                cur = seen if active == "own" else other_seen if active == "other" else None
                if cur is not None:
                    r0 = w.get_obs_rms()
                    st.check(r0.count == len(cur), "seen-once", f"{len(cur)} observations to count, statistics hold {r0.count}")
                    if cur:
                        st.check(close(r0.mean, np.mean(cur, axis=0)) and np.allclose(r0.var, np.var(cur, axis=0), rtol=1e-3, atol=1e-3), "statistics", lambda: f"mean {r0.mean} variance {r0.var} of {cur}")
                st.state((n, mode, on, active, len(seen), len(other_seen)))
            st.trace(st.ctx)


def run(job, st):
    k, *a = job
    movavg(*a, st=st) if k == "movavg" else globals()[k](*a, st)
