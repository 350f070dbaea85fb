"""C09: prioritised sampling distribution and importance weights."""
import numpy as np
import torch

from mc.bufmodel import PRELUDES2, Model, Tr, done_flags, sequences, single_batch, stacked_batch, vec_alphabet
from mc.explore import explore
from mc.rng import patched
from tianshou.data import PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer

PROPERTY = "C09"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories of add/update/beta/reset on the real buffers; the draw is answered with every cell of a grid that separates all cumulative boundaries, giving the exact distribution"
NOTE = "Priorities are chosen so that priority^alpha are small integers; the share of grid cells mapped to each slot must equal its share of the total weight."
ASSUMPTIONS = ["the uniform draw being exactly 0.0 (probability 2^-53) is treated in its own job", "randomness comes from numpy.random"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single capacities 1-4, vectorised 2 rings of size 1-2: all histories over add/update_weight (1-2 slots, duplicates, numpy and torch)/set_beta/reset/merge to depth {4 if q else 5} "
            "(3-4 vectorised); (alpha, beta, normalise) in (1,.5,yes),(.5,.4,no),(1,0,yes),(.5,1,yes); full grid of the draw for request sizes 1 and 2")


CFG = [(1.0, 0.5, True), (0.5, 0.4, False), (1.0, 0.0, True), (0.5, 1.0, True)]


def jobs(tier):
    q = tier == "quick"
    out = []
    for ci in range(len(CFG)):
        for cap in (1, 2, 3, 4):
            for first in range(2):
                out.append(["single", ci, cap, 4 if q else 5, first])
        for cap in (1, 2):
            for pi in (0, 2, 4):
                out.append(["vec", ci, cap, 3 if q else 4, pi])
    out.append(["zero", 0, 2, 0, 0])
    for ci in range(len(CFG)):
        out.append(["minw", ci, 2, 3 if q else 5, 0])
    return out


class M:
    """Reference: weight^alpha per slot (unstored slots have none)."""

    def __init__(self, caps, alpha):
        self.m, self.alpha = Model(caps), alpha
        self.w, self.mx = {}, 1.0

    def add(self, ids, trs):
        r = self.m.add(ids, trs)
        for x in r:
            self.w[x[0]] = self.mx ** self.alpha
        return r


def run(job, st):
    kind, ci, cap, depth, extra = job
    if kind == "zero":
        return zero_draw(st)
    if kind == "minw":
        return min_weight(CFG[ci], cap, depth, st)
    alpha, beta, norm = CFG[ci]
    # priorities p with p**alpha integer: p**1 or sqrt(p)
    prio = (lambda k: float(k)) if alpha == 1.0 else (lambda k: float(k * k))
    vec = kind == "vec"
    n_env = 2 if vec else 1
    nslots = cap * n_env
    adds = [("a", [0], "c"), ("a", [0], "T")] if not vec else [("a", [0], "c"), ("a", [1, 0], "Tc"), ("a", [0, 1], "cc")]
    ups = [("u", (0,), (2,), 0), ("u", (-1,), (3,), 1), ("u", (0, -1), (3, 2), 0), ("u", (0, 1, 0), (2, 1, 3), 1), ("u", (0,), (-2,), 0)]
    misc = [("b", 1.0), ("r", 0), ("m", "cT")] if not vec else [("b", 1.0), ("r", 0)]
    alphabet = adds + ups + misc
    pre = [adds[extra]] if not vec else []
    prelude = [op for op in (PRELUDES2[extra] if vec else []) if op[0] == "a"]
    checked = set()
    for seq, k in sequences(alphabet, depth, pre):
        b = (PrioritizedVectorReplayBuffer(nslots, 2, alpha=alpha, beta=beta, weight_norm=norm) if vec
             else PrioritizedReplayBuffer(cap, alpha=alpha, beta=beta, weight_norm=norm))
        mod, cur_beta, t = M([cap] * n_env, alpha), beta, 0
        ok = True
        allops = list(prelude) + list(seq)
        for i, op in enumerate(allops):
            st.ctx = {"buffer": job, "config": CFG[ci], "ops": allops[: i + 1]}
            if op[0] == "a":
                trs = [Tr(t + j, *done_flags(c)) for j, c in enumerate(op[2])]
                t += len(trs)
                got = b.add(stacked_batch("scalar", trs), op[1]) if vec else b.add(single_batch("scalar", trs[0]))
                exp = mod.add(op[1], trs)
                st.check([int(x) for x in got[0]] == [x[0] for x in exp], "slot", "add reported the wrong slot")
            elif op[0] == "u":
                stored = [s for s, _ in mod.m.stored()]
                if not stored or (len(stored) == 1 and len(op[1]) > 1):
                    ok = False
                    break
                idx = np.array([stored[j % len(stored)] for j in op[1]])
                val = np.array([np.sign(v) * prio(abs(v)) for v in op[2]])
                keep_i, keep_v = idx.copy(), val.copy()
                arg = torch.tensor(val) if op[3] else val
                b.update_weight(idx, arg)
                st.check(np.array_equal(idx, keep_i) and np.array_equal(np.asarray(arg), keep_v), "args-mutated", "update_weight changed its arguments")
                for s, v in zip(idx, val):
                    mod.w[int(s)] = abs(v) ** alpha
                mod.mx = max([mod.mx, *map(abs, val)])
            elif op[0] == "b":
                b.set_beta(op[1])
                cur_beta = op[1]
            elif op[0] == "r":
                b.reset()
                mod.m.reset()
                mod.w = {}
            elif op[0] == "m":
                src = ReplayBuffer(3)
                for c in op[1]:
                    src.add(single_batch("scalar", Tr(t, *done_flags(c))))
                    t += 1
                b.update(src)
                for c in op[1]:
                    s = mod.m.subs[0].write(Tr(0, *done_flags(c)))
                    mod.w[s] = mod.mx ** alpha
                if mod.m.subs[0].ep_len == 0:
                    mod.m.subs[0].ep_start = mod.m.subs[0].cursor
            if i >= len(prelude) + k:
                st.step()
                judge(b, mod, cur_beta, norm, st, checked)
        if ok:
            st.trace(st.ctx)


def judge(b, mod, beta, norm, st, checked):
    stored = [s for s, _ in mod.m.stored()]
    if not stored:
        return
    w = [mod.w[s] for s in stored]
    key = (tuple(stored), tuple(w), beta, mod.mx)
    st.state((key, b.maxsize))
    # importance weights (every state)
    idx = np.array(stored)
    for sub in (idx, idx[::-1], idx[:1], np.array([stored[-1], stored[0], stored[-1]])):
        ws = np.array([mod.w[int(s)] for s in sub]) ** (-beta)
        got = np.asarray(b[sub].weight, dtype=float)
        st.check(got.shape == ws.shape, "weight-shape", lambda: f"weight has shape {got.shape} for {len(sub)} slots")
        if norm:
            exp = ws / ws.max()
            st.check(np.allclose(got, exp, rtol=1e-5), "weight", lambda: f"weights of slots {sub.tolist()} (weights {[mod.w[int(s)] for s in sub]}, beta {beta}) = {got.tolist()}, expected {exp.tolist()}")
        else:
            full = np.asarray(b[idx].weight, dtype=float)
            ref = full / (np.array(w) ** (-beta))
            st.check(np.allclose(ref, ref[0], rtol=1e-5), "weight-ratio", lambda: f"weights {full.tolist()} are not proportional to {(np.array(w) ** (-beta)).tolist()}")
            st.check(np.allclose(got / ws, ref[0], rtol=1e-5), "weight-batch-dependent", lambda: f"un-normalised weights depend on the batch: {got.tolist()}")
    if key in checked:
        return
    checked.add(key)
    total = int(round(sum(w)))
    grid = tuple((j + 0.5) / total for j in range(total))
    for n in ((1, 2) if total <= 6 else (1,)):
        share = [{} for _ in range(n)]
        exact_src = True

        def body(ch):
            with patched(ch, unit=grid) as r:
                data, ind = b.sample(n)
                return [int(x) for x in ind], r.calls, np.asarray(data.weight)
        cnt = 0
        for ch, (ind, calls, wt) in explore(body):
            cnt += 1
            st.trace()
            st.check(len(ind) == n and len(wt) == n, "count", lambda: f"sample({n}) returned {len(ind)} slots")
            st.check(set(ind) <= set(stored), "unstored", lambda: f"sample({n}) drew {ind}, stored slots are {stored} with weights {w}")
            exact_src &= calls > 0
            for j, s in enumerate(ind):
                share[j][s] = share[j].get(s, 0.0) + ch.prob
        if exact_src:
            for j in range(n):
                for s, x in zip(stored, w):
                    st.check(abs(share[j].get(s, 0.0) - x / total) < 1e-9, "distribution",
                             lambda: f"slot {s} is drawn with probability {share[j].get(s, 0.0):.4f}, its priority share is {x}/{total} (weights {dict(zip(stored, w))})")
        st.outcome((n, cnt, tuple(w)))


def min_weight(cfg, cap, depth, st):
    """The absolute scale of un-normalised weights: (p_j / p_min)^-beta, p_min the smallest priority given so far (1 to start with)."""
    alpha, beta, _ = cfg
    for seq, _ in sequences([("a",), ("u", 0, .25), ("u", -1, .5), ("u", 0, 4.), ("s", 0, 9.), ("b",)], depth, [("a",)]):
        b = PrioritizedReplayBuffer(cap, alpha=alpha, beta=beta, weight_norm=False)
        w, mn, mx, n, bt = {}, 1.0, 1.0, 0, beta
        for i, op in enumerate([("a",), *seq]):
            st.ctx = {"buffer": f"prioritised, capacity {cap}, alpha {alpha}, beta {beta}, un-normalised", "ops": [("a",), *seq][: i + 1]}
            if op[0] == "a":
                b.add(single_batch("scalar", Tr(n)))
                w[n % cap] = mx
                n += 1
            elif op[0] == "u":
                s = op[1] % len(w)
                b.update_weight(np.array([s]), np.array([op[2]]))
                w[s], mn, mx = op[2], min(mn, op[2]), max(mx, op[2])
            elif op[0] == "s":
                b.update_weight(np.array([0] * 2), np.array([op[2]] * 2))
                w[0], mn, mx = op[2], min(mn, op[2]), max(mx, op[2])
            else:
                b.set_beta(1.0)
                bt = 1.0
            st.step()
            idx = np.array(sorted(w))
            got = np.asarray(b[idx].weight, dtype=float)
            pj = np.array([w[s] for s in sorted(w)]) ** alpha
            # the code divides by the priority itself, not by its alpha power; both are a common factor
            ok = any(np.allclose(got, (pj / m) ** (-bt), rtol=1e-4) for m in (mn, mn ** alpha))
            st.check(ok, "weight-scale", lambda: f"un-normalised weights {got.tolist()}, expected ({pj.tolist()} / {mn}) ** -{bt}")
        st.state((tuple(sorted(w.items())), mn, mx, bt))
        st.trace(st.ctx)


def zero_draw(st):
    """The random source may answer exactly 0.0; also then only stored transitions may be drawn."""
    for first in (0, 1):
        b = PrioritizedVectorReplayBuffer(4, 2, alpha=1.0, beta=0.5)
        b.add(stacked_batch("scalar", [Tr(0)]), [first])
        st.ctx = {"zero-draw": "vectorised prioritised buffer", "filled environment": first}

        def body(ch):
            with patched(ch, unit=(0.0,)):
                return [int(x) for x in b.sample_indices(1)]
        for _, ind in explore(body):
            st.step()
            st.trace(st.ctx)
            st.state(("zero", first))
            if ind != [2 * first]:
                st.check(False, "zero-draw-unstored", f"random draw 0.0: sample_indices(1) = {ind}, only slot {2 * first} holds a transition")
