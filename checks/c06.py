"""C06: a vectorised buffer against one real single buffer per environment (differential)."""
import itertools
import math

import numpy as np

from mc.bufmodel import (PRELUDES2, Tr, all_paths, done_flags, getpath, same, sequences, single_batch, stacked_batch, vec_alphabet)
from tianshou.data import (HERReplayBuffer, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, ReplayBufferManager, VectorReplayBuffer)

PROPERTY = "C06"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories of subset additions; real vectorised buffer vs. independent real single buffers in every state"
NOTE = "Differential: the oracle is the real single buffer (itself checked by C01-C05 against a list model)."
ASSUMPTIONS = ["all sub-buffers are created with the same options (the constructor requires it)"]
OPTS = [dict(), dict(stack_num=2), dict(stack_num=2, ignore_obs_next=True), dict(ignore_obs_next=True), dict(stack_num=2, sample_avail=True),
        dict(stack_num=2, save_only_last_obs=True, ignore_obs_next=True)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"(total size, environments) in (2,2),(3,2),(4,2),(6,2),(3,3),(4,3),(7,3); histories of all ordered environment subsets x done flags x reset to depth "
            f"{2 if q else 3} (3 environments) / {3 if q else 4} (2 environments) from {len(PRELUDES2)} preludes; 6 storage option sets; heterogeneous ring sizes (manager)")


def jobs(tier):
    q = tier == "quick"
    out = []
    for total in (2, 3, 4, 6):
        for pi in range(len(PRELUDES2)):
            out.append(["v", total, 2, pi, (2 if q and (pi + total) % 3 else 3) if q else 4, 0])
    for oi in range(1, len(OPTS)):
        for total in (4, 6):
            out.append(["v", total, 2, 2, 2 if q else 3, oi])
            out.append(["v", total, 2, 4, 2 if q else 3, oi])
    for total in (3, 4, 7):
        for pi in (0, 2):
            out.append(["v", total, 3, pi, 2 if q else 3, 0])
    out.append(["p", 4, 2, 0, 2 if q else 3, 0])
    for oi in (0, 1):
        out.append(["m", [1, 3], 2, 2, 2 if q else 3, oi])
        out.append(["m", [3, 2], 2, 4, 2 if q else 3, oi])
    return out


def batch_same(a, b, layout, row_a, row_b, skip=()):
    for p in all_paths(layout):
        if p[0] in skip:
            continue
        x, y = getpath(a, p), getpath(b, p)
        x = x if row_a is None else x[row_a]
        y = y if row_b is None else y[row_b]
        if not same(x, y):
            return f"{'.'.join(p)}: {np.asarray(x).tolist()} vs {np.asarray(y).tolist()}"
    return None


def compare(vec, singles, caps, layout, st, opts, n_env):
    offs = [0, *itertools.accumulate(caps)]
    st.check(vec.maxsize == offs[-1], "maxsize", lambda: f"maxsize {vec.maxsize}, expected {offs[-1]}")
    st.check(len(vec) == sum(map(len, singles)), "length", lambda: f"len {len(vec)}, environments hold {[len(s) for s in singles]}")
    exp_all = []
    un = []
    for s, o in zip(singles, offs):
        exp_all += [int(i) + o for i in s.sample_indices(0)]
        if len(s):
            un += [int(i) + o for i in s.unfinished_index()]
    got = [int(i) for i in vec.sample_indices(0)]
    st.check(got == exp_all, "order", lambda: f"sample_indices(0) = {got}, separate buffers give {exp_all}")
    gu = [int(i) for i in vec.unfinished_index()]
    st.check(gu == un, "unfinished", lambda: f"unfinished_index() = {gu}, separate buffers give {un}")
    skip = ("obs_next",) if opts.get("ignore_obs_next") or opts.get("save_only_last_obs") else ()
    for e, (s, o) in enumerate(zip(singles, offs)):
        st.check(len(vec.buffers[e]) == len(s), "sub-length", lambda: f"sub-buffer {e} holds {len(vec.buffers[e])}, separate buffer {len(s)}")
        st.check([int(x) for x in vec.buffers[e].sample_indices(0)] == [int(x) for x in s.sample_indices(0)], "sub-order", lambda: f"sub-buffer {e} order differs")
        if not len(s):
            continue
        idx = np.arange(len(s))
        a, b = vec[idx + o], s[idx]
        err = batch_same(a, b, layout, None, None, ())
        st.check(err is None, "content", lambda: f"environment {e}: {err}")
        if not isinstance(s, PrioritizedReplayBuffer):
            err = batch_same(vec.buffers[e][idx], b, layout, None, None, ())
            st.check(err is None, "sub-content", lambda: f"sub-buffer {e}: {err}")
        for f in ("prev", "next"):
            x = [int(v) - o for v in getattr(vec, f)(idx + o)]
            y = [int(v) for v in getattr(s, f)(idx)]
            st.check(x == y, f, lambda: f"environment {e}: {f}{idx.tolist()} = {x}, separate buffer {y}")


def run(job, st):
    kind, total, n, pi, depth, oi = job
    opts = OPTS[oi]
    layout = "frames" if opts.get("save_only_last_obs") else ("vec" if oi == 0 else "scalar")
    if kind == "m":
        caps = total
        make = lambda: ReplayBufferManager([ReplayBuffer(c, **opts) for c in caps])
    else:
        caps = [math.ceil(total / n)] * n
        make = (lambda: VectorReplayBuffer(total, n, **opts)) if kind == "v" else (lambda: PrioritizedVectorReplayBuffer(total, n, alpha=0.5, beta=0.5))
    single = lambda c: PrioritizedReplayBuffer(c, 0.5, 0.5) if kind == "p" else ReplayBuffer(c, **opts)
    alpha = (vec_alphabet(2) if n == 2 else vec_alphabet(3, "cT", [(0,), (2, 0), (1, 0, 2), (1, 2), (2,), (0, 1, 2)])) + [("r", 0), ("r", 1)]
    offs = [0, *itertools.accumulate(caps)]
    for seq, k in sequences(alpha, depth):
        vec, singles, t = make(), [single(c) for c in caps], 0
        ops = list(PRELUDES2[pi]) + list(seq)
        key = []
        for i, op in enumerate(ops):
            st.ctx = {"job": job, "ops": ops[: i + 1]}
            if op[0] == "r":
                vec.reset(keep_statistics=bool(op[1]))
                for s in singles:
                    s.reset(keep_statistics=bool(op[1]))
            else:
                trs = []
                for c in op[2]:
                    trs.append(Tr(t, *done_flags(c)))
                    t += 1
                full = list(op[1]) == list(range(n))
                res = vec.add(stacked_batch(layout, trs), None if full else list(op[1]))
                for j, (e, tr) in enumerate(zip(op[1], trs)):
                    one = singles[e].add(single_batch(layout, tr))
                    g = [float(res[0][j]) - offs[e], float(res[1][j]), float(res[2][j]), float(res[3][j]) - offs[e]]
                    w = [float(np.asarray(x)[0]) for x in one]
                    st.check(g == w, "report", lambda: f"environment {e}: add reported (slot,return,length,start) {g}, separate buffer {w}")
            key.append(tuple((len(s), int(s.last_index[0])) for s in singles))
            if i >= len(PRELUDES2[pi]) + k:
                st.step()
                st.state((tuple(key[-2:]), tuple(tuple(bool(x) for x in s.done[: len(s)]) if len(s) else () for s in singles)))
                st.outcome(key[-1])
                compare(vec, singles, caps, layout, st, opts, n)
        st.trace({"ops": ops})
