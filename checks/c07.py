"""C07: cached buffer: whole finished episodes in main storage, open episodes in the caches."""
import itertools

import numpy as np

from mc.bufmodel import CachedModel, cache_fits, compare_rows, drive, sequences, vec_alphabet
from tianshou.data import CachedReplayBuffer, ReplayBuffer

PROPERTY = "C07"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive interleavings of environment additions on the real cached buffer vs. a list-based reference model"
NOTE = "Every history inside the bound whose episodes fit into the cache (the documented use); contents, lengths, neighbours and reports compared after every addition."
ASSUMPTIONS = ["episodes are no longer than max_episode_length (documented requirement)"]
OPTS = [dict(), dict(stack_num=2), dict(stack_num=2, sample_avail=True), dict(ignore_obs_next=True)]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"2 environments (main size, cache size) in (1,2),(2,2),(3,2),(4,3),(5,3),(2,4): all ordered subsets x done flags to depth {'3-4' if q else 5}, 4 preludes; "
            f"3 environments to depth {2 if q else 3}; storage options {OPTS}")


PRE = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")], [("a", [1], "c"), ("a", [0], "T"), ("a", [1], "T"), ("a", [0], "c")],
       [("a", [0, 1], "cc"), ("a", [1, 0], "TT"), ("a", [0, 1], "TT"), ("r", 0), ("a", [1], "c")]]


def jobs(tier):
    q = tier == "quick"
    out = []
    n = len(vec_alphabet(2))
    for mc in ((1, 2), (2, 2), (3, 2), (4, 3), (5, 3), (2, 4)):
        deep = mc in ((3, 2), (2, 2))
        for first in range(n):
            out.append([*mc, 2, 0, (4 if deep else 3) if q else 5, 0, [first]])
        for pi in (1, 2, 3):
            out.append([*mc, 2, pi, 3 if q and (pi == 2 or mc == (4, 3)) else 2 if q else 4, 0, []])
    for mc in ((3, 2), (4, 3)):
        for oi in (1, 2, 3):
            out.append([*mc, 2, 1, 3 if q else 4, oi, []])
        out.append([*mc, 2, 1, 3 if q else 4, 4, []])
    for mc in ((2, 2), (4, 3)):
        out.append([*mc, 3, 0, 3 if q else 4, 0, []])
    return out


def check(d, st):
    b, m, trace = d.buf, d.model, st.ctx
    stored = m.stored()
    main = [(s, m.subs[0].slots[s]) for s in m.subs[0].order]
    opts = b.options
    skip = ("obs", "obs_next", "info") if opts["stack_num"] > 1 else (("obs_next",) if opts["ignore_obs_next"] else ())
    st.check(len(b) == len(stored), "length", lambda: f"len {len(b)}, expected {len(stored)}")
    st.check(len(b.main_buffer) == len(main), "main-length", lambda: f"main storage holds {len(b.main_buffer)}, expected {len(main)}")
    restricted = opts["stack_num"] > 1 and opts["sample_avail"]
    if not restricted:
        got = [int(i) for i in b.main_buffer.sample_indices(0)]
        st.check(got == [s for s, _ in main], "main-order", lambda: f"main storage order {got}, expected {[s for s, _ in main]}")
        got = [int(i) for i in b.sample_indices(0)]
        st.check(got == [s for s, _ in stored], "order", lambda: f"sample_indices(0) = {got}, expected {[s for s, _ in stored]}")
    if stored:
        e = compare_rows(b[np.array([s for s, _ in stored])], d.layout, [t for _, t in stored], skip)
        st.check(e is None, "content", lambda: f"slots {[s for s, _ in stored]}: {e}")
    if main:
        e = compare_rows(b.main_buffer[np.array([s for s, _ in main])], d.layout, [t for _, t in main], skip)
        st.check(e is None, "main-content", lambda: f"main storage: {e}")
        for f, g in (("prev", m.prev), ("next", m.next)):
            idx = np.array([s for s, _ in stored])
            got, want = [int(x) for x in getattr(b, f)(idx)], [g(int(s)) for s in idx]
            st.check(got == want, f, lambda: f"{f}({idx.tolist()}) = {got}, expected {want}")
    # whole episodes only, in main
    if main:
        st.check(main[-1][1].done, "main-open-episode", "model error: newest main transition is not an episode end")
    for e in range(b.cached_buffer_num):
        sub = m.subs[e + 1]
        st.check(len(b.cached_buffers[e]) == len(sub.order), "cache-length", lambda: f"cache {e} holds {len(b.cached_buffers[e])}, expected {len(sub.order)}")
    un = [int(x) for x in b.unfinished_index()]
    st.check(un == m.unfinished(), "unfinished", lambda: f"unfinished_index() = {un}, expected {m.unfinished()}")
    op, got, exp = d.last
    if op[0] == "a":
        for k, name in enumerate(("slot", "return", "length", "start")):
            g = [float(x) for x in got[k]]
            w = [float(x[k]) for x in exp]
            st.check(g == w, name, lambda: f"add {op} reported {name} {g}, expected {w}")
    st.outcome((len(main), tuple(len(s.order) for s in m.subs[1:])))


def run(job, st):
    main, cache, n, pi, depth, oi, pre = job
    if oi == 4:   # episodes that end by truncation, one environment at a time and together
        oi, flagged = 0, vec_alphabet(2, "cU", [(0,), (1,), (0, 1)])
    alpha = (flagged if job[5] == 4 else vec_alphabet(2)) if n == 2 else vec_alphabet(3, "cT", [(0,), (1,), (2, 0), (0, 1, 2)])
    opts = OPTS[oi]
    spec = (lambda: CachedReplayBuffer(ReplayBuffer(main, **opts), n, cache)), (lambda: CachedModel(main, n, cache)), "default-ids"
    drive(spec, "scalar" if n == 3 or oi else "vec", PRE[pi], sequences(alpha, depth, [alpha[i] for i in pre]), st, check, legal=cache_fits)
