"""C04: frame stacking and reduced storage."""
import numpy as np

from mc.bufmodel import LAYOUTS, cache_fits, drive, getpath, kind, leaf, same, sequences, vec_alphabet

PROPERTY = "C04"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories x storage-option product on the real buffers; stacked reads compared with an episode-list model in every state"
NOTE = "Every stored slot is read in every distinct state for every option combination inside the bound."
ASSUMPTIONS = ["save_only_last_obs is used with observations that are stacks (documented)", "slots that hold nothing are not specified"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"stack 1-4 x omit-next-observation x newest-frame-only x full-stack-restriction; single capacities 1-4 (histories to depth {7 if q else 9}), two-environment vectorised "
            f"ring sizes 1-3 and cached (depth {'2-3' if q else 3} from 3 preludes); array and nested-dict observations; explicit stack_num argument 1-3")


PRE = [[], [("a", [0, 1], "cc"), ("a", [1, 0], "cT"), ("a", [0, 1], "cT")], [("a", [0, 1], "cc")] * 3]


def jobs(tier):
    q = tier == "quick"
    out = []
    for stack in (1, 2, 3, 4):
        for ign in (0, 1):
            for last in (0, 1):
                for avail in ((0, 1) if stack > 1 else (0,)):
                    for cap in (1, 2, 3, 4):
                        if q and cap == 1 and stack > 2:
                            continue
                        out.append(["single", cap, 7 if q else 9, 0, stack, ign, last, avail, int(not q or (stack + cap) % 3 == 0)])
                    for cap in (1, 2, 3):
                        for pi in range(3):
                            if q and (cap + pi + stack + ign) % 3 == 0:
                                continue
                            out.append(["vector", cap, (3 if pi == 1 and cap == 2 else 2) if q else 3, pi, stack, ign, last, avail, 0])
                    out.append(["cached", 3, 2 if q else 3, 1 if not avail else 0, stack, ign, last, avail, 0])
    return out


def make_check(stack, ign, last, avail, layout):
    seen = set()
    obs_paths = [p for p in LAYOUTS[layout] if p[0] == "obs"]
    nxt_paths = [p for p in LAYOUTS[layout] if p[0] == "obs_next"]

    def frame(path, tr):
        v = np.asarray(leaf(layout, path, tr))
        return v[-1] if last else v

    def path_back(m, s, k):
        out = [s]
        for _ in range(k - 1):
            out.append(m.prev(out[-1]))
        return out[::-1]

    def stk(m, path, s, k):
        if k == 1:
            return frame(path, m.tr(s))
        return np.stack([frame(path, m.tr(x)) for x in path_back(m, s, k)])

    def check(d, st):
        key = d.full_key()
        if key in seen:
            return
        seen.add(key)
        b, m = d.buf, d.model
        stored = [s for s, _ in m.stored()]
        restricted = avail and stack > 1
        elig = []
        for s in stored:
            c, n = s, 1
            while m.prev(c) != c:
                c, n = m.prev(c), n + 1
            if n >= stack or not restricted:
                elig.append(s)
        got = [int(x) for x in b.sample_indices(0)]
        st.check(got == elig, "eligible", lambda: f"sample_indices(0) = {got}, steps with {stack} stored steps of their episode: {elig}")
        if not stored:
            return
        st.outcome((tuple(elig), tuple(tuple(path_back(m, s, stack)) for s in stored)))
        idx = np.array(stored)
        whole = b[idx]
        for p in obs_paths:
            exp = np.stack([stk(m, p, s, stack) for s in stored])
            st.check(same(getpath(whole, p), exp), "obs", lambda: f"buffer[{stored}].{'.'.join(p)} = {getpath(whole, p).tolist()}, expected {exp.tolist()}")
            for k in (1, 2, 3):
                g = getpath(b.get(idx, "obs", stack_num=k), p[1:])
                e = np.stack([stk(m, p, s, k) for s in stored])
                st.check(same(g, e), "get-stack", lambda: f"get({stored}, obs, stack_num={k}).{'.'.join(p[1:])} = {np.asarray(g).tolist()}, expected {e.tolist()}")
            for s in (stored[0], stored[-1]):
                g, e = getpath(b[s], p), stk(m, p, s, stack)
                st.check(same(g, e), "obs-int", lambda: f"buffer[{s}].{'.'.join(p)} = {np.asarray(g).tolist()}, expected {e.tolist()}")
            lst = stored[::-1]
            g, e = getpath(b.get(lst, "obs"), p[1:]), np.stack([stk(m, p, s, stack) for s in lst])
            st.check(same(g, e), "get-list", lambda: f"get({lst}, obs) = {np.asarray(g).tolist()}, expected {e.tolist()}")
        for p in nxt_paths:
            src = ("obs",) + p[1:]
            exp = [stk(m, src, m.next(s), stack) if ign else stk(m, p, s, stack) for s in stored]
            g = getpath(whole, p)
            st.check(same(g, np.stack(exp)), "obs_next", lambda: f"buffer[{stored}].{'.'.join(p)} = {np.asarray(g).tolist()}, expected {np.stack(exp).tolist()}")
            g = getpath(b[stored[-1]], p)
            st.check(same(g, exp[-1]), "obs_next-int", lambda: f"buffer[{stored[-1]}].{'.'.join(p)} = {np.asarray(g).tolist()}, expected {exp[-1].tolist()}")
        data, ind = b.sample(0)
        if elig:
            for p in obs_paths:
                exp = np.stack([stk(m, p, s, stack) for s in elig])
                st.check([int(i) for i in ind] == elig and same(getpath(data, p), exp), "sample-obs", lambda: f"sample(0).{'.'.join(p)} expected {exp.tolist()} for {elig}")
            for p in nxt_paths:
                exp = np.stack([stk(m, ("obs",) + p[1:], m.next(s), stack) if ign else stk(m, p, s, stack) for s in elig])
                st.check(same(getpath(data, p), exp), "sample-obs_next", lambda: f"sample(0).{'.'.join(p)} = {getpath(data, p).tolist()} expected {exp.tolist()}")
        # everything else is stored in full whatever the options
        for f, e in (("rew", [m.tr(s).rew for s in stored]), ("terminated", [m.tr(s).term for s in stored]), ("truncated", [m.tr(s).trunc for s in stored]),
                     ("act", [leaf(layout, ("act",), m.tr(s)) for s in stored])):
            st.check(same(whole[f], np.array(e)), "other-field", lambda: f"{f} = {np.asarray(whole[f]).tolist()}, expected {e}")
    return check


def run(job, st):
    k, cap, depth, pi, stack, ign, last, avail, alt = job
    kw = dict(stack_num=stack, ignore_obs_next=bool(ign), save_only_last_obs=bool(last), sample_avail=bool(avail))
    layout = ("dframes" if alt else "frames") if last else ("dict" if alt else "scalar")
    fn = make_check(stack, ign, last, avail, layout)
    if k == "single":
        drive(kind("single", cap, **kw), layout, [], sequences([("a", [0], "c"), ("a", [0], "T"), ("r", 0)], depth), st, fn)
    elif k == "vector":
        alpha = vec_alphabet(2) + [("r", 0)]
        drive(kind("vector", cap, **kw), layout, PRE[pi], sequences(alpha, depth), st, fn)
    else:
        drive(kind("cached", cap, 2, 4, **kw), layout, [("a", [0], "c"), ("a", [1], "T")] if pi else [], sequences(vec_alphabet(2), depth), st, fn, legal=cache_fits)
