"""C03: neighbours in time and open episodes."""
import numpy as np

from mc.bufmodel import (OPS1, PRELUDES2, cache_fits, drive, kind, sequences, vec_alphabet)

PROPERTY = "C03"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive add/reset histories on the real buffers; prev/next/unfinished compared with a linked-list model in every state"
NOTE = "Every state reachable within the bound is checked for every stored slot and slot vector; slots that hold nothing are not specified."
ASSUMPTIONS = ["index arguments are stored slots (int, list for vectorised buffers, or integer arrays)"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single capacities 1-5, histories to depth {'8' if q else '11'}; vectorised (2-3 environments) and cached buffers, ring sizes 1-3, all ordered environment "
            f"subsets x end flags x resets to depth {'3' if q else '4'} from 5 preludes; also the never-filled and just-reset states")


def jobs(tier):
    q = tier == "quick"
    out = []
    for cap in (1, 2, 3, 4, 5):
        d = 8 if q else 11
        for a in range(3):
            for b in range(3):
                out.append(["single", cap, d, [a, b], 1])
        out.append(["single", cap, 4 if q else 6, [], 0])
    for cap in (1, 2, 3):
        for pi in range(len(PRELUDES2)):
            out.append(["vector", cap, 3 if q else 4, pi])
    for cap, cache in ((1, 3), (3, 3), (5, 2)):
        for pi in range(2):
            out.append(["cached", cap, 3 if q else 4, pi, cache])
    for i in range(4):
        out.append(["three", 2, 3, i])
    out.append(["priovec", 2, 2, 0])
    out.append(["prio", 3, 5, 0])
    return out


def check(d, st):
    m, b = d.model, d.buf
    un = [int(x) for x in b.unfinished_index()]
    st.check(sorted(un) == sorted(m.unfinished()) and len(set(un)) == len(un), "unfinished", lambda: f"unfinished_index() = {un}, expected {m.unfinished()}")
    stored = [s for s, _ in m.stored()]
    st.outcome((tuple(stored), tuple(un)))
    if not stored:
        return
    for name, f, g in (("prev", b.prev, m.prev), ("next", b.next, m.next)):
        exp = [g(s) for s in stored]
        for arr in (np.array(stored), np.array(stored[::-1]), np.array(stored + stored[:1])):
            keep = arr.copy()
            got = f(arr)
            want = [g(int(s)) for s in arr]
            st.check(np.array_equal(keep, arr), f"{name}-mutates", lambda: f"{name} changed its argument from {keep} to {arr}")
            st.check(np.shape(got) == arr.shape and [int(x) for x in got] == want, name, lambda: f"{name}({arr.tolist()}) = {np.asarray(got).tolist()}, expected {want}")
        for s, e in zip(stored, exp):
            got = f(s)
            st.check(np.ndim(got) == 0 and int(got) == e, name + "-int", lambda: f"{name}({s}) = {got!r}, expected {e}")
        if len(m.subs) > 1 and d.vector:
            got = f(stored)
            st.check([int(x) for x in got] == exp, name + "-list", lambda: f"{name}(list {stored}) = {list(got)}, expected {exp}")


def fresh(k, cap, st, **kw):
    """States without any stored transition."""
    make, _, vector = kind(k, cap, **kw)
    b = make()
    st.ctx = {"fresh": k, "cap": cap}
    st.step()
    st.check(list(b.unfinished_index()) == [], "unfinished-empty", lambda: f"unfinished_index() of a new buffer = {b.unfinished_index()}")
    b.reset()
    st.check(list(b.unfinished_index()) == [], "unfinished-empty", lambda: f"unfinished_index() after reset = {b.unfinished_index()}")


def run(job, st):
    k, cap, depth, extra = job[:4]
    if k == "single":
        fresh("single", cap, st)
        alpha = ([OPS1[0], OPS1[1], ("r", 1)] if job[4] else OPS1)
        drive(kind("single", cap), "scalar", [], sequences(alpha, depth, [alpha[i] for i in extra]), st, check)
    elif k == "prio":
        drive(kind("prio", cap), "scalar", [], sequences(OPS1[:4], depth), st, check)
    elif k in ("vector", "priovec"):
        fresh(k, cap, st)
        alpha = vec_alphabet(2) + [("r", 0), ("r", 1)]
        drive(kind(k, cap), "scalar", PRELUDES2[extra], sequences(alpha, depth), st, check)
    elif k == "three":
        alpha = vec_alphabet(3, "cU", [(0,), (2, 0), (0, 1, 2), (1, 2)]) + [("r", 0)]
        n = len(alpha)
        for a in alpha[extra * n // 4:(extra + 1) * n // 4]:
            drive(kind("vector", cap, 3), "scalar", [("a", [1], "c")], sequences(alpha, depth, [a]), st, check)
    elif k == "cached":
        fresh("cached", cap, st)
        pre = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")]][extra]
        drive(kind("cached", cap, 2, job[4]), "scalar", pre, sequences(vec_alphabet(2) + [("r", 0)], depth), st, check, legal=cache_fits)
