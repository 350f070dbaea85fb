"""C02: what add() reports, and the slots of an episode."""
import numpy as np

from mc.bufmodel import (OPS1, OPS1_SMALL, PRELUDES2, cache_fits, drive, kind, sequences, vec_alphabet)

PROPERTY = "C02"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive add/reset histories on the real buffers vs. a list-based reference model"
NOTE = "Every report of every addition in every history inside the bound is compared with the model; assumes reward shapes are constant."
ASSUMPTIONS = ["rewards of one buffer keep one shape"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single ring capacities 1-4, histories over continue/terminate/truncate/both/reset to depth {'7' if q else '10'}; vectorised and cached buffers with 2 "
            f"(3) environments, ring sizes 1-3, all ordered environment subsets x end flags x resets to depth {'3' if q else '4'} from 5 preludes; one-row stacked additions with buffer_ids=[0], alone and alternating with plain ones, to depth {'5' if q else '7'}; scalar and vector rewards")


def _vecrew(i):
    return np.array([i + 1.0, -2.0 * i])


def jobs(tier):
    q = tier == "quick"
    out = []
    for rew in ("scalar", "array"):
        for cap in (1, 2, 3, 4):
            d = 7 if q else 10
            for a in range(3):
                for b in range(3):
                    out.append(["single", rew, cap, d, [a, b], 1])
            for a in range(6):
                out.append(["single", rew, cap, 5 if q else 6, [a], 0])
        for cap in (1, 2, 3):
            for pi in range(len(PRELUDES2)):
                out.append(["vector", rew, cap, 3 if q else 4, pi])
        for cap, cache in ((1, 3), (3, 3), (4, 2), (5, 3)):
            for pi in range(3):
                out.append(["cached", rew, cap, 3 if q else 4, pi, cache])
        out.append(["three", rew, 2, 3 if q else 4])
        for cap in (2, 3):
            out.append(["priovec", rew, cap, 2 if q else 3, 0])
            out.append(["prio", rew, cap, 5, 0])
        for mode in ("alternate", True):
            for cap in (1, 3):
                out.append(["stacked", rew, cap, 5 if q else 7, 0, mode])
    return out


def same(a, b):
    return bool(np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))


def check(d, st):
    op, got, exp = d.last
    if op[0] != "a":
        return
    st.check(len(got) == 4, "arity", lambda: f"add returned {got}")
    for k, name in enumerate(("slot", "return", "length", "start")):
        col = got[k]
        st.check(len(col) == len(exp), "count", lambda: f"{name}: {len(col)} entries for {len(exp)} transitions")
        for j, e in enumerate(exp):
            st.check(same(col[j], e[k]), name, lambda: f"add #{j} of {op} reported {name} {np.asarray(col[j]).tolist()}, expected {np.asarray(e[k]).tolist()}")
    st.outcome(tuple((e[0], e[2], e[3]) for e in exp))
    # slots of the finished episodes
    m = d.model
    for j, e in enumerate(exp):
        slot, _, n, start = e
        sub, s, off = m.at(slot)
        n = min(n, sub.cap)       # of a longer episode the newest transitions are left
        if n and len(sub.order) >= n:
            want = [x + off for x in sub.order[-n:]]
            if len(exp) > 1 and want[-1] != slot:   # another episode was appended to the main ring in the same call
                i = sub.order.index(s)
                if i + 1 < n:
                    continue
                want = [x + off for x in sub.order[i + 1 - n:i + 1]]
            if d.model.__class__.__name__ == "Model" or want[0] == start:
                got_i = d.buf.get_buffer_indices(int(start), int(slot) + 1)
                st.check(list(map(int, got_i)) == want, "episode-slots", lambda: f"get_buffer_indices({start}, {slot + 1}) = {list(got_i)}, the episode is at {want}")
    if m.__class__.__name__ == "Model":
        # any in-order range of at most cap consecutive slots of one ring; and across rings it must be refused
        for sub, off in zip(m.subs, m.off):
            for a in range(sub.cap):
                for ln in range(1, sub.cap + 1):
                    want = [off + (a + x) % sub.cap for x in range(ln)]
                    g = d.buf.get_buffer_indices(want[0], want[-1] + 1)
                    st.check(list(map(int, g)) == want, "range-slots", lambda: f"get_buffer_indices({want[0]}, {want[-1] + 1}) = {list(g)} expected {want}")
        if len(m.subs) > 1:
            for a in range(m.off[1]):
                for b in range(m.off[1], m.off[1] + m.subs[1].cap):
                    for lo, hi in ((a, b + 1), (b, a + 1)):
                        try:
                            g = d.buf.get_buffer_indices(lo, hi)
                        except ValueError:
                            continue
                        st.check(False, "cross-ring", lambda: f"get_buffer_indices({lo}, {hi}) crosses sub-buffers but returned {list(g)}")


def run(job, st):
    k, rew, cap, depth = job[:4]
    r = _vecrew if rew == "array" else None
    if k == "single":
        alpha = (OPS1_SMALL[:1] + OPS1[1:2] + [("r", 1)]) if job[5] else OPS1 + [("a", [0], "B")]
        drive(kind("single", cap), "scalar", [], sequences(alpha, depth, [alpha[i] for i in job[4]]), st, check, rew=r)
    elif k == "stacked":
        # one transition at a time, but given as a batch of shape (1, ...) with buffer_ids=[0]
        make, model, _ = kind("single", cap)
        drive((make, model, job[5]), "scalar", [], sequences([("a", [0], c) for c in "cTUB"] + [("r", 0)], depth), st, check, rew=r)
    elif k == "prio":
        drive(kind("prio", cap), "scalar", [], sequences(OPS1[:4], depth), st, check, rew=r)
    elif k in ("vector", "priovec"):
        alpha = vec_alphabet(2) + [("r", 0), ("r", 1)]
        drive(kind(k, cap), "scalar", PRELUDES2[job[4]], sequences(alpha, depth), st, check, rew=r)
    elif k == "three":
        alpha = vec_alphabet(3, "cU", [(0,), (2, 0), (0, 1, 2), (1, 2)])
        drive(kind("vector", cap, 3), "scalar", [], sequences(alpha[:: 2 if depth > 3 else 1], depth), st, check, rew=r)
    elif k == "cached":
        pre = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")], [("a", [1], "c"), ("a", [0], "T"), ("a", [1], "T"), ("a", [0], "c")]][job[4]]
        alpha = vec_alphabet(2, "cT") + [("r", 0), ("a", [1], "U"), ("a", [0, 1], "UB")]
        drive(kind("cached", cap, 2, job[5]), "scalar", pre, sequences(alpha, depth), st, check, rew=r, legal=cache_fits)
