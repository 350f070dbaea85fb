"""C10: the sum tree against plain arithmetic."""
import itertools

import numpy as np

from tianshou.data import SegmentTree

PROPERTY = "C10"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive assignment sequences on the real tree; every leaf, interval and cumulative lookup compared with a plain array in every state"
NOTE = "Values are dyadic rationals, so that the oracle and the tree are exact and compared for equality."
ASSUMPTIONS = ["assigned values are non-negative (documented)", "rounding of non-dyadic values is not judged"]
VALS = (0.0, 1.0, 2.5)


def BOUNDS(tier):
    q = tier == "quick"
    return (f"sizes 1-{8 if q else 9}: all sequences of scalar/vector assignments over values {VALS} to depth {2 if q else 3} from an empty and a filled tree; every leaf pattern over "
            f"{{0,1,2.5}} (sizes to {7 if q else 8}) written at once and one by one; every interval; cumulative values at, just beside and between all boundaries; float64 and float32 queries")


def ops_for(n):
    ops = [("s", i, v) for i in range(n) for v in VALS]
    for k in (1, 2, 3):
        if k > n + 1:
            continue
        idxs = list(itertools.product(range(n), repeat=k))
        if k == 3:
            idxs = [i for i in idxs if i[0] != i[1] or i[1] == i[2]][:: max(1, n - 1)]
        for idx in idxs:
            ops.append(("v", idx, (2.5, 1.0, 0.5)[:k]))
        if k == 2:
            ops += [("v", idx, (0.0, 4.0)) for idx in idxs[:: 2]]
    return ops


def jobs(tier):
    q = tier == "quick"
    out = []
    for n in range(1, (8 if q else 9) + 1):
        depth = (3 if n <= 2 else 2) if q else (3 if n <= 4 else 2)
        k = len(ops_for(n))
        step = max(1, k // 8)
        for fill in (0, 1):
            for a in range(0, k, step):
                out.append(["seq", n, depth, fill, a, min(k, a + step)])
        if n <= (7 if q else 8):
            out.append(["leaf", n])
    for n in (16, 17, 31) if q else (16, 17, 31, 32, 33, 64, 100):
        out.append(["big", n])
    return out


def check(t, ref, st, deep=True):
    n = len(ref)
    st.check(len(t) == n, "len", lambda: f"len {len(t)} of a tree of size {n}")
    st.state((n, tuple(ref)))
    got = t[np.arange(n)]
    st.check(np.array_equal(got, ref), "leaves", lambda: f"leaves {list(got)}, assigned {list(ref)}")
    st.check(all(float(t[i]) == ref[i] for i in (0, n - 1)), "leaf", lambda: f"t[i] reads {t[0]}, {t[n-1]}")
    total = float(sum(ref))
    st.check(float(t.reduce()) == total, "total", lambda: f"reduce() = {t.reduce()}, sum is {total}")
    for a in range(n + 1):
        for b in range(a, n + 1):
            e = float(sum(ref[a:b]))
            g = float(t.reduce(a, b))
            st.check(g == e, "interval", lambda: f"reduce({a}, {b}) = {g}, sum is {e} of {list(ref)}")
        st.check(float(t.reduce(a)) == float(sum(ref[a:])), "interval-open", lambda: f"reduce({a}) = {t.reduce(a)}")
    for b in range(1, n):
        g, e = float(t.reduce(0, -b)), float(sum(ref[:-b]))
        st.check(g == e, "interval-negative", lambda: f"reduce(0, -{b}) = {g}, sum is {e}")
    if total > 0:
        cum = np.cumsum(ref)
        vs = sorted({v for c in [0.0, *cum] for v in (c, c - 0.125, c + 0.125, c + 0.5) if 0 <= v < total})
        exp = [int(np.argmax(cum >= v)) for v in vs]
        for dt in (np.float64, np.float32):
            q = np.array(vs, dtype=dt)
            keep = q.copy()
            g = t.get_prefix_sum_idx(q)
            st.check(np.array_equal(keep, q), "query-mutated", lambda: f"get_prefix_sum_idx changed its argument from {keep} to {q}")
            st.check([int(x) for x in g] == exp, "prefix", lambda: f"get_prefix_sum_idx({vs}) = {list(g)}, expected {exp} for {list(ref)}")
        for v, e in zip(vs[:: 3], exp[:: 3]):
            g = t.get_prefix_sum_idx(v)
            st.check(np.ndim(g) == 0 and int(g) == e, "prefix-scalar", lambda: f"get_prefix_sum_idx({v}) = {g}, expected {e} for {list(ref)}")
        st.outcome(tuple(exp))
    st.check(np.array_equal(t[np.arange(n)], ref) and float(t.reduce()) == total, "query-changes-tree", "queries changed the tree")


def apply(t, ref, op):
    if op[0] == "s":
        t[op[1]] = op[2]
        ref[op[1]] = op[2]
    else:
        i, v = np.array(op[1]), np.array(op[2])
        ki, kv = i.copy(), v.copy()
        t[i] = v
        ref[i] = v
        return np.array_equal(ki, i) and np.array_equal(kv, v)
    return True


def run(job, st):
    if job[0] == "seq":
        _, n, depth, fill, a, b = job
        ops = ops_for(n)
        ends = ops if depth == 2 else ops
        for first in ops[a:b]:
            for rest in itertools.product(ops, *([ends[:: 3]] * (depth - 2))):
                t, ref = SegmentTree(n), np.zeros(n)
                if fill:
                    for i in range(n):
                        t[i] = 0.5 * (i + 1)
                        ref[i] = 0.5 * (i + 1)
                seq = (first, *rest)
                st.ctx = {"size": n, "filled": fill, "ops": seq}
                for k, op in enumerate(seq):
                    ok = apply(t, ref, op)
                    st.check(ok, "args-mutated", lambda: f"assignment {op} changed its arguments")
                    st.step()
                check(t, ref, st)
                st.trace(st.ctx)
    elif job[0] == "leaf":
        n = job[1]
        for pat in itertools.product(VALS, repeat=n):
            ref = np.array(pat)
            st.ctx = {"size": n, "leaves": pat}
            t = SegmentTree(n)
            t[np.arange(n)] = ref
            check(t, ref, st)
            t = SegmentTree(n)
            for i in list(range(n))[::-1]:
                t[i] = 9.0
            for i in range(n):
                t[i] = pat[i]
            check(t, ref, st)
            st.step(3 * n)
            st.trace(st.ctx)
    else:
        n = job[1]
        ref, t = np.zeros(n), SegmentTree(n)
        for k in range(3):
            for stride in (1, 2, 3, 5, 7):
                idx = np.arange(k, n, stride)
                if not len(idx):
                    continue
                val = (idx % 4) * 0.5 + k
                t[idx] = val
                ref[idx] = val
                st.ctx = {"size": n, "stride": stride, "k": k}
                st.step()
                check(t, ref, st)
        for i in range(n):
            t[i] = 0.25 * (i % 3)
            ref[i] = 0.25 * (i % 3)
            st.step()
        check(t, ref, st)
        st.trace(st.ctx)
