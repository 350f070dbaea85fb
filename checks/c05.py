"""C05: uniform sampling, with the random source answered in every possible way."""
import math

import numpy as np

from mc.bufmodel import (OPS1, PRELUDES2, cache_fits, compare_rows, drive, kind, sequences, vec_alphabet)
from mc.explore import explore
from mc.rng import patched

PROPERTY = "C05"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories x exhaustive enumeration of the index draws (numpy's random source is replaced by a choice-point explorer)"
NOTE = "In every distinct buffer state inside the bound every answer of the random source is enumerated with its exact probability; buffers are judged on what sample()/sample_indices() return."
ASSUMPTIONS = ["randomness comes from numpy.random (legacy functions or default_rng); if it came from elsewhere the distribution would not be judged, only the drawn slots"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"single capacities 1-4 (histories to depth {6 if q else 8}), vectorised with 2-3 rings of size 1-3 and cached buffers (depth {3 if q else 4} from preludes); "
            "request sizes -1, 0, unspecified, 1, 2, 3 (2 above 5 stored transitions); with and without the full-stack restriction (stack 1-3)")


def jobs(tier):
    q = tier == "quick"
    out = []
    for cap in (1, 2, 3, 4):
        for stack, avail in ((1, 0), (2, 0), (2, 1), (3, 1)):
            out.append(["single", cap, 6 if q else 8, 0, stack, avail])
    for cap in (1, 2, 3):
        for pi in range(len(PRELUDES2)):
            out.append(["vector", cap, 2 if q else 3, pi, 1, 0])
            if cap > 1:
                out.append(["vector", cap, 2 if q else 3, pi, 2, 1])
    for pi in range(3):
        out.append(["cached", 3, 3 if q else 4, pi, 1, 0])
    out.append(["three", 2, 2 if q else 3, 0, 1, 0])
    out.append(["prio", 3, 5, 0, 1, 0])
    out.append(["priovec", 2, 2, 0, 1, 0])
    return out


def perm_ok(seqs, eligible):
    return all(sorted(s) == sorted(eligible) for s in seqs)


def make_check(k, stack, avail):
    seen = set()

    def check(d, st):
        key = d.full_key()
        if key in seen:
            return
        seen.add(key)
        b, m = d.buf, d.model
        prio = k in ("prio", "priovec")
        stored = [s for s, _ in m.stored()]
        if avail and stack > 1:
            elig = []
            for s in stored:
                c, n = s, 1
                while m.prev(c) != c:
                    c, n = m.prev(c), n + 1
                if n >= stack:
                    elig.append(s)
        else:
            elig = stored
        ctx = dict(st.ctx)
        for n in (-1, 0, None, 1, 2, 3):
            if n == 3 and len(elig) > 3 or n == 2 and len(elig) > 6:
                continue
            if prio and n not in (-1, 0, None):
                continue   # weighted draws are C09
            if not elig and n is not None and n > 0 and False:
                continue
            st.ctx = {**ctx, "request": n, "stack": stack, "restricted": bool(avail)}
            perms, w, nexec, exact, tot, intercepted = set(), {}, 0, True, 0.0, True

            def body(ch):
                with patched(ch) as r:
                    try:
                        got = b.sample_indices(n)
                        return [int(x) for x in got], r
                    except Exception as e:  # judged below
                        return e, r
            for ch, (got, r) in explore(body):
                nexec += 1
                st.trace()
                st.check(not isinstance(got, Exception), "sample-raises", lambda: f"sample_indices({n}) with {len(elig)} eligible transitions raised {type(got).__name__}: {got}")
                exact &= r.exact
                intercepted &= r.calls > 0
                tot += ch.prob
                if n == -1 or not elig:
                    st.check(got == [], "empty", lambda: f"sample_indices({n}) = {got} where nothing can be drawn")
                    continue
                if n == 0:
                    st.check(got == elig, "all", lambda: f"sample_indices(0) = {got}, expected {elig}")
                    continue
                if n is None:
                    st.check(sorted(got) == sorted(elig), "permutation", lambda: f"sample_indices(None) = {got} is not a permutation of {elig}")
                    perms.add(tuple(got))
                    continue
                st.check(len(got) == n, "count", lambda: f"sample_indices({n}) returned {len(got)} slots {got}")
                st.check(set(got) <= set(elig), "unstored", lambda: f"sample_indices({n}) returned {got}; eligible slots are {elig}")
                for s in got:
                    w[s] = w.get(s, 0.0) + ch.prob / n
            st.step()
            st.outcome((n, len(elig), nexec))
            if n is not None and n > 0 and elig and intercepted and exact:
                miss = [s for s in elig if w.get(s, 0) == 0]
                st.check(not miss, "unreachable", lambda: f"slots {miss} of {elig} are never drawn by sample_indices({n})")
                st.check(abs(tot - 1) < 1e-9, "prob", "internal: probabilities do not sum to one")
                bad = {s: p for s, p in w.items() if not math.isclose(p, 1 / len(elig), abs_tol=1e-9)}
                if not (avail and stack > 1 and False):
                    st.check(not bad, "biased", lambda: f"sample_indices({n}): draw probabilities {w}, each should be {1 / len(elig):.4f}")
            if n is None and elig and intercepted and exact:
                st.check(len(perms) == math.factorial(len(elig)) or len(elig) > 4, "not-random-order", lambda: f"sample_indices(None): only {len(perms)} of {math.factorial(len(elig))} orders occur")
        # data returned with the slots
        if stored:
            st.ctx = {**ctx, "request": "sample(2)"}

            def body2(ch):
                with patched(ch, unit=(0.5, 2.0 ** -20, 1 - 2.0 ** -20)):
                    return b.sample(2 if len(elig) else 0)
            for ch, (data, ind) in explore(body2, limit=None, deviations=1):
                if stack == 1:
                    e = compare_rows(data, d.layout, [m.tr(int(i)) for i in ind], skip=())
                    st.check(e is None, "data", lambda: f"sample data for slots {list(ind)}: {e}")
                else:
                    e = compare_rows(data, d.layout, [m.tr(int(i)) for i in ind], skip=("obs", "obs_next", "info"))
                    st.check(e is None, "data", lambda: f"sample data for slots {list(ind)}: {e}")
    return check


def fresh(k, cap, st, **kw):
    make, _, _ = kind(k, cap, **kw)
    for do_reset in (False, True):
        b = make()
        if do_reset:
            b.reset()
        for n in (-1, 0, None, 1, 3):
            st.ctx = {"fresh": k, "request": n}
            st.step()
            try:
                got = b.sample_indices(n)
            except Exception as e:
                st.check(False, "sample-raises", f"sample_indices({n}) on an empty buffer raised {type(e).__name__}: {e}")
            st.check(list(got) == [], "empty", lambda: f"sample_indices({n}) on an empty buffer = {got}")


def run(job, st):
    k, cap, depth, pi, stack, avail = job
    kw = dict(stack_num=stack, sample_avail=bool(avail)) if stack > 1 else {}
    fresh("vector" if k == "three" else k, cap, st, **kw)
    fn = make_check(k, stack, avail)
    if k in ("single", "prio"):
        drive(kind(k, cap, **kw), "scalar", [], sequences([OPS1[0], OPS1[1], ("r", 0)], depth), st, fn)
    elif k in ("vector", "priovec"):
        drive(kind(k, cap, **kw), "vec" if stack == 1 else "scalar", PRELUDES2[pi], sequences(vec_alphabet(2) + [("r", 0)], depth), st, fn)
    elif k == "three":
        drive(kind("vector", cap, 3), "scalar", [("a", [1], "c")], sequences(vec_alphabet(3, "cU", [(0,), (2, 0), (0, 1, 2), (1, 2)]), depth), st, fn)
    else:
        pre = [[], [("a", [0, 1], "cT"), ("a", [1, 0], "TT"), ("a", [1], "T")], [("a", [1], "c"), ("a", [0], "T"), ("a", [1], "T"), ("a", [0], "c")]][pi]
        drive(kind("cached", cap, 2, 3), "scalar", pre, sequences(vec_alphabet(2), depth), st, fn, legal=cache_fits)
