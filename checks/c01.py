"""C01: ring contents. Explores every add/reset history and compares contents with the model."""
import numpy as np

from mc.bufmodel import (Driver, Model, CachedModel, compare_rows, sequences, vec_alphabet, same, leaf, getpath, all_paths, single_batch, stacked_batch, Tr)
from tianshou.data import (Batch, CachedReplayBuffer, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer)

PROPERTY = "C01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all sequences of additions and resets on the real ReplayBuffer, in lock-step with a list model; every query is compared in every state"
ASSUMPTIONS = ["fields keep one shape and type per key, as the storage is allocated from the first transition",
               "observation values are drawn from per-transition distinct constants (contents are compared by identity of value)"]


def BOUNDS(tier):
    return ("single: capacities 1-4, all sequences over {continue, terminate, truncate, reset, reset keeping statistics} to depth "
            + ("2*cap+2" if tier == "quick" else "2*cap+4") + " from the empty buffer; vectorised: 2-3 environments, ring sizes 1-3, every ordered "
            "environment subset x done flags x reset to depth 3-4 after preludes that fill/wrap rings; 3 observation layouts")


SINGLE = [("a", [0], "c"), ("a", [0], "T"), ("a", [0], "U"), ("r", 0), ("r", 1)]
SMALL = [("a", [0], "c"), ("a", [0], "T"), ("r", 0)]

PRELUDES = [[], [("a", [0], "c")] * 3, [("a", [0, 1], "cT"), ("a", [1], "c"), ("a", [1, 0], "cc")],
            [("a", [1, 0], "Tc")] * 3 + [("r", 0)], [("a", [0, 1], "cc")] * 4]


def jobs(tier):
    out = []
    q = tier == "quick"
    for lay in ("scalar", "vec", "dict"):
        for cap in (1, 2, 3, 4):
            depth = min(2 * cap + (2 if q else 4), (8 if lay == "scalar" else 7) if q else 11)
            alpha = SINGLE if depth <= (5 if q else 6) else SMALL
            for a in range(len(alpha)):
                for b in range(len(alpha)):
                    out.append(["single", lay, cap, depth, int(alpha is SMALL), [a, b]])
    for li, lay in enumerate(("scalar", "vec", "dict")):
        for ti, (total, n) in enumerate(((2, 2), (3, 2), (5, 2), (6, 2))):
            for pi in range(len(PRELUDES)):
                if q and (ti + pi) % 3 != li and pi:
                    continue   # quick: every (size, prelude) pair with one of the layouts, the empty prelude with all
                out.append(["vector", lay, total, n, pi, (2 if pi == 0 and li else 3) if q else 4])
        out.append(["vector", lay, 4, 3, 0, 2 if q else 3])
        out.append(["vector", lay, 6, 3, 2, 2 if q else 3])
    for kind in ("prio", "priovec", "cached"):
        out.append([kind, "vec", 3, 4 if q else 5])
    for lay in ("scalar", "vec", "dict"):
        out.append(["alias", lay])
        out.append(["extra", lay])
    return out


def check_contents(buf, model, layout, st, trace):
    stored = model.stored()
    st.check(len(buf) == len(stored), "length", lambda: f"len {len(buf)} expected {len(stored)}", trace)
    idx = buf.sample_indices(0)
    exp = [s for s, _ in stored]
    st.check(list(map(int, idx)) == exp, "order", lambda: f"sample_indices(0) gives {list(idx)}, oldest-to-newest slots are {exp}", trace)
    st.outcome(tuple(exp))
    if not stored:
        return
    trs = [t for _, t in stored]
    e = compare_rows(buf[np.array(exp)], layout, trs)
    st.check(e is None, "content", lambda: f"buffer[slots]: {e}", trace)
    b, ind = buf.sample(0)
    st.check(list(map(int, ind)) == exp, "sample-all-order", lambda: f"sample(0) indices {list(ind)} expected {exp}", trace)
    e2 = compare_rows(b, layout, trs)
    st.check(e2 is None, "sample-all", lambda: f"sample(0): {e2}", trace)
    e3 = compare_rows(buf[:], layout, trs)
    st.check(e3 is None, "slice-all", lambda: f"buffer[:]: {e3}", trace)
    # single slot, list of slots (reversed, duplicated), field access
    for s, t in (stored[0], stored[-1]):
        one = buf[s]
        for p in all_paths(layout):
            st.check(same(getpath(one, p), leaf(layout, p, t)), "int-index", lambda: f"buffer[{s}].{'.'.join(p)} = {getpath(one, p)!r} expected {leaf(layout, p, t)!r}", trace)
            st.check(same(getpath(getattr(buf, p[0]), p[1:])[s], leaf(layout, p, t)), "field-access",
                     lambda: f"buffer.{'.'.join(p)}[{s}] expected {leaf(layout, p, t)!r}", trace)
    rev = exp[::-1] + exp[:1]
    e4 = compare_rows(buf[rev], layout, trs[::-1] + trs[:1])
    st.check(e4 is None, "list-index", lambda: f"buffer[{rev}]: {e4}", trace)
    if len(model.subs) == 1 and len(stored) == len(model.subs[0].slots[:len(stored)]):
        sl = buf[0:len(stored)]
        e5 = compare_rows(sl, layout, [model.subs[0].slots[k] for k in range(len(stored))])
        st.check(e5 is None, "slice", lambda: f"buffer[0:{len(stored)}]: {e5}", trace)
        if len(stored) > 1:
            e6 = compare_rows(buf[-2:], layout, [model.subs[0].slots[k] for k in range(len(stored))][-2:])
            st.check(e6 is None, "slice-negative", lambda: f"buffer[-2:]: {e6}", trace)


def drive(mk, model_mk, layout, vector, pre, seqs, st, checkfn):
    for seq, k in seqs:
        d = Driver(mk, model_mk(), layout, vector)
        st.ctx = {"prelude": pre, "ops": seq}
        for op in pre:
            d.apply(op)
        for i, op in enumerate(seq):
            d.apply(op)
            if i >= k:
                st.step()
                st.state(d.model.key())
                checkfn(d.buf, d.model, layout, st, {"prelude": pre, "ops": seq[: i + 1]})
        st.trace({"layout": layout, "prelude": pre, "ops": seq})


def run(job, st):
    kind = job[0]
    if kind == "single":
        _, lay, cap, depth, small, pre = job
        alpha = SMALL if small else SINGLE
        seqs = sequences(alpha, depth, [alpha[i] for i in pre])
        drive(lambda: ReplayBuffer(cap), lambda: Model([cap]), lay, False, [], seqs, st, check_contents)
    elif kind == "vector":
        _, lay, total, n, pi, depth = job
        cap = -(-total // n)
        alpha = vec_alphabet(n) if n == 2 else vec_alphabet(n, "cT", [(0,), (2, 0), (0, 1, 2), (1, 2)])
        alpha = alpha + [("r", 0), ("r", 1)]
        drive(lambda: VectorReplayBuffer(total, n), lambda: Model([cap] * n), lay, "default-ids", PRELUDES[pi], sequences(alpha, depth), st, check_contents)
    elif kind == "prio":
        _, lay, cap, depth = job
        drive(lambda: PrioritizedReplayBuffer(cap, 0.6, 0.4), lambda: Model([cap]), lay, False, [], sequences(SINGLE, depth), st, check_contents)
    elif kind == "priovec":
        _, lay, cap, depth = job
        drive(lambda: PrioritizedVectorReplayBuffer(2 * cap, 2, alpha=0.6, beta=0.4), lambda: Model([cap] * 2), lay, True, [], sequences(vec_alphabet(2) + [("r", 0)], depth - 1), st, check_contents)
    elif kind == "cached":
        _, lay, cap, depth = job
        drive(lambda: CachedReplayBuffer(ReplayBuffer(cap), 2, 4), lambda: CachedModel(cap, 2, 4), lay, True, [], sequences(vec_alphabet(2), depth - 1), st, check_contents)
    elif kind == "alias":
        run_alias(job[1], st)
    elif kind == "extra":
        run_extra(job[1], st)


def _scribble(b):
    """Overwrite every array reachable from a Batch/dict in place."""
    for v in (b.values() if hasattr(b, "values") else b):
        if isinstance(v, (Batch, dict)):
            _scribble(v)
        elif isinstance(v, np.ndarray) and v.dtype != object and v.ndim > 0:
            v[...] = 0 if v.dtype != bool else ~v
        elif isinstance(v, np.ndarray) and v.dtype == object:
            for x in v.ravel():
                if isinstance(x, dict):
                    _scribble(x)


def run_alias(layout, st):
    """Scribbling over what was passed in or sampled must not change what is stored."""
    for vector in (False, True):
        for depth in range(1, 7):
            for flags in ("c", "T"):
                st.ctx = {"alias": layout, "vector": vector, "adds": depth}
                buf = VectorReplayBuffer(6, 2) if vector else ReplayBuffer(3)
                model = Model([3, 3] if vector else [3])
                n = 0
                for _ in range(depth):
                    if vector:
                        trs = [Tr(n, flags == "T"), Tr(n + 1, False)]
                        n += 2
                        b = stacked_batch(layout, trs)
                        keys = set(b.get_keys())
                        buf.add(b)
                        model.add([0, 1], trs)
                    else:
                        trs = [Tr(n, flags == "T")]
                        n += 1
                        b = single_batch(layout, trs[0])
                        keys = set(b.get_keys())
                        buf.add(b)
                        model.add([0], trs)
                    st.check(set(b.get_keys()) == keys, "input-mutated", "add() changed the keys of the batch it was given")
                    err = compare_rows(b, layout, trs if vector else trs, skip=("done",)) if vector else None
                    st.check(err is None, "input-mutated", lambda: f"add() changed its input: {err}")
                    _scribble(b)
                    st.step()
                    check_contents(buf, model, layout, st, st.ctx)
                    s, _ = buf.sample(0)
                    _scribble(s)
                    s2 = buf[np.array([x for x, _ in model.stored()])]
                    _scribble(s2)
                    check_contents(buf, model, layout, st, st.ctx)
                st.trace()


def run_extra(layout, st):
    """A key that first appears later is stored from then on; a batch of shape (1, ...) with
    buffer_ids=[0] is stored like the unstacked one."""
    for cap in (1, 2, 3):
        for when in range(0, 4):
            buf, model = ReplayBuffer(cap), Model([cap])
            st.ctx = {"extra": layout, "cap": cap, "when": when}
            extra = {}
            for i in range(7):
                t = Tr(i, i % 3 == 2, i % 4 == 0)
                if i % 2:
                    b = single_batch(layout, t)
                    if i >= when:
                        b.policy = Batch(z=np.array([i, i]))
                    res = buf.add(b)
                else:
                    b = stacked_batch(layout, [t])
                    if i >= when:
                        b.policy = Batch(z=np.array([[i, i]]))
                    res = buf.add(b, buffer_ids=[0])
                exp = model.add([0], [t])[0]
                st.check(int(res[0][0]) == exp[0] and float(res[1][0]) == exp[1] and int(res[2][0]) == exp[2], "stacked-add",
                         lambda: f"add #{i} reported {res} expected {exp}")
                extra[exp[0]] = i if i >= when else None
                st.step()
                st.state((cap, when, i))
                for s, tr in model.stored():
                    got = buf[s]
                    for p in all_paths(layout):
                        if p[0] == "policy":
                            continue
                        st.check(same(getpath(got, p), leaf(layout, p, tr)), "extra-content", lambda: f"slot {s} {p} = {getpath(got, p)!r}")
                    if extra[s] is not None:
                        st.check(same(got.policy.z, [extra[s]] * 2), "extra-key", lambda: f"slot {s}: late key z = {got.policy.z!r} expected {[extra[s]] * 2}")
            st.trace()
