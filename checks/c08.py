"""C08: merging, exporting, importing and reloading buffers."""
import copy
import os
import pickle
import shutil
import tempfile

import h5py
import numpy as np

from mc.bufmodel import (CachedModel, Driver, Model, Tr, all_paths, cache_fits, compare_rows, getpath, kind, leaf, sequences, vec_alphabet)
from mc.explore import explore
from mc.rng import patched
from tianshou.data import (Batch, CachedReplayBuffer, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer)

PROPERTY = "C08"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive histories with a merge / save-load / copy / import at every point and all continuations, vs. a list-based reference model"
NOTE = "Every distinct buffer state inside the bound is round-tripped in every way and driven on; the source is compared before and after."
ASSUMPTIONS = ["merging into a buffer in the middle of an open episode: episode statistics of that episode are not specified"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"source and target capacities 1-4, source histories to depth {4 if q else 6} (single) / {2 if q else 3} (vectorised, cached), target histories to depth {3 if q else 4}, "
            f"continuations to depth 2; round trips by pickle, deep copy, HDF5 (plain and compressed) of single, prioritised, vectorised, prioritised-vectorised and cached buffers in every "
            f"distinct state to depth {4 if q else 6}/{2 if q else 3}; imports from arrays and HDF5 datasets of length 0-4, all end-flag patterns")


OPS = [("a", [0], "c"), ("a", [0], "T")]


def jobs(tier):
    q = tier == "quick"
    out = []
    for sk in ("single", "prio"):
        for scap in (1, 2, 3):
            for dcap in (1, 2, 3, 4):
                out.append(["merge", sk, scap, dcap, 4 if q else 6, 3 if q else 4, {}])
    for sk in ("vector", "cached", "priovec"):
        for dcap in (1, 3, 5):
            out.append(["merge", sk, 2, dcap, 2 if q else 3, 2 if q else 3, {}])
    for sk in ("single", "vector"):
        out.append(["merge", sk, 3, 4, 4 if sk == "single" else 2, 2, {"stack_num": 2, "sample_avail": True}])
        out.append(["merge", sk, 3, 4, 4 if sk == "single" else 2, 2, {"stack_num": 3}])
    for k in ("single", "prio"):
        for lay in ("vec", "dict"):
            for cap in (1, 2, 3):
                out.append(["rt", k, cap, 4 if q else 6, lay])
    for k in ("vector", "priovec", "cached"):
        for lay in ("vec", "dict"):
            for cap in (1, 2):
                out.append(["rt", k, cap, 2 if q else 3, lay])
    for n in range(0, 5):
        out.append(["import", n])
    return out


def contents(b, m, layout, st, tag):
    stored = m.stored()
    st.check(len(b) == len(stored), f"{tag}-length", lambda: f"{tag}: len {len(b)}, expected {len(stored)}")
    if b.options["stack_num"] == 1 or not b.options["sample_avail"]:
        got = [int(i) for i in b.sample_indices(0)]
        st.check(got == [s for s, _ in stored], f"{tag}-order", lambda: f"{tag}: sample_indices(0) = {got}, expected {[s for s, _ in stored]}")
    if stored:
        idx = np.array([s for s, _ in stored])
        skip = ("obs", "obs_next", "info", "policy") if b.options["stack_num"] > 1 else ()
        e = compare_rows(b[idx], layout, [t for _, t in stored], skip)
        st.check(e is None, f"{tag}-content", lambda: f"{tag}: {e}")
        if skip:
            e = compare_rows(Batch(obs=b.get(idx, "obs", stack_num=1), act=b.act[idx], rew=b.rew[idx], terminated=b.terminated[idx], truncated=b.truncated[idx],
                                   done=b.done[idx], obs_next=b.get(idx, "obs_next", stack_num=1)), layout, [t for _, t in stored], ("info", "policy"))
            st.check(e is None, f"{tag}-content", lambda: f"{tag}: {e}")
        for f in ("prev", "next"):
            got, want = [int(x) for x in getattr(b, f)(idx)], [getattr(m, f)(int(s)) for s in idx]
            st.check(got == want, f"{tag}-{f}", lambda: f"{tag}: {f}({idx.tolist()}) = {got}, expected {want}")
    un = [int(x) for x in b.unfinished_index()]
    st.check(un == m.unfinished(), f"{tag}-unfinished", lambda: f"{tag}: unfinished_index() = {un}, expected {m.unfinished()}")


def reports(d, st, tag, stats=True):
    op, got, exp = d.last
    if op[0] != "a":
        return
    for k, name in enumerate(("slot", "return", "length", "start")):
        if k and not stats:
            continue
        g, w = [float(x) for x in got[k]], [float(x[k]) for x in exp]
        st.check(g == w, f"{tag}-{name}", lambda: f"{tag}: add {op} reported {name} {g}, expected {w}")


def states(spec, layout, alpha, depth, legal=None):
    """One op sequence per distinct state reachable within depth (all lengths)."""
    seen = set()
    for n in range(depth + 1):
        for seq, _ in sequences(alpha, n):
            d = Driver(*spec2(spec), layout, spec[2])
            ok = True
            for op in seq:
                if legal is not None and not legal(d.model, op):
                    ok = False
                    break
                d.apply(op)
            if ok and d.full_key() not in seen:
                seen.add(d.full_key())
                yield list(seq), d


def spec2(spec):
    return spec[0], spec[1]()


def rebuild(spec, layout, ops):
    d = Driver(spec[0], spec[1](), layout, spec[2])
    for op in ops:
        d.apply(op)
    return d


def run_merge(job, st):
    _, sk, scap, dcap, sdepth, ddepth, opts = job
    vec = sk in ("vector", "cached", "priovec")
    src = kind(sk, scap, **opts) if not vec else kind(sk, scap, 2, **opts)
    dst = kind("single", dcap, **opts)
    salpha = (vec_alphabet(2) if vec else OPS) + [("r", 0)]
    for sops, _ in states(src, "vec", salpha, sdepth, cache_fits if sk == "cached" else None):
        for dops, _ in states(dst, "vec", OPS + [("r", 0)], ddepth):
            for dk in ("single", "prio") if dcap == 3 else ("single",):
                s = rebuild(src, "vec", sops)
                d = rebuild(kind(dk, dcap, **opts), "vec", dops)
                st.ctx = {"source": sops, "target": dops, "target kind": dk, "options": opts}
                # ids of the target's own transitions are shifted to be distinct
                merged = [t for _, t in s.model.stored()]
                before = d.model.subs[0]
                at_boundary = before.ep_len == 0 and (not merged or merged[-1].done)
                ret = [int(x) for x in d.buf.update(s.buf)]
                want = [before.write(t) for t in merged]
                if at_boundary and merged:
                    before.ep_start = before.cursor
                st.step()
                st.state((s.model.key(), d.model.key()))
                st.outcome(tuple(want))
                st.check(ret == want, "merge-slots", lambda: f"update() returned {ret}, transitions were appended at {want}")
                contents(s.buf, s.model, "vec", st, "source")
                contents(d.buf, d.model, "vec", st, "merged")
                subs = [x.stack_num for x in getattr(s.buf, "buffers", [])]
                st.check(set(subs) <= {opts.get("stack_num", 1)}, "source-options", lambda: f"stack_num of the source's parts is now {subs}")
                st.check(s.buf.stack_num == opts.get("stack_num", 1), "source-options", lambda: f"stack_num of the source is now {s.buf.stack_num}")
                d.n = 50
                for op in (("a", [0], "c"), ("a", [0], "T"), ("a", [0], "T")):
                    d.apply(op)
                    reports(d, st, "after-merge", at_boundary)
                    at_boundary |= op[2] == "T"
                contents(d.buf, d.model, "vec", st, "after-merge")
                # the target must not share memory with the source
                if merged:
                    s.n = 90
                    s.apply(("a", [0, 1] if vec and sk != "cached" else [0], "cc" if vec and sk != "cached" else "c")) if sk != "cached" else None
                    contents(d.buf, d.model, "vec", st, "aliased")
                st.trace(st.ctx)


def roundtrip(buf, how, tmp):
    if how == "pickle":
        return pickle.loads(pickle.dumps(buf))
    if how == "deepcopy":
        return copy.deepcopy(buf)
    path = os.path.join(tmp, "b.h5")
    buf.save_hdf5(path, compression="gzip" if how == "hdf5z" else None)
    try:
        return type(buf).load_hdf5(path)
    finally:
        os.unlink(path)


def prio_same(a, b, idx):
    return np.allclose(a.get_weight(np.array(idx)), b.get_weight(np.array(idx)), rtol=0, atol=0)


def run_rt(job, st, tmp):
    _, k, cap, depth, layout = job
    vec = k in ("vector", "priovec", "cached")
    spec = kind(k, cap, 2)
    alpha = (vec_alphabet(2, "cT", [(0,), (1, 0)]) if vec else OPS) + [("r", 0)]
    conts = [[a, b] for a in alpha[:-1] for b in ((alpha[1], alpha[-2]) if vec else alpha[:-1])]
    legal = cache_fits if k == "cached" else None
    fmt = ["pickle", "deepcopy", "hdf5", "hdf5z"]
    for ops, d0 in states(spec, layout, alpha, depth, legal):
        for hi, how in enumerate(fmt):
            if how == "hdf5z" and len(ops) != depth:
                continue
            prio = k in ("prio", "priovec")
            if prio and len(d0.model.stored()):
                idx = [s for s, _ in d0.model.stored()]
                d0.buf.update_weight(np.array(idx), np.arange(1, len(idx) + 1) / 2.0)
            st.ctx = {"ops": ops, "via": how}
            new = roundtrip(d0.buf, how, tmp)
            st.check(type(new) is type(d0.buf), "rt-type", lambda: f"reloaded object is a {type(new).__name__}")
            contents(d0.buf, d0.model, layout, st, "original")
            contents(new, d0.model, layout, st, "reloaded")
            st.check(new.maxsize == d0.buf.maxsize and new.options == d0.buf.options, "rt-options", lambda: f"options {new.options} vs {d0.buf.options}")
            st.step()
            st.state((how, d0.full_key()))
            for cont in (conts if how in ("pickle", "deepcopy") or not vec else conts[:3]):
                d = Driver(lambda: roundtrip(d0.buf, how, tmp), copy.deepcopy(d0.model), layout, spec[2])
                o = Driver(lambda: copy.deepcopy(d0.buf), copy.deepcopy(d0.model), layout, spec[2])
                d.n = o.n = d0.n
                ok = True
                for op in cont:
                    if legal and not legal(d.model, op):
                        ok = False
                        break
                    st.ctx = {"ops": ops, "via": how, "then": cont}
                    d.apply(op)
                    reports(d, st, "reloaded-then")
                    contents(d.buf, d.model, layout, st, "reloaded-then")
                    st.step()
                if not ok:
                    continue
                if vec:   # the sub-buffers follow, too
                    for e, sub in enumerate(d.buf.buffers):
                        st.check(len(sub) == len(d.model.subs[e].order), "rt-sub-length", lambda: f"sub-buffer {e} holds {len(sub)}")
                        un = [int(x) for x in sub.unfinished_index()]
                        st.check(un == d.model.subs[e].unfinished(), "rt-sub-unfinished", lambda: f"sub-buffer {e}: unfinished {un}, expected {d.model.subs[e].unfinished()}")
                    if k == "cached":
                        st.check(len(d.buf.main_buffer) == len(d.model.subs[0].order), "rt-main", "main_buffer does not follow")
                if prio:
                    for op in cont:
                        o.apply(op)
                    idx = [s for s, _ in d.model.stored()]
                    st.check(not idx or prio_same(o.buf, d.buf, idx), "rt-weight", lambda: f"weights {d.buf.get_weight(np.array(idx))} vs original {o.buf.get_weight(np.array(idx))}")
                # sampling continues identically
                if d.model.stored():
                    def draw(ch):
                        with patched(ch, unit=(0.3, 0.6)):
                            return [int(x) for x in d.buf.sample_indices(2)]

                    def draw_o(ch):
                        with patched(ch, unit=(0.3, 0.6)):
                            return [int(x) for x in o.buf.sample_indices(2)]
                    if not prio:
                        for op in cont:
                            o.apply(op)
                    a = [r for _, r in explore(draw, deviations=1)]
                    b = [r for _, r in explore(draw_o, deviations=1)]
                    st.check(a == b, "rt-sampling", lambda: f"sampling differs after reload: {a} vs {b}")
                st.trace(st.ctx)
            # independence: writing to the copy must not reach the original
            contents(d0.buf, d0.model, layout, st, "original-after")
            st.outcome((how, len(ops), len(d0.model.stored())))


def run_import(n, st, tmp):
    for bits in range(3 ** n):
        flags = [(bits // 3 ** i) % 3 for i in range(n)]
        trs = [Tr(i, f == 1, f == 2) for i, f in enumerate(flags)]
        arrays = dict(
            obs=np.array([leaf("scalar", ("obs",), t) for t in trs]), act=np.array([leaf("scalar", ("act",), t) for t in trs]),
            rew=np.array([t.rew for t in trs], dtype=float), terminated=np.array([t.term for t in trs], dtype=bool),
            truncated=np.array([t.trunc for t in trs], dtype=bool), done=np.array([t.done for t in trs], dtype=bool),
            obs_next=np.array([leaf("scalar", ("obs_next",), t) for t in trs]))
        for how in ("arrays", "hdf5"):
            st.ctx = {"import": how, "flags": flags}
            if how == "hdf5":
                path = os.path.join(tmp, "i.h5")
                with h5py.File(path, "w") as f:
                    for k, v in arrays.items():
                        f.create_dataset(k, data=v)
                with h5py.File(path, "r") as f:
                    buf = ReplayBuffer.from_data(**{k: f[k] for k in arrays})
                os.unlink(path)
            else:
                buf = ReplayBuffer.from_data(**{k: v.copy() for k, v in arrays.items()})
            st.step()
            st.state((n, tuple(flags)))
            if n == 0:
                st.check(len(buf) == 0, "import-length", "not empty")
                st.trace()
                continue
            m = Model([n])
            for t in trs:
                m.subs[0].write(t)
            st.check(buf.maxsize == n, "import-size", lambda: f"maxsize {buf.maxsize}, {n} transitions given")
            contents(buf, m, "scalar", st, "imported")
            st.outcome(tuple(m.unfinished()))
            if n and flags[-1]:   # continue (statistics are only defined if the data ended an episode)
                d = Driver(lambda: buf, m, "scalar", False)
                m.subs[0].ep_start = m.subs[0].cursor
                d.n = 20
                for op in (OPS[0], OPS[1], OPS[1]):
                    d.apply(op)
                    reports(d, st, "imported-then")
                    contents(buf, m, "scalar", st, "imported-then")
            st.trace(st.ctx)


def run(job, st):
    if job[0] == "merge":
        return run_merge(job, st)
    tmp = tempfile.mkdtemp(prefix="c08-")
    try:
        run_rt(job, st, tmp) if job[0] == "rt" else run_import(job[1], st, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
