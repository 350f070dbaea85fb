"""C13: conversion, copying, comparison and serialisation of batches."""
import copy
import itertools
import os
import pickle
import tempfile
import warnings

import h5py
import numpy as np
import torch

from mc import trees as TR
from mc.trees import Leaf
from tianshou.data import Batch, to_numpy, to_torch, to_torch_as
from tianshou.data.utils.converter import from_hdf5, to_hdf5

PROPERTY = "C13"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of batch structures x conversions (and all pairs for equality) on the real code, compared with a plain nested-dict model; memory sharing and mutation of operands checked in every case"
NOTE = "Devices: cpu and torch's storage-less 'meta' device, which makes device handling observable without an accelerator."
ASSUMPTIONS = ["equality of arrays of different dtype, 0-d vs 1-element arrays, and of NaN is not judged", "non-numeric leaves may refuse conversion to torch"]

EXTRA = {
    "reservednames": {"copy": TR.I, "batch_dict": TR.F2},
    "f32.i32": {"a": TR.F32, "b": TR.I32}, "tt": {"a": TR.TI, "b": {"a": TR.T2, "c": {"d": TR.TI}}},
    "bigger": {"obs": {"x": TR.F2, "m": TR.BO}, "act": TR.I, "rew": TR.F32, "info": {}, "pol": {"h": {"k": TR.T2, "r": {}}, "s": TR.O}},
    "empty": {},
}
ALL = {**TR.STRUCTS, **EXTRA}
DTYPES = (None, torch.float32, torch.float64, torch.int64)


def BOUNDS(tier):
    q = tier == "quick"
    return f"{len(ALL)} structures (depth <= 3, numpy/torch/object/None/scalar leaves, reserved keys), lengths 0-{3 if q else 6} and single rows, x every conversion with 4 dtypes and 2 devices, chains of two conversions; equality of all pairs of structures and of every single-leaf-element change"


def jobs(tier):
    out = []
    for s in ALL:
        out.append(["conv", s, 3 if tier == "quick" else 6])
        out.append(["eq", s])
    out += [["values"], ["chain"]]
    return out


def contains_obj(tree):
    return any(v is None or (getattr(v, "dtype", None) == object) or (not isinstance(v, (np.ndarray, np.generic, torch.Tensor))) for _, v in TR.leaves(tree))


def as_numpy(v):
    return v.detach().numpy() if isinstance(v, torch.Tensor) else v


def as_torch(v, dtype=None, device="cpu"):
    t = v if isinstance(v, torch.Tensor) else torch.from_numpy(np.array(v))
    return t.to(dtype=dtype or t.dtype, device=device)


def meta_same(got, exp, path=""):
    if isinstance(exp, dict):
        return isinstance(got, Batch) and set(got.__dict__) == set(exp) and all(meta_same(got.__dict__[k], exp[k]) for k in exp)
    return isinstance(got, torch.Tensor) and got.device.type == exp.device.type and got.dtype == exp.dtype and got.shape == exp.shape


def plain(t):
    return {k: plain(v) if isinstance(v, dict) else v for k, v in t.items()}


def dict_same(d, t):
    if isinstance(t, dict):
        return isinstance(d, dict) and not isinstance(d, Batch) and list(d) == list(t) and all(dict_same(d[k], t[k]) for k in t)
    return TR.leaf_same(d, t)


def sub_objects(b):
    out = [b]
    for v in b.__dict__.values():
        if isinstance(v, Batch):
            out += sub_objects(v)
    return out


def conversions():
    """name -> (function on Batch, expected tree from tree, fresh: result must share no memory/objects)"""
    C = {}
    C["deepcopy"] = (copy.deepcopy, lambda t: t, True)
    C["copy=True"] = (lambda b: Batch(b, copy=True), lambda t: t, True)
    C["dict copy=True"] = (lambda b: Batch(b.to_dict(), copy=True), lambda t: t, True)
    C["Batch(b)"] = (Batch, lambda t: t, False)
    C["to_dict"] = (lambda b: Batch(b.to_dict()), lambda t: t, False)
    C["to_dict(False)"] = (lambda b: Batch(b.to_dict(recursive=False)), lambda t: t, False)
    for p in (2, pickle.HIGHEST_PROTOCOL):
        C[f"pickle{p}"] = (lambda b, p=p: pickle.loads(pickle.dumps(b, p)), lambda t: t, True)
    C["to_numpy"] = (lambda b: b.to_numpy(), lambda t: TR.tmap(as_numpy, t), True)
    C["conv to_numpy"] = (to_numpy, lambda t: TR.tmap(as_numpy, t), True)
    C["conv to_numpy(dict)"] = (lambda b: to_numpy(b.to_dict()), lambda t: TR.tmap(as_numpy, t), False)
    C["conv to_numpy(dict of Batch)"] = (lambda b: to_numpy({"q": b}), lambda t: {"q": TR.tmap(as_numpy, t)}, False)

    def ip(f):
        def g(b):
            c = copy.deepcopy(b)
            r = f(c)
            assert r is None
            return c
        return g

    def al(f):
        def g(b):
            c = Batch(b)     # a second batch over the same values and nested batches
            f(c)
            return c
        return g
    C["alias to_numpy_"] = (al(lambda b: b.to_numpy_()), lambda t: TR.tmap(as_numpy, t), False)
    C["alias to_torch_"] = (al(lambda b: b.to_torch_(dtype=torch.float64)), lambda t: TR.tmap(lambda v: as_torch(v, torch.float64), t), False)
    C["to_numpy_"] = (ip(lambda b: b.to_numpy_()), lambda t: TR.tmap(as_numpy, t), True)
    for dt in DTYPES:
        C[f"to_torch({dt})"] = (lambda b, dt=dt: b.to_torch(dtype=dt), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt), t), True)
        C[f"to_torch_({dt})"] = (ip(lambda b, dt=dt: b.to_torch_(dtype=dt)), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt), t), True)
        C[f"conv to_torch({dt})"] = (lambda b, dt=dt: to_torch(b, dtype=dt), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt), t), True)
        C[f"conv to_torch(dict,{dt})"] = (lambda b, dt=dt: to_torch(b.to_dict(), dtype=dt), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt), t), True)
        if dt is not None:
            C[f"to_torch_as({dt})"] = (lambda b, dt=dt: to_torch_as(b, torch.zeros(1, dtype=dt)), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt), t), True)
        C[f"to_torch({dt},meta)"] = (lambda b, dt=dt: b.to_torch(dtype=dt, device="meta"), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt, "meta"), t), None)
        C[f"conv to_torch({dt},meta)"] = (lambda b, dt=dt: to_torch(b, dtype=dt, device=torch.device("meta")), lambda t, dt=dt: TR.tmap(lambda v: as_torch(v, dt, "meta"), t), None)
    C["hdf5"] = (hdf, lambda t: t, True)
    return C


def hdf(b):
    with tempfile.NamedTemporaryFile(suffix=".h5", dir=os.environ.get("TMPDIR", "/tmp")) as f:
        with h5py.File(f.name, "w") as h:
            to_hdf5({"b": b}, h)
        with h5py.File(f.name, "r") as h:
            return from_hdf5(h)["b"]


def keep_np_dtype(tree, exp):
    if isinstance(tree, dict):
        return {k: keep_np_dtype(tree[k], exp[k]) for k in tree}
    return as_torch(tree, None, exp.device) if isinstance(tree, (np.ndarray, np.generic)) else exp


def known(label, tree, exp, got, meta, st):
    """Known finding: in Batch.to_torch_ numpy leaves keep their own dtype (an existing test pins it)."""
    if "torch" in label:
        own = keep_np_dtype(tree, exp)
        same = meta_same if meta else (lambda g, e: TR.diff(g, e) is None)
        if not same(got, exp) and same(got, own):
            st.record("to_torch:numpy-leaf-keeps-dtype", f"{label}: numpy leaves keep their own dtype although another was requested")
            return own
    return exp


def one(name, tree, label, fn, expect, fresh, st):
    b = TR.to_batch(tree)
    st.ctx = {"structure": name, "conversion": label, "tree": TR.skeleton(tree)}
    st.state((name, label, tuple(getattr(v, "shape", ()) for _, v in TR.leaves(tree))))
    if label == "hdf5" and any(isinstance(v, np.generic) for _, v in TR.leaves(tree)):
        return None
    if "torch" in label and contains_obj(tree):
        try:
            fn(b)
        except Exception:  # noqa: BLE001
            pass
        d = TR.diff(b, tree)
        if not label.startswith("to_torch_("):
            st.check(d is None, "source-changed", lambda: f"failing {label} changed its argument: {d}")
        return None
    exp = expect(tree)
    got = fn(b)
    st.step()
    exp = known(label, tree, exp, got, fresh is None, st)
    if fresh is None:
        st.check(meta_same(got, exp), "device", lambda: f"{label} on {name}: device/dtype/shape not as requested: {got}")
    else:
        d = TR.diff(got, exp)
        st.check(d is None, "value", lambda: f"{label} on {name}: {d}")
    d = TR.diff(b, tree)
    st.check(d is None, "source-changed", lambda: f"{label} changed its argument: {d}")
    if fresh:
        st.check(not TR.shares(got, b), "shared", lambda: f"the result of {label} shares memory with the original ({name})")
        st.check(not {id(o) for o in sub_objects(got)} & {id(o) for o in sub_objects(b)}, "shared-object", lambda: f"the result of {label} contains a nested batch object of the original")
    st.outcome((name, label, repr(TR.skeleton(got))))
    return got


def run_conv(name, nmax, st):
    C = conversions()
    for n in (None, *range(0, nmax + 1)):
        tree = TR.make(ALL[name], 2 if n is None else n)
        if n is None:
            tree = TR.tmap(lambda v: v[0], tree)
        for label, (fn, expect, fresh) in C.items():
            one(name, tree, label, fn, expect, fresh, st)
        b = TR.to_batch(tree)
        d = b.to_dict()
        st.check(dict_same(d, tree), "to_dict", lambda: f"to_dict gives {d}")
        d = b.to_dict(recursive=False)
        st.check(all(d[k] is b.__dict__[k] for k in tree) and set(d) == set(tree), "to_dict-flat", "to_dict(recursive=False) is not the mapping of the batch")
        st.check(list(b.get_keys()) == list(tree) and list(b.keys()) == list(tree) and all(k in b for k in tree) and "nope" not in b and b.get("nope", 5) == 5, "keys", "keys/contains/get disagree")
        if n is not None and tree:
            ld = b.to_list_of_dicts()
            st.check(len(ld) == len(b) and all(dict_same(ld[i], TR.tmap(lambda v: v[i], tree)) for i in range(len(b))), "list_of_dicts", lambda: f"to_list_of_dicts gives {ld}")
        seen = []
        r = b.apply_values_transform(lambda v: (seen.append(v), 5)[1])
        st.check(len(seen) == len(list(TR.leaves(tree))) and all(int(v) == 5 for _, v in TR.leaves(r)) and TR.skeleton(r) == TR.skeleton(tree) and TR.diff(b, tree) is None,
                 "apply", "apply_values_transform does not visit every leaf exactly once")
        for k in list(tree):
            c = TR.to_batch(tree)
            v = c.pop(k)
            st.check(TR.diff(c, {q: w for q, w in tree.items() if q != k}) is None and TR.diff(v, tree[k]) is None, "pop", f"pop({k}) wrong")
            st.step()
    st.trace({"conv": name})


def run_eq(name, st):
    t1 = TR.make(ALL[name], 3)
    b1 = TR.to_batch(t1)

    def check(b, expect, label):
        st.ctx = {"eq": name, "with": label}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r, r2 = b1 == b, b == b1
        st.step()
        st.state((name, label))
        st.check(bool(r) is expect and bool(r2) is expect and (b1 != b) is not expect, "eq", lambda: f"== gives {r}/{r2}, expected {expect}: {b1} and {b}")
        st.check(TR.diff(b1, t1) is None, "eq-changes", "comparison changed an operand")
    check(TR.to_batch(t1), True, "copy")
    def rev(t):
        return {k: rev(t[k]) if isinstance(t[k], dict) else t[k] for k in reversed(list(t))}
    check(TR.to_batch(rev(t1)), True, "other key order")
    num = TR.tmap(lambda v: torch.from_numpy(v.copy()) if isinstance(v, np.ndarray) and v.dtype != object else v, t1)
    check(TR.to_batch(num), True, "as torch")
    if t1:
        check(TR.to_batch(t1)[:], True, "slice of all")
        if list(TR.leaves(t1)):
            check(TR.to_batch(t1)[:2], False, "shorter")
        check(TR.to_batch({**t1, "zz": np.arange(3)}), False, "extra key")
        check(TR.to_batch({**t1, "zz": {}}), False, "extra reserved key")
        for k in t1:
            check(TR.to_batch({q: v for q, v in t1.items() if q != k}), False, f"without {k}")
            if t1[k]  is not None and not (isinstance(t1[k], dict) and not t1[k]):
                check(TR.to_batch({**t1, k: {}}), False, f"{k} reserved")
            check(TR.to_batch({("renamed" if q == k else q): v for q, v in t1.items()}), False, f"{k} renamed")
    for path, leaf in TR.leaves(t1):
        for pos in range(int(np.prod(leaf.shape))):
            t2 = copy.deepcopy(t1)
            cur = t2
            for k in path[:-1]:
                cur = cur[k]
            flat = cur[path[-1]].reshape(-1)
            v = flat[pos]
            if isinstance(leaf, torch.Tensor):
                flat[pos] = v + 1
            elif leaf.dtype == object:
                flat[pos] = "other"
            elif leaf.dtype == bool:
                flat[pos] = not v
            else:
                flat[pos] = v + 1
            cur[path[-1]] = flat.reshape(leaf.shape)
            check(TR.to_batch(t2), False, f"{path}[{pos}] changed")
    for other in ALL:
        if other != name and TR.skeleton(ALL[other]) != TR.skeleton(ALL[name]):
            check(TR.to_batch(TR.make(ALL[other], 3)), False, other)
    for x in (t1, None, 3, "x", [b1]):
        st.check(not (b1 == x), "eq-other", lambda: f"a batch equals {x!r}")
    st.trace({"eq": name})


def run_values(st):
    """Converters on plain values, lists, tuples; constructor parsing."""
    f = np.array([1.5, 2.5])
    t = torch.tensor([1.5, 2.5])
    grad = torch.tensor([1.0, 2.0], requires_grad=True)
    cases_np = [
        (f, f), (t, t.numpy()), (grad, np.array([1.0, 2.0], np.float32)), (3, np.array(3)), (2.5, np.array(2.5)), (True, np.array(True)), (np.float32(1.5), np.array(1.5, np.float32)),
        (None, np.array(None, dtype=object)), ([1, 2], np.array([1, 2])), ((1.0, 2.0), np.array([1.0, 2.0])), ([t, t + 1], torch.stack([t, t + 1]).numpy()), ([f, f + 1], np.stack([f, f + 1])),
        (["a", "b"], np.array(["a", "b"], dtype=object)), ([[1, 2], [3, 4]], np.array([[1, 2], [3, 4]])),
    ]
    for x, e in cases_np:
        st.ctx = {"to_numpy": repr(x)}
        keep = copy.deepcopy(x) if not (isinstance(x, torch.Tensor) and x.requires_grad) else x
        g = to_numpy(x)
        st.check(TR.leaf_same(g, e) or (e.dtype == object and g.shape == e.shape), "to_numpy", lambda: f"to_numpy({x!r}) = {g!r}")
        st.check(repr(keep) == repr(x), "to_numpy-changes", "to_numpy changed its argument")
        st.step()
    g = to_numpy([{"a": 1, "b": t}, {"a": 2, "b": t + 1}])
    st.check(TR.diff(g, {"a": np.array([1, 2]), "b": torch.stack([t, t + 1]).numpy()}) is None, "to_numpy-dicts", lambda: f"to_numpy(list of dicts) = {g}")
    for dt in DTYPES:
        for dev in ("cpu", "meta"):
            for x, base in [(f, torch.from_numpy(f.copy())), (t, t), (3, torch.tensor(3)), (2.5, torch.tensor(2.5, dtype=torch.float64)), (True, torch.tensor(True)), (np.float32(1.5), torch.tensor(1.5)),
                            ([1, 2], torch.tensor([1, 2])), ((1.0, 2.0), torch.tensor([1.0, 2.0], dtype=torch.float64)), ([t, t + 1], torch.stack([t, t + 1])), ([f, f + 1], torch.from_numpy(np.stack([f, f + 1])))]:
                e = base.to(dtype=dt or base.dtype, device=dev)
                st.ctx = {"to_torch": repr(x), "dtype": str(dt), "device": dev}
                g = to_torch(x, dtype=dt, device=dev)
                ok = isinstance(g, torch.Tensor) and g.dtype == e.dtype and g.device.type == dev and g.shape == e.shape and (dev == "meta" or torch.equal(g, e))
                st.check(ok, "to_torch", lambda: f"to_torch({x!r}, {dt}, {dev}) = {g!r}")
                if dt is not None:
                    g = to_torch_as(x, torch.zeros(1, dtype=dt, device=dev))
                    st.check(g.dtype == dt and g.device.type == dev and g.shape == e.shape, "to_torch_as", lambda: f"to_torch_as({x!r}) = {g!r}")
                st.step()
                st.state((repr(x), str(dt), dev))
    for bad in ("x", object(), None):
        try:
            g = to_torch(bad)
        except TypeError:
            continue
        st.check(False, "to_torch-bad", f"to_torch({bad!r}) = {g!r}")
    # parsing of values given to the constructor / attribute / item / update
    for x, e in [(3, np.array(3)), (2.5, np.array(2.5)), ([1, 2], np.array([1, 2])), ([1.0, None], np.array([1.0, None], dtype=object)), ("st", "st"), (None, None), ({"q": 1}, {"q": np.array(1)}),
                 ([{"q": 1}, {"q": 2}], {"q": np.array([1, 2])}), ([t, t + 1], torch.stack([t, t + 1])), (np.array(["a", "b"]), np.array(["a", "b"], dtype=object)), ({}, {}), (t, t), (f, f), (np.bool_(True), np.array(True)),
                 (np.array([{"q": 1}, {"q": 2}], dtype=object), {"q": np.array([1, 2])}), ((), np.array([])), (["x", "yy"], np.array(["x", "yy"], dtype=object)), (np.array([], dtype=object), np.array([], dtype=object))]:
        b1, b2, b3, b4, b5 = Batch(k=x), Batch({"k": x}), Batch(), Batch(), Batch()
        b3.k = x
        b4["k"] = x
        b5.update(k=x)
        for b in (b1, b2, b3, b4, b5):
            d = TR.diff(b, {"k": e})
            st.ctx = {"parse": repr(x)}
            st.check(d is None, "parse", lambda: f"value {x!r}: {d}")
            st.step()
    for bad in ({1: 2}, {None: 3}, {("a",): 1}):
        try:
            Batch(bad)
        except (AssertionError, TypeError):
            continue
        st.check(False, "keys-bad", f"non-string keys {bad} accepted")
    st.trace()


def run_chain(st):
    """Two conversions in a row equal the composition of their meanings."""
    C = {k: v for k, v in conversions().items() if "meta" not in k and k != "hdf5"}
    for name in ("i.f2", "nest.r", "deep", "tt", "reservednames", "bigger", "i.nest"):
        tree = TR.make(ALL[name], 2)
        for (l1, c1), (l2, c2) in itertools.product(C.items(), repeat=2):
            if contains_obj(tree) and ("torch" in l1 or "torch" in l2):
                continue
            st.ctx = {"structure": name, "chain": [l1, l2]}
            mid = c1[0](TR.to_batch(tree))
            e1 = known(l1, tree, c1[1](tree), mid, False, st)
            got = c2[0](copy.deepcopy(mid))
            d = TR.diff(got, known(l2, e1, c2[1](e1), got, False, st))
            st.check(d is None, "chain", lambda: f"{l1} then {l2}: {d}")
            st.step()
            st.state((name, l1, l2))
    st.trace()


def run(job, st):
    if job[0] == "conv":
        run_conv(job[1], job[2], st)
    elif job[0] == "eq":
        run_eq(job[1], st)
    elif job[0] == "values":
        run_values(st)
    else:
        run_chain(st)
