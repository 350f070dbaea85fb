"""Reference representation of (nested) batches: nested dicts whose leaves are numpy arrays, torch
tensors, plain objects or None; an empty dict is a reserved key. Plus a small grammar of structures."""
from __future__ import annotations

import copy

import numpy as np
import torch

from tianshou.data import Batch


class Leaf:
    """A leaf generator: kind x trailing shape; value(n, seed) gives distinct values per (n, seed)."""

    def __init__(self, kind, tail=()):
        self.kind, self.tail = kind, tail

    def __call__(self, n, seed):
        shape = (n, *self.tail) if n is not None else self.tail
        size = int(np.prod(shape)) if shape else 1
        base = np.arange(size) + 100 * seed + 1
        if self.kind == "int":
            v = base.reshape(shape)
        elif self.kind == "i32":
            v = base.astype(np.int32).reshape(shape)
        elif self.kind == "float":
            v = (base * 0.5).reshape(shape)
        elif self.kind == "f32":
            v = (base * 0.25).astype(np.float32).reshape(shape)
        elif self.kind == "bool":
            v = ((base // 2 + seed) % 2 == 0).reshape(shape)
        elif self.kind == "obj":
            v = np.empty(size, dtype=object)
            for i in range(size):
                v[i] = [f"s{base[i]}", None, ("t", int(base[i]))][(i + seed) % 2 if n is not None else 0]
            v = v.reshape(shape)
        elif self.kind == "torch":
            v = torch.tensor((base * 0.5).reshape(shape), dtype=torch.float32)
        elif self.kind == "torchi":
            v = torch.tensor(base.reshape(shape))
        else:
            raise ValueError(self.kind)
        return v


I, F2, O, T, T2, BO, I32, F32 = Leaf("int"), Leaf("float", (2,)), Leaf("obj"), Leaf("torch"), Leaf("torch", (2,)), Leaf("bool"), Leaf("i32"), Leaf("f32")
TI = Leaf("torchi")
I22 = Leaf("int", (2, 3))

STRUCTS = {
    "i": {"a": I}, "f2": {"a": F2}, "o": {"a": O}, "t": {"a": T}, "bool": {"a": BO}, "i23": {"a": I22},
    "i.f2": {"a": I, "b": F2}, "t.i": {"a": T, "b": I}, "o.i32": {"a": O, "b": I32},
    "i.r": {"a": I, "b": {}}, "i.nest": {"a": I, "b": {"c": F2, "d": O}}, "nest": {"b": {"c": F2, "d": T}},
    "deep": {"a": T2, "b": {"c": {"e": I, "f": {}}, "d": F32}}, "nest.r": {"b": {"c": I, "d": {}}, "a": BO},
    "two": {"b": {"x": I}, "c": {"x": F2, "y": BO}}, "emptynest": {"a": I, "b": {"c": {}}},
}


def make(struct, n, seed=0):
    if isinstance(struct, Leaf):
        return struct(n, seed)
    return {k: make(v, n, seed + i + (3 if isinstance(v, dict) else 0)) for i, (k, v) in enumerate(struct.items())}


def to_batch(tree):
    """Builds the Batch key by key, without any operation under test beyond attribute assignment."""
    b = Batch()
    for k, v in tree.items():
        b.__dict__[k] = to_batch(v) if isinstance(v, dict) else copy.deepcopy(v)
    return b


def tmap(f, *trees):
    t = trees[0]
    if isinstance(t, dict):
        return {k: tmap(f, *[x[k] for x in trees]) for k in t}
    return f(*trees)


def leaves(t, path=()):
    if isinstance(t, Batch):
        t = t.__dict__
    if isinstance(t, dict):
        for k, v in t.items():
            yield from leaves(v, (*path, k))
    else:
        yield path, t


def skeleton(t):
    if isinstance(t, (dict, Batch)):
        items = t.items()
        return tuple(sorted((k, skeleton(v)) for k, v in items))
    return "leaf"


def obj_eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and all(obj_eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) == type(b) and a == b


def leaf_same(x, y, strict=True):
    """x: found, y: expected"""
    if isinstance(y, torch.Tensor) or isinstance(x, torch.Tensor):
        return isinstance(x, torch.Tensor) and isinstance(y, torch.Tensor) and x.dtype == y.dtype and x.shape == y.shape and x.device == y.device and torch.equal(x, y)
    if isinstance(y, (np.ndarray, np.generic)) or isinstance(x, (np.ndarray, np.generic)):
        if not isinstance(x, (np.ndarray, np.generic)) or not isinstance(y, (np.ndarray, np.generic)):
            return False
        if x.dtype != y.dtype or x.shape != y.shape:
            return False
        if x.dtype == object:
            return all(obj_eq(p, q) for p, q in zip(np.asarray(x).ravel(), np.asarray(y).ravel()))
        return np.array_equal(x, y, equal_nan=x.dtype.kind == "f")
    return obj_eq(x, y)


def diff(found, exp, path=""):
    """None if the batch (or leaf) equals the expected tree; otherwise a description."""
    if isinstance(exp, dict):
        if not isinstance(found, Batch):
            return f"{path or '.'}: expected a batch, got {type(found).__name__} {found!r}"
        if set(found.__dict__) != set(exp):
            return f"{path or '.'}: keys {sorted(found.__dict__)} instead of {sorted(exp)}"
        for k in exp:
            d = diff(found.__dict__[k], exp[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(found, Batch):
        return f"{path}: got a batch {found!r} instead of {exp!r}"
    if not leaf_same(found, exp):
        dt = lambda v: f"{type(v).__name__}:{getattr(v, 'dtype', '')}"
        return f"{path}: {found!r} ({dt(found)}) instead of {exp!r} ({dt(exp)})"
    return None


def memory(t):
    """Every array/tensor object's buffer in the batch."""
    out = []
    for _, v in leaves(t):
        if isinstance(v, torch.Tensor):
            v = v.detach().numpy()
        if isinstance(v, np.ndarray):
            out.append(v)
    return out


def shares(t1, t2):
    return any(np.may_share_memory(a, b) for a in memory(t1) for b in memory(t2) if a.size and b.size)
