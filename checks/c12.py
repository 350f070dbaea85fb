"""C12: Batch structural operations against the same operation on every leaf."""
import copy
import itertools
import warnings

import numpy as np
import torch
from torch.distributions import Categorical, Independent, Normal

from mc import rng as R
from mc import trees as TR
from mc.explore import explore
from tianshou.data import Batch

PROPERTY = "C12"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of structures x index expressions / operand tuples / split parameters (all shuffles), executed on the real Batch and compared leaf by leaf with numpy/torch"
NOTE = "The model is a nested dict of leaves; each operation's meaning on a leaf is numpy's or torch's own."
ASSUMPTIONS = ["concatenation of batches of different structure may fail or pad (documentation and code disagree); if it does not fail the padded result is checked",
               "leaves of different shapes under stack may fail or give an object array"]


def BOUNDS(tier):
    q = tier == "quick"
    return (f"{len(TR.STRUCTS)} structures (nesting depth <= 3, reserved keys, numpy/torch/object leaves), lengths 0-{4 if q else 5}; all ints, slices with start/stop/step from a grid, index arrays up to length "
            f"{3 if q else 4}, all masks, tuples, ellipsis; assignment with full, partial, extra and reserved values; cat/stack of all pairs (and triples) of structures and lengths, axis 0/1, in place and not; "
            f"split: lengths 0-{7 if q else 10}, all sizes, merge_last, all permutations up to length 4")


def index_exprs(n, tier):
    out = [("int", i) for i in range(-n - 1, n + 1)]
    out += [("npint", np.int64(i)) for i in range(n)]
    grid = [None, 0, 1, n - 1, n, n + 1, -1, -n]
    for a in sorted({g for g in grid if g is not None}) + [None]:
        for b in sorted({g for g in grid if g is not None}) + [None]:
            for s in (None, 1, 2, -1):
                out.append(("slice", slice(a, b, s)))
    for k in range(0, 5 if tier == "thorough" and n <= 3 else 4):
        for idx in itertools.product(range(-n, n), repeat=k):
            out.append(("arr", np.array(idx, dtype=int)))
            if k and all(i >= 0 for i in idx):
                out.append(("list", list(idx)))
    for m in itertools.product((False, True), repeat=n):
        out.append(("mask", np.array(m, dtype=bool)))
    out += [("ellipsis", ...), ("wrongmask", np.ones(n + 1, dtype=bool)), ("tuple", (slice(None), 0)), ("tuple", (0, 0)), ("tuple", (slice(None), slice(0, 1))), ("oob", np.array([0, n]))]
    return out


def jobs(tier):
    out = []
    nmax = 4 if tier == "quick" else 5
    for s in TR.STRUCTS:
        for n in range(0, nmax + 1):
            out.append(["index", s, n, tier])
        out.append(["cat", s, tier])
        out.append(["stack", s, tier])
        out.append(["arith", s])
    for n in range(0, (7 if tier == "quick" else 10) + 1):
        out.append(["split", n, tier])
    out.append(["dist"])
    out.append(["misc", tier])
    return out


class Raised(Exception):
    pass


def attempt(f):
    try:
        return True, f()
    except Exception as e:  # noqa: BLE001
        return False, e


def leafwise(tree, f):
    """The expected tree, or Raised when the operation is impossible on some leaf."""
    try:
        return TR.tmap(lambda x: f(copy.deepcopy(x)), tree)
    except Exception as e:  # noqa: BLE001
        raise Raised(e) from e


def run_index(name, n, tier, st):
    struct = TR.STRUCTS[name]
    tree = TR.make(struct, n)
    base = TR.to_batch(tree)
    keyed = list(struct)
    st.check(len(base) == n, "len", lambda: f"len {len(base)} of {name} with {n} rows")
    rows = list(base)
    st.check(len(rows) == n, "iter", lambda: f"iteration gives {len(rows)} rows of {n}")
    for i, r in enumerate(rows):
        d = TR.diff(r, TR.tmap(lambda x: x[i], tree))
        st.check(d is None, "iter-row", lambda: f"row {i} of {name}: {d}")
    # shape: element-wise minimum over the leaves, [] if there is a reserved key
    def shp(t):
        if isinstance(t, dict):
            ss = [shp(v) for v in t.values()]
            return [] if not ss else [min(z) for z in zip(*ss)]
        return list(t.shape)
    st.check(list(base.shape) == shp(tree), "shape", lambda: f"shape {base.shape} of {name}, leaves give {shp(tree)}")
    for kind, idx in index_exprs(n, tier):
        st.ctx = {"structure": name, "rows": n, "index": repr(idx)}
        st.state((name, n, repr(idx)))
        try:
            exp = leafwise(tree, lambda x: x[idx])
        except Raised:
            exp = None
        ok, got = attempt(lambda: base[idx])
        st.step()
        if exp is None:
            st.check(not ok, "index-should-fail", lambda: f"{name}[{idx!r}] with {n} rows gave {got} although a leaf cannot be indexed so")
        else:
            st.check(ok, "index-raises", lambda: f"{name}[{idx!r}] with {n} rows raised {got!r}")
            d = TR.diff(got, exp)
            st.check(d is None, "index", lambda: f"{name}[{idx!r}]: {d}")
            st.outcome((name, TR.skeleton(got)))
        d = TR.diff(base, tree)
        st.check(d is None, "index-changes", lambda: f"indexing changed the batch: {d}")
        if exp is None or kind in ("npint",):
            continue
        # assignment: value with the result's shape, all keys / each key missing / reserved / extra
        shape_probe = got
        val = TR.tmap(lambda x: x, TR.make(struct, n, 7))
        val = TR.tmap(lambda x: copy.deepcopy(x[idx]), val)
        variants = [("full", val)]
        variants += [(f"missing {k}", {q: v for q, v in val.items() if q != k}) for k in keyed]
        for k in keyed:
            if isinstance(val[k], dict) and val[k]:
                variants.append((f"missing in {k}", {**val, k: {q: v for q, v in list(val[k].items())[1:]}}))
                variants.append((f"extra in {k}", {**val, k: {**val[k], "zz": next(v for _, v in TR.leaves(val[k])) if list(TR.leaves(val[k])) else {}}}))
        variants.append(("extra", {**val, "zz": np.arange(3)}))
        for label, v in variants:
            tgt = TR.to_batch(tree)
            value = TR.to_batch(v)
            st.ctx = {"structure": name, "rows": n, "index": repr(idx), "assign": label}
            e, legal = assign(copy.deepcopy(tree), idx, v)
            ok, err = attempt(lambda: tgt.__setitem__(idx, value if label != "full" or n % 2 else to_plain(v)))
            st.step()
            if legal:
                st.check(ok, "assign-raises", lambda: f"{name}[{idx!r}] = {label} raised {err!r}")
                d = TR.diff(tgt, e)
                st.check(d is None, "assign", lambda: f"{name}[{idx!r}] = {label}: {d}")
                d = TR.diff(value, v)
                st.check(d is None, "assign-changes-value", lambda: f"assignment changed the assigned value: {d}")
            else:
                st.check(not ok, "assign-should-fail", lambda: f"{name}[{idx!r}] = {label} did not fail")
    for bad in (np.arange(n), 1.0, [1, 2]):
        if n:
            tgt = TR.to_batch(tree)
            ok, _ = attempt(lambda: tgt.__setitem__(0, bad))
            st.check(not ok and TR.diff(tgt, tree) is None, "assign-nonbatch", lambda: f"assigning {bad!r} to a row did not fail cleanly")
    st.trace({"structure": name, "rows": n})


def to_plain(t):
    return {k: to_plain(v) if isinstance(v, dict) else v for k, v in t.items()}


def assign(tree, idx, v):
    """Meaning of assignment on the model: missing keys become 0/None, unknown keys are an error."""
    if not set(v) <= set(tree):
        return None, False
    for k, cur in tree.items():
        if isinstance(cur, dict):
            sub = v.get(k, {})
            if not isinstance(sub, dict):
                return None, False
            r, ok = assign(cur, idx, sub)
            if not ok:
                return None, False
            tree[k] = r
            continue
        new = v[k] if k in v else (None if isinstance(cur, np.ndarray) and cur.dtype == object else 0)
        try:
            cur[idx] = new
        except Exception:  # noqa: BLE001
            return None, False
    return tree, True


def pad_value(leaf, n, stack):
    shape = (n, *leaf.shape) if stack else (n, *leaf.shape[1:])
    if isinstance(leaf, torch.Tensor):
        return torch.zeros(shape, dtype=leaf.dtype)
    if leaf.dtype == object:
        return np.full(shape, None, dtype=object)
    return np.zeros(shape, dtype=leaf.dtype)


class Undefined(Exception):
    pass


def merge(parts, lens, stack, axis=0):
    """Expected aggregation of trees per the documented rules. lens: rows per part (cat)."""
    parts = [p for p in parts]
    keys = []
    for p in parts:
        keys += [k for k in p if k not in keys]
    out = {}
    for k in keys:
        vals = [p.get(k, {}) for p in parts]
        real = [v for v in vals if not (isinstance(v, dict) and not v)]
        if not real:
            out[k] = {}
        elif all(isinstance(v, dict) for v in vals):
            if stack and axis and len(real) != len(vals):
                raise Undefined
            out[k] = merge(vals, lens, stack, axis)
        elif any(isinstance(v, dict) for v in real):
            raise Undefined("array and batch under one key")
        else:
            kinds = {isinstance(v, torch.Tensor) for v in real}
            if len(kinds) > 1:
                raise Undefined
            if stack and axis and len(real) != len(vals):
                raise Undefined
            shp = {tuple(v.shape) if stack else tuple(v.shape[1:]) for v in real}
            if len(shp) > 1 or len({v.dtype for v in real}) > 1:
                raise Undefined
            if stack:
                seq = [v if not (isinstance(v, dict)) else pad_value(real[0], 1, True)[0] for v in vals]
                if not isinstance(real[0], torch.Tensor) and real[0].dtype == object and any(isinstance(v, dict) for v in vals) and real[0].shape == ():
                    seq = [v if not isinstance(v, dict) else np.array(None, dtype=object) for v in vals]
                out[k] = torch.stack(seq, axis) if kinds == {True} else np.stack(seq, axis)
            else:
                seq = [v if not isinstance(v, dict) else pad_value(real[0], ln, False) for v, ln in zip(vals, lens)]
                out[k] = torch.cat(seq) if kinds == {True} else np.concatenate(seq)
    return out


def rows_of(tree):
    ls = [v.shape[0] for _, v in TR.leaves(tree)]
    return min(ls) if ls else 0


def reserved_conflict(parts):
    """A nested key reserved in one part and filled in another below a key that a third part lacks: allowed to fail."""
    keys = {k for p in parts for k in p}
    for k in keys:
        vals = [p.get(k, {}) for p in parts]
        real = [v for v in vals if isinstance(v, dict) and v]
        if len(real) < len(vals) and any(isinstance(a.get(q), dict) and not a[q] and q in b and not (isinstance(b[q], dict) and not b[q]) for a in real for b in real for q in a):
            return True
    return False


def agg(st, what, parts, axis, inplace, same):
    stack = what == "stack"
    trees = [p for p in parts]
    bs = [TR.to_batch(t) for t in trees]
    st.ctx = {"op": what, "axis": axis, "inplace": inplace, "parts": [{"keys": TR.skeleton(t), "rows": rows_of(t)} for t in trees]}
    nz = [t for t in trees if t]
    try:
        exp = merge(nz, [rows_of(t) for t in nz], stack, axis) if nz else {}
        must = same and not reserved_conflict(nz)
    except Undefined as e:
        exp, must, structural = None, False, bool(e.args) and not stack
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if inplace:
            tgt = bs[0]
            f = (lambda: tgt.stack_(bs[1:], axis)) if stack else (lambda: tgt.cat_(bs[1:] if len(bs) > 2 else bs[1]))
            ok, err = attempt(f)
            got = tgt
        else:
            arg = [b if i % 2 == 0 else to_plain(trees[i]) for i, b in enumerate(bs)]
            f = (lambda: Batch.stack(arg, axis)) if stack else (lambda: Batch.cat(arg))
            ok, got = attempt(f)
            err = got
    st.step()
    st.state((what, axis, inplace, tuple((TR.skeleton(t), rows_of(t)) for t in trees)))
    if exp is None:
        st.outcome((what, "undefined", ok))
        # dtype/shape mixtures are left to numpy/torch; structural conflicts must not be papered over
        st.check(not ok or not structural or any(rows_of(t) == 0 for t in nz), "aggregate-should-fail", lambda: f"{what} of incompatible batches gave {got}")
        return
    if not ok:
        st.check(not must, "aggregate-raises", lambda: f"{what}(axis={axis}) raised {err!r}")
        st.outcome((what, "raised"))
        return
    d = TR.diff(got, exp)
    st.check(d is None, what, lambda: f"{what}(axis={axis}, in place={inplace}): {d}")
    for i in range(1 if inplace else 0, len(bs)):
        d = TR.diff(bs[i], trees[i])
        st.check(d is None, f"{what}-changes-operand", lambda: f"{what} changed operand {i}: {d}")
        st.check(not TR.shares(got, bs[i]), f"{what}-aliases", lambda: f"the result of {what} shares memory with operand {i}")
    st.outcome((what, TR.skeleton(got)))


def run_cat(name, tier, st):
    s = TR.STRUCTS[name]
    nmax = 3 if tier == "quick" else 5
    for k in (1, 2, 3):
        for lens in itertools.product(range(0, nmax + 1), repeat=k):
            parts = [TR.make(s, n, 5 * i) for i, n in enumerate(lens)]
            for inplace in (0, 1):
                if inplace and k == 1:
                    continue
                agg(st, "cat", parts, 0, inplace, True)
            agg(st, "cat", [{}, *parts], 0, 0, True)
            agg(st, "cat", [{}, *parts], 0, 1, True)
            agg(st, "cat", [*parts, {}], 0, 1, True)
    for other in TR.STRUCTS:
        if other == name:
            continue
        for n, m in itertools.product((0, 1, 2), repeat=2):
            agg(st, "cat", [TR.make(s, n), TR.make(TR.STRUCTS[other], m, 3)], 0, 0, False)
            agg(st, "cat", [TR.make(s, n), TR.make(TR.STRUCTS[other], m, 3)], 0, 1, False)
    # rows without length cannot be concatenated
    row = TR.to_batch(TR.make(s, 2))[0]
    if any(getattr(v, "ndim", 0) == 0 for _, v in TR.leaves(row)):
        ok, got = attempt(lambda: Batch.cat([row, row]))
        st.check(not ok, "cat-scalar", lambda: f"concatenating rows gave {got}")
    for bad in (np.arange(2), 3):
        ok, got = attempt(lambda: Batch.cat([TR.to_batch(TR.make(s, 2)), bad]))
        st.check(not ok, "cat-nonbatch", lambda: f"concatenating {bad!r} gave {got}")
    st.trace({"cat": name})


def compatible_dtypes(trees):
    """Mixed leaf kinds under one key are outside the enumerated space (numpy decides)."""
    def rec(ts):
        keys = {k for t in ts for k in t}
        for k in keys:
            vs = [t[k] for t in ts if k in t and not (isinstance(t[k], dict) and not t[k])]
            if any(isinstance(v, dict) for v in vs):
                if not all(isinstance(v, dict) for v in vs):
                    return False
                if not rec(vs):
                    return False
            elif len({(isinstance(v, torch.Tensor), v.dtype, tuple(v.shape)) for v in vs}) > 1:
                return False
        return True
    return rec(trees)


def run_stack(name, tier, st):
    s = TR.STRUCTS[name]
    for n in (0, 1, 2):
        for k in (1, 2, 3):
            parts = [TR.make(s, n, 5 * i) for i in range(k)]
            for axis in (0, 1):
                agg(st, "stack", parts, axis, 0, True)
                if k > 1:
                    agg(st, "stack", parts, axis, 1, True)
            agg(st, "stack", [{}, *parts], 0, 1, True)
        # rows (0-d leaves) too
    full = TR.make(s, 3)
    b = TR.to_batch(full)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for rows in itertools.chain(itertools.permutations(range(3)), [(0,), (1, 1)]):
            got = Batch([b[i] for i in rows])
            d = TR.diff(got, TR.tmap(lambda x: x[list(rows)], full))
            st.ctx = {"stack rows": rows, "structure": name}
            st.check(d is None, "stack-rows", lambda: f"stacking rows {rows}: {d}")
            got = Batch([to_plain({k: v for k, v in b[i].to_dict().items()}) for i in rows])
            d = TR.diff(got, TR.tmap(lambda x: x[list(rows)], full))
            st.check(d is None, "stack-dicts", lambda: f"building from a list of dicts: {d}")
            st.step(2)
    for other in TR.STRUCTS:
        for third in (None, "i", "nest"):
            for n in (0, 1, 2):
                trees = [TR.make(s, n), TR.make(TR.STRUCTS[other], n, 3)] + ([TR.make(TR.STRUCTS[third], n, 9)] if third else [])
                if not compatible_dtypes(trees):
                    # array against batch under one key must not be aggregated silently
                    if any(TR.skeleton(t) != TR.skeleton(trees[0]) for t in trees):
                        mix = any(isinstance(a.get(k), dict) and a[k] and not isinstance(b2.get(k, {}), dict) for a in trees for b2 in trees for k in a)
                        if mix and n:
                            with warnings.catch_warnings():
                                warnings.simplefilter("ignore")
                                ok, got = attempt(lambda: Batch.stack([TR.to_batch(t) for t in trees]))
                            st.outcome(("mixed", ok))
                            st.step()
                            st.check(not ok or all(lf.dtype == object and len(lf) == len(trees) for p, lf in TR.leaves(got) if p in conflict(trees)), "stack-mixed",
                                     lambda: f"stacking an array with a batch under one key gave {got}")
                    continue
                for axis in (0, 1):
                    agg(st, "stack", trees, axis, 0, True)
                agg(st, "stack", trees, 0, 1, True)
    st.trace({"stack": name})


def conflict(trees):
    out = set()
    for a in trees:
        for b in trees:
            for k in a:
                if isinstance(a[k], dict) and a[k] and k in b and not isinstance(b[k], dict):
                    out.add((k,))
    return out


def run_split(n, tier, st):
    for name in ("i", "nest", "i.r", "deep", "t.i", "o.i32"):
        tree = TR.make(TR.STRUCTS[name], n)
        for size in (-1, *range(1, n + 3)):
            if size == -1 and n == 0:
                continue
            sz = n if size == -1 else size
            for merge in (False, True):
                # chunk lengths by definition
                full, tail = divmod(n, sz)
                lens = [sz] * full + ([tail] if tail else [])
                if merge and tail and len(lens) > 1:
                    lens = lens[:-2] + [sz + tail]
                for shuffle in (False, True):
                    st.ctx = {"split": name, "rows": n, "size": size, "shuffle": shuffle, "merge_last": merge}

                    def once(ch):
                        b = TR.to_batch(tree)
                        with R.patched(ch, maxperm=4) as r:
                            parts = list(b.split(size, shuffle=shuffle, merge_last=merge))
                        st.check(TR.diff(b, tree) is None, "split-changes", "split changed the batch")
                        return parts, r.calls

                    firsts = set()
                    for ch, (parts, calls) in explore(once):
                        got = [len(p) for p in parts]
                        st.check(got == lens, "split-sizes", lambda: f"split({size}, merge_last={merge}) of {n} rows gives pieces {got}, expected {lens}")
                        # recover row numbers from the first leaf
                        path, leaf = next(TR.leaves(tree))
                        ids = []
                        for p in parts:
                            v = p
                            for k in path:
                                v = v[k]
                            for row in v:
                                hit = [i for i in range(n) if TR.leaf_same(row, leaf[i])]
                                if leaf.dtype == object:
                                    hit = [i for i in hit if i not in ids][:1]
                                st.check(len(hit) == 1, "split-row", lambda: f"piece holds a row {row!r} that is not in the batch")
                                ids.append(hit[0])
                        if name == "o.i32":
                            ids = [int(x) - int(tree["b"][0]) for p in parts for x in p.b]
                        st.check(sorted(ids) == list(range(n)), "split-cover", lambda: f"split({size}, shuffle={shuffle}, merge_last={merge}) of {n} rows gives rows {ids}")
                        if not shuffle:
                            st.check(ids == list(range(n)), "split-order", lambda: f"unshuffled split gives rows in order {ids}")
                            st.check(calls == 0, "split-random", "unshuffled split used the random source")
                        k = 0
                        for p in parts:
                            sel = np.array(ids[k:k + len(p)], dtype=int)
                            k += len(p)
                            d = TR.diff(p, TR.tmap(lambda x: x[sel], tree))
                            st.check(d is None, "split-rows", lambda: f"piece rows are not consistent across leaves: {d}")
                        firsts.add(tuple(ids))
                        st.state((name, n, size, merge, tuple(ids)))
                        st.step()
                    if shuffle and n <= 4:
                        import math
                        st.check(len(firsts) == math.factorial(n), "split-shuffle", lambda: f"only {len(firsts)} of {math.factorial(n)} orders are possible")
        b = TR.to_batch(tree)
        for bad in (0, -2):
            ok, _ = attempt(lambda: list(b.split(bad)))
            st.check(not ok, "split-badsize", lambda: f"split({bad}) did not fail")
    st.trace({"split rows": n})


def run_dist(st):
    """Policy distributions stored in a batch are indexed like every other leaf."""
    n = 3
    p = np.arange(1, 10).reshape(3, 3) / 10.0
    probs = torch.tensor(p / p.sum(1, keepdims=True))
    loc, scale = torch.arange(6.0).reshape(3, 2), torch.arange(1.0, 7.0).reshape(3, 2)
    for kind, idx in index_exprs(n, "quick"):
        if kind not in ("int", "slice", "arr", "mask", "list"):
            continue
        b = Batch()
        b.a = np.arange(3)
        b.__dict__["c"], b.__dict__["g"] = Categorical(probs=probs), Normal(loc, scale)
        b.__dict__["m"] = Independent(Normal(loc, scale), 1)
        st.ctx = {"dist": repr(idx)}
        st.check(len(b) == 3, "dist-len", lambda: f"length of a batch of distributions is {len(b)}")
        ok, got = attempt(lambda: b[idx])
        ok2, _ = attempt(lambda: (probs[idx], np.arange(3)[idx]))
        if not ok2:
            st.check(not ok, "dist-should-fail", lambda: f"[{idx!r}] did not fail")
            continue
        if probs[idx].shape[0] == 0:
            continue   # torch does not build empty distributions in every case
        st.check(ok, "dist-raises", lambda: f"indexing distributions with {idx!r} raised {got!r}")
        st.check(torch.allclose(got.c.probs, probs[idx]) and torch.equal(got.g.loc, loc[idx]) and torch.equal(got.g.scale, scale[idx])
                 and torch.equal(got.m.base_dist.loc, loc[idx]) and got.m.event_shape == torch.Size([2]), "dist-index", lambda: f"[{idx!r}] picks the wrong distribution rows")
        st.step()
    for f, dists in ((lambda x: x.probs, (Categorical(probs=probs[0]), Categorical(probs=probs))), (lambda x: x.loc, (Normal(loc[0, 0], scale[0, 0]), Normal(loc, scale)))):
        for dd in dists:
            b = Batch(a=np.arange(3.0))
            b.__dict__["d"] = dd
            g = b.to_at_least_2d()
            st.check(g.a.ndim == 2 and len(g.d.batch_shape) >= 1 and torch.equal(f(g.d).reshape(-1), f(dd).reshape(-1)), "dist-2d", "to_at_least_2d changes the distribution")
            st.step()
    st.trace()


def run_arith(name, st):
    s = TR.STRUCTS[name]
    t1, t2 = TR.make(s, 2), TR.make(s, 2, 4)

    def rev(t):
        return {k: rev(t[k]) if isinstance(t[k], dict) else t[k] for k in reversed(list(t))}

    def numeric(f, *ts):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                return TR.tmap(lambda *x: f(*[copy.deepcopy(q) for q in x]), *ts)
        except Exception:  # noqa: BLE001
            return None

    def iadd(x, y):
        x += y
        return x

    def imul(x, y):
        x *= y
        return x

    def idiv(x, y):
        x /= y
        return x
    import operator as op
    cases = []
    for order in (t2, rev(t2)):
        cases.append((f"+ batch{'(other key order)' if order is not t2 else ''}", numeric(iadd, t1, t2), lambda b, o=order: b + TR.to_batch(o), lambda b, o=order: op.iadd(b, TR.to_batch(o))))
    for v in (2, 0.5, np.float64(3)):
        cases.append((f"+ {v!r}", numeric(lambda x: iadd(x, v), t1), lambda b, v=v: b + v, lambda b, v=v: op.iadd(b, v)))
        cases.append((f"* {v!r}", numeric(lambda x: imul(x, v), t1), lambda b, v=v: b * v, lambda b, v=v: op.imul(b, v)))
        cases.append((f"/ {v!r}", numeric(lambda x: idiv(x, v), t1), lambda b, v=v: b / v, lambda b, v=v: op.itruediv(b, v)))
    for label, exp, out, inp in cases:
        st.ctx = {"structure": name, "op": label}
        b = TR.to_batch(t1)
        ok, got = attempt(lambda: out(b))
        st.step()
        if exp is None:
            st.check(not ok, "arith-should-fail", lambda: f"{label} on {name} gave {got}")
            continue
        st.check(ok, "arith-raises", lambda: f"{label} on {name} raised {got!r}")
        d = TR.diff(got, exp)
        st.check(d is None, "arith", lambda: f"{label} on {name}: {d}")
        d = TR.diff(b, t1)
        st.check(d is None, "arith-changes-operand", lambda: f"{label} changed its operand: {d}")
        b = TR.to_batch(t1)
        got = inp(b)
        st.check(got is b, "arith-inplace-object", lambda: f"in-place {label} returned another object")
        d = TR.diff(b, exp)
        st.check(d is None, "arith-inplace", lambda: f"in-place {label} on {name}: {d}")
        st.state((name, label))
    st.trace({"arith": name})


def run_misc(tier, st):
    """empty, update, set_array_at_key, nulls."""
    for name, s in TR.STRUCTS.items():
        for n in range(1, 4):
            tree = TR.make(s, n)
            for kind, idx in [("none", None)] + [x for x in index_exprs(n, "quick") if x[0] in ("int", "mask", "slice", "arr")]:
                try:
                    probe = leafwise(tree, lambda x: x[idx])
                except Raised:
                    continue
                def z(x):
                    x = copy.deepcopy(x)
                    x[idx] = None if isinstance(x, np.ndarray) and x.dtype == object else 0
                    return x
                exp = TR.tmap(z, tree)
                b = TR.to_batch(tree)
                st.ctx = {"empty": name, "index": repr(idx)}
                got = Batch.empty(b, idx)
                d = TR.diff(got, exp) or TR.diff(b, tree)
                st.check(d is None, "empty", lambda: f"Batch.empty(index={idx!r}): {d}")
                r = b.empty_(idx)
                d = TR.diff(b, exp)
                st.check(d is None and r is b, "empty_", lambda: f"empty_({idx!r}): {d}")
                st.step(2)
            for other, s2 in TR.STRUCTS.items():
                b, t2 = TR.to_batch(tree), TR.make(s2, n, 3)
                b.update(TR.to_batch(t2))
                d = TR.diff(b, {**tree, **t2})
                st.check(d is None, "update", lambda: f"update: {d}")
                b = TR.to_batch(tree)
                b.update(**to_plain(t2))
                d = TR.diff(b, {**tree, **t2})
                st.check(d is None, "update-kw", lambda: f"update by keywords: {d}")
                st.step(2)
            if any(isinstance(v, dict) for v in tree.values()):
                continue
            for k in (*tree, "new"):
                arr = np.arange(n) + 50
                b = TR.to_batch(tree)
                b.set_array_at_key(arr, k)
                d = TR.diff(b, {**tree, k: arr})
                st.check(d is None, "set_array", lambda: f"set_array_at_key: {d}")
                ok, _ = attempt(lambda: b.set_array_at_key(np.arange(n + 1), k))
                st.check(not ok, "set_array-length", "set_array_at_key accepted an array of another length")
                for m in itertools.product((False, True), repeat=n):
                    m = np.array(m)
                    cur = tree.get(k, np.full(n, 9))
                    if isinstance(cur, torch.Tensor) or cur.ndim > 1 or cur.dtype != arr.dtype:
                        continue
                    b = TR.to_batch(tree)
                    b.set_array_at_key(arr[m], k, index=m, default_value=9)
                    e = cur.copy()
                    e[m] = arr[m]
                    d = TR.diff(b, {**tree, k: e})
                    st.check(d is None, "set_array-index", lambda: f"set_array_at_key(index={m}): {d}")
                    st.step()
    # absent (None) values do not count towards the length; nothing else does but the leading axis
    for pat in itertools.product("NEAB", repeat=3):
        vals = {"N": None, "E": {}, "A": np.arange(4.0).reshape(2, 2), "B": {"x": np.arange(3), "y": None}}
        b = Batch(**{f"k{i}": vals[c] for i, c in enumerate(pat)})
        lens = [{"A": 2, "B": 3}[c] for c in pat if c in "AB"]
        st.ctx = {"length": pat}
        ok, r = attempt(lambda: len(b))
        st.check(ok and r == (min(lens) if lens else 0), "len", lambda: f"len of {b} is {r}, its values have lengths {lens}")
        st.step()
    # nulls: every placement of None/NaN in a small nested batch
    for pat in itertools.product((0, 1), repeat=6):
        f = np.array([1.0, 2.0])
        o = np.array(["x", "y"], dtype=object)
        g = np.array([[1.0, 2.0], [3.0, 4.0]])
        f[[bool(p) for p in pat[:2]]] = np.nan
        o[[bool(p) for p in pat[2:4]]] = None
        for i in range(2):
            if pat[4 + i]:
                g[i, i] = np.nan
        b = TR.to_batch({"f": f, "n": {"o": o, "g": g}})
        st.ctx = {"nulls": pat}
        e = {"f": np.isnan(f), "n": {"o": np.array([v is None for v in o]), "g": np.isnan(g)}}
        d = TR.diff(b.isnull(), e)
        st.check(d is None, "isnull", lambda: f"isnull: {d}")
        st.check(bool(b.hasnull()) == any(pat), "hasnull", lambda: f"hasnull() = {b.hasnull()}")
        keep = [i for i in range(2) if not (pat[i] or pat[2 + i] or pat[4 + i])]
        got = b.dropnull()
        if not keep:
            st.check(len(got) == 0, "dropnull-all", lambda: f"dropnull left {got}")
        else:
            st.check(len(got) == len(keep) and np.array_equal(got.f, f[keep]) and list(got.n.o) == list(o[keep]) and np.array_equal(got.n.g.reshape(-1, 2), g[keep]), "dropnull", lambda: f"dropnull kept {got}, rows {keep} have no nulls")
        st.step(3)
        st.state(("null", pat))
    st.trace()


def run(job, st):
    kind = job[0]
    if kind == "index":
        run_index(*job[1:], st)
    elif kind == "cat":
        run_cat(*job[1:], st)
    elif kind == "stack":
        run_stack(*job[1:], st)
    elif kind == "arith":
        run_arith(job[1], st)
    elif kind == "split":
        run_split(*job[1:], st)
    elif kind == "dist":
        run_dist(st)
    else:
        run_misc(job[1], st)
