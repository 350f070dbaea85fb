"""Reference model of the replay buffers (plain lists) and the driver that feeds the same
transitions to the model and to the real buffers."""
from __future__ import annotations

import itertools

import numpy as np

from tianshou.data import Batch

# ---------------------------------------------------------------------------------------- data


def _f32(*v):
    return np.array(v, dtype=np.float32)


# layout -> {path: function of the transition id giving the leaf}. Observation leaves are distinct
# per id, obs_next leaves differ from every observation.
LAYOUTS = {
    "scalar": {
        ("obs",): lambda i: np.int64(10 * i + 1),
        ("act",): lambda i: np.int64(i % 5),
        ("obs_next",): lambda i: np.int64(10 * i + 7),
    },
    "vec": {
        ("obs",): lambda i: _f32(i, i + 0.5),
        ("act",): lambda i: _f32(i * 0.25),
        ("obs_next",): lambda i: _f32(i + 0.25, -i),
        ("info", "k"): lambda i: np.int64(i),
        ("info", "s", "t"): lambda i: np.float64(i / 8 + 1 / 16),
        ("info", "name"): lambda i: "n" * (i % 3 + 1) + str(i),
        ("policy", "h"): lambda i: _f32(i, 2 * i, 3 * i),
    },
    "dict": {
        ("obs", "p"): lambda i: np.array([[i, i + 1]], dtype=np.int64),
        ("obs", "q", "r"): lambda i: np.float64(i / 2),
        ("act",): lambda i: np.array([i, -i], dtype=np.int64),
        ("obs_next", "p"): lambda i: np.array([[-i, i]], dtype=np.int64),
        ("obs_next", "q", "r"): lambda i: np.float64(i / 2 + 0.125),
        ("policy", "a", "b"): lambda i: np.int64(i * 3),
    },
    # observations that are already stacks of 2 frames; the newest frame is the last one
    "frames": {
        ("obs",): lambda i: np.array([[i - 1, 0], [i, 1]], dtype=np.int64),
        ("act",): lambda i: np.int64(i % 3),
        ("obs_next",): lambda i: np.array([[i, 1], [i + 1, 2]], dtype=np.int64),
    },
}

LAYOUTS["dframes"] = {
    ("obs", "p"): lambda i: _f32(i - 1, i),
    ("obs", "q", "r"): lambda i: np.array([[i - 1, 5], [i, 6]], dtype=np.int64),
    ("act",): lambda i: _f32(i, -i),
    ("obs_next", "p"): lambda i: _f32(i, i + 1),
    ("obs_next", "q", "r"): lambda i: np.array([[i, 5], [i + 1, 6]], dtype=np.int64),
}


class Tr:
    """A transition: everything about it follows from its id, its reward and its end flags."""

    __slots__ = ("id", "rew", "term", "trunc")

    def __init__(self, id, term=False, trunc=False, rew=None):
        self.id, self.term, self.trunc = id, bool(term), bool(trunc)
        self.rew = float(2 ** (id % 12)) if rew is None else rew

    @property
    def done(self):
        return self.term or self.trunc

    def __repr__(self):
        return f"t{self.id}{'T' if self.term else ''}{'U' if self.trunc else ''}"


def _put(d, path, v):
    for p in path[:-1]:
        d = d.setdefault(p, {})
    d[path[-1]] = v


def leaf(layout, path, tr):
    if path == ("rew",):
        return tr.rew
    if path == ("terminated",):
        return tr.term
    if path == ("truncated",):
        return tr.trunc
    if path == ("done",):
        return tr.done
    return LAYOUTS[layout][path](tr.id)


def single_batch(layout, tr):
    d = {}
    for path, f in LAYOUTS[layout].items():
        _put(d, path, f(tr.id))
    d.setdefault("info", {})
    d.update(rew=tr.rew, terminated=tr.term, truncated=tr.trunc)
    return Batch(d)


def stacked_batch(layout, trs):
    d = {}
    infos = [{} for _ in trs]
    for path, f in LAYOUTS[layout].items():
        if path[0] == "info":
            for inf, t in zip(infos, trs):
                _put(inf, path[1:], f(t.id))
        else:
            _put(d, path, np.stack([np.asarray(f(t.id)) for t in trs]))
    ia = np.empty(len(trs), dtype=object)
    for k, inf in enumerate(infos):
        ia[k] = inf
    d.update(info=ia, rew=np.array([t.rew for t in trs]), terminated=np.array([t.term for t in trs]),
             truncated=np.array([t.trunc for t in trs]))
    return Batch(d)


def all_paths(layout):
    return list(LAYOUTS[layout]) + [("rew",), ("terminated",), ("truncated",), ("done",)]


def getpath(b, path):
    for p in path:
        b = b[p]
    return b


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object:
        return [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()]
    return bool(np.array_equal(a, b))


def compare_rows(b, layout, trs, skip=()):
    """Compare every leaf of Batch b with the expected rows; returns an error text or None."""
    for path in all_paths(layout):
        if path[0] in skip:
            continue
        try:
            got = getpath(b, path)
        except (KeyError, AttributeError):
            return f"field {'.'.join(path)} missing"
        exp = np.array([leaf(layout, path, t) for t in trs]) if trs else None
        if trs and not same(got, exp):
            return f"field {'.'.join(path)}: got {np.asarray(got).tolist()} expected {exp.tolist()}"
    return None


# --------------------------------------------------------------------------------------- models


class Sub:
    """One ring of transitions."""

    def __init__(self, cap):
        self.cap = cap
        self.reset()

    def reset(self, keep=False):
        self.slots = [None] * self.cap
        self.order = []          # slots, oldest first
        self.cursor = 0
        self.ep_start = 0
        if not keep:
            self.ep_ret, self.ep_len = 0.0, 0

    def write(self, tr):
        s = self.cursor
        if self.slots[s] is not None:
            self.order.remove(s)
        self.slots[s] = tr
        self.order.append(s)
        self.cursor = (s + 1) % self.cap
        return s

    def add(self, tr):
        full = len(self.order) == self.cap
        s = self.write(tr)
        if full and self.ep_len and s == self.ep_start:     # the episode overwrites its own start
            self.ep_start = self.cursor
        self.ep_ret = self.ep_ret + tr.rew
        self.ep_len += 1
        res = (s, self.ep_ret if tr.done else self.ep_ret * 0, self.ep_len if tr.done else 0, self.ep_start)
        if tr.done:
            self.ep_ret, self.ep_len, self.ep_start = 0.0, 0, self.cursor
        return res

    def next(self, s):
        i = self.order.index(s)
        if self.slots[s].done or i == len(self.order) - 1:
            return s
        return self.order[i + 1]

    def prev(self, s):
        i = self.order.index(s)
        if i == 0 or self.slots[self.order[i - 1]].done:
            return s
        return self.order[i - 1]

    def unfinished(self):
        return [self.order[-1]] if self.order and not self.slots[self.order[-1]].done else []

    def key(self):
        return (self.cap, self.cursor, tuple(None if t is None else (t.term, t.trunc) for t in self.slots),
                self.ep_len, self.ep_start)


class Model:
    """Vectorised buffer = rings at consecutive slot ranges (a plain buffer has one ring)."""

    def __init__(self, caps):
        self.subs = [Sub(c) for c in caps]
        self.off = [0, *itertools.accumulate(caps)][:-1]

    def add(self, ids, trs):
        out = []
        for e, t in zip(ids, trs):
            s, r, n, st = self.subs[e].add(t)
            out.append((s + self.off[e], r, n, st + self.off[e]))
        return out

    def reset(self, keep=False):
        for s in self.subs:
            s.reset(keep)

    def stored(self):
        """All stored (slot, transition), chronological per ring."""
        return [(s + o, sub.slots[s]) for sub, o in zip(self.subs, self.off) for s in sub.order]

    def at(self, slot):
        for sub, o in zip(self.subs, self.off):
            if o <= slot < o + sub.cap:
                return sub, slot - o, o
        raise IndexError(slot)

    def tr(self, slot):
        sub, s, _ = self.at(slot)
        return sub.slots[s]

    def next(self, slot):
        sub, s, o = self.at(slot)
        return sub.next(s) + o

    def prev(self, slot):
        sub, s, o = self.at(slot)
        return sub.prev(s) + o

    def unfinished(self):
        return [u + o for sub, o in zip(self.subs, self.off) for u in sub.unfinished()]

    def __len__(self):
        return sum(len(s.order) for s in self.subs)

    def key(self):
        return tuple(s.key() for s in self.subs)


class CachedModel(Model):
    """Ring 0 is the main storage; environment e writes to ring e+1 until its episode ends."""

    def __init__(self, main, n, cache):
        super().__init__([main] + [cache] * n)

    def add(self, ids, trs):
        out = super().add([e + 1 for e in ids], trs)
        for k, (e, t) in enumerate(zip(ids, trs)):
            if t.done:
                c = self.subs[e + 1]
                moved = [self.subs[0].write(c.slots[s]) for s in c.order]
                c.reset()
                out[k] = (moved[-1], out[k][1], out[k][2], moved[0])
        return out


# -------------------------------------------------------------------------------------- driving


def sequences(alpha, depth, prefix=()):
    """All op sequences of the given length starting with prefix, in lexicographic order, with the
    length of the part shared with the previous one (whose states were already checked)."""
    prev = None
    prefix = tuple(prefix)
    for tail in itertools.product(alpha, repeat=depth - len(prefix)):
        seq = prefix + tail
        k = 0
        if prev is not None:
            while k < len(seq) and seq[k] == prev[k]:
                k += 1
        prev = seq
        yield seq, k


def done_flags(c):
    return {"c": (False, False), "T": (True, False), "U": (False, True), "B": (True, True)}[c]


class Driver:
    """Applies operations to a real buffer and its model side by side.

    Operations: ("a", ids, flags) adds one transition per id in ids (flags: string over c/T/U/B),
                ("r", keep) resets.
    """

    def __init__(self, make, model, layout, vector, rew=None):
        self.buf, self.model, self.layout, self.vector = make(), model, layout, vector
        self.n = 0
        self.resets = 0
        self.rew = rew
        self.last = None

    def trs(self, flags):
        out = []
        for c in flags:
            te, tu = done_flags(c)
            out.append(Tr(self.n, te, tu, None if self.rew is None else self.rew(self.n)))
            self.n += 1
        return out

    def full_key(self):
        """State for deduplication: ring shapes, relative ids of everything stored, and whether
        something was ever cleared (cleared slots keep stale data)."""
        return (self.model.key(), tuple(self.n - t.id for _, t in self.model.stored()), self.resets > 0)

    def apply(self, op):
        if op[0] == "a":
            _, ids, flags = op
            trs = self.trs(flags)
            if self.vector and not (self.vector == "alternate" and self.n % 2):
                full = self.vector == "default-ids" and list(ids) == list(range(len(self.model.subs) - isinstance(self.model, CachedModel)))
                got = self.buf.add(stacked_batch(self.layout, trs), None if full else list(ids))
            else:
                got = self.buf.add(single_batch(self.layout, trs[0]))
            exp = self.model.add(ids, trs)
            self.last = (op, got, exp)
        elif op[0] == "r":
            self.buf.reset(keep_statistics=bool(op[1]))
            self.model.reset(bool(op[1]))
            self.resets += 1
            self.last = (op, None, None)
        else:
            raise ValueError(op)
        return self.last


def vec_alphabet(nenv, flags="cT", subsets=None):
    ids = subsets or [p for k in range(1, nenv + 1) for p in itertools.permutations(range(nenv), k)]
    return [("a", list(i), "".join(f)) for i in ids for f in itertools.product(flags, repeat=len(i))]


def kind(name, cap, n=2, cache=None, **kw):
    """(make buffer, make model, vectorised?) for a buffer kind with ring size `cap`."""
    from tianshou.data import (CachedReplayBuffer, PrioritizedReplayBuffer, PrioritizedVectorReplayBuffer, ReplayBuffer, VectorReplayBuffer)
    if name == "single":
        return (lambda: ReplayBuffer(cap, **kw)), (lambda: Model([cap])), False
    if name == "prio":
        return (lambda: PrioritizedReplayBuffer(cap, 0.6, 0.4, **kw)), (lambda: Model([cap])), False
    if name == "vector":
        return (lambda: VectorReplayBuffer(cap * n, n, **kw)), (lambda: Model([cap] * n)), "default-ids"
    if name == "priovec":
        return (lambda: PrioritizedVectorReplayBuffer(cap * n, n, alpha=0.6, beta=0.4, **kw)), (lambda: Model([cap] * n)), True
    if name == "cached":
        c = cache or cap
        return (lambda: CachedReplayBuffer(ReplayBuffer(cap, **kw), n, c)), (lambda: CachedModel(cap, n, c)), "default-ids"
    raise ValueError(name)


def drive(spec, layout, pre, seqs, st, checkfn, rew=None, legal=None, every=True):
    """Runs every op sequence on a fresh buffer and its model; calls checkfn(driver, st) after each
    operation that is new relative to the previous sequence. `legal(model, op)` may prune."""
    make, model_mk, vector = spec
    for seq, k in seqs:
        d = Driver(make, model_mk(), layout, vector, rew)
        st.ctx = {"layout": layout, "prelude": pre, "ops": list(seq)}
        for op in pre:
            d.apply(op)
        ok = True
        for i, op in enumerate(seq):
            if legal is not None and not legal(d.model, op):
                ok = False
                break
            d.apply(op)
            if i >= k and (every or i == len(seq) - 1):
                st.step()
                st.state(d.model.key())
                st.ctx = {"layout": layout, "prelude": pre, "ops": list(seq[: i + 1])}
                checkfn(d, st)
        if ok:
            st.trace(st.ctx)


# Histories that bring two-environment rings into filled / wrapped / mid-episode states.
PRELUDES2 = [[], [("a", [0], "c")] * 3, [("a", [0, 1], "cT"), ("a", [1], "c"), ("a", [1, 0], "cc")],
             [("a", [1, 0], "Tc")] * 3 + [("r", 0)], [("a", [0, 1], "cc")] * 4]
OPS1 = [("a", [0], "c"), ("a", [0], "T"), ("a", [0], "U"), ("r", 0), ("r", 1)]
OPS1_SMALL = [("a", [0], "c"), ("a", [0], "T"), ("r", 0)]
OPS1_ADD = [("a", [0], "c"), ("a", [0], "T")]


def cache_fits(model, op):
    """Episodes longer than the cache are outside the documented use of a cached buffer."""
    if op[0] != "a":
        return True
    return all(len(model.subs[e + 1].order) < model.subs[e + 1].cap for e in op[1])
