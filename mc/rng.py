"""Puts numpy's global random source behind a Chooser: every answer the code asks for becomes a
choice point whose alternatives are all enumerated (index draws, permutations) or taken from a
stated grid (real numbers)."""
from __future__ import annotations

import itertools
from contextlib import contextmanager

import numpy as np

UNIT = (0.0, 0.25, 0.5, 0.75, 1 - 2.0 ** -20)
NORMAL = (0.0, -1.0, 1.5)
_PERMS = {n: list(itertools.permutations(range(n))) for n in range(6)}


class Rng:
    def __init__(self, ch, unit=UNIT, normal=NORMAL, maxperm=4):
        self.ch, self.unit, self.norm, self.maxperm = ch, unit, normal, maxperm
        self.calls = 0
        self.exact = True    # False once an answer came from a grid instead of the full set of answers

    def _fill(self, size, one, dtype):
        self.calls += 1
        if size is None:
            return dtype(one()) if dtype is not None else one()
        shape = (size,) if np.isscalar(size) else tuple(int(s) for s in size)
        n = int(np.prod(shape)) if shape else 1
        return np.array([one() for _ in range(n)], dtype=dtype).reshape(shape)

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        if n == 0:
            if size is not None and np.prod(size) == 0:
                return arr[:0]
            raise ValueError("a must be greater than 0 unless no samples are taken")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if len(p) != n or not np.isclose(p.sum(), 1) or np.any(p < 0):
                raise ValueError("probabilities are not valid")
            sup = [i for i in range(n) if p[i] > 0]
        else:
            sup = list(range(n))
        self.calls += 1
        if not replace:
            k = 1 if size is None else int(np.prod(size))
            if k > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            left, out = list(sup), []
            for _ in range(k):
                out.append(left.pop(self.ch.choose(len(left))))
            r = arr[np.array(out, dtype=int)]
            return r[0] if size is None else r.reshape(size)
        w = None if p is None else [p[i] for i in sup]
        one = lambda: sup[self.ch.choose(len(sup), w)]
        if size is None:
            return arr[one()]
        shape = (size,) if np.isscalar(size) else tuple(size)
        k = int(np.prod(shape))
        return arr[np.array([one() for _ in range(k)], dtype=int)].reshape(shape + arr.shape[1:])

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if np.ndim(lo) or np.ndim(hi):
            lo, hi = np.broadcast_arrays(lo, hi)
            self.calls += 1
            return np.array([int(l) + self.ch.choose(int(h - l)) for l, h in zip(lo.ravel(), hi.ravel())], dtype=dtype).reshape(lo.shape)
        if hi <= lo:
            raise ValueError("low >= high")
        return self._fill(size, lambda: int(lo) + self.ch.choose(int(hi - lo)), dtype)

    def _u(self):
        self.exact = False
        return self.unit[self.ch.choose(len(self.unit))]

    def rand(self, *size):
        return self._fill(size or None, self._u, float)

    def random(self, size=None):
        return self._fill(size, self._u, float)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        return low + (np.asarray(high) - low) * self._fill(size, self._u, float)

    def _n(self):
        self.exact = False
        return self.norm[self.ch.choose(len(self.norm))]

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        return loc + scale * self._fill(size, self._n, float)

    def randn(self, *size):
        return self._fill(size or None, self._n, float)

    def standard_normal(self, size=None):
        return self._fill(size, self._n, float)

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
        n = len(arr)
        self.calls += 1
        if n <= self.maxperm:
            perm = _PERMS[n][self.ch.choose(len(_PERMS[n]))]
        else:
            self.exact = False
            alts = [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]
            perm = alts[self.ch.choose(3)]
        return arr[np.array(perm, dtype=int)]

    def shuffle(self, x):
        x[:] = self.permutation(np.array(x))


NAMES = ("choice", "randint", "rand", "random", "uniform", "normal", "randn", "standard_normal", "permutation", "shuffle")
ALIASES = {"random_sample": "random", "sample": "random", "ranf": "random"}


class _Gen:
    """Stand-in for numpy.random.Generator backed by the same Chooser."""

    def __init__(self, rng):
        self._r = rng

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if endpoint:
            low, high = (0, low + 1) if high is None else (low, high + 1)
        return self._r.randint(low, high, size, dtype)

    def __getattr__(self, k):
        return getattr(self._r, k)


@contextmanager
def patched(ch, **kw):
    r = Rng(ch, **kw)
    saved = {n: getattr(np.random, n) for n in (*NAMES, *ALIASES, "default_rng")}
    try:
        for n in NAMES:
            setattr(np.random, n, getattr(r, n))
        for n, t in ALIASES.items():
            setattr(np.random, n, getattr(r, t))
        np.random.default_rng = lambda *a, **k: _Gen(r)
        yield r
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
