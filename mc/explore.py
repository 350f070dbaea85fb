"""Choice-point exploration: the code under test runs under a Chooser that answers every
nondeterministic question; all answer sequences are enumerated depth first."""
from __future__ import annotations


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.log = []      # (choice, number of alternatives)
        self.prob = 1.0
        self.weighted = False

    def choose(self, n: int, p=None) -> int:
        i = len(self.log)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise RuntimeError(f"replay diverged: choice {c} of {n} at point {i}")
        self.log.append((c, n))
        self.prob *= (1.0 / n) if p is None else float(p[c])
        return c


class Cap(Exception):
    pass


def explore(fn, deviations=None, limit=None):
    """Calls fn(chooser) for every sequence of answers. `deviations` bounds the number of
    non-default (non-zero) answers. Yields (chooser, result)."""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = fn(ch)
        if len(ch.log) < len(prefix):
            raise RuntimeError("replay diverged: execution shorter than its prefix")
        n += 1
        yield ch, res
        if limit is not None and n >= limit:
            raise Cap(f"execution limit {limit} hit")
        choices = [c for c, _ in ch.log]
        for i in range(len(prefix), len(ch.log)):
            if deviations is not None and sum(1 for c in choices[:i] if c) >= deviations:
                break
            for alt in range(ch.log[i][1] - 1, 0, -1):
                stack.append(choices[:i] + [alt])
