"""Exhaustive enumeration of the answers of a random source.

ChoiceRng stands in for numpy.random.Generator: every draw is a recorded choice among a finite menu.
explore() enumerates all choice sequences depth first (stateless search, replaying prefixes).
"""
from __future__ import annotations

import itertools

import numpy as np

UNIFORM = (0.999, 0.0, 0.45)


class ChoiceRng:
    def __init__(self, prefix=()):
        self._prefix = tuple(prefix)
        self.path: list[int] = []
        self.width: list[int] = []
        self._real = np.random.default_rng(0)
        self._noise = 0

    def _pick(self, n: int) -> int:
        i = len(self.path)
        c = self._prefix[i] if i < len(self._prefix) else 0
        if c >= n:
            raise RuntimeError("replay diverged")
        self.path.append(c)
        self.width.append(n)
        return c

    @staticmethod
    def _n(size):
        return 1 if size is None else int(np.prod(size))

    def _fill(self, size, one, dtype=float):
        if size is None:
            return one()
        vals = [one() for _ in range(self._n(size))]
        return np.asarray(vals, dtype=dtype).reshape(size)

    def random(self, size=None, dtype=np.float64, out=None):
        return self._fill(size, lambda: UNIFORM[self._pick(len(UNIFORM))])

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._fill(size, lambda: low + (high - low) * UNIFORM[self._pick(len(UNIFORM))])

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high) + (1 if endpoint else 0)
        n = high - low
        if n > 64:   # a derived seed: one representative
            return self._fill(size, lambda: low + 12345 % n, dtype=np.int64)
        v = self._fill(size, lambda: low + self._pick(n), dtype=np.int64)
        return v if size is not None else int(v)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        if size is None:
            return a[self._pick(len(a))]
        left = list(range(len(a)))
        out = []
        for _ in range(self._n(size)):
            if replace:
                out.append(self._pick(len(a)))
            else:
                out.append(left.pop(self._pick(len(left))))
        return a[np.asarray(out, dtype=int)].reshape(size)

    def permutation(self, x, axis=0):
        a = np.arange(x) if np.isscalar(x) else np.asarray(x)
        left = list(range(len(a)))
        return a[[left.pop(self._pick(len(left))) for _ in range(len(a))]]

    def shuffle(self, x, axis=0):
        x[:] = self.permutation(x)

    def normal(self, loc=0.0, scale=1.0, size=None):
        def one():
            self._noise += 1
            return loc + scale * (0.01 + 0.003 * (self._noise % 101))
        return self._fill(size, one)

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        return self.normal(0.0, 1.0, size)

    def __getattr__(self, name):
        return getattr(self._real, name)


def explore(run, cap: int):
    """Run `run(rng)` for every answer sequence. -> (paths, capped)"""
    stack = [()]
    paths = []
    while stack:
        if len(paths) >= cap:
            return paths, True
        pre = stack.pop()
        rng = ChoiceRng(pre)
        run(rng)
        if tuple(rng.path[:len(pre)]) != tuple(pre):
            raise RuntimeError("replay diverged")
        paths.append(tuple(rng.path))
        for i in range(len(rng.path) - 1, len(pre) - 1, -1):
            for alt in range(rng.width[i] - 1, 0, -1):
                stack.append(tuple(rng.path[:i]) + (alt,))
    return paths, False
