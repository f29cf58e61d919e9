"""Enumerators shared by the checks (all complete for their bound, simplest first)."""
from __future__ import annotations

import itertools

import numpy as np


def rgs(n: int, kmax: int):
    """Restricted growth strings: label vectors of length n up to renaming of classes."""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for v in range(min(m + 1, kmax)):
            yield from rec(prefix + [v], max(m, v + 1))
    yield from rec([], 0)


def label_vectors(n: int, k: int):
    return itertools.product(range(k), repeat=n)


def multiset_counts(n: int, k: int):
    """All (c_1..c_k) with sum n (class-count vectors, zero allowed)."""
    if k == 1:
        yield (n,)
        return
    for a in range(n + 1):
        for rest in multiset_counts(n - a, k - 1):
            yield (a, *rest)


LABEL_KINDS = {
    "int": lambda v: np.asarray(v, dtype=np.int64),
    "gap": lambda v: np.asarray([(7, 3, 40)[x] if x < 3 else 50 + x for x in v], dtype=np.int64),
    "neg": lambda v: np.asarray([(-1, 5, 0)[x] if x < 3 else 50 + x for x in v], dtype=np.int64),
    "str": lambda v: np.asarray([("b", "aa", "c")[x] if x < 3 else f"z{x}" for x in v], dtype=object).astype(str)
    if len(v) else np.asarray([], dtype="<U1"),
    "float": lambda v: np.asarray([(1.0, 0.5, 2.0)[x] if x < 3 else 9.0 + x for x in v], dtype=np.float64),
    "bool": lambda v: np.asarray([bool(x % 2) for x in v], dtype=bool),
    "huge": lambda v: np.asarray([(2_000_000, 5, 3_000_000)[x] if x < 3 else 9 + x for x in v], dtype=np.int64),
}


def subsets(items):
    items = list(items)
    for r in range(len(items) + 1):
        yield from itertools.combinations(items, r)


def bits(n):
    return itertools.product((False, True), repeat=n)
