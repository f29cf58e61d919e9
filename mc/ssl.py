"""A scripted base classifier for iterative semi-supervised methods.

The classifier is an arbitrary function of (seed, training multiset, row): each value is a choice made
the first time it is asked and remembered, so one exploration covers every behaviour a deterministic
classifier could show. The reference simulation asks the same table.
"""
from __future__ import annotations

import numpy as np
import torch
from modssc.supervised.base import BaseSupervisedClassifier, FitResult

WORLD = None
QUERY = 50     # rows from here on get a fixed (hash-like) answer instead of a choice


class World:
    def __init__(self, rng, *, levels=2, conf=None, rows=None):
        self.rng, self.levels, self.table = rng, levels, {}
        self.conf = conf or (lambda row, lev: round((0.9 if lev == 0 else 0.6) + 0.001 * ((row * 7) % 11), 6))
        self.rowid = rows or (lambda x: int(round(float(x[0]))))
        self.asked = None      # (seed, train) answering while not None

    def answer(self, seed, train, row):
        """-> (label, confidence) of a row under the classifier trained on `train`."""
        classes = sorted({y for _, y in train})
        key = (seed, train, row)
        if key not in self.table:
            if row % 100 >= QUERY:
                h = sum(r * 3 + y for r, y in train) + seed * 5 + row
                self.table[key] = (h % len(classes), (h // 3) % self.levels)
            elif row % 100 < 10:      # a labelled row: right, or one wrong class
                own = classes.index(dict(train).get(row, classes[0]))
                self.table[key] = ((own + self.rng._pick(min(2, len(classes)))) % len(classes), 0)
            else:
                c = self.rng._pick(len(classes) * self.levels)
                self.table[key] = (c % len(classes), c // len(classes))
        c, lev = self.table[key]
        return classes[c], self.conf(row, lev)

    def scores(self, seed, train, row):
        classes = sorted({y for _, y in train})
        lab, conf = self.answer(seed, train, row)
        k = len(classes)
        return [conf if c == lab else (1.0 - conf) / (k - 1) for c in classes]


class StubClassifier(BaseSupervisedClassifier):
    classifier_id = "mc_stub"

    def fit(self, X, y):
        self._torch = isinstance(X, torch.Tensor)
        ids = [WORLD.rowid(r) for r in X.tolist()]
        ys = [int(v) for v in y.tolist()]
        if len(ids) != len(ys):
            raise ValueError("X and y lengths differ")
        self._train = tuple(sorted(zip(ids, ys)))
        self.classes_ = np.unique(np.asarray(ys))
        self._ydt = y.dtype
        if self._torch:
            self._classes_t = torch.unique(y, sorted=True)
        WORLD.fits.append((self.seed, self._train))
        return FitResult(len(ids), 1, len(self.classes_))

    def _rows(self, X):
        if isinstance(X, torch.Tensor) != self._torch:
            raise TypeError("backend changed between fit and predict")
        rows = [WORLD.rowid(r) for r in X.tolist()]
        if WORLD.asked is not None:
            WORLD.asked.add((self.seed, self._train))
        return rows

    def predict_scores(self, X):
        out = [WORLD.scores(self.seed, self._train, r) for r in self._rows(X)]
        arr = np.asarray(out, dtype=np.float64).reshape(len(out), len(self.classes_))
        return torch.tensor(arr, dtype=torch.float64) if self._torch else arr

    predict_proba = predict_scores

    @property
    def supports_proba(self):
        return True

    def predict(self, X):
        lab = [WORLD.answer(self.seed, self._train, r)[0] for r in self._rows(X)]
        return torch.tensor(lab, dtype=self._ydt) if self._torch else np.asarray(lab, dtype=self._ydt)


def register():
    from modssc.supervised import registry as reg
    reg.ensure_bootstrap()
    if "mc_stub" not in reg._REGISTRY:
        reg.register_classifier(key="mc_stub", description="scripted", preferred_backends=("numpy", "torch"))
        for be in ("numpy", "torch"):
            reg.register_backend(classifier_id="mc_stub", backend=be, factory="mc.ssl:StubClassifier")
