"""A method and a metric, registered through public registries, whose score is read from a script."""
from __future__ import annotations

from dataclasses import dataclass
from typing import Any

import numpy as np
from modssc.inductive.base import MethodInfo

FITS: list[dict[str, Any]] = []
SCRIPT: dict[str, Any] = {"score": None, "fail": None}  # score(spec, nth fit) -> float; fail(nth fit) -> bool


@dataclass(frozen=True)
class ScoreSpec:
    backend: str = "numpy"
    alpha: int = 0
    beta: int = 0
    batch_size: int = 1


class ScoreProbe:
    info = MethodInfo(method_id="score", name="score")

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else ScoreSpec()

    def fit(self, data, *, device=None, seed=0):
        n = len(FITS)
        FITS.append({"spec": self.spec, "seed": seed, "n": n, "X_l": np.array(data.X_l), "y_l": np.array(data.y_l)})
        if SCRIPT["fail"] is not None and SCRIPT["fail"](n):
            raise RuntimeError("scripted failure in fit")
        return self

    def predict_proba(self, X):
        return np.tile(np.array([[1.0, 0.0]]), (len(X), 1))

    def predict(self, X):
        return np.zeros(len(X), dtype=np.int64)


def score_metric(y_true, scores):
    return float(SCRIPT["score"](FITS[-1]["spec"], FITS[-1]["n"]))


def register():
    from modssc.evaluation import METRICS
    from modssc.inductive import registry as ri

    METRICS["mc_score"] = score_metric
    ri.register_method("mc_score", "mc.scorestub:ScoreProbe", status="implemented")
