"""Methods registered through the public registries that only record what the benchmark hands them."""
from __future__ import annotations

from dataclasses import dataclass
from typing import Any

import numpy as np
from modssc.inductive.base import MethodInfo
from modssc.transductive.base import MethodInfo as NodeMethodInfo

LOG: list[dict[str, Any]] = []
RULE = {"f": None}  # X -> labels


@dataclass(frozen=True)
class ProbeSpec:
    backend: str = "numpy"
    alpha: float = 0.5
    beta: int = 3


@dataclass(frozen=True)
class BundleSpec(ProbeSpec):
    model_bundle: Any = None


@dataclass(frozen=True)
class TwoBundleSpec(ProbeSpec):
    model_bundle_1: Any = None
    model_bundle_2: Any = None


def labels_of(X):
    x = X["x"] if isinstance(X, dict) else X
    x = x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)
    return np.array([RULE["f"](r) for r in x], dtype=np.int64)


class Probe:
    info = MethodInfo(method_id="probe", name="probe")
    spec_cls = ProbeSpec

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else self.spec_cls()

    def fit(self, data, *, device=None, seed=0):
        LOG.append({"data": data, "device": device, "seed": seed, "spec": self.spec})
        return self

    def predict(self, X):
        return labels_of(X.X_l if hasattr(X, "X_l") else X)

    def predict_proba(self, X):
        y = self.predict(X)
        cls = np.unique(y)
        return (y[:, None] == cls[None, :]).astype(np.float64)


class BundleProbe(Probe):
    spec_cls = BundleSpec


class TwoBundleProbe(Probe):
    spec_cls = TwoBundleSpec


class NodeProbe:
    info = NodeMethodInfo(method_id="nodeprobe", name="nodeprobe", supports_gpu=False)

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else ProbeSpec()

    def fit(self, data, *, device=None, seed=0):
        LOG.append({"data": data, "device": device, "seed": seed, "spec": self.spec})
        return self

    def predict_proba(self, data):
        y = labels_of(data.X)
        return (y[:, None] == np.arange(4)[None, :]).astype(np.float32)


def register():
    from modssc.inductive import registry as ri
    from modssc.transductive import registry as rt

    ri.register_method("mc_probe", "mc.benchstub:Probe", status="implemented")
    ri.register_method("mc_bundle", "mc.benchstub:BundleProbe", status="implemented")
    ri.register_method("mc_two", "mc.benchstub:TwoBundleProbe", status="implemented")
    rt.register_method("mc_node", "mc.benchstub:NodeProbe", status="implemented")
