"""A dataset provider whose content the harness controls (registered under the name "mc")."""
from __future__ import annotations

import numpy as np
from modssc.data_loader.errors import OptionalDependencyError
from modssc.data_loader.providers.base import BaseProvider
from modssc.data_loader.types import DatasetIdentity, LoadedDataset, Split

CALLS: list = []
ACTIVE: list = []     # loads in progress
OVERLAP: list = []    # how many loads of the same dataset were in progress, at each call
CONTENT = {"version": 0}
FAIL = {"on": False}


def make(name: str, version: int = 0) -> LoadedDataset:
    """name = <form><variant>; content depends on variant and version."""
    form, k = name[:-1], int(name[-1])
    o = 100 * k + 1000 * version
    n, m = 3 + k % 2, 2
    X = o + np.arange(2 * n, dtype=np.float32).reshape(n, 2)
    Xt = o + 50 + np.arange(2 * m, dtype=np.float32).reshape(m, 2)
    y, yt = (np.arange(n) + k + version) % 3, (np.arange(m) + k + version) % 3
    meta = {"name": name, "content": o}
    if form == "tab":
        return LoadedDataset(train=Split(X=X, y=y), test=Split(X=Xt, y=yt), meta=meta)
    if form == "txt":
        tx = np.asarray([f"té {o} {i}\nline\t\"q\" \\ {chr(0x1F600)}" for i in range(n)], dtype=object)
        return LoadedDataset(train=Split(X=tx, y=np.asarray([f"c{v}" for v in y])), test=None, meta=meta)
    if form == "gra":
        ms = {"train": np.arange(n) == 0, "val": np.arange(n) == 1, "test": np.arange(n) > 1}
        return LoadedDataset(train=Split(X=X, y=y, edges=np.asarray([[0, 1, o % 2], [1, 2, 0]]), masks=ms), test=None, meta=meta)
    if form == "obj":
        ob = np.empty(n, dtype=object)
        for i in range(n):
            ob[i] = np.arange(i + 1) + o
        return LoadedDataset(train=Split(X=ob, y=y), test=None, meta=meta)
    raise KeyError(form)


class McProvider(BaseProvider):
    name = "mc"
    required_extra = None

    def resolve(self, parsed, *, options):
        ref = parsed.reference
        return DatasetIdentity(provider="mc", canonical_uri=f"mc:{ref[:-1]}", dataset_id=ref, version=None, modality="tabular",
                               task="classification", resolved_kwargs={"ref": ref, **dict(options)})

    def load_canonical(self, identity, *, raw_dir):
        CALLS.append(identity.dataset_id)
        if FAIL["on"] == "extra":
            raise OptionalDependencyError(extra="mcx", purpose="the stub dataset")
        if FAIL["on"]:
            raise RuntimeError("provider unavailable")
        ACTIVE.append(identity.dataset_id)
        OVERLAP.append(ACTIVE.count(identity.dataset_id))
        try:
            (raw_dir / "raw.bin").write_bytes(b"raw")
            return make(identity.dataset_id, CONTENT["version"])
        finally:
            ACTIVE.remove(identity.dataset_id)


def register():
    from modssc.data_loader.providers import PROVIDERS
    PROVIDERS["mc"] = "mc.provider:McProvider"


def obs(ds, names=("X", "y", "edges")):
    """Canonical observation of a dataset (values, dtypes, shapes, split structure, meta)."""
    def arr(a):
        if a is None:
            return None
        a = np.asarray(a) if not isinstance(a, np.ndarray) else a
        if a.dtype == object:
            return ["O", list(a.shape), [v.tolist() if isinstance(v, np.ndarray) else v for v in a.reshape(-1).tolist()]]
        return [str(a.dtype), list(a.shape), a.tolist()]

    def split(s):
        if s is None:
            return None
        return {**{k: arr(getattr(s, k)) for k in names}, "masks": None if s.masks is None else {k: arr(v) for k, v in s.masks.items()}}
    return {"train": split(ds.train), "test": split(ds.test), "meta": dict(ds.meta)}
