"""Preprocessing vocabulary: small datasets per modality, step alphabets, canonical observations."""
from __future__ import annotations

import functools

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import PreprocessPlan, StepConfig
from modssc.preprocess.registry import StepRegistry
from modssc.preprocess.types import StepSpec


class NoiseStep:
    """A step that draws from the generator it is given (train first, then test)."""

    def __init__(self, scale: float = 1.0):
        self.scale = scale

    def transform(self, store, *, rng):
        n = len(store.require("raw.y"))
        return {"noise.X": rng.random((n, 2)) * self.scale}


class FitNoiseStep(NoiseStep):
    """Draws when fitting and when transforming."""

    def fit(self, store, *, fit_indices, rng):
        self.offset = rng.random()

    def transform(self, store, *, rng):
        n = len(store.require("raw.y"))
        return {"features.X": self.offset + rng.random((n, 2))}


def _ob(*v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class ObjectStep:
    """Produces values of every kind the cache may meet."""

    def __init__(self, kind: int = 0):
        self.kind = kind

    def transform(self, store, *, rng):
        import torch
        from scipy import sparse
        y = store.require("raw.y")
        n = len(y)
        v = [_ob(*[[i, i + 1] for i in range(n)]), _ob(*[(i, "a") for i in range(n)]), _ob(*[np.arange(i) for i in range(n)]), {1: "a", "b": 2.5}, (1, 2), ["x", None, True, 1.5],
             _ob(*[{i: "k"} for i in range(n)]), np.empty((0, 3), dtype=object), np.array([["a", None], ["b", 1]], dtype=object), torch.ones(2, dtype=torch.bfloat16),
             sparse.csr_matrix(np.eye(n)), sparse.coo_matrix(np.eye(n)), np.float32(1.5), np.arange(3, dtype=np.uint8), np.array(["a", "bb"]), [np.arange(2)], {"x": np.arange(2)},
             "é\u2028", None, True, torch.tensor([True, False]), np.array(3), [(1, 2)], {"a": (1,)}, [float("nan")], b"bytes", {True: 1}, [np.float64(2.0)], 10**30,
             _ob(*[np.str_("s")] * n), np.array(b"x"), np.asfortranarray(np.arange(6.).reshape(2, 3)), np.array(["2020"], dtype="M8[Y]")]
        return {"obj.a": v[self.kind % len(v)], "obj/a": n, "obj__a": "third", "obj_a": [n]}


N_OBJ = 33


def registry():
    reg = StepRegistry.builtin()
    specs = dict(reg.specs)
    for sid, cls, kind, produces in (("mc.noise", "NoiseStep", "transform", ("noise.X",)), ("mc.fitnoise", "FitNoiseStep", "fittable", ("features.X",)),
                                     ("mc.obj", "ObjectStep", "transform", ("obj.a",))):
        specs[sid] = StepSpec(step_id=sid, import_path=f"mc.prep:{cls}", kind=kind, description="", required_extra=None, modalities=(),
                              consumes=("raw.y",), produces=produces)
    return StepRegistry(specs=specs)


def S(sid, **p):
    return StepConfig(step_id=sid, params=p)


COMMON = [S("core.copy_raw"), S("core.ensure_2d"), S("core.to_numpy"), S("core.cast_dtype", dtype="float64"), S("core.cast_fp16"), S("core.to_torch", dtype="float64"),
          S("labels.encode"), S("labels.to_numpy"), S("labels.to_torch"), S("labels.ensure_onehot", unlabeled_value=-1), S("mc.noise"), S("mc.fitnoise")]
ALPHABET = {
    "tabular": [S("core.copy_raw"), S("core.ensure_2d"), S("core.to_numpy"), S("core.cast_dtype", dtype="float64"), S("core.cast_fp16"), S("core.to_torch", dtype="float64"),
                S("core.to_torch", dtype="float64", input_key="raw.X"), S("core.pca", n_components=1), S("core.pca", n_components=2, center=False), S("core.random_projection", n_components=2),
                S("tabular.standard_scaler"), S("tabular.impute"), S("tabular.impute", strategy="median"), S("tabular.one_hot"), S("embeddings.auto"),
                S("vision.zca_whitening"), S("labels.encode"), S("labels.to_numpy"), S("labels.to_torch", dtype="float32"), S("labels.ensure_onehot"), S("mc.noise"), S("mc.fitnoise")],
    "text": [S("text.ensure_strings"), S("text.hash_tokenizer", max_length=3, vocab_size=50), S("text.vocab_tokenizer", max_length=3, min_freq=1), S("text.vocab_tokenizer", max_length=2),
             S("text.tfidf"), S("text.tfidf", max_features=2), S("embeddings.auto"), S("core.copy_raw"), S("core.to_numpy"), S("core.ensure_2d"), S("core.pca", n_components=1),
             S("core.cast_dtype", dtype="float64"), S("labels.encode"), S("core.to_torch", input_key="tokens.input_ids", dtype="int64"), S("mc.noise")],
    "vision": [S("vision.channels_order", order="NCHW"), S("vision.channels_order", order="NHWC"), S("vision.ensure_num_channels", num_channels=1),
               S("vision.ensure_num_channels", num_channels=4), S("vision.resize", height=2, width=7), S("vision.normalize", mean=(0.5,), std=(2.0,)),
               S("vision.zca_whitening"), S("vision.squeeze"), S("vision.squeeze", as_list=False), S("core.copy_raw"), S("core.ensure_2d"), S("core.to_torch", input_key="raw.X"),
               S("embeddings.auto"), S("core.pca", n_components=2), S("tabular.standard_scaler")],
    "graph": [S("graph.attach_edge_weight"), S("graph.attach_edge_weight", weight=2.0), S("graph.edge_sparsify", keep_fraction=0.5), S("graph.node2vec", embedding_dim=2),
              S("graph.dgi", embedding_dim=2, hidden_dim=2, unsup_epochs=2, dropout=0.3), S("graph.sparse_adjacency"), S("core.copy_raw"), S("core.ensure_2d"),
              S("core.to_torch", dtype="float64"), S("core.pca", n_components=1), S("labels.encode"), S("mc.noise")],
}


@functools.lru_cache(None)
def dataset(modality: str, which: int = 0, test: bool = True):
    k = which
    r = np.random.default_rng(100 + k)
    meta = {"modality": "" if modality == "tabular" else modality, "dataset_fingerprint": f"fp-{modality}-{k}-{test}"}
    if modality == "tabular":
        X, Xt = r.normal(size=(6, 3)).round(2), r.normal(size=(3, 3)).round(2)
        y, yt = np.asarray(["b", "a", "c", "a", "b", "c"]), np.asarray(["c", "b", "c"])
        if k:
            X[1, 0] = np.nan
        y, yt = (np.asarray([{"a": 5, "b": 2, "c": 9}[v] for v in a]) for a in (y, yt))
        return LoadedDataset(train=Split(X=X, y=y), test=Split(X=Xt, y=yt) if test else None, meta=meta)
    if modality == "text":
        tx = ["the cat sat", "a Dog  sat", "", "cat cat dog the", "bird!", "the the the"]
        if k:
            tx = [t[::-1] + " new" for t in tx]
        X = np.asarray(tx, dtype=object)
        Xt = np.asarray(["dog unseen", "the cat", "x"], dtype=object)
        y, yt = np.asarray(["p", "n", "p", "n", "z", "z"]), np.asarray(["z", "n", "n"])
        return LoadedDataset(train=Split(X=X, y=y), test=Split(X=Xt, y=yt) if test else None, meta=meta)
    if modality == "vision":
        X = r.integers(0, 255, size=(5, 5, 6, 3)).astype(np.uint8)
        Xt = r.integers(0, 255, size=(2, 5, 6, 3)).astype(np.uint8)
        if k:
            X, Xt = X[..., :1], Xt[..., :1]
        return LoadedDataset(train=Split(X=X, y=np.asarray([0, 1, 0, 1, 1])), test=Split(X=Xt, y=np.asarray([1, 1])) if test else None, meta=meta)
    if modality == "graph":
        X = r.normal(size=(5, 3)).round(2).astype(np.float32)
        e = np.asarray([[0, 1, 2, 3, 4, 0], [1, 2, 3, 4, 0, 2 + k]])
        y = np.asarray(["u", "v", "u", "v", "w"])
        m = {"train": np.asarray([1, 1, 0, 0, 0], bool), "val": np.asarray([0, 0, 1, 0, 0], bool), "test": np.asarray([0, 0, 0, 1, 1], bool)}
        return LoadedDataset(train=Split(X=X, y=y, edges=e, masks=m), test=None, meta=meta)
    raise KeyError(modality)


def canon(v):
    """Canonical, exactly comparable form (type, dtype, shape, values)."""
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("O", v.shape, tuple(canon(x) for x in v.reshape(-1)))
        return ("A", str(v.dtype), v.shape, v.tobytes() if v.dtype.kind not in "fc" else np.where(np.isnan(v), np.asarray(np.nan, v.dtype), v).tobytes())
    if hasattr(v, "detach"):
        return ("T", str(v.dtype), tuple(v.shape), repr(v.detach().cpu().tolist()))
    if hasattr(v, "toarray") and hasattr(v, "nnz"):
        return ("S", type(v).__name__.replace("_array", "_matrix"), str(v.dtype), v.shape, v.toarray().tobytes())
    if isinstance(v, dict):
        return ("D", tuple(sorted(((type(k).__name__, str(k)), canon(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(canon(x) for x in v))
    if isinstance(v, float):
        return (type(v).__name__, repr(v))
    return (type(v).__name__, v)


def obs_split(s):
    return None if s is None else {k: canon(getattr(s, k)) for k in ("X", "y", "edges", "masks")}


def obs(res, artifacts=True):
    out = {"train": obs_split(res.dataset.train), "test": obs_split(res.dataset.test), "meta": {k: v for k, v in res.dataset.meta.items() if k != "preprocess_cache_dir"},
           "fp": res.preprocess_fingerprint}
    if artifacts:
        for nm in ("train_artifacts", "test_artifacts"):
            st = getattr(res, nm)
            out[nm] = None if st is None else {k: canon(v) for k, v in st.data.items()}
    return out


def plan(steps, output_key="features.X"):
    return PreprocessPlan(steps=tuple(steps), output_key=output_key)


def diff(a, b, path=""):
    """First difference of two observations, for messages."""
    if type(a) is not type(b) or not isinstance(a, dict):
        return None if a == b else f"{path}: {str(a)[:300]} != {str(b)[:300]}"
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return f"{path}.{k} only on one side"
        d = diff(a[k], b[k], f"{path}.{k}")
        if d:
            return d
    return None
