"""Dataset storage round trip, dataset identity, and containment of stored paths."""
import dataclasses
import functools
import itertools
import json
import os

import numpy as np
from modssc.data_loader import cache as dcache
from modssc.data_loader import load_dataset
from modssc.data_loader.errors import ManifestError
from modssc.data_loader.numpy_adapter import to_numpy
from modssc.data_loader.providers import create_provider
from modssc.data_loader.providers.common import apply_limits
from modssc.data_loader.storage import FileStorage
from modssc.data_loader.types import LoadedDataset, Split
from modssc.data_loader.uri import parse_uri
from modssc.utils.io import resolve_relative_path

from mc import gen

PID = "C15"
BOUNDS = {
    "quick": "38 array forms in every slot of a split and every ordered pair; 3-slot mask dictionaries; every path of <=3 components over 8 names x "
             "4 prefixes against a tree with inward and outward symbolic links, in dataset and preprocess caches; every label vector n<=5 x filter x limit; all pairs of 72 toy option sets",
    "thorough": "paths of <=4 components, label vectors n<=6",
}
ASSUMPTIONS = ["text with lone surrogates cannot be stored (the save raises)"]


def ob(*v):
    a = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        a[i] = x
    return a


@functools.lru_cache(None)
def forms():
    import torch
    return {
        "f32": np.arange(6, dtype=np.float32).reshape(2, 3), "F": np.asfortranarray(np.arange(6.).reshape(2, 3)), "be": np.arange(3, dtype=">i4"),
        "bool": np.array([True, False]), "complex": np.array([1j]), "e0": np.zeros((0, 3)), "e00": np.zeros((0,)), "u": np.array(["a", "bb", ""]),
        "dt": np.array(["2020-01-01"], dtype="M8[D]"), "0d": np.array(3), "stride": np.arange(10)[::2], "neg": np.arange(4)[::-1], "u8": np.array([255], np.uint8),
        "os": ob("a", "b\n", "\u2028\r\x00", "é\U0001F600", "", "null", "\\n", " x "), "oe": ob(), "oe2": np.empty((0, 2), dtype=object), "oe3": np.empty((2, 0), dtype=object),
        "o2": np.array([["a", "b"], ["c", "d"]], dtype=object), "o3": np.array([[["a"], ["b"]]], dtype=object), "ods": np.array("x", dtype=object), "od1": np.array(5, dtype=object),
        "mix": ob(1, "a", None, 2.5, True), "rag": ob(np.arange(2), np.arange(3)), "same": ob(np.arange(2), np.arange(2)), "listobj": ob([1, 2], [3, 4]),
        "dict": ob({"a": 1}, {"b": (2,)}), "list": [1, 2, 3], "liststr": ["a", "b"], "nested": [[1, 2], [3, 4]], "tup": ("a", "b"), "tens": torch.arange(4).reshape(2, 2),
        "grad": torch.ones(2, requires_grad=True), "nan": np.array([np.nan, np.inf, -0.0]), "struct": np.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]),
        "tensors": [torch.ones(2), torch.zeros(2)], "bytes": np.array([b"a", b"bc"]), "obytes": ob(b"a"), "big": np.array([2**62, -1], dtype=np.int64),
    }


def key(a):
    if a is None:
        return None
    return (str(a.dtype), a.shape, repr(a.tolist()))


COMP = ("..", ".", "a", "in", "out", "f.npy", "up", "")
PREFIX = ("", "/", "a/", "//")


def cases(tier):
    names = list(range(38))
    for a in names:
        yield {"kind": "rt", "a": a}
    for n in range(1, 4 if tier == "quick" else 5):
        for p in itertools.product(COMP, repeat=n):
            yield {"kind": "path", "p": p}
    for n in range(0, 6 if tier == "quick" else 7):
        for y in gen.rgs(n, 3):
            yield {"kind": "limit", "y": y}
    for i in range(72):
        yield {"kind": "toy", "i": i}
    yield {"kind": "identity"}


TOY = [dict(zip(("n_samples", "n_features", "n_classes", "seed", "official_test", "test_size"), v, strict=True))
       for v in itertools.product((4, 7), (1, 2), (2, 3), (0, 1, 2), (True, False), (0.25, 0.6))][:96:1]
TOY = [t for t in TOY if t["official_test"] or t["test_size"] == 0.25]

URIS = {"hf": ("hf:org/name", [{}, {"text_column": "t"}, {"label_column": "l"}, {"prefer_test_split": False}, {"class_filter": [0]}, {"class_filter": [0, 1]},
                              {"max_train_samples": 5}, {"max_train_samples": 0}, {"max_test_samples": 5}, {"seed": 1}, {"seed": 0}, {"max_train_samples": 5, "seed": 1}]),
        "torchvision": ("torchvision:MNIST", [{}, {"class_filter": [1]}, {"max_train_samples": 5}, {"max_train_samples": 0}, {"max_test_samples": 5}, {"seed": 1}, {"seed": 0}]),
        "torchaudio": ("torchaudio:YESNO", [{}, {"class_filter": [1]}, {"max_train_samples": 5}, {"max_train_samples": 0}, {"max_test_samples": 5}, {"seed": 1}, {"seed": 0}]),
        "pyg": ("pyg:Planetoid/Cora", [{}, {"max_nodes": 5}, {"class_filter": [1]}, {"seed": 1}, {"max_nodes": 5, "seed": 1}]),
        "tfds": ("tfds:mnist", [{}, {"as_supervised": False}]),
        "toy": ("toy:default", [{}, {"n_samples": 5}, {"n_features": 2}, {"n_classes": 2}, {"seed": 1}, {"official_test": False}, {"test_size": 0.5}])}


def run_case(c, R):
    R.step()
    if c["kind"] == "rt":
        names = sorted(forms())
        assert len(names) == 38
        a = forms()[names[c["a"]]]
        for bn in names:
            b = forms()[bn]
            root = R.fresh_dir()
            masks = {"train": [True, False], "val/x"[:3]: np.array([False, True]), "test": np.array([0, 1])}
            ds = LoadedDataset(train=Split(X=a, y=b, edges=b if c["a"] % 2 else None, masks=masks if c["a"] % 3 else None),
                               test=None if c["a"] % 5 == 0 else Split(X=b, y=a, edges=a), meta={"k": [1, {"z": None}], "é": "x\n", "f": 0.1})
            FileStorage().save(root, ds)
            got = FileStorage().load(root)
            for s, g, nm in ((ds.train, got.train, "train"), (ds.test, got.test, "test")):
                R.check((s is None) == (g is None), f"{nm} split presence changed", "presence")
                if s is None:
                    continue
                for f in ("X", "y", "edges"):
                    u, v = getattr(s, f), getattr(g, f)
                    w = None if u is None else to_numpy(u)
                    R.check(key(w) == key(v), lambda: f"{nm}.{f}: stored {key(w)}, loaded {key(v)} (forms {names[c['a']]}, {bn})", f"roundtrip:{f}")
                R.check((s.masks is None) == (g.masks is None), "masks presence", "presence")
                if s.masks is not None:
                    R.check({k: key(np.asarray(v, dtype=bool)) for k, v in s.masks.items()} == {k: key(v) for k, v in g.masks.items()}, f"masks {g.masks}", "masks")
            R.check(got.meta == ds.meta, f"meta {got.meta}", "meta")
            R.state("rt", names[c["a"]], bn)
            R.outcome(key(to_numpy(a)), key(to_numpy(b)))
    elif c["kind"] == "path":
        top = R.fresh_dir("top")
        root = top / "root"
        (root / "a" / "in").mkdir(parents=True)
        (top / "out").mkdir()
        for d in (top, top / "out", root, root / "a", root / "a" / "in", top.parent / "never"):
            if d.exists():
                np.save(d / "f.npy", np.arange(2) if root in (d, *d.parents) else np.arange(9))
        os.symlink(root / "a", root / "in")
        os.symlink(top / "out", root / "out")
        os.symlink("../..", root / "a" / "up")
        os.symlink("..", root / "up")
        for pre in PREFIX:
            rel = pre + "/".join(c["p"])
            absolute = os.path.isabs(rel)
            real = os.path.realpath(os.path.join(os.path.realpath(root), rel))
            inside = not absolute and (real == os.path.realpath(root) or real.startswith(os.path.realpath(root) + os.sep))
            try:
                got = resolve_relative_path(root, rel, purpose="x")
                R.check(inside, f"path {rel!r} accepted although it leads to {real}", "escape")
                R.check(os.path.realpath(got) == real, f"path {rel!r} -> {got}, expected {real}", "resolve")
            except ValueError:
                R.check(not inside, f"path {rel!r} inside the root rejected", "reject")
            lay = {"version": 1, "splits": {"train": {"X": {"format": "npy", "path": rel}, "y": {"format": "npy", "path": "f.npy"}}}}
            (root / "layout.json").write_text(json.dumps(lay))
            (root / "meta.json").write_text("{}")
            try:
                ds = FileStorage().load(root)
                R.check(inside and len(ds.train.X) == 2, f"dataset cache read {rel!r} -> {ds.train.X} ({real})", "escape")
            except ManifestError:
                R.check(not inside, f"dataset cache rejected {rel!r}", "reject")
            except OSError:
                R.check(inside and not os.path.isfile(real), f"dataset cache could not open {rel!r}", "open")
            from modssc.preprocess.cache import _load_value
            from modssc.preprocess.errors import PreprocessCacheError
            try:
                v = _load_value(root, {"type": "npy", "path": rel})
                R.check(inside and len(v) == 2, f"preprocess cache read {rel!r} ({real})", "escape")
            except PreprocessCacheError:
                R.check(not inside, f"preprocess cache rejected {rel!r}", "reject")
            except OSError:
                R.check(inside and not os.path.isfile(real), f"preprocess cache could not open {rel!r}", "open")
            R.state("path", rel)
            R.outcome(inside, os.path.relpath(real, top))
    elif c["kind"] == "limit":
        y = np.asarray(c["y"], dtype=np.int64)
        X = np.arange(len(y)) * 10
        for flt in (None, [0], [1, 2], [7], []):
            keep = [i for i, v in enumerate(c["y"]) if flt is None or v in flt]
            for m, seed in itertools.product((None, 0, 1, 2, 9, -1), (None, 0, 3)):
                a, b = apply_limits(X, y, class_filter=flt, max_samples=m, seed=seed)
                R.check([c["y"][i // 10] for i in a.tolist()] == b.tolist(), f"rows misaligned {a} {b} for {y}", "align")
                want = len(keep) if m is None else min(len(keep), max(m, 0))
                R.check(len(a) == want and len(set(a.tolist())) == want and {i // 10 for i in a.tolist()} <= set(keep), f"limit {m} filter {flt} on {y}: {a}", "limit")
                if m is None or seed is None:
                    R.check([i // 10 for i in a.tolist()] == keep[:want], f"order {a}", "order")
                a2, _ = apply_limits(X, y, class_filter=flt, max_samples=m, seed=seed)
                R.check(a.tolist() == a2.tolist(), "not reproducible", "repro")
                R.state("limit", c["y"], flt, m, seed)
    elif c["kind"] == "toy":
        i = c["i"]
        if i >= len(TOY):
            R.state("toy-none", i)
            return
        root = R.fresh_dir()
        first = load_dataset("toy", cache_dir=root, options=TOY[i])
        fp = {first.meta["dataset_fingerprint"]}
        for j, t in enumerate(TOY):
            d = load_dataset("toy", cache_dir=root, options=t) if abs(i - j) <= 6 else None
            if d is None:
                continue
            prov = create_provider("toy")
            ident = prov.resolve(parse_uri("toy:default"), options=t)
            want = prov.load_canonical(ident, raw_dir=root)
            for s in ("train", "test"):
                a, b = getattr(d, s), getattr(want, s)
                R.check((a is None) == (b is None) and (a is None or (key(a.X) == key(b.X) and key(a.y) == key(b.y))),
                        f"options {t} after {TOY[i]}: cached {s} is not that of these options", "options")
            R.check((d.meta["dataset_fingerprint"] in fp) == (t == TOY[i]), f"options {t} and {TOY[i]} share a cache entry", "collide")
            R.state("toy", i, j)
            R.outcome(d.meta["dataset_fingerprint"])
        R.check(len(dcache.index_list(dcache.CacheLayout(root=root))) == len([t for j, t in enumerate(TOY) if abs(i - j) <= 6]), "index", "index")
    else:
        seen = {}
        for prov, (uri, opts) in URIS.items():
            p = create_provider(prov)
            for o in opts:
                ident = p.resolve(parse_uri(uri), options=o)
                fp = ident.fingerprint(schema_version=1)
                R.check(fp == p.resolve(parse_uri(uri), options=dict(reversed(list(o.items())))).fingerprint(schema_version=1), f"{uri} {o}: unstable", "unstable")
                R.check(fp not in seen, f"{uri} {o} shares its cache entry with {seen.get(fp)}", "collide")
                R.check(fp != ident.fingerprint(schema_version=2), "schema version ignored", "schema")
                seen[fp] = (uri, o)
                for k in ident.resolved_kwargs:
                    variants = {}
                    for v in (None, 0, 1, 0.5, "", "0", "None", [], [0], [None], ["a", "b"], ["b", "a"], {"x": 0}, {"x": None}):
                        f = dataclasses.replace(ident, resolved_kwargs={**ident.resolved_kwargs, k: v}).fingerprint(schema_version=1)
                        R.check(f not in variants, f"{uri} {o}: {k}={v!r} shares its cache entry with {k}={variants.get(f)!r}", "collide")
                        variants[f] = v
                R.state("id", uri, o)
                R.outcome(fp)
