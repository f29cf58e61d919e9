"""The benchmark's data flow: which rows a method is trained on, predicts and is scored on."""
import itertools
import logging
import math
import warnings
from types import SimpleNamespace

import numpy as np
import torch
from bench.errors import BenchRuntimeError
from bench.main import _graph_sampling_to_inductive, _mask_map_from_sampling
from bench.orchestrators import augmentation as o_aug
from bench.orchestrators import evaluation as o_eval
from bench.orchestrators import graph as o_graph
from bench.orchestrators import method_inductive as o_ind
from bench.orchestrators import method_transductive as o_tr
from bench.orchestrators import preprocess as o_prep
from bench.orchestrators.slicing import select_rows
from bench.schema import DeviceConfig, MethodConfig, ModelConfig
from mc import benchstub as stub
from modssc.data_augmentation.api import build_strategy
from modssc.data_augmentation.plan import AugmentationPlan
from modssc.data_augmentation.plan import StepConfig as AugStep
from modssc.data_augmentation.types import AugmentationContext
from modssc.data_loader.types import LoadedDataset, Split
from modssc.graph import GraphBuilderSpec, build_graph
from modssc.preprocess.store import ArtifactStore
from modssc.preprocess.types import PreprocessResult, ResolvedPlan
from modssc.sampling.result import SamplingResult

from checks.c08 import ref, same

PID = "C32"
BOUNDS = {"quick": "scored splits of 3 rows: every truth and prediction over 3 labels (729) for 4 label forms x 3 containers; 5 rows dealt to {labelled, unlabelled, val, test} in all 4^5 ways, both row orders, for inductive and transductive runs, with and without an official test split; row selection: every index list up to length 3 over 3-4 rows, every edge set on 3 nodes (2^6 and all self-loops); augmentation: every op of a modality on 3 rows, every order of sample ids; labelled sets {a,b} of 4 classes for every pair and 4 real methods",
          "thorough": "6 rows dealt in 4^6 ways; 4-node graphs with 2^8 edge sets"}
ASSUMPTIONS = ["methods under the benchmark are probes registered through the public registries, except where a real method's columns matter",
               "validation and test labels may stay visible in a node dataset outside its training mask: C29 shows that methods do not look"]
CASE_TIMEOUT = 600
METRICS = ["accuracy", "balanced_accuracy", "macro_f1"]


def setup(tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)
    stub.register()


def cases(tier):
    for form in ("int", "torch", "onehot", "artifact"):
        for box in ("np", "torch", "graph"):
            for p0 in range(3):
                yield ["eval", form, box, p0]
    yield ["evalsplits"]
    yield ["evaltorch"]
    yield ["evalviews"]
    for m in ("supervised", "pseudo_label", "self_training", "tri_training"):
        for pair in itertools.combinations(range(4), 2):
            yield ["real", m, list(pair)]
    for k in range(4):
        yield ["evalnodes", k]
    for n in (3, 4):
        yield ["rows", n]
    for loops in (0, 1):
        for first in range(4):
            yield ["graphrows", loops, first, 3]
    if tier != "quick":
        for first in range(8):
            yield ["graphrows", 0, first, 4]
    n = 5 if tier == "quick" else 6
    for box in ("np", "torch", "graph", "u8"):
        for head in itertools.product(range(4), repeat=1):
            yield ["ind", box, n, list(head)]
    for k in ("model", "strict", "params", "twolabels", "labelsrc"):
        yield ["indx", k]
    for test in (0, 2):
        for head in range(4):
            yield ["nodes", n, test, head]
    yield ["nodesx"]
    for head in range(4):
        yield ["convert", n, head]
    for mod, ops in AUG.items():
        for op in ops:
            yield ["aug", mod, op[0]]
    yield ["augx"]
    for order in (0, 1):
        for art in (0, 1):
            yield ["graph", order, art]


# ------------------------------------------------------------------ worlds
def boxed(x, box):
    x = np.asarray(x, dtype=np.float64)
    if box == "np":
        return x
    if box == "u8":
        return x.astype(np.uint8)
    if box == "torch":
        return torch.tensor(x, dtype=torch.float32)
    n = len(x)
    ei = np.array([[i for i in range(n) for j in range(n) if i != j], [j for i in range(n) for j in range(n) if i != j]], dtype=np.int64).reshape(2, -1)
    return {"x": torch.tensor(x, dtype=torch.float32), "edge_index": torch.tensor(ei),
            "edge_weight": torch.tensor([10.0 * x[a, 0] + x[b, 0] for a, b in ei.T], dtype=torch.float32)}


def ids(X):
    x = X["x"] if isinstance(X, dict) else X
    x = x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)
    return x.reshape(len(x), -1)[:, 0].tolist() if x.size else []


def pre_of(train, test=None, *, y_art=None, y_art_test=None, extra=None):
    sa, sb = ArtifactStore(), ArtifactStore()
    if y_art is not None:
        sa.set("labels.y", y_art)
    if y_art_test is not None:
        sb.set("labels.y", y_art_test)
    for k, v in (extra or {}).items():
        sa.set(k, v[0])
        if v[1] is not None:
            sb.set(k, v[1])
    ds = LoadedDataset(train=train, test=test, meta={"dataset_fingerprint": "dsfp"})
    return PreprocessResult(dataset=ds, plan=ResolvedPlan(steps=()), preprocess_fingerprint="ppfp", train_artifacts=sa,
                            test_artifacts=sb if test is not None else None)


def sampling_of(idx, refs=None, masks=None, stats=None):
    base = {k: np.asarray(v, dtype=np.int64) for k, v in idx.items()}
    return SamplingResult(schema_version=1, created_at="", dataset_fingerprint="dsfp", split_fingerprint="spfp", plan={},
                          indices=base, refs={k: "train" for k in base} if refs is None else refs, masks=masks or {}, stats=stats or {})


class Scripted:
    """Answers with a label per row id; its score columns cover only the labels it ever answers."""

    def __init__(self, table, **kw):
        self.table, self.seen = table, []
        self.__dict__.update(kw)

    def predict(self, X):
        if hasattr(X, "X_l"):
            self.data = X
            X = X.X_l
        self.seen.append(X)
        return np.array([self.table[int(round(v))] for v in ids(X)], dtype=np.int64)

    def predict_proba(self, X):
        y = self.predict(X)
        cls = np.array(sorted(set(self.table.values())))
        return (y[:, None] == cls[None, :]).astype(float) * 0.5 + 0.25


def dealt(n, head):
    for rest in itertools.product(range(4), repeat=n - 1):
        yield (head, *rest)


def raises_code(R, f, code, what):
    try:
        f()
    except (BenchRuntimeError, ValueError) as e:
        R.check(getattr(e, "code", None) == code, f"{what}: refused with {type(e).__name__} {getattr(e, 'code', None)} instead of {code}", "code")
        return
    R.check(False, f"{what}: accepted, {code} expected", "accepted")


# ------------------------------------------------------------------ evaluation
def run_eval(form, box, p0, R):
    cls = (0, 1, 2) if form == "onehot" else (1, 2, 4)
    n = 4
    X = boxed([[i + 1, 0.5] for i in range(n)], box)
    Xt = boxed([[i + 101, 0.5] for i in range(n)], box)
    idx = [3, 0, 2]
    for ref_name in ("train", "test"):
        for t in itertools.product(cls, repeat=3):
            y = [cls[0]] * n
            for i, v in zip(idx, t):
                y[i] = v
            other = [cls[(cls.index(v) + 1) % 3] for v in y]
            mk = {"int": lambda a: np.array(a), "torch": lambda a: torch.tensor(a), "onehot": lambda a: np.eye(3)[a], "artifact": lambda a: np.array([f"raw{v}" for v in a])}[form]
            yy, yo = (y, other) if ref_name == "test" else (other, y)
            kw = {"y_art": np.array(yo), "y_art_test": np.array(yy)} if form == "artifact" else {}
            pre = pre_of(Split(X=X, y=mk(yo)), Split(X=Xt, y=mk(yy)), **kw)
            smp = sampling_of({"train": [1], "val": [], "test": idx, "train_labeled": [1], "train_unlabeled": []},
                              {"train": "train", "val": "train", "test": ref_name, "train_labeled": "train", "train_unlabeled": "train"})
            off = 101 if ref_name == "test" else 1
            for p in itertools.product(cls, repeat=2):
                p = (cls[p0], *p)
                m = Scripted({i + off: v for i, v in zip(idx, p)})
                got = o_eval.evaluate_inductive(method=m, pre=pre, sampling=smp, report_splits=["test"], metrics=METRICS, method_id="x", views=None)
                R.step()
                R.check(all(ids(s) == [i + off for i in idx] for s in m.seen) and m.seen, f"the method was asked about rows {[ids(s) for s in m.seen]}, not {idx} of {ref_name}", "rows")
                R.check(set(got) == {"test"} and same(got["test"], ref(list(t), list(p))), f"labels {t}, predicted {p} ({form}, {box}, {ref_name}): {got}, expected { {k: float(v) for k, v in ref(list(t), list(p)).items()} }", "metric")
                R.state((form, ref_name, t, p))
    R.outcome(form, box)


def run_evalsplits(R):
    X, Xt = boxed([[i + 1, 0] for i in range(4)], "np"), boxed([[i + 101, 0] for i in range(2)], "np")
    y, yt = np.array([0, 1, 1, 0]), np.array([1, 0])
    names = ("train", "val", "test")
    for tr in ("train", "test"):
        refs = {"train": "train", "val": "train", "test": tr, "train_labeled": "train", "train_unlabeled": "train"}
        for r in range(1, 4):
            for splits in itertools.permutations(names, r):
                for k in range(1, 4):
                    for mets in itertools.permutations(METRICS, k):
                        smp = sampling_of({"train": [2, 0], "val": [1], "test": [0, 1] if tr == "test" else [3], "train_labeled": [0], "train_unlabeled": [2]}, refs)
                        m = Scripted({1: 0, 2: 0, 3: 1, 4: 1, 101: 1, 102: 1})
                        got = o_eval.evaluate_inductive(method=m, pre=pre_of(Split(X=X, y=y), Split(X=Xt, y=yt)), sampling=smp, report_splits=list(splits), metrics=list(mets), method_id="x", views=None)
                        R.step()
                        want = {"train": ref([1, 0], [1, 0]), "val": ref([1], [0]), "test": ref([1, 0], [1, 1]) if tr == "test" else ref([0], [1])}
                        R.check(list(got) == list(splits) and all(same(got[s], {q: want[s][q] for q in mets}) for s in splits), f"splits {splits}, metrics {mets}: {got}", "splits")
                        R.state((tr, splits, mets))
    smp = sampling_of({"train": [0], "val": [], "test": [0], "train_labeled": [0], "train_unlabeled": []}, {"test": "test"})
    raises_code(R, lambda: o_eval.evaluate_inductive(method=Scripted({}), pre=pre_of(Split(X=X, y=y)), sampling=smp, report_splits=["test"], metrics=METRICS, method_id="x", views=None), "E_BENCH_EVAL_SPLIT_INVALID", "a test split the dataset does not have")
    g = sampling_of({}, masks={k: np.ones(4, bool) for k in ("train", "val", "test", "labeled", "unlabeled")})
    raises_code(R, lambda: o_eval.evaluate_inductive(method=Scripted({}), pre=pre_of(Split(X=X, y=y)), sampling=g, report_splits=["test"], metrics=METRICS, method_id="x", views=None), "E_BENCH_EVAL_SPLIT_INVALID", "a graph sampling")
    R.outcome("splits")


def run_evaltorch(R):
    smp = sampling_of({"train": [0], "val": [2, 1], "test": [], "train_labeled": [0], "train_unlabeled": []})
    y = np.array([0, 1, 0])
    for kind in ("f64", "f32", "u8", "torch", "graph"):
        base = {"f64": lambda: boxed([[51, 0], [102, 1], [153, 2]], "np"), "f32": lambda: boxed([[51, 0], [102, 1], [153, 2]], "np").astype(np.float32),
                "u8": lambda: boxed([[51, 0], [102, 1], [153, 2]], "u8"), "torch": lambda: boxed([[51, 0], [102, 1], [153, 2]], "torch"),
                "graph": lambda: boxed([[51, 0], [102, 1], [153, 2]], "graph")}[kind]()
        for dev in ({}, {"device": "cpu"}, {"device": SimpleNamespace(device="cpu")}, {"_backend": "torch", "_bundle": torch.nn.Linear(2, 2)}, {"_backend": "torch", "_clf": SimpleNamespace(model=torch.nn.Linear(2, 2))}):
            for strict in (False, True):
                m = Scripted({51: 0, 102: 1, 153: 1, 0: 9, 1: 9}, **dev)
                pre = pre_of(Split(X=base, y=y))
                istorch = kind in ("torch", "graph")
                run = lambda: o_eval.evaluate_inductive(method=m, pre=pre, sampling=smp, report_splits=["val"], metrics=["accuracy"], method_id="x", views=None, strict=strict)  # noqa: B023,E731
                R.step()
                R.state((kind, tuple(sorted(dev)), strict))
                if dev and strict and not istorch:
                    raises_code(R, run, "E_BENCH_PREPROCESS_TO_TORCH_REQUIRED", f"benchmark mode with {kind} rows for a torch method")
                    continue
                if dev and kind == "u8":
                    m.table = {1: 1, 0: 1}
                got = run()
                seen = m.seen[0]
                x = seen["x"] if isinstance(seen, dict) else seen
                R.check(isinstance(x, torch.Tensor) == (istorch or bool(dev)), f"{kind} rows for a method on {dev or 'numpy'} arrive as {type(x).__name__}", "backend")
                want = np.array([[153.0, 2], [102, 1]])
                if dev and kind == "u8":
                    want = want / 255.0
                R.check(np.allclose(np.asarray(x), want, atol=1e-6), f"{kind} rows arrive as {np.asarray(x).tolist()}", "values")
                if isinstance(x, torch.Tensor):
                    R.check(x.dtype == torch.float32, f"{kind} rows arrive as {x.dtype}", "dtype")
                if kind != "u8":
                    R.check(abs(got["val"]["accuracy"] - 0.5) < 1e-12, f"{got}", "metric")
    R.outcome("torch")


def run_evalviews(R):
    y = np.array([0, 1, 0, 1])
    X = boxed([[i + 1, 0] for i in range(4)], "np")
    Xt = boxed([[i + 101, 0] for i in range(3)], "np")
    pre = pre_of(Split(X=X, y=y), Split(X=Xt, y=np.array([1, 0, 1])))
    views = SimpleNamespace(views={v: LoadedDataset(train=Split(X=X + 1000 * (k + 1), y=y), test=Split(X=Xt + 1000 * (k + 1), y=None)) for k, v in enumerate(("a", "b"))})
    for tr in ("train", "test"):
        for r in range(0, 4):
            for idx in itertools.permutations(range(3), r):
                smp = sampling_of({"train": [3], "val": [], "test": idx, "train_labeled": [3], "train_unlabeled": []}, {"test": tr})
                off = 101 if tr == "test" else 1
                m = Scripted({i + off: i % 2 for i in range(3)})
                got = o_eval.evaluate_inductive(method=m, pre=pre, sampling=smp, report_splits=["test"], metrics=METRICS, method_id="co_training", views=views)
                R.step()
                R.state((tr, idx))
                R.check(ids(m.data.X_l) == [i + off for i in idx] and {k: ids(v["X"]) for k, v in m.data.views.items()} == {"a": [i + off + 1000 for i in idx], "b": [i + off + 2000 for i in idx]},
                        f"rows {idx} of {tr}: the views handed over are { {k: ids(v['X']) for k, v in m.data.views.items()} }", "views")
                t = [[0, 1, 0, 1], [1, 0, 1]][tr == "test"]
                R.check(same(got["test"], ref([t[i] for i in idx], [i % 2 for i in idx])), f"{got}", "metric")
    raises_code(R, lambda: o_eval.evaluate_inductive(method=m, pre=pre, sampling=smp, report_splits=["test"], metrics=METRICS, method_id="co_training", views=None), "E_BENCH_EVAL_CONTRACT", "co-training without views")
    R.outcome("views")


def run_real(mid, pair, R):
    rng = np.random.default_rng(7)
    y = np.array(([0, 1, 2, 3] * 4))
    X = rng.normal(size=(16, 3)) * 0.2 + np.eye(4, 3)[y] * 4 + y[:, None]
    lab = [i for i in range(8) if y[i] in pair]
    unl = [i for i in range(8, 12) if y[i] in pair]
    for box in ("np", "torch"):
        pre = pre_of(Split(X=boxed(X, box), y=y if box == "np" else torch.tensor(y)))
        smp = sampling_of({"train": sorted(lab + unl), "val": [], "test": list(range(12, 16)), "train_labeled": lab, "train_unlabeled": unl})
        for clf in ("knn", "logreg"):
            if box == "torch" and mid == "tri_training":
                continue
            cfg = MethodConfig(kind="inductive", method_id=mid, device=DeviceConfig("cpu", "float32"), params={"classifier_id": clf, "classifier_backend": "torch" if box == "torch" else ("numpy" if clf == "knn" else "sklearn")})
            m, _ = o_ind.run(pre, smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=cfg, seed=1)
            got = o_eval.evaluate_inductive(method=m, pre=pre, sampling=smp, report_splits=["test", "train"], metrics=METRICS, method_id=mid, views=None)
            for s, idx in (("test", list(range(12, 16))), ("train", sorted(lab + unl))):
                p = [int(v) for v in np.asarray(m.predict(boxed(X[idx], box)))]
                R.step()
                R.check(set(p) <= set(pair), f"{mid}/{clf} trained on labels {pair} predicts {p}", "labels")
                R.check(same(got[s], ref(y[idx].tolist(), p)), f"{mid}/{clf} ({box}) trained on labels {pair} predicts {p} on {s} (truth {y[idx].tolist()}): reported {got[s]}", "metric")
                R.state((mid, box, clf, pair, s, tuple(p)))
    R.outcome(mid)


def run_evalnodes(k, R):
    n = 4
    y = [0, 1, 2, 1]
    for p in itertools.product(range(3), repeat=3):
        p = (k % 3, *p)
        scores = np.eye(3)[list(p)] * 0.6 + 0.1
        for bits in range(16):
            mask = np.array([bits >> i & 1 for i in range(n)], bool)
            masks = {"train_mask": ~mask, "val_mask": mask, "test_mask": np.roll(mask, 1)}
            for src in ("meta", "y"):
                data = SimpleNamespace(y=np.array([-1, -1, -1, -1]) if src == "meta" else np.array(y), meta={"y_true": np.array(y)} if src == "meta" else None)
                m = SimpleNamespace(predict_proba=lambda d: torch.tensor(scores) if k == 3 else scores)  # noqa: B023
                got = o_eval.evaluate_transductive(method=m, data=data, report_splits=["val", "test", "train"], metrics=METRICS, masks=masks)
                R.step()
                for s in ("val", "test", "train"):
                    q = np.flatnonzero(masks[s + "_mask"])
                    R.check(same(got[s], ref([y[i] for i in q], [p[i] for i in q])), f"predicted {p}, truth {y}, {s} = {q.tolist()}: {got[s]}", "metric")
            R.state((p, bits))
    raises_code(R, lambda: o_eval.evaluate_transductive(method=m, data=data, report_splits=["val"], metrics=METRICS, masks={}), "E_BENCH_EVAL_CONTRACT", "a missing mask")
    raises_code(R, lambda: o_eval.evaluate_transductive(method=m, data=data, report_splits=["val"], metrics=METRICS, masks={"val_mask": np.ones(3, bool)}), "E_BENCH_EVAL_CONTRACT", "a mask of another length")
    R.outcome("nodes")


# ------------------------------------------------------------------ row selection
def run_rows(n, R):
    base = np.arange(n * 2).reshape(n, 2) * 1.0
    for r in range(0, 4):
        for idx in itertools.product(range(n), repeat=r):
            for form in (list(idx), np.array(idx, dtype=np.int64), np.array(idx, dtype=np.int32)):
                for X, rd in ((base.copy(), lambda o: o.tolist()), (torch.tensor(base), lambda o: o.tolist()), (base.tolist(), list), ([f"t{i}" for i in range(n)], list),
                              (np.array([f"t{i}" for i in range(n)], dtype=object), lambda o: o.tolist())):
                    full = rd(X)
                    got = select_rows(X, form, context="t")
                    R.step()
                    R.check(type(got) is type(X) and rd(got) == [full[i] for i in idx], f"{type(X).__name__} rows {idx}: {rd(got)}", "rows")
                    R.check(rd(X) == full, "the source was changed", "mutated")
            R.state(idx)
        for idx in itertools.product(range(-1, n), repeat=max(r, 1)):
            if min(idx) < 0:
                raises_code(R, lambda: select_rows(base, list(idx), context="t"), "E_BENCH_SLICE_NEGATIVE_INDEX", f"index {idx}")  # noqa: B023
    R.check(select_rows(None, [0], context="t") is None, "no rows from nothing", "none")
    R.outcome("rows")


def run_graphrows(loops, first, n, R):
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b][:8]
    bits_hi = 2 if n == 3 else 3
    for bits in range(1 << (len(pairs) - bits_hi)):
        sel = bits << bits_hi | first
        edges = [p for i, p in enumerate(pairs) if sel >> i & 1] + ([(i, i) for i in range(n)] if loops else [])
        ei = np.array(edges, dtype=np.int64).reshape(-1, 2).T
        w = np.array([100.0 + 10 * a + b for a, b in edges])
        for kind in ("np", "torch"):
            t = (lambda a: a.copy()) if kind == "np" else (lambda a: torch.tensor(a))
            g = {"edge_weight": t(w), "x": t(np.arange(n * 2.0).reshape(n, 2)), "edge_index": t(ei), "edge_attr": t(np.stack([w, -w], 1)), "num_nodes": n,
                 "table": t(np.arange(7.0)), "names": [f"n{i}" for i in range(n)], "tag": "g", "node_id": t(np.arange(n) * 5), "short": t(np.arange(n - 1))}
            for r in range(0, n + 1):
                for idx in itertools.permutations(range(n), r):
                    if n == 4 and list(idx) != sorted(idx) and list(idx) != sorted(idx, reverse=True):
                        continue
                    before = {k: (np.asarray(v).tolist() if not isinstance(v, (str, int)) else v) for k, v in g.items()}
                    got = select_rows(g, list(idx), context="t")
                    R.step()
                    pos = {v: i for i, v in enumerate(idx)}
                    want = sorted((pos[a], pos[b], x) for (a, b), x in zip(edges, w) if a in pos and b in pos)
                    e = np.asarray(got["edge_index"])
                    R.check(e.shape == (2, len(want)) and len(got["edge_weight"]) == len(want) and len(got["edge_attr"]) == len(want),
                            f"{idx} of {edges}: {e.shape[1]} edges with {len(got['edge_weight'])} weights", "edges")
                    have = sorted(zip(e[0].tolist(), e[1].tolist(), np.asarray(got["edge_weight"]).tolist()))
                    R.check(have == want, f"nodes {idx} of the graph {edges}: edges with weights {have}, expected {want}", "edges")
                    R.check(np.asarray(got["edge_attr"])[:, 0].tolist() == np.asarray(got["edge_weight"]).tolist() if len(want) else True, "attributes belong to other edges", "attr")
                    R.check(np.asarray(got["x"])[:, 0].tolist() == [2.0 * i for i in idx] and np.asarray(got["node_id"]).tolist() == [5 * i for i in idx], f"{idx}: rows {np.asarray(got['x']).tolist()}", "rows")
                    R.check(list(got["names"]) == [f"n{i}" for i in idx] and got["tag"] == "g", f"{idx}: {got['names']}", "names")
                    R.check(got["num_nodes"] == len(idx), f"{idx}: a graph of {len(idx)} nodes says it has {got['num_nodes']}", "count")
                    R.check(len(got["table"]) == 7 and len(got["short"]) == n - 1, "a table without a row per node was cut", "table")
                    R.check({k: (np.asarray(v).tolist() if not isinstance(v, (str, int)) else v) for k, v in g.items()} == before, "the source graph was changed", "mutated")
            R.state((tuple(edges), kind))
    R.outcome("graph", loops)


# ------------------------------------------------------------------ inductive runs
def run_ind(box, n, head, R):
    X = boxed([[i + 1, 0.5] for i in range(n)], box)
    y = np.array([i % 3 for i in range(n)])
    cfg = MethodConfig(kind="inductive", method_id="mc_probe", device=DeviceConfig("cpu", "float32"), params={})
    for deal in dealt(n, head[0]):
        parts = {k: [i for i in range(n) if deal[i] == c] for c, k in enumerate(("train_labeled", "train_unlabeled", "val", "test"))}
        for rev in (False, True):
            idx = {k: v[::-1] if rev else v for k, v in parts.items()}
            idx["train"] = sorted(idx["train_labeled"] + idx["train_unlabeled"])
            L, U = idx["train_labeled"], idx["train_unlabeled"]
            smp = sampling_of(idx)
            views = SimpleNamespace(views={"a": LoadedDataset(train=Split(X=boxed([[i + 51, 0] for i in range(n)], "np" if box == "u8" else box), y=y))}) if rev else None
            Xw = boxed([[i + 201, 0] for i in U], "np") if U else None
            stub.LOG.clear()
            stub.RULE["f"] = lambda r: 0
            m, res = o_ind.run(pre_of(Split(X=X, y=y)), smp, views=views, X_u_w=Xw, X_u_s=None, X_u_s_1=Xw if rev else None, cfg=cfg, seed=11)
            R.step()
            d = stub.LOG[0]["data"]
            R.check(len(stub.LOG) == 1 and stub.LOG[0]["seed"] == 11, "the method is fitted once with the given seed", "fit")
            R.check(ids(d.X_l) == [i + 1 for i in L] and np.asarray(d.y_l).tolist() == [i % 3 for i in L], f"labelled rows {L}: the method got rows {ids(d.X_l)} with labels {np.asarray(d.y_l).tolist()}", "labelled")
            R.check(ids(d.X_u) == [i + 1 for i in U], f"unlabelled rows {U}: the method got {ids(d.X_u)}", "unlabelled")
            R.check(d.X_u_w is Xw and d.X_u_s is None, "augmented rows pass through unchanged", "augmented")
            R.check(np.asarray(d.meta["idx_u"]).tolist() == U and d.meta["ulb_size"] == n, f"meta {d.meta}", "meta")
            R.check((d.meta["dataset_fingerprint"], d.meta["split_fingerprint"], d.meta["preprocess_fingerprint"]) == ("dsfp", "spfp", "ppfp"), "fingerprints", "meta")
            if rev:
                R.check(set(d.views) == {"a"} and ids(d.views["a"]["X_l"]) == [i + 51 for i in L] and ids(d.views["a"]["X_u"]) == [i + 51 for i in U], "views are cut elsewhere than the rows", "views")
            if box == "graph" and L:
                e = np.asarray(d.X_l["edge_index"])
                xs = ids(d.X_l)
                R.check(np.asarray(d.X_l["edge_weight"]).tolist() == [10 * xs[a] + xs[b] for a, b in e.T], "edge weights of the labelled graph", "graph")
            R.state((box, deal, rev))
    R.outcome(box)


def run_indx(kind, R):
    n = 4
    X = boxed([[i + 1, 0.5] for i in range(n)], "torch")
    Xn = boxed([[i + 1, 0.5] for i in range(n)], "np")
    if kind == "model":
        for mid, fields in (("mc_bundle", ("model_bundle",)), ("mc_two", ("model_bundle_1", "model_bundle_2"))):
            for lab in itertools.product(range(4), repeat=2):
                y = np.array([lab[0], lab[1], 0, 0])
                smp = sampling_of({"train": [0, 1, 2], "val": [], "test": [3], "train_labeled": [0, 1], "train_unlabeled": [2]})
                for box in (X, Xn, boxed([[i + 1, 0.5] for i in range(n)], "graph")):
                    for ema in (None, True, False):
                        cfg = MethodConfig(kind="inductive", method_id=mid, device=DeviceConfig("cpu", "float32"), params={"alpha": 0.25},
                                           model=ModelConfig(classifier_id="mlp", classifier_backend="torch", classifier_params={"hidden_sizes": [3]}, ema=ema))
                        outs = []
                        for _ in range(2):
                            stub.LOG.clear()
                            o_ind.run(pre_of(Split(X=box, y=y)), smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=cfg, seed=5, requires_torch=True)
                            outs.append(stub.LOG[0])
                        R.step()
                        sp = outs[0]["spec"]
                        R.check(sp.alpha == 0.25 and sp.beta == 3, "the method's parameters", "params")
                        xs = torch.tensor(Xn, dtype=torch.float32)
                        for f in fields:
                            b = getattr(sp, f)
                            out = b.model(xs)
                            out = out["logits"] if isinstance(out, dict) else out
                            R.check(out.shape[1] > max(lab), f"labels {lab}: a model with {out.shape[1]} outputs", "outputs")
                            R.check((b.ema_model is not None) == bool(ema), f"ema={ema}: {b.ema_model is not None}", "ema")
                            b2 = getattr(outs[1]["spec"], f)
                            R.check(all(torch.equal(p, q) for p, q in zip(b.model.parameters(), b2.model.parameters())), "same seed, different initial weights", "seed")
                            params = {id(p) for p in b.model.parameters()}
                            R.check({id(p) for g in b.optimizer.param_groups for p in g["params"]} == params, "the optimizer steps other parameters than the model's", "optimizer")
                        if len(fields) == 2:
                            a, b = (getattr(sp, f).model for f in fields)
                            R.check(any(not torch.equal(p, q) for p, q in zip(a.parameters(), b.parameters())), "both models start from the same weights", "seed")
                        R.state((mid, lab, type(box).__name__, ema))
    elif kind == "params":
        y = np.array([0, 1, 0, 1])
        smp = sampling_of({"train": [0, 1, 2], "val": [], "test": [3], "train_labeled": [0, 1], "train_unlabeled": [2]})
        for a, b, s in itertools.product((0.0, 0.9), (1, 7), (0, 1, 2**31)):
            for given in ({}, {"alpha": a}, {"beta": b}, {"alpha": a, "beta": b}):
                stub.LOG.clear()
                o_ind.run(pre_of(Split(X=Xn, y=y)), smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float64"), dict(given)), seed=s)
                e = stub.LOG[0]
                R.step()
                R.check((e["spec"].alpha, e["spec"].beta) == (given.get("alpha", 0.5), given.get("beta", 3)) and e["seed"] == s and e["device"].dtype == "float64", f"{given}: {e['spec']}", "params")
                R.state((a, b, s, tuple(given)))
        try:
            o_ind.run(pre_of(Split(X=Xn, y=y)), smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {"nope": 1}), seed=0)
            R.check(False, "an unknown parameter was accepted", "unknown")
        except (TypeError, ValueError, RuntimeError):
            pass
    elif kind == "strict":
        y = np.array([0, 1, 0, 1])
        smp = sampling_of({"train": [0, 1, 2], "val": [], "test": [3], "train_labeled": [0, 1], "train_unlabeled": [2]})
        fl, i64, one = X, X.long(), X[:, 0]
        ok = {"X": fl, "w": fl[:1], "s": fl[:1], "s1": fl[:1]}
        for key in ("X", "w", "s", "s1"):
            for bad, code in (("np", "E_BENCH_PREPROCESS_TO_TORCH_REQUIRED"), ("int", "E_BENCH_DTYPE_CONTRACT"), ("1d", "E_BENCH_SHAPE_CONTRACT"), ("ok", None), ("npok", None)):
                a = dict(ok)
                src = {"np": Xn, "int": i64, "1d": one, "ok": fl, "npok": Xn}[bad]
                if bad == "npok":
                    a = {"X": Xn, "w": Xn[:1], "s": Xn[:1], "s1": Xn[:1]}
                a[key] = src if key == "X" else src[:1]
                req = bad != "npok"
                f = lambda: o_ind.run(pre_of(Split(X=a["X"], y=y)), smp, views=None, X_u_w=a["w"], X_u_s=a["s"], X_u_s_1=a["s1"], cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {}), seed=0, strict=True, requires_torch=req)  # noqa: B023,E731
                R.step()
                R.state((key, bad))
                if code is None:
                    stub.LOG.clear()
                    f()
                    R.check(len(stub.LOG) == 1, "not fitted", "fit")
                else:
                    raises_code(R, f, code, f"benchmark mode with {key} as {bad}")
        raises_code(R, lambda: o_ind.run(pre_of(Split(X=X, y=y)), smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {"backend": "auto"}), seed=0, strict=True), "E_BENCH_AUTO_FORBIDDEN", "backend auto in benchmark mode")
        g = sampling_of({}, masks={k: np.ones(4, bool) for k in ("train", "val", "test", "labeled", "unlabeled")})
        raises_code(R, lambda: o_ind.run(pre_of(Split(X=X, y=y)), g, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {}), seed=0), "E_BENCH_GRAPH_SAMPLING_INVALID", "a graph sampling")
    elif kind == "twolabels":  # two strong views, comatch or not, with or without views of its own
        y = np.array([0, 1, 0, 1])
        smp = sampling_of({"train": [0, 1, 2], "val": [], "test": [3], "train_labeled": [0, 1], "train_unlabeled": [2]})
        for nv in (0, 1):
            views = SimpleNamespace(views={"a": LoadedDataset(train=Split(X=X + 50, y=y))}) if nv else None
            for s1 in (None, X[2:3] + 7):
                stub.LOG.clear()
                o_ind.run(pre_of(Split(X=X, y=y)), smp, views=views, X_u_w=X[2:3] + 1, X_u_s=X[2:3] + 2, X_u_s_1=s1, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {}), seed=0)
                d = stub.LOG[0]["data"]
                R.step()
                R.state((nv, s1 is None))
                R.check(ids(d.X_u_w) == [4.0] and ids(d.X_u_s) == [5.0], "weak and strong rows", "augmented")
                if nv:
                    R.check(set(d.views) == {"a"}, f"views {d.views}", "views")
                elif s1 is not None:
                    R.check(ids(d.views["X_u_s_1"]) == [10.0], "second strong view", "views")
                else:
                    R.check(d.views is None, "no views expected", "views")
    else:  # where labels come from
        smp = sampling_of({"train": [0, 1, 2], "val": [], "test": [3], "train_labeled": [2, 0], "train_unlabeled": [1]})
        for raw, art, want in (([5, 6, 7, 8], [0, 1, 2, 3], [2, 0]), ([5, 6, 7, 8], None, [7, 5]), (["a", "b", "c", "d"], [0, 1, 2, 3], [2, 0]), (np.array([1, None, 0, 2], dtype=object), None, [0, 1])):
            for box in (X, Xn):
                for form in ("np", "torch"):
                    if form == "torch" and art is None and not (isinstance(raw, list) and isinstance(raw[0], int)):
                        continue
                    conv = (lambda a: torch.tensor(a)) if form == "torch" else np.asarray
                    stub.LOG.clear()
                    o_ind.run(pre_of(Split(X=box, y=np.asarray(raw) if art is not None else conv(raw)), y_art=None if art is None else conv(art)), smp, views=None, X_u_w=None, X_u_s=None, X_u_s_1=None, cfg=MethodConfig("inductive", "mc_probe", DeviceConfig("cpu", "float32"), {}), seed=0)
                    got = stub.LOG[0]["data"].y_l
                    R.step()
                    R.state((str(raw), art is None, type(box).__name__, form))
                    R.check(np.asarray(got).tolist() == want, f"raw labels {raw}, encoded {art}: the method got {got}", "labels")
                    if box is X:
                        R.check(isinstance(got, torch.Tensor) and got.dtype == torch.int64, "labels of torch rows are int64 tensors", "dtype")
    R.outcome(kind)


# ------------------------------------------------------------------ transductive runs
def run_nodes(n, n_test, head, R):
    """Rows dealt to labelled / unlabelled / val / test; with an official test split the fourth share stays in train, unlabelled."""
    y = np.array([0, 1, 2, 0, 1, 2][:n])
    yt = np.array([2, 1][:n_test])
    X = np.array([[i + 1.0, 0.0] for i in range(n)])
    Xt = np.array([[i + 101.0, 0.0] for i in range(n_test)]).reshape(-1, 2)
    N = n + n_test
    allid = [i + 1 for i in range(n)] + [i + 101 for i in range(n_test)]
    ally = y.tolist() + yt.tolist()
    ring = np.array([[i for i in range(N)], [(i + 1) % N for i in range(N)]])
    from modssc.graph.artifacts import GraphArtifact

    for deal in dealt(n, head):
        L = [i for i in range(n) if deal[i] == 0]
        U = [i for i in range(n) if deal[i] == 1 or (n_test and deal[i] == 3)]
        V = [i for i in range(n) if deal[i] == 2]
        T = list(range(n_test)) if n_test else [i for i in range(n) if deal[i] == 3]
        refs = {"train": "train", "val": "train", "test": "test" if n_test else "train", "train_labeled": "train", "train_unlabeled": "train"}
        smp = sampling_of({"train": sorted(L + U), "val": V, "test": T, "train_labeled": L, "train_unlabeled": U}, refs)
        pre = pre_of(Split(X=X, y=y), Split(X=Xt, y=yt) if n_test else None)
        masks = _mask_map_from_sampling(smp, n_train=n, n_test=n_test or None)
        Tg = [i + n for i in T] if n_test else T
        want = {"train_mask": sorted(L + U), "val_mask": V, "test_mask": Tg, "labeled_mask": L, "unlabeled_mask": U}
        R.check({k: np.flatnonzero(v).tolist() for k, v in masks.items()} == want and all(v.shape == (N,) and v.dtype == bool for v in masks.values()),
                f"dealt {deal}, test split of {n_test}: masks { {k: np.flatnonzero(v).tolist() for k, v in masks.items()} }, expected {want}", "masks")
        g = GraphArtifact(n_nodes=N, edge_index=ring, edge_weight=None)
        stub.LOG.clear()
        stub.RULE["f"] = lambda r: int(r[0]) % 3
        kw = dict(dataset=pre.dataset, graph=g, masks=masks, cfg=MethodConfig("transductive", "mc_node", DeviceConfig("auto" if head else "cpu", "float32"), {"alpha": 0.125}), seed=9, use_test_split=bool(n_test))
        m, data, res = o_tr.run(**kw, expected_labeled_count=len(L))
        R.step()
        e = stub.LOG[0]
        d = e["data"]
        R.check(len(stub.LOG) == 1 and e["seed"] == 9 and e["spec"].alpha == 0.125 and e["spec"].beta == 3 and e["device"] == "cpu", f"fit called with {e['seed']}, {e['spec']}, {e['device']}", "fit")
        R.check(ids(d.X) == allid and d.graph is g, f"features of nodes {ids(d.X)}", "features")
        R.check(np.flatnonzero(d.masks["train_mask"]).tolist() == L and np.flatnonzero(d.masks["labeled_mask"]).tolist() == L, "training mask is not the labelled nodes", "trainmask")
        R.check({k: np.flatnonzero(d.masks[k]).tolist() for k in ("val_mask", "test_mask", "unlabeled_mask")} == {"val_mask": V, "test_mask": Tg, "unlabeled_mask": U}, "masks changed on the way", "masks")
        R.check(all(int(d.y[i]) == ally[i] for i in L) and all(int(d.y[i]) == -1 for i in U), f"labels handed over {d.y.tolist()} with {L} labelled and {U} unlabelled", "hidden")
        R.check(np.asarray(d.meta["y_true"]).tolist() == ally, "the true labels kept for evaluation", "truth")
        R.check(np.asarray(pre.dataset.train.y).tolist() == y.tolist(), "the dataset's own labels were overwritten", "mutated")
        got = o_eval.evaluate_transductive(method=m, data=data, report_splits=["train", "val", "test"], metrics=METRICS, masks=masks)
        for s in ("train", "val", "test"):
            q = want[s + "_mask"]
            R.check(same(got[s], ref([ally[i] for i in q], [allid[i] % 3 for i in q])), f"dealt {deal}: {s} scored {got[s]}", "metric")
        raises_code(R, lambda: o_tr.run(**kw, expected_labeled_count=len(L) + 1), "E_BENCH_MASK_CONTRACT", "a labelled mask that lost a node")  # noqa: B023
        R.state((deal, n_test))
    R.outcome("nodes", n_test)


def run_nodesx(R):
    """Dataset-provided edges in their accepted layouts; strict-mode refusals; graph-mask samplings."""
    for n in (2, 3, 4):
        for bits in range(1 << min(n * n, 9)):
            edges = [(a, b) for k, (a, b) in enumerate(itertools.product(range(n), repeat=2)) if k < 9 and bits >> k & 1]
            ei = np.array(edges, dtype=np.int64).reshape(-1, 2).T
            w = np.arange(len(edges)) + 0.5
            forms = [ei, {"edge_index": ei}, {"edge_index": ei, "edge_weight": w}]
            if ei.shape[1] != 2:
                forms += [ei.T, {"edge_index": ei.T, "edge_weight": w}]
            for f in forms:
                if ei.shape[1] == 0 and not isinstance(f, dict) and f.shape != (2, 0):
                    continue
                if isinstance(f, dict) and f["edge_index"].shape == (0, 2):
                    continue
                g = o_tr.graph_from_dataset(SimpleNamespace(train=Split(X=None, y=None, edges=f)), n)
                R.step()
                R.check(g.n_nodes == n and g.edge_index.tolist() == ei.tolist(), f"edges {edges}: {g.edge_index.tolist()}", "edges")
                hasw = isinstance(f, dict) and "edge_weight" in f
                R.check((g.edge_weight is not None) == hasw and (not hasw or g.edge_weight.tolist() == w.tolist()), "weights", "weights")
            R.state((n, bits))
    for assign in itertools.product(range(4), repeat=4):
        mk = {k: np.array([a in c for a in assign]) for k, c in (("train", (0, 1)), ("labeled", (0,)), ("unlabeled", (1,)), ("val", (2,)), ("test", (3,)))}
        got = _mask_map_from_sampling(sampling_of({}, masks=mk), n_train=4, n_test=None)
        R.check(all(got[k + "_mask"].tolist() == mk[k].tolist() for k in mk), "graph masks by name", "masks")
        R.step()
    from modssc.graph.artifacts import GraphArtifact

    pre = pre_of(Split(X=np.eye(3), y=np.array([0, 1, 0])))
    masks = _mask_map_from_sampling(sampling_of({"train": [0, 1], "val": [2], "test": [], "train_labeled": [0], "train_unlabeled": [1]}), n_train=3, n_test=None)
    g = GraphArtifact(n_nodes=3, edge_index=np.array([[0, 1], [1, 2]]))
    for params, dev in (({"backend": "auto"}, "cpu"), ({}, "auto"), ({"backend": "AUTO"}, "cpu")):
        raises_code(R, lambda: o_tr.run(dataset=pre.dataset, graph=g, masks=masks, cfg=MethodConfig("transductive", "mc_node", DeviceConfig(dev, "float32"), params), seed=0, use_test_split=False, strict=True), "E_BENCH_AUTO_FORBIDDEN", f"{params} {dev}")  # noqa: B023
    R.outcome("edges")


def run_convert(n, head, R):
    for deal in dealt(n, head):
        mk = {k: np.array([a in c for a in deal]) for k, c in (("train", (0, 1)), ("labeled", (0,)), ("unlabeled", (1,)), ("val", (2,)), ("test", (3,)))}
        smp = sampling_of({}, masks=mk, stats={"a": 1})
        out = _graph_sampling_to_inductive(smp)
        R.step()
        names = {"train": "train", "val": "val", "test": "test", "train_labeled": "labeled", "train_unlabeled": "unlabeled"}
        R.check(not out.is_graph() and all(out.indices[k].tolist() == np.flatnonzero(mk[v]).tolist() for k, v in names.items()) and set(out.refs.values()) == {"train"},
                f"masks {deal}: indices { {k: v.tolist() for k, v in out.indices.items()} }", "convert")
        R.check((out.split_fingerprint, out.dataset_fingerprint, out.stats) == ("spfp", "dsfp", {"a": 1}), "identity of the split", "meta")
        out.validate(n_train=n, n_test=None, n_nodes=None)
        for fit, key in (("train", "train"), ("train_labeled", "labeled"), ("train_unlabeled", "unlabeled"), ("val", "val")):
            for s in (smp, out):
                idx = o_prep.resolve_fit_indices(dataset=None, sampling=s, fit_on=fit)
                R.check(np.asarray(idx).tolist() == np.flatnonzero(mk[key]).tolist(), f"fit_on={fit}: rows {np.asarray(idx).tolist()}, dealt {deal}", "fit_on")
        for s in (smp, out):
            R.check(o_prep.resolve_fit_indices(dataset=None, sampling=s, fit_on=None) is None, "no fit rows expected", "fit_on")
            for bad in ("test", "all", ""):
                try:
                    o_prep.resolve_fit_indices(dataset=None, sampling=s, fit_on=bad)
                    R.check(False, f"fit_on={bad!r} accepted", "fit_on")
                except ValueError:
                    pass
        R.state(deal)
    R.outcome("convert")


# ------------------------------------------------------------------ augmentation and graph stages
AUG = {
    "tabular": [("tabular.gaussian_noise", {"std": 0.5}), ("tabular.feature_dropout", {"p": 0.5}), ("tabular.swap_noise", {"p": 0.5})],
    "vision": [("vision.random_horizontal_flip", {"p": 0.5}), ("vision.random_crop_pad", {"pad": 1}), ("vision.cutout", {"frac": 0.4}), ("vision.gaussian_noise", {"std": 0.5})],
    "audio": [("audio.add_noise", {"std": 0.3}), ("audio.time_shift", {"max_frac": 0.5})],
}


def aug_rows(mod, dt, torchy):
    n = 3
    if mod == "tabular":
        x = np.arange(n * 4).reshape(n, 4) * 3 + 1
    elif mod == "vision":
        x = np.arange(n * 16).reshape(n, 1, 4, 4) % 251 + 1
    else:
        x = np.arange(n * 8).reshape(n, 8) + 1
    x = x.astype(dt)
    return torch.tensor(x) if torchy else x


def run_aug(mod, op, R):
    from modssc.data_augmentation.registry import available_ops

    if op not in available_ops():
        R.check(False, f"{op} is not registered", "op")
    params = dict(dict(AUG[mod])[op])
    weak, strong = {"steps": [{"id": op, "params": params}]}, {"steps": [{"id": op, "params": params}, {"id": op, "params": params}]}
    for dt in (np.float32, np.float64, np.uint8, np.int64):
        for torchy in (False, True):
            X = aug_rows(mod, dt, torchy)
            for sid in (None, *itertools.permutations((0, 4, 9))):
                for seed in (0, 3):
                    for sv in (1, 2):
                        strategy = build_strategy(weak=AugmentationPlan(steps=(AugStep(op, params),), modality=mod), strong=AugmentationPlan(steps=(AugStep(op, params), AugStep(op, params)), modality=mod))
                        want, err = [], None
                        try:
                            for i in range(3):
                                ctx = AugmentationContext(seed=seed, sample_id=i if sid is None else sid[i], epoch=0, modality=mod)
                                w, s = strategy.apply(X[i], ctx=ctx)
                                c1 = AugmentationContext(seed=seed + 1, sample_id=ctx.sample_id, epoch=0, modality=mod)
                                want.append((w, s, strategy.strong.apply(X[i], ctx=c1)))
                        except Exception as e:
                            err = e
                        try:
                            got = o_aug.run(X, weak_plan=weak, strong_plan=strong, seed=seed, mode="fixed", modality=mod, sample_ids=None if sid is None else np.array(sid), strong_views=sv)
                        except Exception:
                            R.check(err is not None, f"{op} on {dt.__name__} rows fails in the stage but not on each row", "raises")
                            continue
                        R.step()
                        R.check((got[2] is None) == (sv == 1), "number of strong views", "views")
                        for v in range(sv + 1):
                            R.check(len(got[v]) == 3 and isinstance(got[v], torch.Tensor) == torchy, "one row per sample", "rows")
                            for i in range(3):
                                a, b = np.asarray(got[v][i]), np.asarray(want[i][v])
                                R.check(a.shape == b.shape and np.array_equal(a, b), f"{op} ({dt.__name__}{', torch' if torchy else ''}), view {v}, row {i} with sample ids {sid}: the stage returns {a.ravel()[:6].tolist()}, the op {b.ravel()[:6].tolist()}", "row")
                    R.state((op, dt.__name__, torchy, sid, seed))
    R.outcome(mod, op)


def run_augx(R):
    from modssc.data_augmentation.registry import available_ops, op_info

    X = aug_rows("tabular", np.float64, False)
    w = {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.5}}]}
    for n in range(0, 4):
        for sv in (1, 2):
            a = o_aug.run(X[:n], weak_plan=w, strong_plan=w, seed=1, mode="fixed", modality="tabular", sample_ids=np.arange(n), strong_views=sv)
            R.step()
            R.check(all(len(v) == n for v in a[: sv + 1]) and (a[2] is None) == (sv == 1), f"{n} rows: {[None if v is None else len(v) for v in a]}", "rows")
            b = o_aug.run(X, weak_plan=w, strong_plan=w, seed=1, mode="fixed", modality="tabular", sample_ids=np.arange(3), strong_views=sv)
            R.check(all(np.array_equal(p, q[:n]) for p, q in zip(a[: sv + 1], b[: sv + 1])), "a row's augmentation depends on how many rows there are", "batch")
            R.state((n, sv))
            if n and sv == 2:
                R.check(not np.array_equal(a[1], a[2]), "both strong views are the same", "views")
    R.check(o_aug.run(None, weak_plan=w, strong_plan=w, seed=1, mode="fixed", modality=None) == (None, None, None), "no rows, no views", "none")
    for kw in ({"mode": "epoch"}, {"strong_views": 3}, {"strong_views": 0}, {"weak_plan": {"steps": [{"id": "tabular.gaussian_noise"}], "x": 1}}, {"weak_plan": {"steps": [{"params": {}}]}},
               {"strong_plan": {"steps": [{"id": "a", "op_id": "b"}]}}, {"weak_plan": {"steps": "x"}}, {"weak_plan": {"steps": [{"id": "tabular.gaussian_noise", "param": {}}]}}):
        base = dict(weak_plan=w, strong_plan=w, seed=1, mode="fixed", modality="tabular")
        base.update(kw)
        try:
            o_aug.run(X, **base)
            R.check(False, f"{kw} accepted", "accepted")
        except ValueError:
            R.step()
    known = {o for ops in AUG.values() for o, _ in ops}
    R.check(known <= set(available_ops()), f"{known - set(available_ops())}", "op")
    _ = op_info
    R.outcome("augx")


def run_graph(order, art, R):
    n, nt = 4, 3
    rng = np.random.default_rng(3)
    A, B = rng.normal(size=(n, 2)), rng.normal(size=(nt, 2))
    F, G = rng.normal(size=(n, 2)), rng.normal(size=(nt, 2))
    pre = pre_of(Split(X=A, y=np.zeros(n)), Split(X=B, y=np.zeros(nt)), extra={"features.Z": (F, G)} if art else None)
    TA, TB = (F, G) if art else (A, B)
    for k in (1, 2):
        for metric in ("euclidean", "cosine"):
            for fld in ("features.Z", "features.X"):
                spec = {"scheme": "knn", "k": k, "metric": metric, "backend": "numpy", "feature_field": fld}
                P, Q = (TA, TB) if fld == "features.Z" else (A, B)
                direct = {False: build_graph(P, spec=GraphBuilderSpec.from_dict(spec), seed=0, cache=False), True: build_graph(np.concatenate([P, Q]), spec=GraphBuilderSpec.from_dict(spec), seed=0, cache=False)}
                root = R.fresh_dir("g")
                for inc in (order == 0, order == 1, order == 0, order == 1):
                    for cache in (True, False):
                        g = o_graph.build(pre, spec_dict=dict(spec), seed=0, dataset_fingerprint="dsfp", cache=cache, cache_dir=str(root), include_test=inc)
                        R.step()
                        R.check(g.n_nodes == (n + nt if inc else n), f"include_test={inc}: {g.n_nodes} nodes", "nodes")
                        R.check(np.array_equal(g.edge_index, direct[inc].edge_index) and np.allclose(g.edge_weight, direct[inc].edge_weight), f"include_test={inc}, cache={cache}, field {fld}: another graph than the one built directly", "graph")
                R.state((k, metric, fld))
    only = pre_of(Split(X=A, y=np.zeros(n)))
    g = o_graph.build(only, spec_dict={"scheme": "knn", "k": 1, "metric": "euclidean", "backend": "numpy"}, seed=0, dataset_fingerprint=None, cache=False, cache_dir=None, include_test=True)
    R.check(g.n_nodes == n, "without a test split the graph covers train", "nodes")
    R.outcome("graph")


def run_case(case, R):
    k = case[0]
    {"eval": lambda: run_eval(*case[1:], R), "evalsplits": lambda: run_evalsplits(R), "evaltorch": lambda: run_evaltorch(R), "evalviews": lambda: run_evalviews(R),
     "real": lambda: run_real(case[1], tuple(case[2]), R), "evalnodes": lambda: run_evalnodes(case[1], R), "rows": lambda: run_rows(case[1], R),
     "graphrows": lambda: run_graphrows(*case[1:], R), "ind": lambda: run_ind(*case[1:], R), "indx": lambda: run_indx(case[1], R),
     "nodes": lambda: run_nodes(*case[1:], R), "nodesx": lambda: run_nodesx(R), "convert": lambda: run_convert(*case[1:], R),
     "aug": lambda: run_aug(*case[1:], R), "augx": lambda: run_augx(R), "graph": lambda: run_graph(*case[1:], R)}[k]()
    _ = math
