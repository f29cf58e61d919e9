"""Graph and view caches are transparent over every history of requests sharing one cache directory."""
import dataclasses
import itertools
import warnings
from pathlib import Path

import numpy as np
from bench.orchestrators import graph as bench_graph
from modssc.data_loader.types import LoadedDataset, Split
from modssc.graph import GraphArtifact, GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec, build_graph, graph_to_views
from modssc.graph.artifacts import DatasetViews, NodeDataset
from modssc.graph.cache import GraphCache, ViewsCache
from modssc.preprocess import preprocess

from mc import prep
from mc.prep import S

PID = "C23"
BOUNDS = {
    "quick": "every ordered pair of 46 graph requests, 39 view requests and 36 bench requests (and every triple of 9) on one cache directory; every ordered pair of 13 graphs x 4 shard sizes saved into one entry",
    "thorough": "as quick with every triple of 42 graph requests",
}
ASSUMPTIONS = ["a dataset fingerprint given by the caller identifies the features", "arrays above 2 MB are told apart by their first and last 2 MB, as documented"]
CASE_TIMEOUT = 800

X1 = np.asarray([[1.0, 0.0], [0.9, 0.55], [0.2, 1.1], [-0.8, 0.35], [-1.5, -1.9], [0.4, -2.7]])
X2 = X1[::-1].copy()
X3 = X1[:5].copy()
X4 = X1.copy()
X4[3, 1] = 0.36
XS = [X1, X2, X3, X4, X1.astype(np.float32), X1.reshape(4, 3), X1[:, ::-1]]
SQ = np.asarray([[1.0, 0.0, 0.3], [0.9, 0.55, -1.0], [0.2, 1.1, 2.0]])
XS += [SQ, SQ.T, X1[::2], np.asfortranarray(X1[:4])]


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


BASE = dict(scheme="knn", metric="euclidean", k=2, symmetrize="or", weights=GraphWeightsSpec("heat", 0.5), normalize="none", self_loops=False, backend="numpy")
VAR = [dict(), dict(k=1), dict(metric="cosine"), dict(symmetrize="mutual"), dict(symmetrize="none"), dict(weights=GraphWeightsSpec("binary")), dict(weights=GraphWeightsSpec("heat", 0.7)),
       dict(metric="cosine", weights=GraphWeightsSpec("cosine")), dict(normalize="rw"), dict(normalize="sym"), dict(self_loops=True), dict(backend="sklearn"), dict(chunk_size=2),
       dict(scheme="epsilon", radius=1.5, k=None), dict(scheme="epsilon", radius=2.5, k=None), dict(scheme="epsilon", metric="cosine", radius=0.5, k=None), dict(scheme="anchor", n_anchors=2, anchors_k=1),
       dict(scheme="anchor", n_anchors=3, anchors_k=1), dict(scheme="anchor", n_anchors=3, anchors_k=2), dict(scheme="anchor", n_anchors=3, anchors_k=2, candidate_limit=1),
       dict(scheme="anchor", n_anchors=3, anchors_k=1, anchors_method="kmeans"), dict(backend="faiss"), dict(backend="faiss", faiss_exact=True), dict(scheme="epsilon", radius=0.01, k=None)]


def gspec(i):
    return GraphBuilderSpec(**{**BASE, **VAR[i]})


# (X, spec, seed, shard size, fingerprint given, preprocess fingerprint, resume)
GREQ = ([(0, i, 0, None, False, None, True) for i in range(len(VAR))] + [(x, 0, 0, None, False, None, True) for x in range(1, len(XS))] +
        [(0, 16, s, None, False, None, True) for s in (1, 2)] + [(0, 0, 0, n, False, None, True) for n in (1, 3, 100)] + [(0, 12, 0, 2, False, None, False), (3, 16, 1, 2, False, None, True)] +
        [(x, 0, 0, None, True, p, True) for x in (0, 1) for p in (None, "p", "q")][:5])
SMALL = [0, 1, 12, 16, len(VAR), len(VAR) + 2, len(VAR) + 12, len(VAR) + 13, len(GREQ) - 1]


def greq(i, root):
    x, sp, seed, shard, fp, pfp, resume = GREQ[i]
    X = XS[x] if pfp is None else XS[x] + (1.0 if pfp == "p" else 2.0) * np.arange(len(XS[x]))[:, None]
    return build_graph(X, spec=gspec(sp), seed=seed, dataset_fingerprint=f"ds{x}" if fp else None, preprocess_fingerprint=pfp, cache=root is not None, cache_dir=root,
                       edge_shard_size=shard, resume=resume)


def gobs(g):
    return (g.n_nodes, g.edge_index.dtype.str, g.edge_index.tolist(), None if g.edge_weight is None else (g.edge_weight.dtype.str, g.edge_weight.tolist()), g.directed, dict(g.meta))


# -- views
EI = np.asarray([[0, 1, 2, 3, 0, 4, 5, 1], [1, 2, 3, 0, 2, 5, 4, 4]])
W1, W2 = np.linspace(0.5, 2, 8).astype(np.float32), np.linspace(0.5, 2.1, 8).astype(np.float32)
X6 = X1 @ np.asarray([[1.0, 0.0, 2.0, 0.5, -1.0, 0.1], [0.0, 1.0, -0.4, 0.2, 0.9, 3.0]])
NODES = [(X1, EI, W1, None), (X2, EI, W1, None), (X1, EI[::-1], W1, None), (X1, EI, W2, None), (X1, EI, None, None), (X4, EI, W1, "g"), (X1, EI, W1, "g"), (X1, EI, W1, "h"),
         (X1, EI[:, :7], W1[:7], None), (X1.astype(np.float32), EI, W1, None), (X1, EI, W2, "g"), (X1[:, :1], EI, W1, "g"), (np.ascontiguousarray(X6), EI, W1, "g"), (X6.T, EI, W1, "g")]
VSPEC = [dict(), dict(views=("attr", "diffusion")), dict(views=("diffusion", "attr")), dict(views=("diffusion",)), dict(views=("struct",)), dict(diffusion_steps=2), dict(diffusion_alpha=0.3),
         dict(struct_dim=3), dict(walk_length=4), dict(num_walks_per_node=2), dict(window_size=2), dict(struct_method="node2vec"), dict(struct_method="node2vec", p=4.0), dict(struct_method="node2vec", q=4.0)]
VBASE = dict(views=("attr", "diffusion", "struct"), struct_dim=4, walk_length=5, num_walks_per_node=3, window_size=1)
VREQ = [(d, 0, 0, 0) for d in range(len(NODES))] + [(0, s, 0, 0) for s in range(1, len(VSPEC))] + [(d, 3, 0, 0) for d in (1, 3, 5, 6, 10)] + [(d, 4, 0, 0) for d in (1, 2, 8)] + [(0, 0, 1, 0), (0, 0, 0, 1), (6, 0, 0, 1), (0, 0, 0, 2)]
LAB = [(np.asarray([0, 1, 0, 1, 2, 2]), {"train": [1, 1, 0, 0, 1, 0]}), (np.asarray([2, 1, 0, 1, 2, 0]), {"train": [0, 1, 1, 0, 1, 0]}), (np.asarray([0, 1, 0, 1, 2, 2]), {})]


def vreq(i, root):
    d, s, seed, lab = VREQ[i]
    X, ei, w, fp = NODES[d]
    y, masks = LAB[lab]
    nd = NodeDataset(X=X, y=y, graph=GraphArtifact(n_nodes=6, edge_index=ei, edge_weight=w, meta={"fingerprint": fp} if fp else {}), masks={k: np.asarray(v, dtype=bool) for k, v in masks.items()})
    return graph_to_views(nd, spec=GraphFeaturizerSpec(**{**VBASE, **VSPEC[s]}), seed=seed, cache=root is not None, cache_dir=root)


def vobs(v):
    return ([(k, a.dtype.str, a.shape, a.tobytes()) for k, a in ((k, np.ascontiguousarray(a)) for k, a in v.views.items())], v.y.tolist(), {k: m.tolist() for k, m in v.masks.items()}, dict(v.meta))


# -- the same through the benchmark: features of a preprocessing result, with and without the test rows
def bench_pres():
    ds = LoadedDataset(train=Split(X=X1, y=np.arange(6) % 2), test=Split(X=X1[:3] * 0.5 + 0.1, y=np.arange(3) % 2), meta={"dataset_fingerprint": "D"})
    ds2 = LoadedDataset(train=Split(X=X2, y=np.arange(6) % 2), test=ds.test, meta={"dataset_fingerprint": "E"})
    out = []
    for d, steps, fit, key in ((ds, [S("core.ensure_2d"), S("tabular.standard_scaler")], [0, 1, 2], "features.X"), (ds, [S("core.ensure_2d"), S("tabular.standard_scaler")], [3, 4], "features.X"),
                               (ds, [S("core.ensure_2d")], None, "features.X"), (ds2, [S("core.ensure_2d")], None, "features.X"), (ds, [S("core.ensure_2d"), S("tabular.standard_scaler")], [0, 1, 2], "raw.X"),
                               (ds, [S("core.copy_raw"), S("tabular.standard_scaler"), S("core.pca", n_components=1)], [0, 1, 2], "features.X")):
        p = prep.plan(steps)
        p = dataclasses.replace(p, output_key=key)
        out.append(preprocess(d, p, seed=0, fit_indices=None if fit is None else np.asarray(fit), cache=False))
    return out


BREQ = [(p, t, f) for p in range(6) for t in (False, True) for f in ("features.X", "raw.X", "none")][:36]


def breq(i, root, pres):
    p, t, f = BREQ[i]
    return bench_graph.build(pres[p], spec_dict=dict(scheme="knn", metric="euclidean", k=2, feature_field=f, backend="numpy"), seed=0, dataset_fingerprint=pres[p].dataset.meta.get("dataset_fingerprint"),
                             cache=root is not None, cache_dir=root, include_test=t)


def bwant(i, pres):
    p, t, f = BREQ[i]
    pre = pres[p]

    def feat(store, split):
        return np.asarray(store.get(f) if store.has(f) else split.X)
    X = feat(pre.train_artifacts, pre.dataset.train)
    if t:
        X = np.concatenate([X, feat(pre.test_artifacts, pre.dataset.test)], axis=0)
    return build_graph(X, spec=GraphBuilderSpec.from_dict(dict(scheme="knn", metric="euclidean", k=2, feature_field=f, backend="numpy")), seed=0, cache=False)


def cases(tier):
    for i in range(len(GREQ)):
        yield {"kind": "graph", "first": i}
    for i in range(len(VREQ)):
        yield {"kind": "views", "first": i}
    for i in range(len(BREQ)):
        yield {"kind": "bench", "first": i}
    for a in SMALL if tier == "quick" else range(len(GREQ)):
        for b in SMALL if tier == "quick" else range(len(GREQ)):
            yield {"kind": "triple", "ab": [a, b]}
    for a in range(len(SAVE)):
        yield {"kind": "save", "a": a}
    yield {"kind": "vsave"}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def history(R, what, idx, do, wants, obs, meta=True):
    root = Path(R.fresh_dir())
    for pos, i in enumerate(list(idx) + list(idx)):
        R.step()
        got = obs(do(i, str(root)))
        want = wants[i]
        if not meta:
            got, want = got[:-1], want[:-1]
        R.check(got == want, lambda: f"{what} history {list(idx)} position {pos}: with the shared cache {got}, without {want}", what)
    R.state(what, idx)
    R.outcome(what, len({repr(wants[i]) for i in idx}))


def k_graph(c, R):
    a = c["first"]
    wants = {i: gobs(greq(i, None)) for i in range(len(GREQ))}
    for b in range(len(GREQ)):
        history(R, "graph", (a, b), greq, wants, gobs)


def k_triple(c, R):
    wants = {i: gobs(greq(i, None)) for i in range(len(GREQ))}
    for d in SMALL if R.tier == "quick" else range(len(GREQ)):
        history(R, "graph", (*c["ab"], d), greq, wants, gobs)


def k_views(c, R):
    wants = {i: vobs(vreq(i, None)) for i in range(len(VREQ))}
    for b in range(len(VREQ)):
        history(R, "views", (c["first"], b), vreq, wants, vobs)


def k_bench(c, R):
    pres = bench_pres()
    wants = {i: gobs(bwant(i, pres)) for i in range(len(BREQ))}
    for b in range(len(BREQ)):
        history(R, "bench", (c["first"], b), lambda i, r: breq(i, r, pres), wants, gobs, meta=False)


def _graphs():
    e = np.asarray([[0, 1, 2, 2, 1], [1, 2, 0, 2, 0]])
    for m in (0, 1, 2, 5):
        for w in (None, np.linspace(0.5, 1.5, m).astype(np.float32), -np.linspace(0.5, 1.5, m).astype(np.float32)):
            yield GraphArtifact(n_nodes=3, edge_index=e[:, :m], edge_weight=w, directed=m % 2 == 0, meta={"a": m, "b": [1, "x"], "c": None})
    yield GraphArtifact(n_nodes=9, edge_index=e[:, :2], edge_weight=None)


SAVE = list(itertools.product(range(13), (None, 1, 2, 7)))


def k_save(c, R):
    gs = list(_graphs())
    for b in range(len(SAVE)):
        root = Path(R.fresh_dir())
        for over in (True, False):
            for which in (SAVE[c["a"]], SAVE[b]):
                R.step()
                gc = GraphCache(root=root, edge_shard_size=which[1])
                gc.save(fingerprint="f", graph=gs[which[0]], manifest={"m": which[0]}, overwrite=over)
                for reader in (gc, GraphCache(root=root)):
                    g, man = reader.load("f")
                    R.check(gobs(g) == gobs(gs[which[0]]) and man["m"] == which[0], lambda: f"saved {SAVE[c['a']]} then {SAVE[b]} overwrite={over}: {gobs(g)} expected {gobs(gs[which[0]])}", "save")
                R.check(gc.exists("f") and gc.list() == ["f"], "listing", "save")
        R.state(c["a"], b)
        R.outcome(SAVE[c["a"]][1], SAVE[b][1])


def k_vsave(c, R):
    vs = [{"attr": X1}, {"attr": X1, "b": X2[:, :1]}, {"z": X1.astype(np.float32)}, {"a/b": np.zeros((6, 0)), "attr": X4}, {"attr": np.arange(12).reshape(6, 2)}]
    y = np.arange(6)
    for i, j in itertools.product(range(len(vs)), repeat=2):
        root = Path(R.fresh_dir())
        for over in (True, False):
            for k in (i, j):
                R.step()
                vc = ViewsCache(root=root)
                v = DatasetViews(views=vs[k], y=y, masks={}, meta={"k": k})
                vc.save(fingerprint="f", views=v, manifest={"m": k}, overwrite=over)
                got, man = vc.load("f", y=y, masks={})
                R.check(vobs(got) == vobs(v) and man["m"] == k, lambda: f"views {i} then {j}: {got}", "vsave")
        R.state("v", i, j)
        R.outcome(i == j)
