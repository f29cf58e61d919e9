"""Graph post-processing is the matrix operation it names (dense-matrix reference)."""
import itertools
import warnings

import numpy as np
from modssc.graph import GraphArtifact, GraphBuilderSpec, GraphWeightsSpec, build_graph
from modssc.graph.construction.ops.normalize import normalize_edge_weights
from modssc.graph.construction.ops.self_loops import add_self_loops
from modssc.graph.construction.ops.symmetrize import symmetrize_edges
from modssc.graph.construction.ops.weights import compute_edge_weights
from modssc.graph.errors import GraphValidationError
from modssc.graph.featurization.ops.adjacency import adjacency_from_edge_index
from modssc.graph.masks import masks_from_indices

PID = "C22"
BOUNDS = {
    "quick": "all edge lists of <=3 edges on 3 nodes (loops and repeats included) and all edge sets on 3 nodes x 4 weightings (zero weights included) through each operation; every combination of scheme, metric, "
             "weights, symmetrisation, self loops and normalisation on 5 point sets; all index lists of <=2 ids on 3 nodes as masks",
    "thorough": "as quick with lists of 4 edges and all edge sets on 4 nodes without loops",
}
ASSUMPTIONS = ["rows whose weights do not sum to a positive number are not judged after normalisation", "of repeated edges any one weight may survive symmetrisation, but the same one however the edges are listed"]
CASE_TIMEOUT = 800


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def cases(tier):
    for e in range(0, 4 if tier == "quick" else 5):
        for part in range(1 if e < 3 else 4):
            yield {"kind": "lists", "e": e, "part": part, "parts": 1 if e < 3 else 4}
    for part in range(8):
        yield {"kind": "sets", "n": 3, "part": part, "parts": 8}
    if tier == "thorough":
        for part in range(16):
            yield {"kind": "sets", "n": 4, "part": part, "parts": 16}
    for k in range(len(POINTS)):
        for scheme in ("knn", "epsilon"):
            yield {"kind": "build", "k": k, "scheme": scheme}
    yield {"kind": "masks"}
    yield {"kind": "weights"}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def mat(n, ei, w):
    A = np.zeros((n, n))
    P = np.zeros((n, n), dtype=bool)
    w = np.ones(ei.shape[1]) if w is None else w
    for s, t, v in zip(ei[0].tolist(), ei[1].tolist(), np.asarray(w, dtype=float).tolist(), strict=True):
        A[s, t] += v
        P[s, t] = True
    return A, P


def sym_ref(A, P, mode):
    if mode == "none":
        return A.copy(), P.copy()
    both, one = P & P.T, P | P.T
    Q = both if mode == "mutual" else one
    B = np.where(both, (A + A.T) / 2, A + A.T)
    B[np.diag_indices(len(A))] = np.diag(A)
    Q = Q.copy()
    return np.where(Q, B, 0.0), Q


def loops_ref(A, P):
    A, P = A.copy(), P.copy()
    for i in range(len(A)):
        if not P[i, i]:
            A[i, i], P[i, i] = 1.0, True
    return A, P


def norm_ref(A, mode):
    deg = A.sum(1)
    d = np.where(deg > 1e-6, deg, np.nan)
    if mode == "rw":
        return A / d[:, None]
    if mode == "sym":
        return A / np.sqrt(d[:, None] * d[None, :])
    return A


def same(R, what, n, ei, w, A, P, key):
    ei = np.asarray(ei)
    pairs = list(zip(ei[0].tolist(), ei[1].tolist(), strict=True))
    R.check(len(set(pairs)) == len(pairs), lambda: f"{what()}: repeated edges {pairs}", key)
    R.check(set(pairs) == set(zip(*map(np.ndarray.tolist, np.nonzero(P)), strict=True)), lambda: f"{what()}: edges {pairs}, expected {np.argwhere(P).tolist()}", key)
    if w is not None:
        R.check(len(w) == len(pairs) and np.asarray(w).dtype == np.float32, lambda: f"{what()}: {len(w)} weights for {len(pairs)} edges", key)
        for (s, t), v in zip(pairs, np.asarray(w).tolist(), strict=True):
            R.check(np.isnan(A[s, t]) or abs(v - A[s, t]) <= 1e-5 * max(1, abs(A[s, t])), lambda: f"{what()}: edge {s}->{t} weighs {v}, expected {A[s, t]}", key)


WEIGHTINGS = (None, lambda m: 1.0 + np.arange(m), lambda m: np.asarray([0.5, 2.0, 0.25, 4.0, 1.0, 3.0, 0.125, 8.0, 0.75, 6.0, 1.5, 5.0, 0.3])[:m],
              lambda m: np.asarray([0.0, 2.0, 0.5, 0.0] * 4)[:m])


def k_lists(c, R):
    n = 3
    cells = list(itertools.product(range(n), repeat=2))
    for j, edges in enumerate(itertools.product(cells, repeat=c["e"])):
        if j % c["parts"] != c["part"]:
            continue
        ei = np.asarray(edges, dtype=np.int64).reshape(-1, 2).T
        for wf in WEIGHTINGS:
            one_list(R, n, ei, None if wf is None else wf(c["e"]).astype(np.float32), len(set(edges)) == len(edges))


def k_sets(c, R):
    n = c["n"]
    cells = [(a, b) for a, b in itertools.product(range(n), repeat=2) if n == 3 or a != b]
    for bits in range(2 ** len(cells)):
        if bits % c["parts"] != c["part"]:
            continue
        edges = [e for i, e in enumerate(cells) if bits >> i & 1]
        if bits % 3 == 1:
            edges.reverse()
        ei = np.asarray(edges, dtype=np.int64).reshape(-1, 2).T
        for wf in WEIGHTINGS:
            one_list(R, n, ei, None if wf is None else wf(len(edges)).astype(np.float32), True)


def one_list(R, n, ei, w, distinct):
    R.step()
    R.state(n, ei.tolist(), None if w is None else w.tolist())
    keep = ei.copy(), None if w is None else w.copy()
    what = lambda: f"n={n} edges {ei.T.tolist()} weights {None if w is None else w.tolist()}"  # noqa: E731
    A, P = mat(n, ei, w)
    for fmt in ("dense", "csr"):
        got = adjacency_from_edge_index(n_nodes=n, edge_index=ei, edge_weight=w, format=fmt)
        got = got.toarray() if fmt == "csr" else got
        R.check(got.shape == (n, n) and np.allclose(got, A), lambda: f"{what()}: {fmt} adjacency {got.tolist()}, expected {A.tolist()}", "adjacency")
    for mode in ("none", "or", "mutual"):
        e2, w2 = symmetrize_edges(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)
        if distinct:
            same(R, lambda: f"{what()} symmetrize {mode}", n, e2, w2, *sym_ref(A, P, mode), "symmetrize")
        elif mode != "none":
            B, Q = mat(n, e2, w2)
            R.check((Q == sym_ref(A, P, mode)[1]).all() and (B == B.T).all(), lambda: f"{what()} symmetrize {mode}: {e2.tolist()} {w2}", "symmetrize")
            o = np.lexsort((np.zeros(ei.shape[1]) if w is None else w, ei[1], ei[0]))
            for oo in (o, o[::-1]):
                C, _ = mat(n, *symmetrize_edges(n_nodes=n, edge_index=ei[:, oo], edge_weight=None if w is None else w[oo], mode=mode))
                R.check(np.allclose(B, C, atol=1e-6), lambda: f"{what()} symmetrize {mode}: {B.tolist()}, but {C.tolist()} when the edges are listed as {ei[:, oo].T.tolist()}", "edge-order")
        R.check((w2 is None) == (w is None), lambda: f"{what()} symmetrize {mode}: weights appear or vanish", "symmetrize")
    e3, w3 = add_self_loops(n_nodes=n, edge_index=ei, edge_weight=w)
    if distinct:
        same(R, lambda: f"{what()} self loops", n, e3, w3, *loops_ref(A, P), "loops")
    R.check(e3[:, :ei.shape[1]].tolist() == ei.tolist() and (w3 is None) == (w is None), lambda: f"{what()} self loops: existing edges moved", "loops")
    R.check(all(((e3[0] == i) & (e3[1] == i)).any() for i in range(n)), lambda: f"{what()} self loops missing", "loops")
    for mode in ("none", "rw", "sym"):
        nw = normalize_edge_weights(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)
        if w is None:
            R.check(nw is None, "normalising implicit weights", "normalize")
            continue
        B = norm_ref(A, mode)
        R.check(nw.shape == w.shape, "normalised weights shape", "normalize")
        for idx, (s, t) in enumerate(ei.T.tolist()):
            want = w[idx] * (B[s, t] / A[s, t])
            R.check(np.isnan(want) or abs(nw[idx] - want) < 1e-5, lambda: f"{what()} normalize {mode}: edge {s}->{t} weighs {nw[idx]}, expected {want}", "normalize")
    R.check(np.array_equal(ei, keep[0]) and (w is None or np.array_equal(w, keep[1])), lambda: f"{what()}: caller arrays modified", "mutated")
    g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w)
    R.check(g.n_edges == ei.shape[1], "n_edges", "artifact")
    if ei.size:
        for bad in (n, -1):
            e4 = ei.copy()
            e4[ei.shape[1] % 2, -1] = bad
            for fn in (lambda e: GraphArtifact(n_nodes=n, edge_index=e, edge_weight=w), lambda e: GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=np.ones(e.shape[1] + 1))):
                try:
                    fn(e4)
                    R.check(False, lambda: f"{what()}: invalid graph accepted", "artifact")
                except GraphValidationError:
                    pass
    R.outcome(ei.shape[1], int(P.sum()), w is None)


POINTS = [np.asarray(p, dtype=float) for p in (
    [[1.0, 0.0], [0.9, 0.55], [0.2, 1.1], [-0.8, 0.35], [-1.5, -1.9]],
    [[1.0, 0.2], [1.0, 0.21], [0.5, 2.0], [3.0, 0.1]],
    [[0.0, 1.0]],
    [[1.0, 0.0], [0.0, 1.0], [0.3, 0.3], [2.0, 2.5], [0.1, 4.0], [5.0, 0.7]],
    [[0.1, 0.9], [9.0, 0.5], [0.2, 0.7]])]


def k_build(c, R):
    X = POINTS[c["k"]]
    n = len(X)
    for metric, be, sy, lo, nm, (kind, sigma), par in itertools.product(("euclidean", "cosine"), ("numpy", "sklearn"), ("none", "or", "mutual"), (True, False), ("none", "rw", "sym"),
                                                                       (("binary", None), ("heat", 0.5), ("heat", 2.0), ("cosine", None)), (1, 2, 3)):
        R.step()
        s = GraphBuilderSpec(scheme=c["scheme"], metric=metric, k=par if c["scheme"] == "knn" else None, radius=(0.3, 0.9, 1.7)[par - 1] if c["scheme"] == "epsilon" else None,
                             symmetrize=sy, weights=GraphWeightsSpec(kind, sigma), normalize=nm, self_loops=lo, backend=be)
        R.state(c["scheme"], c["k"], metric, be, sy, lo, nm, kind, sigma, par)
        what = lambda: f"X={X.tolist()} {s}"  # noqa: E731
        try:
            g = build_graph(X, spec=s, cache=False)
        except GraphValidationError as e:
            R.check(kind == "cosine" and metric != "cosine", lambda: f"{what()}: {e}", "rejects")
            continue
        R.check(kind != "cosine" or metric == "cosine", lambda: f"{what()}: accepted", "accepts")
        if metric == "euclidean":
            D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        else:
            U = X / np.linalg.norm(X, axis=1, keepdims=True)
            D = 1 - U @ U.T
        P = np.zeros((n, n), dtype=bool)
        for i in range(n):
            o = sorted((t for t in range(n) if t != i), key=lambda t: D[i, t])
            for t in o[:par] if c["scheme"] == "knn" else [t for t in o if D[i, t] <= s.radius]:
                P[i, t] = True
        A = np.where(P, {"binary": np.ones_like(D), "heat": np.exp(-D ** 2 / (2 * (sigma or 1) ** 2)), "cosine": 1 - D}[kind], 0.0)
        A, P = sym_ref(A, P, sy)
        if lo:
            A, P = loops_ref(A, P)
        A = norm_ref(A, nm)
        same(R, what, n, g.edge_index, g.edge_weight, A, P, "build")
        R.check(g.n_nodes == n and g.directed == (sy == "none"), lambda: f"{what()}: n_nodes {g.n_nodes} directed {g.directed}", "build")
        if not g.directed and nm != "rw":
            B, _ = mat(n, g.edge_index, g.edge_weight)
            R.check(np.allclose(B, B.T, atol=1e-6), lambda: f"{what()}: undirected graph is not symmetric", "build")
        R.outcome(int(P.sum()), nm, kind)


def k_weights(c, R):
    for m in range(4):
        for d in itertools.product((0.0, 0.25, 1.0, 2.0), repeat=m):
            d = np.asarray(d)
            for kind, sigma, metric in itertools.product(("binary", "heat", "cosine"), (None, 0.0, -1.0, 0.5, 3.0), ("euclidean", "cosine")):
                R.step()
                R.state(d.tolist(), kind, sigma, metric)
                ok = (kind != "heat" or (sigma or 0) > 0) and (kind != "cosine" or metric == "cosine")
                try:
                    w = compute_edge_weights(distances=d, metric=metric, weights=GraphWeightsSpec(kind, sigma))
                except GraphValidationError:
                    R.check(not ok, lambda: f"{kind} sigma={sigma} {metric} rejected", "weights")
                    continue
                want = np.ones(m) if kind == "binary" else 1 - d if kind == "cosine" else np.exp(-d ** 2 / (2 * sigma ** 2)) if ok else None
                R.check(ok and w.dtype == np.float32 and np.allclose(w, want), lambda: f"weights {kind} sigma={sigma} {metric} of {d.tolist()}: {w.tolist()}", "weights")
                R.outcome(kind, ok)


def k_masks(c, R):
    n = 3
    lists = [list(t) for m in range(3) for t in itertools.product((-1, 0, 1, 2, 3), repeat=m)]
    for tr, va, te in itertools.product(lists, repeat=3):
        for lab in (None, [], [0], [2, 1], [3], [-1]):
            if lab in ([0], [-1], []) and len(te) == 2:
                continue
            R.step()
            bad = any(i < 0 or i >= n for ix in (tr, va, te, lab or []) for i in ix)
            try:
                m = masks_from_indices(n=n, train_idx=tr, val_idx=va, test_idx=te, labeled_idx=lab)
            except GraphValidationError:
                R.check(bad, lambda: f"train={tr} val={va} test={te} labeled={lab} rejected", "masks")
                continue
            R.check(not bad, lambda: f"train={tr} val={va} test={te} labeled={lab} accepted", "masks")
            for name, ix in (("train", tr), ("val", va), ("test", te)):
                R.check(m.as_dict()[name].tolist() == [i in ix for i in range(n)], lambda: f"{name} mask {m.as_dict()[name]} for {ix}", "masks")
            if lab is not None:
                R.check(m.unlabeled.tolist() == [i in tr and i not in lab for i in range(n)], lambda: f"unlabeled {m.unlabeled} train={tr} labeled={lab}", "masks")
            R.state(tr, va, te, lab)
            R.outcome(len(tr), len(va), len(te))
