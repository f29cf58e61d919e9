"""Neighbour graphs contain exactly the neighbours their definition names (brute-force reference, all backends)."""
import itertools
import shutil
import warnings
from pathlib import Path

import numpy as np
from modssc.graph import GraphBuilderSpec, GraphWeightsSpec, build_graph
from modssc.graph.construction.builder import build_raw_edges

PID = "C21"
BOUNDS = {
    "quick": "all point sequences over {0,1,3} (n<=5), {0,1,3}^2 and {-1,0,1}^2 (n<=3 in full, n=4 every 5th) x both metrics x knn k<=n+1 and 5 radii x numpy (chunks 1,2,512), sklearn and "
             "faiss backends; anchor scheme on tie-free points n<=6, every anchor count, anchors per node, k, candidate limit and 6 seeds; every subset of saved chunks lost before a resume with the same or another chunk size",
    "thorough": "as quick with every n=4 sequence, n=5 every 11th, and 30 anchor seeds",
}
ASSUMPTIONS = ["coordinates are small numbers: single-precision rounding of large coordinates is not judged", "ties may be broken either way; radii are kept off the distances except where exact"]
CASE_TIMEOUT = 800
TOL = 2e-4


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def cases(tier):
    for metric in ("euclidean", "cosine"):
        for be in ("numpy", "sklearn", "faiss"):
            for grid in ("line", "pos", "neg"):
                for n in range(1, 6 if grid == "line" or tier == "thorough" else 5):
                    parts = 4 if n >= 4 and grid != "line" else 1
                    for part in range(parts):
                        yield {"kind": "nn", "metric": metric, "be": be, "grid": grid, "n": n, "part": part, "parts": parts}
    for metric in ("euclidean", "cosine"):
        for be in ("numpy", "sklearn", "faiss"):
            for meth in ("random", "kmeans"):
                yield {"kind": "anchor", "metric": metric, "be": be, "meth": meth}
    for scheme in ("knn", "epsilon"):
        for metric in ("euclidean", "cosine"):
            yield {"kind": "resume", "scheme": scheme, "metric": metric}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


GRIDS = {"line": [(0.0,), (1.0,), (3.0,)], "pos": list(itertools.product((0.0, 1.0, 3.0), repeat=2)), "neg": list(itertools.product((-1.0, 0.0, 1.0), repeat=2))}


def dist(X, metric):
    X = np.asarray(X, dtype=np.float64)
    if metric == "euclidean":
        return np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
    nr = np.linalg.norm(X, axis=1, keepdims=True)
    U = X / np.where(nr == 0, 1, nr)
    return 1.0 - U @ U.T


def spec(**kw):
    kw.setdefault("weights", GraphWeightsSpec("binary"))
    return GraphBuilderSpec(symmetrize="none", normalize="none", self_loops=False, **kw)


def rows(ei, d, n):
    out = [[] for _ in range(n)]
    for s, t, v in zip(ei[0].tolist(), ei[1].tolist(), d.tolist(), strict=True):
        out[s].append((t, v))
    return out


def judge(R, what, got, D, i, want):
    """`got` = [(target, distance)] of node i; `want` = sorted distances it must have."""
    ts = [t for t, _ in got]
    R.check(i not in ts, lambda: f"{what()}: node {i} is its own neighbour", "self")
    R.check(len(set(ts)) == len(ts), lambda: f"{what()}: node {i} has a repeated neighbour {ts}", "dup")
    R.check(all(abs(v - D[i, t]) < TOL for t, v in got), lambda: f"{what()}: node {i} distances {got} expected {[D[i, t] for t in ts]}", "distance")
    have = sorted(D[i, t] for t in ts)
    R.check(len(have) == len(want) and all(abs(a - b) < TOL for a, b in zip(have, want, strict=True)),
            lambda: f"{what()}: node {i} has neighbours at {have}, expected {list(want)}", "neighbours")


def k_nn(c, R):
    n, metric, be = c["n"], c["metric"], c["be"]
    G = GRIDS[c["grid"]]
    stride = 1 if n <= 3 or c["grid"] == "line" else {4: 5 if R.tier == "quick" else 1, 5: 11}[n]
    forms = [np.float64, np.float32, np.int64]
    for j, pts in enumerate(itertools.product(G, repeat=n)):
        if j % stride or (j // stride) % c["parts"] != c["part"]:
            continue
        X = np.asarray(pts).astype(forms[(j // stride) % 3])
        X0 = X.copy()
        D = dist(X, metric)
        R.state(metric, pts)
        chunks = (1, 2, 512) if be == "numpy" else (512,)
        for k, ch in itertools.product(range(1, n + 2), chunks):
            R.step()
            ei, d = build_raw_edges(X, spec=spec(scheme="knn", metric=metric, k=k, backend=be, chunk_size=ch, faiss_exact=True), seed=0)
            for i, got in enumerate(rows(ei, d, n)):
                others = sorted(D[i, [t for t in range(n) if t != i]])
                judge(R, lambda: f"knn k={k} {metric} {be} chunk={ch} X={X.tolist()} {X.dtype}", got, D, i, others[:k])
                R.check([v for _, v in got] == sorted(v for _, v in got), lambda: f"knn {be} X={X.tolist()}: neighbours of {i} not by distance", "order")
        if be != "faiss":
            for r, ch in itertools.product((0.5, 1.0, 1.3, 2.5, 3.7), chunks):
                near = np.abs(D - r) < 1e-3
                if metric == "cosine" and near.any():
                    continue
                if metric == "euclidean" and (near & (D != r)).any():
                    continue
                R.step()
                ei, d = build_raw_edges(X, spec=spec(scheme="epsilon", metric=metric, k=None, radius=r, backend=be, chunk_size=ch), seed=0)
                for i, got in enumerate(rows(ei, d, n)):
                    judge(R, lambda: f"epsilon r={r} {metric} {be} chunk={ch} X={X.tolist()} {X.dtype}", got, D, i,
                          sorted(D[i, t] for t in range(n) if t != i and D[i, t] <= r))
        R.check(np.array_equal(X, X0), "X modified", "mutated")
        R.outcome(n, be, len(set(pts)))


# every node's distances to the others differ, for both metrics
TIEFREE = np.asarray([[1.0, 0.0], [0.9, 0.55], [0.2, 1.1], [-0.8, 0.35], [-1.5, -1.9], [0.4, -2.7]])


def nearest(D, i, cand, k):
    return sorted(cand, key=lambda t: D[i, t])[:k]


def anchor_ref(D, A, r, k):
    """Neighbour lists for anchor set A (node ids): candidates share one of the r nearest anchors."""
    n = len(D)
    mine = [set(sorted(A, key=lambda a: D[i, a])[:r]) for i in range(n)]
    return tuple(tuple(nearest(D, i, [t for t in range(n) if t != i and mine[i] & mine[t]], k)) for i in range(n))


def k_anchor(c, R):
    metric, be, meth = c["metric"], c["be"], c["meth"]
    for n in (1, 3, 5, 6) if meth == "random" else (4, 6):
        X = TIEFREE[:n]
        D = dist(X, metric)
        for m in range(1, n + 2):
            for r in range(1, m + 1):
                for k in (1, 2, n):
                    legal = {anchor_ref(D, A, r, k) for A in itertools.combinations(range(n), min(m, n))}
                    full = tuple(tuple(nearest(D, i, [t for t in range(n) if t != i], k)) for i in range(n))
                    for seed, (lim, ch) in itertools.product(range((6 if R.tier == "quick" else 30) if meth == "random" else 2), ((1000, 512), (1000, 1), (2, 2))):
                        s = spec(scheme="anchor", metric=metric, k=k, backend=be, n_anchors=m, anchors_k=r, anchors_method=meth, candidate_limit=lim, chunk_size=ch, faiss_exact=True)
                        R.step()
                        R.state(metric, be, meth, n, m, r, k, seed, lim)
                        ei, d = build_raw_edges(X, spec=s, seed=seed)
                        what = lambda: f"anchor {meth} {metric} {be} n={n} anchors={m} per node={r} k={k} limit={lim} chunk={ch} seed={seed}"  # noqa: E731
                        got = rows(ei, d, n)
                        for i, g in enumerate(got):
                            R.check(all(abs(v - D[i, t]) < TOL for t, v in g) and i not in [t for t, _ in g] and len({t for t, _ in g}) == len(g) <= min(k, lim),
                                    lambda: f"{what()}: node {i} has {g}", "anchor")
                        lists = tuple(tuple(t for t, _ in g) for g in got)
                        if r >= min(m, n) and lim >= n:
                            R.check(lists == full, lambda: f"{what()}: {lists}; every node shares every anchor, expected {full}", "anchor")
                        elif meth == "random" and lim >= n:
                            R.check(lists in legal, lambda: f"{what()}: {lists} is not the result of any choice of anchors", "anchor")
                        elif meth == "random":
                            R.check(any(all(len(g) == min(k, lim, len(full_i)) and set(g) <= set(full_i) for g, full_i in zip(lists, cand, strict=True))
                                        for cand in (anchor_ref(D, A, r, n) for A in itertools.combinations(range(n), min(m, n)))),
                                    lambda: f"{what()}: {lists} are not candidates of any choice of anchors", "anchor")
                        ei2, d2 = build_raw_edges(X, spec=s, seed=seed)
                        R.check(np.array_equal(ei, ei2) and np.array_equal(d, d2), lambda: f"{what()}: not reproducible", "anchor")
                        R.outcome(n, m, r, len(set(lists)))


def k_resume(c, R):
    pts = np.asarray([[0.0, 0.0], [1.0, 0.0], [3.0, 1.0], [0.0, 2.0], [2.0, 2.0], [5.0, 1.0]])
    for n, ch in itertools.product((5, 6), (1, 2, 4)):
        X = pts[:n]
        s = spec(scheme=c["scheme"], metric=c["metric"], k=2, radius=2.1 if c["metric"] == "euclidean" else 0.3, backend="numpy", chunk_size=ch)
        want = build_raw_edges(X, spec=s, seed=0)
        full = Path(R.fresh_dir())
        got = build_raw_edges(X, spec=s, seed=0, work_dir=full, resume=True)
        files = sorted(p.relative_to(full) for p in full.rglob("*") if p.is_file())
        R.check(all(np.array_equal(a, b) for a, b in zip(got, want, strict=True)), f"{c} chunk={ch}: saving chunks changes the result", "resume")
        for lost in itertools.chain.from_iterable(itertools.combinations(files, q) for q in range(len(files) + 1)):
            R.step()
            R.state(c["scheme"], c["metric"], n, ch, [str(f) for f in lost])
            d = Path(R.fresh_dir())
            shutil.rmtree(d)
            shutil.copytree(full, d)
            for f in lost:
                (d / f).unlink()
            for ch2 in (1, 2, 3, 4):
                s2 = spec(scheme=c["scheme"], metric=c["metric"], k=2, radius=s.radius, backend="numpy", chunk_size=ch2)
                d2 = Path(R.fresh_dir())
                shutil.copytree(d, d2, dirs_exist_ok=True)
                got = build_raw_edges(X, spec=s2, seed=0, work_dir=d2, resume=True)
                R.check(all(a.shape == b.shape and (np.array_equal(a, b) if a.dtype.kind == "i" else np.allclose(a, b, atol=TOL)) for a, b in zip(got, want, strict=True)),
                        lambda: f"{c} chunks of {ch2} resumed over chunks of {ch} after losing {[str(f) for f in lost]}: {got} expected {want}", "resume-chunk")
                shutil.rmtree(d2)
            for resume in (True, False):
                got = build_raw_edges(X, spec=s, seed=0, work_dir=d, resume=resume)
                R.check(all(np.array_equal(a, b) for a, b in zip(got, want, strict=True)), lambda: f"{c} chunk={ch} after losing {[str(f) for f in lost]}: {got} expected {want}", "resume")
            R.outcome(len(files), len(lost))
            shutil.rmtree(d)
    g = build_graph(pts, spec=s, cache=False)
    R.check(g.n_nodes == len(pts), "n_nodes", "nodes")
