"""Graph views compute what they are named for (diffusion recurrence, walk co-occurrence embedding)."""
import itertools
import warnings

import numpy as np
from modssc.graph import GraphArtifact, GraphFeaturizerSpec, graph_to_views
from modssc.graph.adapters.pyg import to_pyg_data
from modssc.graph.artifacts import NodeDataset

PID = "C25"
BOUNDS = {
    "quick": "all edge lists of <=3 edges on 3 nodes (loops and repeats) x 3 weightings x 5 alphas x 4 step counts; struct: every graph whose nodes have at most one successor (n<=4), "
             "x walk lengths, counts, windows and dimensions; every loop-free graph on 3 nodes and 24 on 4 nodes with every possible set of walks as reference, uniform and with extreme p and q",
    "thorough": "as quick with lists of 4 edges, every graph with loops on 3 nodes and more seeds",
}
ASSUMPTIONS = ["embeddings are compared through their Gram matrix (an embedding is defined up to rotation)", "a biased walk takes a transition of relative weight below 1e-6 never"]
CASE_TIMEOUT = 800
X = np.asarray([[1.0, -2.0], [0.5, 4.0], [3.0, 0.0], [-1.0, 1.5]])


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def cases(tier):
    for e in range(0, 4 if tier == "quick" else 5):
        for part in range(1 if e < 3 else 8):
            yield {"kind": "diffusion", "e": e, "part": part, "parts": 1 if e < 3 else 8}
    for n in (1, 2, 3, 4):
        for part in range(1 if n < 4 else 8):
            yield {"kind": "functional", "n": n, "part": part, "parts": 1 if n < 4 else 8}
    for part in range(24):
        yield {"kind": "walks", "part": part, "parts": 24}
    yield {"kind": "pyg"}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def node(n, ei, w=None, Xn=None):
    return NodeDataset(X=X[:n] if Xn is None else Xn, y=np.arange(n) % 2, graph=GraphArtifact(n_nodes=n, edge_index=np.asarray(ei, dtype=np.int64).reshape(-1, 2).T, edge_weight=w),
                       masks={"train": np.arange(n) % 2 == 0})


def k_diffusion(c, R):
    n = 3
    cells = list(itertools.product(range(n), repeat=2))
    for j, edges in enumerate(itertools.product(cells, repeat=c["e"])):
        if j % c["parts"] != c["part"]:
            continue
        for w in (None, 1.0 + np.arange(c["e"]), np.asarray([0.5, 4.0, 0.25, 2.0])[:c["e"]]):
            A = np.zeros((n, n))
            for (s, t), v in zip(edges, np.ones(len(edges)) if w is None else w, strict=True):
                A[s, t] += v
            d = A.sum(1, keepdims=True)
            P = np.divide(A, d, out=np.zeros_like(A), where=d > 0)
            R.state(edges, None if w is None else w.tolist())
            for alpha, steps in itertools.product((0.0, 0.1, 0.5, 0.9, 1.0), (0, 1, 2, 5)):
                R.step()
                H = X[:n].copy()
                for _ in range(steps):
                    H = (1 - alpha) * P @ H + alpha * X[:n]
                nd = node(n, edges, None if w is None else w.astype(np.float32))
                v = graph_to_views(nd, spec=GraphFeaturizerSpec(views=("diffusion", "attr"), diffusion_steps=steps, diffusion_alpha=alpha), cache=False)
                got = v.views["diffusion"]
                R.check(got.shape == (n, 2) and np.allclose(got, H, atol=1e-4), lambda: f"diffusion edges={edges} weights={w} alpha={alpha} steps={steps}: {got.tolist()} expected {H.tolist()}", "diffusion")
                R.check(np.array_equal(v.views["attr"], X[:n]) and list(v.views) == ["diffusion", "attr"] and v.y.tolist() == nd.y.tolist() and v.masks["train"].tolist() == nd.masks["train"].tolist(), "attr view, labels or masks", "attr")
            R.outcome(len(edges), int((d > 0).sum()))


def gram(n, walks, window):
    C = np.zeros((n, n))
    for wk in walks:
        for i in range(len(wk)):
            for j in range(max(0, i - window), min(len(wk), i + window + 1)):
                if j != i:
                    C[wk[i], wk[j]] += 1
    if not C.sum():
        return np.zeros((n, n)), np.zeros((n, n))
    with np.errstate(divide="ignore", invalid="ignore"):
        M = np.log(C * C.sum() / np.outer(C.sum(1), C.sum(0)))
    M = np.where(C > 0, np.maximum(M, 0), 0.0)
    return M @ M.T, M


def struct(n, edges, seed=0, Xn=None, **kw):
    return graph_to_views(node(n, edges, Xn=Xn), spec=GraphFeaturizerSpec(views=("struct",), **kw), seed=seed, cache=False).views["struct"]


def k_functional(c, R):
    n = c["n"]
    for j, succ in enumerate(itertools.product([None, *range(n)], repeat=n)):
        if j % c["parts"] != c["part"]:
            continue
        edges = [(i, s) for i, s in enumerate(succ) if s is not None]
        for L, k, win, meth in itertools.product((2, 3, 6), (1, 3), (1, 2, 9), ("deepwalk", "node2vec")):
            walks = []
            for s in range(n):
                wk = [s]
                while len(wk) < L:
                    wk.append(succ[wk[-1]] if succ[wk[-1]] is not None else wk[-1])
                walks += [wk] * k
            G, M = gram(n, walks, win)
            for dim in (1, n, n + 3):
                R.step()
                R.state(succ, L, k, win, meth, dim)
                e = struct(n, edges, struct_method=meth, struct_dim=dim, walk_length=L, num_walks_per_node=k, window_size=win, p=0.5, q=2.0)
                what = lambda: f"struct {meth} successors={succ} length={L} walks={k} window={win} dim={dim}"  # noqa: E731
                R.check(e.shape == (n, dim) and e.dtype == np.float32, lambda: f"{what()}: shape {e.shape}", "struct")
                want = G
                if dim < n:
                    U, S, _ = np.linalg.svd(M)
                    if len(S) > 1 and S[0] - S[1] < 1e-3:
                        continue
                    want = S[0] ** 2 * np.outer(U[:, 0], U[:, 0])
                R.check(np.allclose(e @ e.T, want, atol=1e-3), lambda: f"{what()}: Gram {(e @ e.T).tolist()} expected {want.tolist()}", "struct")
        R.outcome(len(edges), len(set(succ)))


def walk_sets(n, adj, L, meth, p, q):
    """Per start, the set of possible walks."""
    out = []
    for s in range(n):
        done, todo = set(), [(s,)]
        while todo:
            wk = todo.pop()
            if len(wk) == L:
                done.add(wk)
                continue
            nb = adj[wk[-1]]
            if not nb:
                todo.append((*wk, wk[-1]))
                continue
            ws = [1.0] * len(nb)
            if meth == "node2vec" and len(wk) > 1:
                ws = [1 / p if v == wk[-2] else 1.0 if v in adj[wk[-2]] else 1 / q for v in nb]
            todo += [(*wk, v) for v, x in zip(nb, ws, strict=True) if x >= 1e-6 * max(ws)]
        out.append(sorted(done))
    return out


def k_walks(c, R):
    three = [(a, b) for a, b in itertools.product(range(3), repeat=2) if R.tier == "thorough" or a != b]
    graphs = [(3, [e for i, e in enumerate(three) if bits >> i & 1], L) for bits in range(2 ** len(three)) for L in (3, 4)]
    four = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2), (1, 3)]
    graphs += [(4, [x for i, e in enumerate(four) if bits >> i & 1 for x in (e, e[::-1])], 3) for bits in range(8, 32)]
    for j, (n, edges, L) in enumerate(graphs):
        if j % c["parts"] != c["part"]:
            continue
        adj = [[t for s, t in edges if s == i] for i in range(n)]
        for meth, p, q in (("deepwalk", 1, 1), ("node2vec", 1, 1), ("node2vec", 1e-9, 1.0), ("node2vec", 1e9, 1.0), ("node2vec", 1.0, 1e-9), ("node2vec", 1.0, 1e9), ("node2vec", 1e9, 1e9), ("node2vec", 1e9, 1e-9)):
            sets = walk_sets(n, adj, L, meth, p, q)
            if np.prod([len(s) for s in sets]) > 5000:
                R.count("skipped_large")
                continue
            legal = {np.round(gram(n, ws, 1)[0], 2).tobytes(): ws for ws in itertools.product(*sets)}
            keys = np.asarray([np.frombuffer(k) for k in legal])
            seen = set()
            for seed in range(6 if R.tier == "quick" else 20):
                R.step()
                R.state(n, edges, L, meth, p, q, seed)
                kw = dict(struct_method=meth, struct_dim=n, walk_length=L, num_walks_per_node=1, window_size=1, p=p, q=q)
                e = struct(n, edges, seed=seed, **kw)
                G = (e @ e.T).astype(float).ravel()
                dist = np.abs(keys - G).max(1)
                R.check(dist.min() < 0.011, lambda: f"struct {meth} p={p} q={q} edges={edges} length={L} seed={seed}: Gram {np.round(G, 2).tolist()} belongs to no possible set of walks ({len(keys)} sets)", "walks")
                R.check(np.array_equal(e, struct(n, edges, seed=seed, Xn=X[:n] * 7, **kw)), "struct depends on X or is not reproducible", "walks")
                seen.add(int(dist.argmin()))
            R.outcome(n, len(edges), min(len(keys), 50), len(seen) > 1)


def k_pyg(c, R):
    for m in range(3):
        for edges in itertools.product(itertools.product(range(3), repeat=2), repeat=m):
            for w in (None, 1.0 + np.arange(m)):
                R.step()
                R.state(edges, w is None)
                d = to_pyg_data(node(3, edges, w))
                R.check(d.edge_index.T.tolist() == [list(e) for e in edges] and np.array_equal(d.x.numpy(), X[:3]) and d.y.tolist() == [0, 1, 0] and d.train_mask.tolist() == [True, False, True], f"pyg {edges}", "pyg")
                R.check((w is None and getattr(d, "edge_weight", None) is None) or (w is not None and np.array_equal(d.edge_weight.numpy(), w)), f"pyg weights {edges}", "pyg")
        R.outcome(m)
