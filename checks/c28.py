"""Transductive propagation, cut, walk and PDE methods compute the quantity their docs define (dense float64 reference)."""
import itertools
import warnings

import numpy as np
import torch
from modssc.transductive.backends import numpy_backend, torch_backend
from modssc.transductive.methods.classic.dynamic_label_propagation import DynamicLabelPropagationSpec, dynamic_label_propagation
from modssc.transductive.methods.classic.graph_mincuts import GraphMincutsSpec, graph_mincuts
from modssc.transductive.methods.classic.label_propagation import LabelPropagationSpec, label_propagation
from modssc.transductive.methods.classic.label_spreading import LabelSpreadingSpec, label_spreading
from modssc.transductive.methods.classic.laplace_learning import laplace_learning
from modssc.transductive.methods.classic.lazy_random_walk import LazyRandomWalkSpec, lazy_random_walk
from modssc.transductive.methods.pde.p_laplace_learning import PLaplaceLearningSpec, p_laplace_learning
from modssc.transductive.methods.pde.poisson_learning import PoissonLearningSpec, poisson_learning
from modssc.transductive.methods.pde.poisson_mbo import PoissonMBOSpec, poisson_mbo
from modssc.transductive.operators.clamp import hard_clamp, labels_to_onehot, row_normalize
from modssc.transductive.operators.laplacian import laplacian_matvec_numpy, laplacian_matvec_torch
from modssc.transductive.operators.normalize import normalize_edges_numpy, normalize_edges_torch
from modssc.transductive.operators.spmm import spmm_numpy, spmm_torch
from modssc.transductive.solvers.cg import cg_solve_numpy, cg_solve_torch
from modssc.transductive.solvers.fixed_point import fixed_point_diffusion_numpy, fixed_point_diffusion_torch
from modssc.transductive.types import DeviceSpec

PID = "C28"
BOUNDS = {
    "quick": "all undirected graphs on 3 and 4 nodes (and all digraphs with loops on 3 for propagation, cuts and operators) x 3 weightings (none, distinct, parallel edges) x all labelled sets x all "
             "label vectors up to renaming, plus the same with the lowest class absent; iterations 0..4 step by step and to convergence; numpy and torch",
    "thorough": "as quick with 5-node undirected graphs for cuts, harmonic and walk methods",
}
ASSUMPTIONS = ["weights are non-negative", "symmetric normalisation is judged on symmetric graphs", "nodes whose walk score or projection margin is below 1e-5 are not judged",
               "dynamic label propagation is compared while the reference stays below 1e30"]
CASE_TIMEOUT = 800
CPU = DeviceSpec("cpu")
TOL = dict(rtol=2e-4, atol=2e-5)


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)


# ---------------------------------------------------------------- graphs
def undirected(n):
    pairs = list(itertools.combinations(range(n), 2))
    for m in range(1 << len(pairs)):
        yield [e for i, e in enumerate(pairs) if m >> i & 1]


def und_edges(n, es, mode):
    """Edge lists (both directions) of one undirected graph: no weights, distinct weights, weights split over parallel edges."""
    src, dst, w = [], [], []
    for k, (a, b) in enumerate(es):
        x = 1.0 + 0.75 * k
        parts = [x] if mode != "par" else [0.25 * x, 0.75 * x]
        for p in parts:
            src += [b, a]
            dst += [a, b]
            w += [p, p]
    ei = np.asarray([src[::-1], dst[::-1]], dtype=np.int64).reshape(2, -1)
    return ei, (None if mode == "none" else np.asarray(w[::-1], dtype=np.float64))


def digraphs(loops):
    pairs = [(a, b) for a in range(3) for b in range(3) if a != b]
    for m in range(1 << len(pairs)):
        es = [e for i, e in enumerate(pairs) if m >> i & 1]
        yield es
        if loops and m % 3 == 0:
            yield es + [(m % 2, m % 2), (2, 2)]


def di_edges(es, mode):
    ei = np.asarray([[a for a, _ in es], [b for _, b in es]], dtype=np.int64).reshape(2, -1)
    return ei, None if mode == "none" else np.asarray([1.0 + 0.5 * ((3 * k) % 5) for k in range(len(es))])


def dense(n, ei, w):
    A = np.zeros((n, n))
    np.add.at(A, (ei[1], ei[0]), np.ones(ei.shape[1]) if w is None else np.asarray(w, dtype=np.float64))
    return A


def norm(A, mode, eps=1e-12):
    d = np.maximum(A.sum(1), eps)
    return A / d[:, None] if mode == "rw" else A / np.sqrt(d[:, None] * d[None, :])


def reach(A, seeds):
    """Nodes that receive mass from seeds along A[dst, src]."""
    m = np.asarray(seeds, dtype=bool).copy()
    for _ in range(len(m)):
        m |= (A[:, m] > 0).any(1)
    return m


def labelings(n, kmax=3):
    """(y with -1 on hidden nodes, mask): every labelled set x labels up to renaming, and shifted so class 0 is absent."""
    for r in range(1, n + 1):
        for lab in itertools.combinations(range(n), r):
            for v in rgs(r, kmax):
                for shift in (0, 1):
                    y = np.full(n, -1, dtype=np.int64)
                    y[list(lab)] = np.asarray(v) + shift
                    yield y, y >= 0


def rgs(n, kmax):
    def rec(p, m):
        if len(p) == n:
            yield tuple(p)
            return
        for v in range(min(m + 1, kmax)):
            yield from rec(p + [v], max(m, v + 1))
    yield from rec([], 0)


def onehot(y, mask, k):
    Y = np.zeros((len(y), k))
    for i in np.flatnonzero(mask):
        if y[i] >= 0:
            Y[i, y[i]] = 1.0
    return Y


def cases(tier):
    for n in (3, 4):
        for part in range(2 if n == 3 else 32):
            yield {"kind": "prop", "n": n, "part": part, "parts": 2 if n == 3 else 32}
    for part in range(8):
        yield {"kind": "propdi", "part": part, "parts": 8}
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        parts = {3: 2, 4: 16, 5: 256}[n]
        for part in range(parts):
            for k in ("harm", "walk", "cut"):
                yield {"kind": k, "n": n, "part": part, "parts": parts}
    for n in (3, 4):
        parts = {3: 2, 4: 16}[n]
        for part in range(parts):
            for k in ("poisson", "mbo", "plap", "dlp"):
                yield {"kind": k, "n": n, "part": part, "parts": parts}
    for part in range(8):
        yield {"kind": "cutdi", "part": part, "parts": 8}
        yield {"kind": "ops", "part": part, "parts": 8}
    for part in range(4):
        yield {"kind": "cg", "part": part, "parts": 4}
    yield {"kind": "dlpfinite", "part": 0, "parts": 1}
    yield {"kind": "clamp"}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def pick(it, c):
    return itertools.islice(it, c["part"], None, c["parts"])


def both(fn, **kw):
    for be in ("numpy", "torch"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield be, fn(backend=be, device="cpu" if be == "torch" else None, **kw)


# ---------------------------------------------------------------- propagation
def ref_prop(S, Y, mask, which, a, iters, rows):
    F = Y.copy()
    hist = [F]
    for _ in range(iters):
        G = S @ F
        if which == "lp":
            G[mask] = Y[mask]
        else:
            G = a * G + (1 - a) * Y
        if rows:
            s = G.sum(1, keepdims=True)
            G = G / np.where(s > 0, s, 1.0)
        F = G
        hist.append(F)
    return hist


def one_prop(R, n, ei, w, y, mask, which, nm, rows, tag):
    K = int(y.max()) + 1
    Y = onehot(y, mask, K)
    A = dense(n, ei, w)
    S = norm(A, nm)
    a = 0.6
    hist = ref_prop(S, Y, mask, which, a, 4, rows)
    iters = (0, 4) if which == "lp" else (1, 4)
    for T in iters:
        if which == "lp":
            runs = both(label_propagation, n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=LabelPropagationSpec(norm=nm, max_iter=T, tol=-1.0, normalize_rows=rows))
        else:
            runs = both(label_spreading, n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=LabelSpreadingSpec(alpha=a, norm=nm, max_iter=T, tol=-1.0, normalize_rows=rows))
        for be, r in runs:
            R.step()
            ok = r.F.shape == (n, K) and np.allclose(r.F, hist[T], **TOL) and r.n_iter == T
            R.check(ok, lambda: f"{which} ({be}, {nm}, normalize_rows={rows}) after {T} iterations differs from the recurrence: graph={tag} y={y.tolist()} got={np.asarray(r.F).tolist()} want={hist[T].tolist()}", "prop")
            if T:
                res = np.abs(hist[T] - hist[T - 1]).max()
                R.check(abs(r.residual - res) < 1e-4, f"{which} {be}: reported residual {r.residual} is not the last update {res}: {tag} {y.tolist()}", "residual")
    R.state(which, nm, rows, tag, y.tolist())
    R.outcome(hist[4].round(5).tolist())


def long_prop(R, n, ei, w, y, mask, tag):
    """To convergence: label propagation is the harmonic extension, label spreading the regularised solution."""
    K = int(y.max()) + 1
    Y = onehot(y, mask, K)
    A = dense(n, ei, w)
    got = reach(A, mask)
    S = norm(A, "rw")
    u = ~mask & got
    H = Y.copy()
    if u.any():
        H[u] = np.linalg.solve(np.eye(u.sum()) - S[np.ix_(u, u)], S[np.ix_(u, mask)] @ Y[mask])
    for rows in (False, True):
        for be, r in both(label_propagation, n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=LabelPropagationSpec(max_iter=2000, tol=1e-7, normalize_rows=rows)):
            R.step()
            R.check(np.array_equal(r.F[mask], Y[mask]), lambda: f"label propagation {be} moved a labelled node: {tag} {y.tolist()} {r.F.tolist()}", "clamp")
            R.check(np.allclose(r.F, H, rtol=2e-3, atol=2e-3), lambda: f"label propagation {be} (rows={rows}) does not converge to the harmonic extension: {tag} {y.tolist()} got={r.F.tolist()} want={H.tolist()}", "harmonic")
            R.check(r.residual <= 1e-7 or r.n_iter == 2000, "stopped before the tolerance", "stop")
    a = 0.9
    B = (1 - a) * np.linalg.solve(np.eye(n) - a * norm(A, "sym"), Y)
    for be, r in both(label_spreading, n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=LabelSpreadingSpec(alpha=a, max_iter=2000, tol=1e-7, normalize_rows=False)):
        R.step()
        R.check(np.allclose(r.F, B, rtol=2e-3, atol=1e-4), lambda: f"label spreading {be} does not converge to (1-a)(I-aS)^-1 Y: {tag} {y.tolist()} got={r.F.tolist()} want={B.tolist()}", "spread")


def k_prop(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            for j, (y, mask) in enumerate(labelings(n)):
                tag = (n, es, mode)
                if mode == "par" and j % 3:
                    continue
                for which in ("lp", "ls"):
                    for nm in ("rw", "sym"):
                        one_prop(R, n, ei, w, y, mask, which, nm, bool((j + (nm == "rw")) % 2) if n == 4 else True, tag)
                        if n == 3:
                            one_prop(R, n, ei, w, y, mask, which, nm, False, tag)
                if mode == "dist" and (n == 3 or j % 4 == len(es) % 4):
                    long_prop(R, n, ei, w, y, mask, tag)


def k_propdi(c, R):
    for es in pick(digraphs(True), c):
        for mode in ("none", "dist"):
            ei, w = di_edges(es, mode)
            for y, mask in labelings(3):
                for which in ("lp", "ls"):
                    for rows in (True, False):
                        one_prop(R, 3, ei, w, y, mask, which, "rw", rows, (es, mode))


# ---------------------------------------------------------------- harmonic, walk, cut
def k_harm(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            A = dense(n, ei, w)
            L = np.diag(A.sum(1)) - A
            for y, mask in labelings(n):
                K = int(y.max()) + 1
                Y = onehot(y, mask, K)
                ok = reach(A, mask).all()
                u = ~mask
                want = Y.copy()
                if ok and u.any():
                    want[u] = np.linalg.solve(L[np.ix_(u, u)], A[np.ix_(u, mask)] @ Y[mask])
                for be in ("numpy", "torch"):
                    R.step()
                    try:
                        r = laplace_learning(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, backend=be, device="cpu" if be == "torch" else None)
                    except ValueError as e:
                        R.check(not ok, lambda e=e: f"laplace_learning {be} refused a graph whose unlabelled nodes all reach a label: {es} {mode} {y.tolist()} {e}", "laplace-refuse")
                        continue
                    R.check(np.array_equal(r.F[mask], Y[mask]), "laplace learning moved a labelled node", "laplace-clamp")
                    if ok:
                        R.check(r.F.shape == (n, K) and np.allclose(r.F, want, rtol=1e-3, atol=1e-4), lambda: f"laplace_learning {be} is not the harmonic function: {es} {mode} {y.tolist()} got={r.F.tolist()} want={want.tolist()}", "laplace")
                R.state("harm", es, mode, y.tolist())
                R.outcome(want.round(5).tolist())


def binary(n):
    for r in range(2, n + 1):
        for lab in itertools.combinations(range(n), r):
            for v in itertools.product((0, 1), repeat=r):
                if len(set(v)) == 2:
                    y = np.full(n, -1, dtype=np.int64)
                    y[list(lab)] = v
                    yield y, y >= 0


def k_walk(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            if mode == "dist":      # a directed weighting is symmetrised by averaging; loops are ignored
                ei = np.concatenate([ei, [[0], [0]]], axis=1)
                w = np.concatenate([w, [3.0]])
                w[: w.size // 2] *= 1.5
            A = dense(n, ei, w)
            A = 0.5 * (A + A.T)
            np.fill_diagonal(A, 0.0)
            d = A.sum(1)
            for y, mask in binary(n):
                for alpha in (0.5, 0.99):
                    for be in ("numpy", "torch"):
                        R.step()
                        try:
                            r = lazy_random_walk(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=LazyRandomWalkSpec(alpha=alpha), backend=be, device="cpu" if be == "torch" else None)
                        except ValueError as e:
                            R.check((d <= 0).any(), lambda e=e: f"lazy_random_walk {be} refused a graph without isolated nodes: {es} {e}", "walk-refuse")
                            continue
                        R.check((d > 0).all(), f"lazy_random_walk {be} accepted an isolated node: {es}", "walk-accept")
                        S = A / np.sqrt(d[:, None] * d[None, :])
                        f = np.linalg.solve(np.eye(n) - alpha * S, np.where(mask, 2.0 * y - 1.0, 0.0))
                        sure = np.abs(f) > 1e-4 * max(1.0, np.abs(f).max())
                        want = (f > 0).astype(int)
                        R.check(r.F.shape == (n, 2) and np.allclose(r.F.sum(1), 1) and ((r.F == 0) | (r.F == 1)).all(), "lazy walk scores are not one-hot", "walk-onehot")
                        R.check((r.F.argmax(1) == want)[sure].all(), lambda: f"lazy_random_walk {be} alpha={alpha}: {es} {mode} {y.tolist()} got={r.F.argmax(1).tolist()} walk scores={f.tolist()}", "walk")
                        R.state("walk", es, mode, y.tolist(), alpha)
                        R.outcome(want.tolist())


def cut_one(R, n, ei, w, y, mask, spec, tag):
    r = graph_mincuts(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=spec)
    R.step()
    cap = np.maximum(np.rint((np.ones(ei.shape[1]) if w is None else w) * spec.capacity_scale), spec.min_capacity)
    free = np.flatnonzero(~mask)

    def cost(side):
        return float(cap[side[ei[0]] & ~side[ei[1]]].sum()) if ei.shape[1] else 0.0

    base = np.zeros(n, dtype=bool)
    base[mask] = y[mask] == y[mask].max()
    best = None
    for v in itertools.product((False, True), repeat=free.size):
        s = base.copy()
        s[free] = v
        k = cost(s)
        best = k if best is None else min(best, k)
    F = np.asarray(r.F)
    side = F[:, 1] == 1
    R.check(F.shape == (n, 2) and ((F == 0) | (F == 1)).all() and (F.sum(1) == 1).all(), "min-cut scores are not one-hot", "cut-onehot")
    R.check((side[mask] == base[mask]).all(), f"min cut moved a labelled node: {tag} {y.tolist()}", "cut-clamp")
    R.check(cost(side) == best, lambda: f"graph_mincuts returned a cut of capacity {cost(side)}, the minimum is {best}: {tag} {y.tolist()} side={side.tolist()}", "cut")
    R.state("cut", tag, y.tolist(), spec.capacity_scale)
    R.outcome(best, side.tolist())


CUTSPECS = [GraphMincutsSpec(), GraphMincutsSpec(capacity_scale=1.0), GraphMincutsSpec(capacity_scale=0.4, min_capacity=0)]


def k_cut(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            for y, mask in binary(n):
                for spec in CUTSPECS if mode == "dist" else CUTSPECS[:1]:
                    cut_one(R, n, ei, w, y, mask, spec, (n, es, mode))


def k_cutdi(c, R):
    for es in pick(digraphs(True), c):
        for mode in ("none", "dist"):
            ei, w = di_edges(es, mode)
            for y, mask in binary(3):
                for shift in (0, 1):
                    cut_one(R, 3, ei, w, np.where(mask, y + shift, -1), mask, CUTSPECS[0], (es, mode))


# ---------------------------------------------------------------- PDE
def k_poisson(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            A = dense(n, ei, w)
            if not es or not reach(A, np.arange(n) == 0).all():
                continue
            d = A.sum(1)
            regular = np.allclose(d, d[0])
            for y, mask in labelings(n):
                K = int(y.max()) + 1
                Y = onehot(y, mask, K)
                for center in (True, False):
                    B = np.where(mask[:, None], Y - Y[mask].mean(0), 0.0) if center else Y - Y.mean(0)
                    for kind in ("sym", "rw"):
                        M = np.eye(n) - norm(A, kind) + 1e-6 * np.eye(n) + np.ones((n, n)) / n
                        want = np.linalg.solve(M, B)
                        for be in ("numpy", "torch"):
                            if kind == "rw" and not regular and (be == "torch" or not center):
                                continue
                            R.step()
                            r = poisson_learning(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=PoissonLearningSpec(backend=be, laplacian_kind=kind, center_sources=center, max_iter=60))
                            key = "poisson-rw-irregular" if kind == "rw" and not regular else "poisson"
                            R.soft_check(r.F.shape == (n, K) and np.allclose(r.F, want, rtol=5e-3, atol=2e-3), lambda: f"poisson_learning {be} {kind} center={center} does not solve its system: {es} {mode} {y.tolist()} got={r.F.tolist()} want={want.tolist()}", key)
                R.state("poisson", es, mode, y.tolist())
                R.outcome(want.round(4).tolist())


def ref_mbo(A, Y, mask, K, s, b):
    d = A.sum(1)
    inv = np.where(d > 0, 1.0 / np.where(d > 0, d, 1), 0.0)
    ybar = Y[mask].mean(0)
    B = np.where(mask[:, None], Y - ybar, 0.0)
    U = np.zeros_like(Y)
    margin = np.inf

    def proj(V):
        nonlocal margin
        t = np.sort(V, axis=1)
        if K > 1:
            margin = min(margin, float((t[:, -1] - t[:, -2]).min()))
        o = np.zeros_like(V)
        o[np.arange(len(V)), V.argmax(1)] = 1.0
        return o

    for _ in range(s.T):
        U = U + inv[:, None] * (B - (d[:, None] * U - A @ U))
    U = U * (b / ybar)
    dt = 1.0 / d.max()
    for _ in range(s.Nouter):
        for _ in range(s.Ninner):
            U = U - dt * ((d[:, None] * U - A @ U) - s.mu * B)
        t = np.ones(K)
        for _ in range(s.n_volume_iters):
            t = np.clip(t + s.d_tau * (b - proj(U * t).mean(0)), s.smin, s.smax)
        U = proj(U * t)
    return U, margin


def k_mbo(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            if not es:
                continue
            ei, w = und_edges(n, es, mode)
            ei = np.concatenate([ei, [[1], [1]]], axis=1)      # a loop is dropped
            w = None if w is None else np.concatenate([w, [2.0]])
            for y, mask in labelings(n):
                K = int(y.max()) + 1
                Y = onehot(y, mask, K)
                full = (Y[mask].sum(0) > 0).all()
                for j, s in enumerate((PoissonMBOSpec(T=3, Ninner=2, Nouter=2, n_volume_iters=3, d_tau=0.5), PoissonMBOSpec(T=7, Ninner=1, Nouter=3, n_volume_iters=1, mu=2.0, b_strategy="labeled"),
                                       PoissonMBOSpec(T=2, Ninner=3, Nouter=1, n_volume_iters=2, smin=0.2, smax=3.0, symmetrize=False, b=np.arange(1.0, K + 1)))):
                    R.step()
                    try:
                        r = poisson_mbo(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=s)
                    except ValueError as e:
                        R.check(not full, lambda e=e: f"poisson_mbo refused: {es} {y.tolist()} {e}", "mbo-refuse")
                        continue
                    R.check(full, "poisson_mbo accepted a class without labelled nodes", "mbo-accept")
                    A = dense(n, ei, w)
                    np.fill_diagonal(A, 0.0)
                    if s.symmetrize:
                        A = A + A.T
                    b = {"uniform": np.full(K, 1.0 / K), "labeled": Y[mask].mean(0)}[s.b_strategy] if s.b is None else s.b / s.b.sum()
                    want, margin = ref_mbo(A, Y, mask, K, s, b)
                    R.check(r.F.shape == (n, K) and (r.F.sum(1) == 1).all() and ((r.F == 0) | (r.F == 1)).all(), "poisson_mbo scores are not one-hot", "mbo-onehot")
                    if margin > 1e-5:
                        R.check(np.array_equal(r.F, want), lambda: f"poisson_mbo spec {j} differs from its two-phase recurrence: {es} {mode} {y.tolist()} got={r.F.tolist()} want={want.tolist()}", "mbo")
                        R.count("mbo_judged")
                R.state("mbo", es, mode, y.tolist())


def softmax(F):
    e = np.exp(F - F.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def k_plap(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            ei = np.concatenate([ei, [[1], [1]]], axis=1)
            w = None if w is None else np.concatenate([w, [2.0]])
            A = dense(n, ei, w)
            np.fill_diagonal(A, 0.0)
            for y, mask in labelings(n):
                K = int(y.max()) + 1
                Y = onehot(y, mask, K)
                full = (Y[mask].sum(0) > 0).all()
                u = ~mask
                linked = not u.any() or A[np.ix_(u, mask)].any()
                ok = reach(A, mask).all()
                for p in (2.0, 3.0):
                    R.step()
                    try:
                        r = p_laplace_learning(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, spec=PLaplaceLearningSpec(p=p, max_iter=200))
                    except ValueError as e:
                        R.check(not full or not linked, lambda e=e: f"p-Laplace refused: {es} {y.tolist()} {e}", "plap-refuse")
                        continue
                    R.check(full and linked, f"p-Laplace accepted labels without every class or link: {es} {y.tolist()}", "plap-accept")
                    R.check(np.array_equal(r.F[mask], Y[mask]), "p-Laplace moved a labelled node", "plap-clamp")
                    R.check(np.isfinite(r.F).all() and np.allclose(r.F.sum(1), 1, atol=1e-5), lambda: f"p-Laplace rows are not probabilities: {es} {y.tolist()} {r.F.tolist()}", "plap-rows")
                    if not ok or not u.any() or K == 1:
                        continue
                    if p == 2.0:
                        L = np.diag(A.sum(1)) - A
                        H = np.linalg.solve(L[np.ix_(u, u)], A[np.ix_(u, mask)] @ Y[mask])
                        R.check(np.allclose(r.F[u], softmax(H), atol=1e-3), lambda: f"p-Laplace p=2 is not the harmonic function: {es} {mode} {y.tolist()} got={r.F[u].tolist()} want={softmax(H).tolist()}", "plap2")
                    elif K == 2:
                        v = np.where(mask, Y[:, 1], 0.0)
                        v[u] = (np.log(r.F[u, 1] / r.F[u, 0]) + 1) / 2
                        diff = v[:, None] - v[None, :]
                        grad = (A * np.abs(diff) ** (p - 2) * diff).sum(1)[u]
                        scale = (A * np.abs(diff) ** (p - 1)).sum(1)[u].max() + 1e-9
                        R.check((np.abs(grad) <= 2e-2 * scale + 1e-3).all(), lambda: f"p-Laplace p=3 is not a critical point: {es} {mode} {y.tolist()} u={v.tolist()} gradient={grad.tolist()}", "plap3")
                        R.count("p3_judged")
                R.state("plap", es, mode, y.tolist())


# ---------------------------------------------------------------- dynamic label propagation
def ref_dlp(A, Y, mask, k, alpha, lam, T):
    n = len(A)
    A = 0.5 * (A + A.T)
    np.fill_diagonal(A, 0.0)
    P0 = A / A.sum(1, keepdims=True)
    P = P0
    tie = False
    if k < n:
        P = np.zeros_like(P0)
        for i in range(n):
            o = sorted((j for j in range(n) if j != i), key=lambda j: -P0[i, j])
            if k < len(o) and abs(P0[i, o[k - 1]] - P0[i, o[k]]) < 1e-6 and P0[i, o[k]] > 0:
                tie = True
            P[i, o[:k]] = P0[i, o[:k]] / P0[i, o[:k]].sum()
    Pt, Yt = P0.copy(), Y.copy()
    for _ in range(T):
        Yn = Pt @ Yt
        Yn[mask] = Y[mask]
        Pt = P @ (Pt + alpha * Yt @ Yt.T) @ P.T + lam * np.eye(n)
        Yt = Yn
    return Yt, tie


def k_dlp(c, R):
    n = c["n"]
    for es in pick(undirected(n), c):
        for mode in ("none", "dist", "par"):
            ei, w = und_edges(n, es, mode)
            A = dense(n, ei, w)
            for y, mask in labelings(n):
                K = int(y.max()) + 1
                Y = onehot(y, mask, K)
                for k, alpha, lam, T in ((10, 0.05, 0.1, 1), (10, 0.5, 0.0, 3), (2, 0.05, 0.1, 4), (1, 0.3, 0.2, 3), (n, 0.05, 0.1, 5)):
                    for be in ("numpy", "torch"):
                        R.step()
                        try:
                            r = dynamic_label_propagation(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=mask, backend=be, device="cpu" if be == "torch" else None,
                                                          spec=DynamicLabelPropagationSpec(k_neighbors=k, alpha=alpha, lambda_value=lam, max_iter=T))
                        except ValueError as e:
                            R.check((A.sum(1) == 0).any(), lambda e=e: f"dynamic_label_propagation {be} refused: {es} {e}", "dlp-refuse")
                            continue
                        R.check((A.sum(1) > 0).all(), "dynamic label propagation accepted an isolated node", "dlp-accept")
                        want, tie = ref_dlp(A.copy(), Y, mask, k, alpha, lam, T)
                        R.check(np.array_equal(r.F[mask], Y[mask]), "dynamic label propagation moved a labelled node", "dlp-clamp")
                        if not tie and np.abs(want).max() < 1e30:
                            R.check(np.allclose(r.F, want, rtol=1e-3, atol=1e-4), lambda: f"dynamic_label_propagation {be} k={k} alpha={alpha} lambda={lam} T={T}: {es} {mode} {y.tolist()} got={r.F.tolist()} want={want.tolist()}", "dlp")
                R.state("dlp", es, mode, y.tolist())


def k_dlpfinite(c, R):
    """Scores from the default settings are numbers."""
    for n in (2, 3, 4):
        for es in pick(undirected(n), c):
            ei, w = und_edges(n, es, "none")
            A = dense(n, ei, w)
            if (A.sum(1) == 0).any():
                continue
            y = np.asarray([0, 1] + [-1] * (n - 2))
            r = dynamic_label_propagation(n_nodes=n, edge_index=ei, edge_weight=w, y=y, labeled_mask=y >= 0, backend="numpy")
            R.step()
            R.state("fin", n, es)
            R.soft_check(np.isfinite(r.F).all(), f"dynamic_label_propagation with its default settings returns non-finite scores on {n} nodes, edges {es}: {r.F.tolist()}", "dlp-default-overflow")


# ---------------------------------------------------------------- operators and solvers
def k_ops(c, R):
    gs = [(3, *di_edges(es, m), True) for es in digraphs(True) for m in ("none", "dist")]
    gs += [(4, *und_edges(4, es, m), False) for es in undirected(4) for m in ("dist", "par")]
    for n, ei, w, di in pick(gs, c):
        A = dense(n, ei, w)
        X = np.asarray([[1.0, -2.0], [0.5, 3.0], [-1.5, 0.25], [2.0, 1.0]], dtype=np.float32)[:n]
        R.state("ops", n, ei.tolist(), None if w is None else w.tolist())
        for x in (X, X[:, 0]):
            R.step()
            for nm, o in (("numpy", spmm_numpy(n_nodes=n, edge_index=ei, edge_weight=w, X=x)), ("torch", spmm_torch(n_nodes=n, edge_index=ei, edge_weight=w, X=x, device=CPU).numpy())):
                R.check(o.shape == x.shape and np.allclose(o, A @ x, rtol=1e-5, atol=1e-5), lambda: f"spmm {nm} is not A[dst,src] @ X: {ei.tolist()} {w} got={o.tolist()}", "spmm")
        for mode in ("none", "rw", "sym"):
            if mode == "sym" and di:
                continue
            R.step()
            d = np.maximum(A.sum(1), 1e-12)
            base = np.ones(ei.shape[1]) if w is None else w
            want = {"none": base, "rw": base / d[ei[1]], "sym": base / np.sqrt(d[ei[0]] * d[ei[1]])}[mode]
            for nm, o in (("numpy", normalize_edges_numpy(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode)), ("torch", normalize_edges_torch(n_nodes=n, edge_index=ei, edge_weight=w, mode=mode, device=CPU).numpy())):
                R.check(o.shape == want.shape and np.allclose(o, want, rtol=1e-5, atol=1e-6), lambda: f"normalize_edges {nm} {mode}: {ei.tolist()} {w} got={o.tolist()} want={want.tolist()}", "normalize")
            if mode != "none":
                S = norm(A, mode)
                x = X[:, 1]
                for nm, o in (("numpy", laplacian_matvec_numpy(n_nodes=n, edge_index=ei, edge_weight=w, kind=mode)(x)), ("torch", laplacian_matvec_torch(n_nodes=n, edge_index=ei, edge_weight=w, kind=mode, device=CPU)(torch.tensor(x)).numpy())):
                    R.check(np.allclose(o, x - S @ x, rtol=1e-4, atol=1e-5), lambda: f"laplacian {nm} {mode}: {ei.tolist()} got={o.tolist()}", "laplacian")
            if n == 3 or ei.shape[1] % 4 == 0:
                for y, mask in labelings(n, 2):
                    if y.max() > 1:
                        continue
                    Y = onehot(y, mask, 2).astype(np.float32)
                    S = norm(A, mode) if mode != "none" else A
                    for rows in (False, True):
                        for T in (1, 3):
                            F = Y.astype(float)
                            for _ in range(T):
                                F = 0.7 * (S @ F) + 0.3 * Y
                                F[mask] = Y[mask]
                                if rows:
                                    F = F / np.maximum(F.sum(1, keepdims=True), 1e-12)
                            R.step()
                            kw = dict(n_nodes=n, edge_index=ei, edge_weight=w, Y=Y, train_mask=mask, alpha=0.7, max_iter=T, tol=-1.0, normalize_rows=rows, norm_mode=mode)
                            a = fixed_point_diffusion_numpy(**kw)
                            b = fixed_point_diffusion_torch(**kw, device=CPU)
                            R.check(np.allclose(a.F, F, **TOL) and a.n_iter == T and np.allclose(b["F"].numpy(), F, **TOL) and b["n_iter"] == T,
                                    lambda: f"fixed-point diffusion {mode} rows={rows} T={T}: {ei.tolist()} {y.tolist()} numpy={a.F.tolist()} torch={b['F'].tolist()} want={F.tolist()}", "fixed-point")


def k_cg(c, R):
    mats = []
    for v in itertools.product((-1.0, 0.0, 1.0), repeat=4):
        B = np.asarray(v).reshape(2, 2)
        mats.append(B @ B.T + 0.5 * np.eye(2))
    for v in itertools.product((-1.0, 0.0, 2.0), repeat=6):
        B = np.zeros((3, 3))
        B[np.tril_indices(3)] = v
        mats.append(B @ B.T + np.eye(3))
    for M in pick(mats, c):
        n = len(M)
        for b in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            b = np.asarray(b)
            want = np.linalg.solve(M, b)
            for x0 in (None, np.arange(1.0, n + 1), want):
                R.step()
                r = cg_solve_numpy(matvec=lambda x: M @ x, b=b, x0=x0, tol=1e-8, max_iter=60)
                Mt = torch.tensor(M)
                x, info = cg_solve_torch(matvec=lambda x: Mt @ x, b=torch.tensor(b), device=CPU, x0=None if x0 is None else torch.tensor(x0), tol=1e-8, max_iter=60)
                for nm, sol, conv, it, res in (("numpy", r.x, r.converged, r.n_iter, r.residual_norm), ("torch", x.numpy(), info["converged"], info["n_iter"], info["residual_norm"])):
                    R.check(np.allclose(sol, want, rtol=1e-4, atol=1e-5), lambda: f"cg {nm} M={M.tolist()} b={b.tolist()} x0={x0} got={sol.tolist()} want={want.tolist()}", "cg")
                    R.check(res <= 1e-6 and (not conv or res <= 1e-8) and it <= 60, f"cg {nm} reports converged={conv} n_iter={it} residual={res}", "cg-info")
                one = cg_solve_numpy(matvec=lambda x: M @ x, b=b, x0=x0, tol=1e-12, max_iter=1)
                R.check(one.n_iter <= 1 and (not one.converged or np.allclose(one.x, want, atol=1e-5)), "cg ignored max_iter or claimed convergence", "cg-cap")
            R.state("cg", M.tolist(), b.tolist())


def k_clamp(c, R):
    for n in (1, 2, 3):
        for y in itertools.product((-1, 0, 1, 2, 3), repeat=n):
            for K in (1, 2, 3):
                for dt in (np.int64, np.int32, np.float64):
                    R.step()
                    a = np.asarray(y, dtype=dt)
                    try:
                        o = labels_to_onehot(a, n_classes=K)
                    except ValueError:
                        R.check(max(y) >= K, f"labels_to_onehot refused {y} K={K}", "onehot-refuse")
                        continue
                    R.check(max(y) < K, f"labels_to_onehot accepted {y} K={K}", "onehot-accept")
                    R.check(o.shape == (n, K) and np.array_equal(o, [[float(k == v) for k in range(K)] for v in y]), f"labels_to_onehot {y} K={K}: {o.tolist()}", "onehot")
            R.state("oh", y)
    F0 = np.asarray([[0.25, 0.5], [3.0, -1.0], [0.0, 0.0]])
    Y0 = np.asarray([[1.0, 0.0], [0.0, 1.0], [1.0, 0.0]])
    for mask in itertools.product((False, True), repeat=3):
        F, Y = F0.copy(), Y0.copy()
        o = hard_clamp(F, Y, np.asarray(mask))
        R.step()
        R.check(np.array_equal(o, np.where(np.asarray(mask)[:, None], Y0, F0)) and np.array_equal(F, F0), f"hard_clamp {mask}: {o.tolist()}", "hard-clamp")
        R.state("hc", mask)
    o = row_normalize(np.asarray([[1.0, 3.0], [0.0, 0.0], [2.0, 0.0]]))
    R.check(np.allclose(o, [[0.25, 0.75], [0, 0], [1, 0]]), f"row_normalize {o.tolist()}", "row-normalize")
    R.check(numpy_backend is not None and torch_backend is not None, "backends", "be")
