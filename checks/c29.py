"""Transductive methods: blind to hidden labels, functions of (data, seed), GNN forward passes, model selection, reuse, validation."""
import copy
import dataclasses
import itertools
import logging
import random
import warnings
from types import SimpleNamespace

import numpy as np
import torch
from modssc.transductive.adapters.pyg import to_pyg_data
from modssc.transductive.errors import TransductiveValidationError
from modssc.transductive.registry import available_methods, get_method_class, get_method_info
from modssc.transductive.types import DeviceSpec
from modssc.transductive.validation import validate_node_dataset

PID = "C29"
BOUNDS = {
    "quick": "all undirected graphs on 4 nodes x 4 label/mask patterns x every hidden labelling, 23 methods; every sequence of 4 fit/predict/edit operations over three datasets; every digraph with "
             "loops on 3 nodes and undirected graph on 4 x 3 weightings for forward passes; validation curves of every length up to 6 epochs x patience 1..3; about 4000 malformed datasets",
    "thorough": "as quick with sequences of 5 operations and 8 epochs",
}
ASSUMPTIONS = ["the set of class ids present in y is the same whatever the hidden labels (it sets the number of columns)", "CPU, one thread", "poisson_mbo with b_strategy='true' uses class priors by design",
               "an object asked to predict on the very objects it was fitted on may use its cached copy"]
CASE_TIMEOUT = 800
SCORES = {"poisson_learning", "dynamic_label_propagation"}     # answer with unnormalised class scores
BINARY = {"tsvm", "graph_mincuts", "lazy_random_walk"}
TINY = dict(epochs_per_iter=1, hidden_dim=8, max_epochs=3, num_layers=3, embedding_dim=4, num_walks=2, walk_length=4, window_size=2, epochs=2, batch_size=8, sup_batch_size=2, num_negative=2, K=2, r=1,
            channels=2, weight_embed_dim=2, heads=2, head_dim=3, hidden_dims=(6, 5), T=10, Ninner=4, Nouter=3, n_volume_iters=5, prop_steps=2, num_samples=2, k=2)


def setup(tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)


def make(mid, **over):
    cls = get_method_class(mid)
    spec = cls().spec if hasattr(cls(), "spec") else None
    names = {f.name for f in dataclasses.fields(spec)}
    kw = {k: v for k, v in TINY.items() if k in names}
    if mid == "dynamic_label_propagation":
        kw["max_iter"] = 3
    if mid == "graphhop":
        kw["max_iter"] = 2
    if mid == "gcnii":
        kw["num_layers"] = 2
    if mid in ("tsvm", "p_laplace_learning"):
        kw["max_iter"] = 3
        kw.pop("k", None)
    kw.update({k: v for k, v in over.items() if k in names})
    return cls(dataclasses.replace(spec, **kw))


def features(n, d=3, salt=0):
    return np.asarray([[np.sin(1.0 + 2.3 * i + 1.7 * j + salt) for j in range(d)] for i in range(n)], dtype=np.float32)


def dataset(n, ei, w, y, masks, *, salt=0, truth=None, x64=False):
    X = features(n, salt=salt)
    return SimpleNamespace(X=X.astype(np.float64) if x64 else X, y=np.asarray(y, dtype=np.int64), graph=SimpleNamespace(edge_index=np.asarray(ei, dtype=np.int64).reshape(2, -1), edge_weight=w),
                           masks={k: np.asarray(v, dtype=bool) for k, v in masks.items()}, meta={} if truth is None else {"y_true": np.asarray(truth, dtype=np.int64)})


def und(n, m):
    pairs = list(itertools.combinations(range(n), 2))
    es = [e for i, e in enumerate(pairs) if m >> i & 1]
    return np.asarray([[a for a, _ in es] + [b for _, b in es], [b for _, b in es] + [a for a, _ in es]], dtype=np.int64).reshape(2, -1)


def snapshot(d):
    return copy.deepcopy((d.X, d.y, d.graph.edge_index, d.graph.edge_weight, d.masks, d.meta))


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.asarray(a).dtype == np.asarray(b).dtype and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


_tick = [0]


def scramble():
    """Put every global random state somewhere else."""
    _tick[0] += 1
    torch.manual_seed(1000 + _tick[0])
    np.random.seed((77 + _tick[0]) % 2**31)
    random.seed(5 + _tick[0])


def attempt(f):
    scramble()
    try:
        return ("ok", f())
    except Exception as e:  # noqa: BLE001 - the same refusal is expected from every run
        return ("err", type(e).__name__)


def fitted(mid, d, seed=3, obj=None, **over):
    """Outcome of fit + predict_proba, and the object."""
    m = obj or make(mid, **over)
    r = attempt(lambda: m.fit(d, device="cpu", seed=seed))
    if r[0] == "err":
        return r, m
    if r[1] is not m:
        return ("err", "fit did not return self"), m
    return attempt(lambda: m.predict_proba(d)), m


def eq(a, b):
    return a[0] == b[0] and (same(a[1], b[1]) if a[0] == "ok" else a[1] == b[1])


# ---------------------------------------------------------------- blind
PATTERNS = {
    # labels of train / val nodes; nodes absent are hidden
    "two": ({0: 0, 1: 1}, {}, 2),
    "val": ({0: 0, 1: 1}, {2: 1}, 2),
    "three": ({0: 0, 1: 1, 2: 2}, {}, 3),
    "rev": ({0: 1, 1: 0, 2: 1}, {}, 2),
}


def blind(case, R):
    mid, pat = case["mid"], case["pat"]
    tr, va, k = PATTERNS[pat]
    n = 4
    hid = [i for i in range(n) if i not in tr and i not in va]
    masks = {"train_mask": [i in tr for i in range(n)], "val_mask": [i in va for i in range(n)], "test_mask": [i in hid for i in range(n)], "unlabeled_mask": [i not in tr for i in range(n)]}
    for g in range(64):
        if g % case["parts"] != case["part"]:
            continue
        ei = und(n, g)
        w = None if g % 3 == 0 else np.asarray([1.0 + 0.5 * (i % (ei.shape[1] // 2 or 1)) for i in range(ei.shape[1])], dtype=np.float32)
        ref, shared = None, make(mid)
        for c, vals in enumerate(itertools.product([-1] + list(range(k)), repeat=len(hid))):
            y = np.full(n, -1, dtype=np.int64)
            for i, v in {**tr, **va}.items():
                y[i] = v
            y[hid] = vals
            truth = None if c % 2 else np.where(y < 0, 0, y)
            d = dataset(n, ei, w, y, masks, truth=truth)
            before = snapshot(d)
            R.state(("blind", mid, pat, g, tuple(y.tolist())))
            out, m = fitted(mid, d, obj=shared if c % 3 == 2 else None)
            R.step()
            R.check(same(before, snapshot(d)), f"{mid}: fit/predict modified its input (graph {g}, y={y.tolist()})", key="mutated")
            if out[0] == "ok":
                p = out[1]
                R.outcome("fitted")
                R.check(isinstance(p, np.ndarray) and p.shape == (n, k), f"{mid}: predict_proba shape {getattr(p, 'shape', None)} for {n} nodes and {k} classes", key="shape")
                R.check(bool(np.isfinite(p).all()) and (mid in SCORES or bool((p >= -1e-6).all())), f"{mid}: non-finite or negative probabilities on graph {g}, y={y.tolist()}: {p.tolist()}", key="finite")
                s = p.sum(1)
                R.check(mid in SCORES or bool(np.all((np.abs(s - 1) < 1e-4) | ((s == 0) & (mid not in GNN)))), f"{mid}: rows do not sum to one (graph {g}, y={y.tolist()}): {p.tolist()}", key="rows")
                again = attempt(lambda: m.predict_proba(d))
                R.check(eq(out, again), f"{mid}: a second predict_proba differs", key="idempotent")
            else:
                R.outcome("refused:" + out[1])
            if ref is None:
                ref, y0 = out, y.tolist()
            else:
                R.check(eq(ref, out), f"{mid}: result depends on hidden labels, global random state or earlier fits: graph edges {ei.tolist()}, y={y0} vs {y.tolist()}: {ref} vs {out}", key="blind")
        # another seed gives its own reproducible answer
        a, _ = fitted(mid, d, seed=11)
        b, _ = fitted(mid, d, seed=11)
        R.check(eq(a, b), f"{mid}: two fits with seed 11 differ under different global random states (graph {g})", key="seed")


# ---------------------------------------------------------------- histories on one object
def ring(n):
    return np.asarray([[i for i in range(n)] + [(i + 1) % n for i in range(n)], [(i + 1) % n for i in range(n)] + [i for i in range(n)]])


def named(name):
    if name == "A":
        return dataset(4, ring(4), None, [0, 1, -1, -1], {"train_mask": [1, 1, 0, 0], "unlabeled_mask": [0, 0, 1, 1]})
    if name == "B":
        return dataset(4, ring(4)[:, [0, 1, 4, 5]], np.asarray([1.0, 2.0, 1.0, 2.0], dtype=np.float32), [1, -1, 0, -1], {"train_mask": [1, 0, 1, 0], "unlabeled_mask": [0, 1, 0, 1]}, salt=2)
    return dataset(5, ring(5), None, [0, 1, -1, -1, 1], {"train_mask": [1, 1, 0, 0, 1], "unlabeled_mask": [0, 0, 1, 1, 0]}, salt=4)


def edit(d, e):
    """Change dataset A in place, keeping every object."""
    if e == "y":
        d.y[0], d.y[1] = d.y[1], d.y[0]
    elif e == "mask":
        d.masks["train_mask"] = np.asarray([0, 1, 1, 0], dtype=bool)
        d.y[2] = 0
    elif e == "edges":
        d.graph.edge_index[:] = np.asarray([[0, 1, 2, 3, 0, 1, 2, 3], [0, 3, 2, 1, 0, 3, 2, 1]])
    else:
        d.X[:] = features(4, salt=9)


def histories(case, R):
    mid = case["mid"]
    fresh = {}
    for f in "ABC":
        m = make(mid)
        r = attempt(lambda: m.fit(named(f), device="cpu", seed=3))
        for q in "ABC":
            fresh[f, q] = r if r[0] == "err" else attempt(lambda: m.predict_proba(named(q)))
    for q in "ABC":
        r = attempt(lambda: make(mid).predict_proba(named(q)))
        R.check(r[0] == "err", f"{mid}: predict_proba before fit returned {r[1]}", key="unfitted")
        R.step()
    ops = [("fit", x) for x in "ABC"] + [("ask", x) for x in "ABC"]
    for keep in (False, True):
        for seq in itertools.product(ops, repeat=case["depth"]):
            if seq[0][0] != "fit" or seq[-1][0] != "ask" or (seq[0][1] == "C" and keep):
                continue
            held = {x: named(x) for x in "ABC"} if keep else None
            m, last = make(mid), None
            for op, x in seq:
                d = held[x] if keep else named(x)
                if op == "fit":
                    r = attempt(lambda: m.fit(d, device="cpu", seed=3))
                    last = x
                    if r[0] == "err":
                        last = None
                        break
                else:
                    r = attempt(lambda: m.predict_proba(d))
                    R.check(eq(r, fresh[last, x]), f"{mid}: after {seq} (datasets {'kept' if keep else 'rebuilt'}) predict_proba({x}) = {r}, a fresh object fitted on {last} gives {fresh[last, x]}", key="history")
                del d
                R.step()
            R.outcome("sequence")
            R.state(("seq", mid, keep, seq))
    for x64 in (False, True):
        for es in itertools.product(("y", "mask", "edges", "X"), repeat=2):
            for ask in (False, True):
                d, m = named("A"), make(mid)
                if x64:
                    d.X = d.X.astype(np.float64)
                r = attempt(lambda: m.fit(d, device="cpu", seed=3))
                for e in es:
                    if ask and r[0] == "ok":
                        attempt(lambda: m.predict_proba(d))
                    edit(d, e)
                    r = attempt(lambda: m.fit(d, device="cpu", seed=3))
                    got = attempt(lambda: m.predict_proba(d)) if r[0] == "ok" else r
                    m2, d2 = make(mid), copy.deepcopy(d)
                    r2 = attempt(lambda: m2.fit(d2, device="cpu", seed=3))
                    want = attempt(lambda: m2.predict_proba(d2)) if r2[0] == "ok" else r2
                    R.check(eq(got, want), f"{mid}: refit after in-place edits {es} ({e}) gives {got}, a fresh object on equal data {want}", key="refit-edit")
                    R.step()


# ---------------------------------------------------------------- model selection
def selection(case, R):
    """With validation nodes, the result is the one of the best epoch; training stops after `patience` epochs without improvement."""
    mid, E = case["mid"], case["epochs"]
    n = 5
    for g, (val, yv) in itertools.product(range(0, 1024, 93), (([3], [0]), ([3], [1]), ([3, 4], [0, 1]), ([2, 4], [1, 1]))):
        ei = und(n, g)
        y = np.asarray([0, 1, 0, 0, 1])
        for i, v in zip(val, yv):
            y[i] = v
        tr = [i in (0, 1) for i in range(n)]
        vm = [i in val for i in range(n)]
        for lr in (0.3, 2.0):
            def run(epochs, patience, withval):
                d = dataset(n, ei, None, y, {"train_mask": tr, "val_mask": vm if withval else [False] * n})
                return fitted(mid, d, lr=lr, max_epochs=epochs, patience=patience, dropout=0.2, mlp_dropout=0.2)[0]
            outs = [run(e, 99, False) for e in range(1, E + 1)]
            if outs[0][0] == "err":
                R.outcome("refused")
                continue
            if mid == "grafn":
                acc = [float(np.mean(o[1].argmax(1)[val] == y[val])) for o in outs]
                score = [-a for a in acc]
            else:
                score = [float(np.mean([-np.log(max(o[1][i, y[i]], 1e-45)) for i in val])) for o in outs]
            gaps = [abs(a - b) for a, b in itertools.combinations(score, 2)]
            if mid != "grafn" and (gaps and min(gaps) < 1e-6 or max(score) > 30):
                R.outcome("tie")
                continue
            for patience in (1, 2, 3):
                for e in range(1, E + 1):
                    best, bad, stop = None, 0, None
                    for t in range(e):
                        if best is None or score[t] < score[best] - 1e-9:
                            best, bad = t, 0
                        else:
                            bad += 1
                            if bad >= patience:
                                stop = t
                                break
                    got = run(e, patience, True)
                    R.step()
                    R.state(("sel", mid, g, tuple(val), tuple(yv), lr, patience, e))
                    R.outcome("stopped" if stop is not None else "ran")
                    R.check(eq(got, outs[best]), f"{mid}: {e} epochs, patience {patience}, validation scores {score}: expected the parameters of epoch {best}, got {got} (per-epoch results {outs})", key="selection")


# ---------------------------------------------------------------- forward passes
def params(m):
    mods = [v for v in vars(m).values() if isinstance(v, torch.nn.Module)]
    return None if len(mods) != 1 else [p.detach().numpy().astype(np.float64) for p in mods[0].parameters()]


def dense(n, ei, w):
    A = np.zeros((n, n))
    np.add.at(A, (ei[1], ei[0]), np.ones(ei.shape[1]) if w is None else np.asarray(w, dtype=np.float64))
    return A


def norm(A, mode):
    d = np.maximum(A.sum(1), 1e-12)
    return A / d[:, None] if mode == "rw" else A / np.sqrt(d[:, None] * d[None, :])


def relu(x):
    return np.maximum(x, 0)


def softmax(x):
    e = np.exp(x - x.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def ref_gcn(P, A, X, s):
    S = norm(A, "sym")
    return S @ (relu(S @ (X @ P[0].T + P[1])) @ P[2].T + P[3])


def ref_sgc(P, A, X, s):
    S = norm(A, "sym")
    return np.linalg.matrix_power(S, s.k) @ X @ P[0].T + P[1]


def mlp(P, X):
    return relu(X @ P[0].T + P[1]) @ P[2].T + P[3]


def ref_appnp(P, A, X, s):
    S, h0 = norm(A, "rw"), mlp(P, X)
    h = h0
    for _ in range(s.k):
        h = (1 - s.alpha) * S @ h + s.alpha * h0
    return h


def ref_cheb(P, A, X, s):
    L = -norm(A, "sym")
    k = s.k
    h = X
    for layer in range(2):
        b, W = P[layer * (k + 2)], P[layer * (k + 2) + 1:(layer + 1) * (k + 2)]
        T = [np.eye(len(A)), L]
        for _ in range(2, k + 1):
            T.append(2 * L @ T[-1] - T[-2])
        h = sum(T[i] @ h @ W[i].T for i in range(k + 1)) + b
        h = relu(h) if layer == 0 else h
    return h


def ref_sage(P, A, X, s):
    S = norm(A, "rw")
    h = relu(np.hstack([X, S @ X]) @ P[0].T + P[1])
    return np.hstack([h, S @ h]) @ P[2].T + P[3]


def ref_gcnii(P, A, X, s):
    S = norm(A, "sym")
    h0 = h = relu(X @ P[0].T + P[1])
    for i in range(1, s.num_layers + 1):
        h = (1 - s.alpha) * S @ h + s.alpha * h0
        b = np.log(s.lam / i + 1)
        h = relu((1 - b) * h + b * (h @ P[2 * i].T + P[2 * i + 1]))
    return h @ P[-2].T + P[-1]


def ref_gat(P, A, X, s):
    M = A != 0
    h = X
    for layer, (heads, concat) in enumerate(((s.heads, True), (1, False))):
        a_src, a_dst, b, W = P[4 * layer:4 * layer + 4]
        z = (h @ W.T).reshape(len(A), heads, -1)
        outs = []
        for k in range(heads):
            e = (z[:, k] @ a_dst[k])[:, None] + (z[:, k] @ a_src[k])[None, :]
            e = np.where(e > 0, e, s.negative_slope * e)
            al = np.where(M, np.exp(np.where(M, e, 0)), 0)
            al = al / np.maximum(al.sum(1, keepdims=True), 1e-300)
            outs.append(al @ z[:, k])
        h = np.hstack(outs) + b if concat else np.mean(outs, axis=0) + b
        h = np.where(h > 0, h, np.expm1(np.minimum(h, 0))) if layer == 0 else h
    return h


def ref_grand(P, A, X, s):
    return mlp(P, np.linalg.matrix_power(norm(A, "rw"), s.prop_steps) @ X)


def ref_ngcn(P, A, X, s):
    A = A.copy()
    S = norm(A, "sym")
    P = list(P)
    att = P.pop(0) if s.classifier == "attention" else None
    outs = []
    for k in range(s.K):
        Sk = np.linalg.matrix_power(S, k)
        for _ in range(s.r):
            h = X
            for layer in range(s.gcn_layers):
                W, b = P.pop(0), P.pop(0)
                h = Sk @ h @ W.T + b
                h = relu(h) if layer < s.gcn_layers - 1 else h
            outs.append(h)
    if att is None:
        return np.hstack(outs) @ P[0].T + P[1]
    e = np.exp(att - att.max())
    return sum(w * o for w, o in zip(e / e.sum(), outs))


REFS = {"gcn": (ref_gcn, True), "sgc": (ref_sgc, True), "appnp": (ref_appnp, True), "chebnet": (ref_cheb, True), "graphsage": (ref_sage, False), "gcnii": (ref_gcnii, True), "gat": (ref_gat, True),
        "grand": (ref_grand, True), "n_gcn": (ref_ngcn, True)}
GNN = set(REFS) | {"grafn", "graphhop", "h_gcn", "planetoid"}
VARIANTS = {"gcn": [{}], "sgc": [{"k": 0}, {"k": 1}, {"k": 3}], "appnp": [{"k": 1}, {"k": 3, "alpha": 0.4}], "chebnet": [{"k": 1}, {"k": 3}], "graphsage": [{}], "gcnii": [{"num_layers": 1}, {"num_layers": 3, "alpha": 0.3}],
            "gat": [{}, {"heads": 1}], "grand": [{"prop_steps": 0}, {"prop_steps": 1}, {"prop_steps": 3}], "n_gcn": [{"r": 2}, {"K": 3, "classifier": "attention"}, {"gcn_layers": 3}]}


def graphs3():
    pairs = [(a, b) for a in range(3) for b in range(3)]
    for m in range(512):
        es = [e for i, e in enumerate(pairs) if m >> i & 1]
        yield 3, np.asarray([[a for a, _ in es], [b for _, b in es]], dtype=np.int64).reshape(2, -1)


def graphs4():
    for m in range(64):
        yield 4, und(4, m)


def weightings(ei):
    E = ei.shape[1]
    yield ei, None
    und_id = {}
    w = np.asarray([1.0 + 0.6 * und_id.setdefault((min(a, b), max(a, b)), len(und_id)) for a, b in ei.T], dtype=np.float32).reshape(E)
    yield ei, w
    if E:      # parallel edges: each edge split in two, in another order
        yield np.concatenate([ei[:, ::-1], ei], axis=1), np.concatenate([0.25 * w[::-1], 0.75 * w]).astype(np.float32)


def forward(case, R):
    mid = case["mid"]
    ref, loops = REFS[mid]
    for gi, (n, ei0) in enumerate(itertools.chain(graphs3(), graphs4())):
        if gi % case["parts"] != case["part"]:
            continue
        sym = np.array_equal(dense(n, ei0, None), dense(n, ei0, None).T)
        if mid == "n_gcn" and not (sym and (ei0[0] != ei0[1]).all()):
            continue
        for ei, w in weightings(ei0):
            for over in VARIANTS[mid]:
                for self_loops in (True, False):
                    if mid == "gat" and not self_loops and ei.shape[1] != ei0.shape[1]:
                        continue
                    d = dataset(n, ei, w, [0, 1, 1, -1][:n], {"train_mask": [True, True, False, False][:n]}, salt=gi)
                    out, m = fitted(mid, d, lr=0.0, max_epochs=1, add_self_loops=self_loops, dropout=0.3, mlp_dropout=0.3, **over)
                    R.step()
                    R.state(("fwd", mid, gi, ei.shape[1], w is None, str(over), self_loops))
                    if out[0] == "err":
                        R.check(False, f"{mid}: refused graph {ei.tolist()}: {out}", key="forward-error")
                        continue
                    P = params(m)
                    try:
                        A = dense(n, ei, w) + (np.eye(n) if self_loops else 0)
                        want = softmax(ref(P, A, d.X.astype(np.float64), m.spec))
                    except Exception:  # noqa: BLE001 - parameters laid out differently: judged by the other cases only
                        R.outcome("unjudged")
                        continue
                    R.outcome("forward")
                    R.check(out[1].shape == want.shape and np.allclose(out[1], want, atol=2e-4), f"{mid}({over}, loops={self_loops}): edges {ei.tolist()} weights {None if w is None else w.tolist()}: {out[1].tolist()} vs dense reference {want.tolist()}", key="forward")


def invariance(case, R):
    """Edge order, edge splitting and unit weights do not matter; without training, node numbering does not either (methods whose start does not depend on it)."""
    mid = case["mid"]
    kw = dict(lr=0.0, max_epochs=1, drop_edge_strong=0.0, drop_edge_weak=0.0) if mid in GNN else {}
    n = 4
    tr = [True, True, False, False]
    for g in range(64):
        if g % case["parts"] != case["part"]:
            continue
        ei = und(n, g)
        E = ei.shape[1]
        w = np.asarray([1.0 + 0.6 * (i % (E // 2 or 1)) for i in range(E)], dtype=np.float32)
        def run(ei_, w_, y=(0, 1, -1, -1), tr_=tr, X=None):
            d = dataset(n, ei_, w_, y, {"train_mask": tr_, "unlabeled_mask": ~np.asarray(tr_)})
            if X is not None:
                d.X = X
            return fitted(mid, d, **kw)[0]
        def close(a, b):
            return a[0] == b[0] and (a[1] == b[1] if a[0] == "err" else np.allclose(a[1], b[1], atol=1e-4))
        base, unit = run(ei, w), run(ei, None)
        R.outcome(base[0])
        R.state(("inv", mid, g))
        R.step(3)
        R.check(close(unit, run(ei, np.ones(E, dtype=np.float32))), f"{mid}: unit weights differ from no weights on edges {ei.tolist()}", key="unit")
        for o in range(1, 4):
            perm = [(i * 3 + o) % E for i in range(E)] if E % 3 else list(range(E))[::-1] if o == 1 else list(np.roll(range(E), o))
            if sorted(perm) != list(range(E)):
                continue
            if mid != "planetoid":
                R.check(close(base, run(ei[:, perm], w[perm] if E else w)), f"{mid}: edge order {perm} changes the result on {ei.tolist()}", key="edge-order")
            R.step()
        if mid not in ("planetoid", "graph_mincuts"):     # planetoid samples walks over the edge list; mincut rounds each capacity
            R.check(close(base, run(np.concatenate([ei, ei], axis=1), np.concatenate([0.5 * w, 0.5 * w]).astype(np.float32))), f"{mid}: splitting edges in two halves changes the result on {ei.tolist()}", key="split-edges")
        if mid in ("planetoid", "h_gcn", "tsvm"):         # node order enters through walks, coarsening ties or batches
            continue
        for p in itertools.permutations(range(n)):
            p = np.asarray(p)          # new index of old node i
            inv = np.argsort(p)
            got = run(p[ei], w, y=np.asarray([0, 1, -1, -1])[inv], tr_=np.asarray(tr)[inv], X=features(n)[inv])
            R.step()
            if mid == "graph_mincuts":
                if got[0] != base[0]:
                    R.check(False, f"{mid}: renumbering nodes by {p.tolist()} changes {base} to {got}", key="renumber")
                continue
            want = base if base[0] == "err" else ("ok", base[1][inv])
            R.check(close(want, got), f"{mid}: renumbering nodes by {p.tolist()} changes the result on {ei.tolist()}: {want} vs {got}", key="renumber")


# ---------------------------------------------------------------- coarsening
def coarsen(case, R):
    from modssc.transductive.methods.gnn.h_gcn import _coarsen_graph
    for n in range(1, 6):
        for m in range(1 << (n * (n - 1) // 2)):
            A = np.zeros((n, n), dtype=np.float32)
            ei = und(n, m)
            for j, (a, b) in enumerate(ei.T):
                A[a, b] = 1.0 + (min(a, b) * 5 + max(a, b)) % 3
            wts = np.ones(n, dtype=np.int64)
            for level in range(3):
                M, A2, w2 = _coarsen_graph(A.copy(), wts.copy())
                R.step()
                R.check(bool(np.isin(M, (0, 1)).all()) and bool((M.sum(1) == 1).all()) and bool((M.sum(0) >= 1).all()) and bool((M.sum(0) <= 2).all()), f"h_gcn coarsening is not a partition into groups of one or two: {A.tolist()} -> {M.tolist()}", key="coarsen")
                R.check(np.allclose(A2, M.T @ A @ M) and np.array_equal(np.asarray(w2), (M.T @ wts).astype(np.int64)), f"h_gcn coarse graph or weights are not the group sums: {A.tolist()}", key="coarsen-sum")
                for c in range(M.shape[1]):
                    g = np.flatnonzero(M[:, c])
                    if len(g) == 2:
                        a, b = g
                        off = ~np.eye(len(A), dtype=bool)
                        R.check(A[a, b] != 0 or np.array_equal((A[a] != 0) & off[a], (A[b] != 0) & off[b]), f"h_gcn groups {g.tolist()}, neither adjacent nor structurally equivalent, in {A.tolist()}", key="coarsen-group")
                A, wts = A2, w2


# ---------------------------------------------------------------- validation and registry
def malformed(case, R):
    n = 3
    xs = {"ok": np.zeros((n, 2), np.float32), "1d": np.zeros(n), "3d": np.zeros((n, 1, 1)), "0col": np.zeros((n, 0)), "torch": torch.zeros(n, 2)}
    ys = {"ok": np.asarray([0, 1, -1]), "float": np.asarray([0.0, 1.0, 1.0]), "allneg": np.asarray([-1, -1, -1]), "one": np.asarray([0, 0, 0]), "torch": torch.tensor([1, 0, 1]), "u8": np.asarray([0, 1, 0], np.uint8),
          "frac": np.asarray([0.5, 1, 0]), "nan": np.asarray([0, np.nan, 1]), "inf": np.asarray([0, np.inf, 1]), "str": np.asarray(["a", "b", "a"]), "gap": np.asarray([0, 2, 2]), "from1": np.asarray([1, 2, 1]),
          "2d": np.asarray([[0], [1], [0]]), "short": np.asarray([0, 1]), "long": np.asarray([0, 1, 0, 1]), "gapneg": np.asarray([-1, 1, 1])}
    okx, oky = {"ok", "0col", "torch"}, {"ok", "float", "allneg", "one", "torch", "u8"}
    es = {"ok": np.asarray([[0, 1], [1, 2]]), "empty": np.zeros((2, 0), np.int64), "torch": torch.tensor([[0], [2]]), "high": np.asarray([[0, 1], [1, 3]]), "neg": np.asarray([[0, -1], [1, 2]]), "E2": np.asarray([[0, 1], [1, 2], [2, 0]]),
          "1d": np.asarray([0, 1]), "none": None, "nograph": "nograph", "3row": np.zeros((3, 4), np.int64)}
    oke = {"ok", "empty", "torch"}
    ms = {"absent": None, "ok": np.asarray([1, 0, 1], bool), "int": np.asarray([1, 0, 1]), "list": [True, False, False], "torch": torch.tensor([True, False, True]), "short": np.asarray([True, False]), "long": np.ones(4, bool), "2d": np.ones((3, 1), bool)}
    okm = {"absent", "ok", "int", "list", "torch"}
    for (xn, x), (yn, y), (en, e) in itertools.product(xs.items(), ys.items(), es.items()):
        for (mn, mk), name in itertools.product(ms.items(), ("train_mask", "val_mask", "test_mask", "unlabeled_mask")):
            if mn == "absent" and name != "train_mask":
                continue
            d = SimpleNamespace(X=x, y=y, graph=None if en == "nograph" else SimpleNamespace(edge_index=e, edge_weight=None), masks=None if mk is None else {name: mk}, meta=None)
            good = xn in okx and yn in oky and en in oke and mn in okm
            try:
                validate_node_dataset(d)
                r = "accepted"
            except TransductiveValidationError:
                r = "refused"
            R.step()
            R.state(("bad", xn, yn, en, mn, name))
            R.outcome(r)
            R.check((r == "accepted") == good, f"validate_node_dataset {r} X={xn} y={yn} edges={en} {name}={mn}", key="validate")
    try:
        validate_node_dataset(None)
        R.check(False, "validate_node_dataset(None) accepted", key="validate")
    except TransductiveValidationError:
        pass
    # every method refuses malformed data
    bad = [("y", "gap"), ("y", "short"), ("y", "frac"), ("edges", "high"), ("edges", "neg"), ("edges", "E2"), ("mask", "long"), ("X", "1d")]
    for mid in available_methods():
        for where, what in bad:
            d = dataset(n, [[0, 1, 1, 2], [1, 0, 2, 1]], None, [0, 1, -1], {"train_mask": [1, 1, 0], "unlabeled_mask": [0, 0, 1]})
            if where == "y":
                d.y = ys[what]
            elif where == "edges":
                d.graph.edge_index = es[what]
            elif where == "X":
                d.X = xs[what]
            else:
                d.masks["train_mask"] = ms[what]
            r = attempt(lambda: make(mid).fit(d, device="cpu", seed=0))
            R.step()
            R.check(r[0] == "err", f"{mid}.fit accepted {where}={what}", key="method-validate")
    # registry
    mids = available_methods()
    R.check(len(mids) == len(set(mids)) and set(mids) >= GNN | BINARY and mids == available_methods(), f"registry lists {mids}", key="registry")
    for mid in mids:
        info, cls = get_method_info(mid), get_method_class(mid)
        R.check(info.method_id == mid and cls.info == info, f"registry entry {mid} describes {info}", key="registry")
        R.check(cls() is not cls() and vars(cls()).keys() == vars(cls()).keys(), f"{mid} instances are shared", key="registry")
    for bad in ("", "nope", "GCN "):
        R.check(attempt(lambda: get_method_class(bad))[0] == "err", f"get_method_class({bad!r}) succeeded", key="registry")
    # PyG adapter
    for x, y, ei, w, mk in itertools.product((features(3), features(3).astype(np.float64), torch.ones(3, 2)), (np.asarray([0, -1, 1]), torch.tensor([1, 0, 2])), (np.asarray([[0, 1], [1, 2]]), np.zeros((2, 0), np.int64)),
                                             (None, 1), ({}, {"train_mask": np.asarray([1, 0, 1]), "val_mask": [False, True, False]}, None)):
        for dt in (None, "float32", "float64"):
            wt = None if w is None else np.arange(1, ei.shape[1] + 1) * 0.5
            out = to_pyg_data(X=x, y=y, edge_index=ei, edge_weight=wt, masks=mk, device=None if dt is None else DeviceSpec("cpu", dt))
            R.step()
            ft = torch.float64 if dt == "float64" else torch.float32
            R.check(out.x.dtype == ft and np.allclose(out.x.numpy(), np.asarray(x)) and out.y.dtype == torch.long and out.y.tolist() == np.asarray(y).tolist() and out.edge_index.tolist() == ei.tolist()
                    and (wt is None or (np.allclose(out.edge_weight.numpy(), wt) and out.edge_weight.dtype == ft)) and all(getattr(out, k).tolist() == np.asarray(v).astype(bool).tolist() for k, v in (mk or {}).items())
                    and (mk or not hasattr(out, "train_mask")), f"to_pyg_data(dtype={dt}) changed values: {out}", key="pyg")


def cases(tier):
    q = tier == "quick"
    yield {"kind": "malformed"}
    yield {"kind": "coarsen"}
    mids = sorted(set(available_methods()))
    for mid in mids:
        for part in range(4 if mid not in ("h_gcn", "n_gcn", "graphhop", "grafn", "poisson_mbo", "tsvm") else 8):
            for pat in PATTERNS:
                if mid in BINARY and pat == "three":
                    continue
                yield {"kind": "blind", "mid": mid, "pat": pat, "part": part, "parts": 4 if mid not in ("h_gcn", "n_gcn", "graphhop", "grafn", "poisson_mbo", "tsvm") else 8}
        yield {"kind": "histories", "mid": mid, "depth": 4 if q else 5}
        for part in range(4):
            yield {"kind": "invariance", "mid": mid, "part": part, "parts": 4}
    for mid in sorted(REFS):
        for part in range(4):
            yield {"kind": "forward", "mid": mid, "part": part, "parts": 4}
    for mid in sorted(GNN - {"planetoid", "graphhop"}):
        yield {"kind": "selection", "mid": mid, "epochs": 6 if q else 8}


def run_case(case, R):
    globals()[case["kind"]](case, R)
