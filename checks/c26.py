"""Supervised classifiers speak the caller's label space, and depend on their last fit and seed only."""
import itertools
import random
import warnings

import numpy as np
import torch
from modssc.supervised import registry as sreg
from modssc.supervised.api import available_classifiers, create_classifier
from modssc.supervised.errors import OptionalDependencyError
from modssc.supervised.types import ClassifierRuntime

PID = "C26"
BOUNDS = {
    "quick": "19 classifier configurations x all label vectors over 3 labels (n<=4; n=3 for networks) x 8 label encodings, rows predicted together, alone and reversed; all sequences of <=3 operations of "
             "{fit A, fit B, fit C, predict} against a fresh object; kNN: all point sequences on {0,1,3} (n<=4) and 5 planar sets x labels x k<=n+1 x 2 metrics x 2 weights x 3 batch sizes x 3 backends "
             "against brute force; every classifier x backend x runtime and every set of installed extras",
    "thorough": "as quick with n<=5 (networks 4), sequences of 4 operations, kNN n<=5",
}
ASSUMPTIONS = ["scikit-learn estimators that reject a single class or too few samples per class are not asked", "kNN distance weights are compared between the numpy and torch backends only (scikit-learn weighs by distance, these by squared distance)",
               "audio_pretrained and pretrained image weights need downloads and are not run"]
CASE_TIMEOUT = 850
torch.set_num_threads(1)

RNG = np.random.RandomState(0)
FEATS = {
    "vec": np.abs(RNG.randn(12, 3)).astype(np.float64).round(2), "img": RNG.randn(12, 1, 4, 4).astype(np.float32), "img2": RNG.randn(12, 8).astype(np.float32), "img3": RNG.randn(12, 4, 3).astype(np.float32),
    "aud": RNG.randn(12, 1, 9).astype(np.float32), "aud2": RNG.randn(12, 9).astype(np.float32), "text": RNG.randn(12, 5, 3).astype(np.float32), "tok": RNG.randint(0, 20, size=(12, 4)), "spec": RNG.randn(12, 8, 8).astype(np.float32),
}
E = dict(max_epochs=2, batch_size=2, lr=0.05)
CLFS = {
    "knn/numpy": ("vec", dict(k=2)), "knn/sklearn": ("vec", dict(k=2)), "knn/torch": ("vec", dict(k=2)), "logreg/sklearn": ("vec", dict(max_iter=30)), "svm_rbf/sklearn": ("vec", {}), "linear_svm/sklearn": ("vec", {}),
    "ridge/sklearn": ("vec", {}), "random_forest/sklearn": ("vec", dict(n_estimators=3)), "extra_trees/sklearn": ("vec", dict(n_estimators=3)), "gradient_boosting/sklearn": ("vec", dict(n_estimators=2, subsample=0.7)),
    "gaussian_nb/sklearn": ("vec", {}), "multinomial_nb/sklearn": ("vec", {}), "bernoulli_nb/sklearn": ("vec", dict(binarize=0.7)),
    "logreg/torch": ("vec", dict(E)), "mlp/torch": ("vec", dict(E, hidden_sizes=[4], dropout=0.4)), "image_cnn/torch": ("img", dict(E, conv_channels=(2,), fc_dim=3, dropout=0.3)),
    "audio_cnn/torch": ("aud", dict(E, conv_channels=(2,), fc_dim=3, dropout=0.3)), "text_cnn/torch": ("text", dict(E, kernel_sizes=(2, 3), num_filters=2, dropout=0.3)),
    "lstm_scratch/torch": ("tok", dict(E, vocab_size=21, embedding_dim=3, hidden_dim=3, num_layers=2, dropout=0.3)), "audio_cnn_scratch/torch": ("spec", dict(E, base_channels=2, num_blocks=2, dropout=0.3)),
    "image_cnn2/torch": ("img2", dict(E, conv_channels=(2,), fc_dim=0, input_shape=(2, 4))), "image_cnn3/torch": ("img3", dict(E, conv_channels=(2,), fc_dim=2)), "audio_cnn2/torch": ("aud2", dict(E, conv_channels=(2,), fc_dim=0, input_shape=(1, 9))),
}
SLOW = {k for k in CLFS if k.split("/")[1] == "torch" and not k.startswith("knn")} | {"random_forest/sklearn", "extra_trees/sklearn", "gradient_boosting/sklearn"}
MULTI = {"logreg/sklearn", "svm_rbf/sklearn", "linear_svm/sklearn", "ridge/sklearn", "gradient_boosting/sklearn"}
ENC_NP = {"int": [0, 1, 2], "gap": [2, 5, 9], "neg": [-3, 0, 4], "str": ["a", "bb", "c"], "obj": ["x", "y", "zz"], "float": [-0.5, 0.25, 3.0], "bool": [False, True, None], "u8": [0, 7, 255]}
DT = {"int": np.int64, "gap": np.int32, "neg": np.int64, "obj": object, "float": np.float64, "bool": bool, "u8": np.uint8}
ENC_T = {"int": [0, 1, 2], "gap": [2, 5, 9], "neg": [-3, 0, 4], "u8": [0, 7, 255]}
TDT = {"int": torch.int64, "gap": torch.int32, "neg": torch.int64, "u8": torch.uint8}


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def cases(tier):
    for name in CLFS:
        slow = name in SLOW
        nmax = (3 if slow else 4) + (tier == "thorough")
        for n in range(1, nmax + 1):
            parts = 1 if n < 4 else 4
            for part in range(parts):
                yield {"kind": "labels", "clf": name, "n": n, "part": part, "parts": parts}
        yield {"kind": "history", "clf": name}
    yield {"kind": "graphsage"}
    for be in ("numpy", "torch", "sklearn"):
        for n in range(1, 5 if tier == "quick" else 6):
            for part in range(1 if n < 4 else 6):
                yield {"kind": "knn", "be": be, "n": n, "part": part, "parts": 1 if n < 4 else 6}
        yield {"kind": "knnplane", "be": be}
    yield {"kind": "agree"}
    yield {"kind": "registry"}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def make(name, **kw):
    cid, be = name.split("/")
    cid = cid.rstrip("23")
    return create_classifier(cid, backend=be, params=dict(CLFS[name][1], **kw), runtime=ClassifierRuntime(seed=kw.get("seed", 3)))


def is_t(name):
    return name.endswith("torch")


def xof(name, rows):
    a = FEATS[CLFS[name][0]][rows].copy()
    return torch.as_tensor(a) if is_t(name) else a


def yof(name, enc, v):
    if is_t(name):
        return torch.tensor([ENC_T[enc][i] for i in v], dtype=TDT[enc])
    vals = [ENC_NP[enc][i] for i in v]
    return np.asarray(vals, dtype=DT[enc]) if enc in DT else np.asarray(vals)


def npy(a):
    return a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else np.asarray(a)


def scramble(k):
    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def k_labels(c, R):
    name = c["clf"]
    encs = list(ENC_T if is_t(name) else ENC_NP)
    query = [0, 5, 11, 7]
    tol = 1e-5
    for j, v in enumerate(itertools.product(range(3), repeat=c["n"])):
        if j % c["parts"] != c["part"] or (name in MULTI and len(set(v)) < 2) or (name == "gaussian_nb/sklearn" and c["n"] < 2):
            continue
        R.state(name, v)
        ref = None
        rows = list(range(c["n"]))
        for e, enc in enumerate(encs):
            if enc == "bool" and 2 in v:
                continue
            R.step()
            what = lambda: f"{name} labels {[(ENC_T if is_t(name) else ENC_NP)[enc][i] for i in v]} ({enc})"  # noqa: E731
            X, y, Q = xof(name, rows), yof(name, enc, v), xof(name, query)
            X0, y0, Q0 = npy(X).copy(), npy(y).copy(), npy(Q).copy()
            scramble(100 + e)
            m = make(name)
            fr = m.fit(X, y)
            want = sorted({(ENC_T if is_t(name) else ENC_NP)[enc][i] for i in v})
            R.check(npy(m.classes_).tolist() == want and m.n_classes_ == len(want), lambda: f"{what()}: classes_ {npy(m.classes_).tolist()} expected {want}", "classes")
            R.check((fr.n_samples, fr.n_features, fr.n_classes) == (c["n"], int(np.prod(X0.shape[1:])) if "tok" != CLFS[name][0] else 4, len(want)) or name == "audio_cnn_scratch/torch", lambda: f"{what()}: {fr}", "fitresult")
            sc, pr = npy(m.predict_scores(Q)), npy(m.predict(Q))
            R.check(sc.shape == (4, len(want)) and np.isfinite(sc).all(), lambda: f"{what()}: scores {sc.shape}", "scores")
            R.check(pr.shape == (4,) and all(p in want for p in pr.tolist()) and pr.dtype.kind in (y0.dtype.kind, "i" if y0.dtype.kind == "u" else y0.dtype.kind), lambda: f"{what()}: predictions {pr.tolist()} dtype {pr.dtype}", "labels")
            for p, s in zip(pr.tolist(), sc, strict=True):
                if name != "svm_rbf/sklearn":
                    R.check(s[want.index(p)] >= s.max() - tol, lambda p=p, s=s: f"{what()}: predicts {p} with scores {s.tolist()} over {want}", "argmax")
            if m.supports_proba:
                pb = npy(m.predict_proba(Q))
                R.check(pb.shape == sc.shape and (pb >= 0).all() and np.allclose(pb.sum(1), 1, atol=1e-4), lambda: f"{what()}: probabilities {pb.tolist()}", "proba")
                R.check(np.array_equal(pb.argmax(1), sc.argmax(1)) or np.sort(sc, 1)[:, -2:].ptp(1).min() < tol if len(want) > 1 else True, lambda: f"{what()}: predict_proba and predict_scores disagree", "proba")
            R.check(np.array_equal(npy(X), X0) and np.array_equal(npy(y), y0) and np.array_equal(npy(Q), Q0), lambda: f"{what()}: inputs changed", "mutation")
            rev, alone = npy(m.predict_scores(xof(name, query[::-1])))[::-1], np.concatenate([npy(m.predict_scores(xof(name, [q]))) for q in query])
            R.check(np.allclose(rev, sc, atol=tol) and np.allclose(alone, sc, atol=tol), lambda: f"{what()}: a row's scores depend on the other rows of the batch: {sc.tolist()} reversed {rev.tolist()} alone {alone.tolist()}", "rows")
            again = npy(m.predict_scores(Q))
            R.check(np.array_equal(again, sc), lambda: f"{what()}: a second prediction differs", "stable")
            full = (sc, [want.index(p) for p in pr.tolist()])
            if ref is None:
                ref = full
            R.check(np.allclose(ref[0], sc, atol=tol) and (ref[1] == full[1] or np.sort(sc, 1)[:, -2:].ptp(1).min() < tol), lambda: f"{what()}: result depends on the label names or on global random state: {sc.tolist()} vs {ref[0].tolist()}", "determinism")
        R.outcome(name, len(set(v)))


def k_history(c, R):
    name = c["clf"]
    depth = 3 if R.tier == "quick" else 4
    data = {"A": ([0, 1, 2, 3], (0, 1, 0, 1), "int"), "B": ([4, 5, 6, 7, 8], (0, 1, 2, 2, 1), "gap"), "C": ([9, 10, 3], (1, 2, 1), "neg")}
    query = xof(name, [0, 4, 11])
    fresh = {}
    for k, (rows, v, enc) in data.items():
        m = make(name)
        m.fit(xof(name, rows), yof(name, enc, v))
        fresh[k] = (npy(m.predict_scores(query)), npy(m.predict(query)), npy(m.classes_))
    for d in range(1, depth + 1):
        for seq in itertools.product([*data, "p"], repeat=d):
            if not any(s in data for s in seq):
                continue
            R.step()
            R.state(name, seq)
            scramble(7)
            m = make(name)
            last = None
            for s in seq:
                if s == "p":
                    if last is None:
                        try:
                            m.predict(query)
                            R.check(False, lambda: f"{name}: predict before fit returns", "history")
                        except RuntimeError:
                            pass
                    else:
                        m.predict(query)
                        m.predict_scores(query)
                else:
                    rows, v, enc = data[s]
                    m.fit(xof(name, rows), yof(name, enc, v))
                    last = s
            got = (npy(m.predict_scores(query)), npy(m.predict(query)), npy(m.classes_))
            R.check(all(np.array_equal(g, w) for g, w in zip(got, fresh[last], strict=True)), lambda: f"{name}: after {seq} the model differs from a fresh fit {last}: {got} expected {fresh[last]}", "history")
    # seeds matter only through the seed
    for s in (0, 1, 5):
        a, b = (make(name, seed=s) for _ in range(2))
        rows, v, enc = data["B"]
        scramble(1)
        a.fit(xof(name, rows), yof(name, enc, v))
        scramble(2)
        np.random.rand(3), torch.rand(3)
        b.fit(xof(name, rows), yof(name, enc, v))
        scramble(9)
        R.step()
        R.check(np.array_equal(npy(a.predict_scores(query)), npy(b.predict_scores(query))), lambda: f"{name} seed={s}: two fits differ", "determinism")


def k_graphsage(c, R):
    x = RNG.randn(5, 3).astype(np.float32)
    for edges in ([], [(0, 1), (1, 0)], [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2)]):
        ei = np.asarray(edges, dtype=np.int64).reshape(-1, 2).T
        for v in itertools.product(range(3), repeat=5):
            if max(v) != len(set(v)) - 1:
                continue
            R.step()
            outs = []
            for k in (1, 2):
                scramble(k)
                m = create_classifier("graphsage_inductive", params=dict(hidden_channels=4, max_epochs=2), runtime=ClassifierRuntime(seed=1))
                y = np.asarray(v)
                m.fit({"x": x.copy(), "edge_index": ei.copy()}, y)
                p = npy(m.predict_proba({"x": x, "edge_index": ei}))
                pr = npy(m.predict({"x": x, "edge_index": ei}))
                R.check(p.shape == (5, len(set(v))) and np.allclose(p.sum(1), 1, atol=1e-5) and (pr == npy(m.classes_)[p.argmax(1)]).all() and npy(m.classes_).tolist() == sorted(set(v)), lambda: f"graphsage labels {v}", "graphsage")
                outs.append(p)
            R.check(np.array_equal(*outs), lambda: f"graphsage edges={edges} labels={v}: two fits with one seed differ", "determinism")
            R.state(tuple(edges), v)


# ---- kNN against brute force
def shares(D, y, k, ncls):
    """All class-count vectors a k-subset of nearest neighbours can give (ties either way)."""
    order = np.sort(D)
    kth = order[k - 1]
    sure = [i for i in range(len(D)) if D[i] < kth - 1e-6]
    tied = [i for i in range(len(D)) if abs(D[i] - kth) <= 1e-6]
    out = set()
    for extra in itertools.combinations(tied, k - len(sure)):
        cnt = [0] * ncls
        for i in sure + list(extra):
            cnt[y[i]] += 1
        out.add(tuple(cnt))
    return out


def dist(P, q, metric):
    P, q = np.asarray(P, float), np.asarray(q, float)
    if metric == "euclidean":
        return ((P - q) ** 2).sum(1)
    nP, nq = np.linalg.norm(P, axis=1), np.linalg.norm(q)
    with np.errstate(all="ignore"):
        cos = np.where((nP > 0) & (nq > 0), P @ q / np.maximum(nP * nq, 1e-30), 0.0)
    return 1 - cos


def knn_one(R, be, P, y, queries, k, metric, weights, bs):
    kw = dict(k=k, metric=metric, weights=weights)
    if be != "sklearn":
        kw["batch_size"] = bs
    m = create_classifier("knn", backend=be, params=kw)
    wrap = (lambda a: torch.tensor(np.asarray(a), dtype=torch.float32)) if be == "torch" else (lambda a: np.asarray(a, dtype=np.float64))
    lab = np.asarray([(4, 1, 9)[i] for i in y])
    m.fit(wrap(P), torch.tensor(lab) if be == "torch" else lab)
    cls = sorted(set(lab.tolist()))
    pb, pr = npy(m.predict_proba(wrap(queries))), npy(m.predict(wrap(queries)))
    kk = min(k, len(P))
    idx = [cls.index(v) for v in lab.tolist()]
    for q, p, lbl in zip(queries, pb, pr.tolist(), strict=True):
        D = dist(P, q, metric)
        R.step()
        what = lambda: f"knn/{be} points={P} labels={lab.tolist()} query={q} k={k} {metric} {weights} batch={bs}"  # noqa: E731
        ok = [s for s in shares(D, idx, kk, len(cls))]
        if weights == "uniform":
            R.check(any(np.allclose(p, np.asarray(s) / kk, atol=1e-5) for s in ok), lambda: f"{what()}: shares {p.tolist()}, possible {[(np.asarray(s) / kk).tolist() for s in ok]}", "knn")
        else:
            sup = [i for i in range(len(cls)) if any(s[i] for s in ok)]
            R.check(np.isclose(p.sum(), 1, atol=1e-4) and all(p[i] < 1e-5 for i in range(len(cls)) if i not in sup), lambda: f"{what()}: shares {p.tolist()} for classes without a neighbour", "knn")
            hit = {idx[i] for i in range(len(P)) if D[i] < 1e-9}
            if len(hit) == 1 and sum(D < 1e-9) <= kk and metric == "euclidean":
                R.check(p[list(hit)[0]] > 0.999, lambda: f"{what()}: a coinciding neighbour does not decide: {p.tolist()}", "knn")
        R.check(p[cls.index(lbl)] >= p.max() - 1e-6, lambda: f"{what()}: predicts {lbl} with {p.tolist()}", "knn")


def k_knn(c, R):
    n = c["n"]
    j = 0
    for P in itertools.product((0.0, 1.0, 3.0), repeat=n):
        for y in itertools.product(range(3), repeat=n):
            if list(dict.fromkeys(y)) != list(range(len(set(y)))):
                continue
            j += 1
            if j % c["parts"] != c["part"]:
                continue
            pts = [[a] for a in P]
            R.state(P, y)
            for k in range(1, n + 2):
                knn_one(R, c["be"], pts, y, [[0.0], [1.2], [3.0], [9.0]], k, "euclidean", "uniform", (1, 2, 1024)[j % 3])
                if k <= 2:
                    knn_one(R, c["be"], pts, y, [[0.0], [1.2], [3.0]], k, "euclidean", "distance", (1, 2, 1024)[j % 3])
    R.outcome(c["be"], n, c["part"])


def k_knnplane(c, R):
    sets = ([(0, 0), (1, 0), (0, 1), (1, 1), (2, 3)], [(0, 0), (0, 0), (1, 2)], [(1, 1), (2, 2), (-1, -1), (3, 1)], [(1, 0), (0, 1), (-1, 0), (0, -1), (2, 1), (1, 2)], [(0.5, 2), (4, 1)])
    for P in sets:
        for y in itertools.product(range(3), repeat=len(P)):
            if list(dict.fromkeys(y)) != list(range(len(set(y)))):
                continue
            R.state(tuple(P), y)
            for k, metric, w, bs in itertools.product((1, 2, len(P), len(P) + 2), ("euclidean", "cosine"), ("uniform", "distance"), (1, 3)):
                if c["be"] == "sklearn" and bs == 3:
                    continue
                knn_one(R, c["be"], [list(map(float, p)) for p in P], y, [[1.0, 0.5], [0.0, 0.0], [-2.0, 1.0], [3.0, 3.5]], k, metric, w, bs)


def k_agree(c, R):
    """numpy and torch kNN give the same probabilities (no ties in the data)."""
    P = np.asarray([[0.0, 0.3], [1.1, 0.2], [0.4, 1.7], [2.3, 1.9], [-1.3, 0.8]])
    Q = np.asarray([[0.5, 0.5], [2.0, 2.2], [-0.7, 0.1], [0.4, 1.7]])
    for y in itertools.product(range(3), repeat=5):
        for k, metric, w, bs in itertools.product((1, 3, 5, 8), ("euclidean", "cosine"), ("uniform", "distance"), (1, 2, 1024)):
            R.step()
            p = dict(k=k, metric=metric, weights=w, batch_size=bs)
            a, b = create_classifier("knn", backend="numpy", params=p), create_classifier("knn", backend="torch", params=p)
            a.fit(P, np.asarray(y))
            b.fit(torch.tensor(P, dtype=torch.float32), torch.tensor(y))
            A, B = npy(a.predict_proba(Q)), npy(b.predict_proba(torch.tensor(Q, dtype=torch.float32)))
            R.check(np.allclose(A, B, atol=2e-3), lambda: f"knn k={k} {metric} {w} batch={bs} labels={y}: numpy {A.tolist()} torch {B.tolist()}", "agree")
        R.state(y)


def k_registry(c, R):
    import modssc.supervised.api as api
    specs = available_classifiers()
    extras = sorted({b["required_extra"] for s in specs for b in s["backends"].values() if b["required_extra"]})
    mods = {e: api.module_for_extra(e) for e in extras}
    orig = api.has_module
    try:
        for r in range(len(extras) + 1):
            for have in itertools.combinations(extras, r):
                present = {mods[e] for e in have}
                api.has_module = lambda m, present=present: m in present
                R.state(have)
                shown = {s["key"]: set(s["backends"]) for s in available_classifiers(available_only=True)}
                for s in specs:
                    usable = [b for b in s["preferred_backends"] if b in s["backends"] and (s["backends"][b]["required_extra"] is None or mods[s["backends"][b]["required_extra"]] in present)]
                    R.check(shown[s["key"]] == {b for b, d in s["backends"].items() if d["required_extra"] is None or mods[d["required_extra"]] in present}, lambda s=s: f"available_only {s['key']} with {have}: {shown[s['key']]}", "registry")
                    R.step()
                    try:
                        m = create_classifier(s["key"])
                        R.check(usable and m.backend == usable[0], lambda s=s, m=m: f"auto backend of {s['key']} with {have}: {m.backend}, expected {usable[:1]}", "registry")
                    except OptionalDependencyError:
                        R.check(not usable, lambda s=s: f"auto backend of {s['key']} with {have} raises though {usable} is there", "registry")
                R.outcome(len(have))
    finally:
        api.has_module = orig
    for s in specs:
        for b in s["backends"]:
            for seed, jobs, own in itertools.product((None, 0, 7), (None, 1), (None, 5)):
                R.step()
                if s["key"] == "audio_pretrained":
                    continue
                params = {} if own is None else {"seed": own}
                before = dict(params)
                try:
                    m = create_classifier(s["key"], backend=b, params=params, runtime=ClassifierRuntime(seed=seed, n_jobs=jobs))
                except TypeError as e:
                    R.check(False, f"{s['key']}/{b} runtime seed={seed} n_jobs={jobs}: {e}", "runtime")
                    continue
                R.check((m.classifier_id, m.backend) == (s["key"], b) and params == before and sreg.get_backend_spec(s["key"], b).factory.endswith(type(m).__name__), lambda: f"{s['key']}/{b} gives {type(m).__name__}", "registry")
                want = own if own is not None else (seed if seed is not None else 0)
                R.check(m.seed == want, lambda s=s, b=b, m=m: f"{s['key']}/{b} runtime seed {seed}, params {params}: seed {m.seed}", "runtime")
