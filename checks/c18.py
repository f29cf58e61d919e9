"""Preprocessing: statistics come from the fit rows only, rows stay aligned, labels mean the same in both splits."""
import itertools
import warnings

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import preprocess

from mc import prep
from mc.prep import S

PID = "C18"
BOUNDS = {
    "quick": "tabular, text and vision datasets of 5 train and 3 test rows; every nonempty fit subset; plans of 1-2 row-wise steps; every single row replaced by "
             "3 other rows; every test permutation and every single test row alone; label vectors train n<=4, test n<=3 over 4 labels in 4 encodings",
    "thorough": "as quick with plans of 3 steps and label vectors train n<=5, test n<=4",
}
ASSUMPTIONS = ["floating-point outputs of the same row in different batch shapes may differ by rounding (1e-5 relative); in the same shape they are compared bit for bit"]
CASE_TIMEOUT = 800

PLANS = {
    "tabular": [[S("core.ensure_2d")], [S("embeddings.auto")], [S("core.ensure_2d"), S("core.pca", n_components=2)], [S("core.ensure_2d"), S("core.pca", n_components=2, center=False)],
                [S("core.ensure_2d"), S("core.random_projection", n_components=2)], [S("tabular.standard_scaler")], [S("tabular.standard_scaler", with_std=False)],
                [S("tabular.impute")], [S("tabular.impute", strategy="median")], [S("tabular.impute", strategy="most_frequent", add_indicator=True)],
                [S("tabular.impute"), S("tabular.standard_scaler")], [S("core.copy_raw"), S("tabular.standard_scaler"), S("core.pca", n_components=1)], [S("tabular.one_hot")],
                [S("tabular.one_hot"), S("tabular.impute")], [S("core.ensure_2d"), S("core.to_torch")], [S("core.copy_raw"), S("core.cast_fp16")]],
    "mixed": [[S("tabular.one_hot")], [S("tabular.one_hot"), S("tabular.impute")], [S("tabular.one_hot"), S("tabular.standard_scaler")], [S("core.copy_raw")]],
    "text": [[S("text.tfidf")], [S("text.tfidf", max_features=2)], [S("text.tfidf", ngram_range=(1, 2), min_df=2)], [S("text.vocab_tokenizer", max_length=3, min_freq=1)],
             [S("text.vocab_tokenizer", max_length=2, min_freq=2)], [S("text.vocab_tokenizer", vocab_size=4, max_length=4, min_freq=1)], [S("text.hash_tokenizer", max_length=3, vocab_size=50)],
             [S("text.ensure_strings"), S("text.tfidf")], [S("embeddings.auto")]],
    "vision": [[S("vision.zca_whitening")], [S("vision.normalize", mean=(0.5, 1.0, 2.0), std=(2.0, 3.0, 4.0))], [S("vision.resize", height=2, width=3)],
               [S("vision.channels_order"), S("vision.zca_whitening"), S("core.ensure_2d")], [S("vision.ensure_num_channels", num_channels=1), S("vision.squeeze")],
               [S("vision.ensure_num_channels", num_channels=4)], [S("embeddings.auto")], [S("core.ensure_2d"), S("core.pca", n_components=2)]],
}
OUT = {"vision": ("features.X", "raw.X")}


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def rows(mod):
    """-> train rows, test rows, replacement rows"""
    r = np.random.default_rng(7)
    if mod == "tabular":
        X = r.normal(size=(11, 3)).round(2)
        X[1, 0] = X[3, 2] = X[6, 1] = np.nan
        X[8] = [1e6, -1e6, 3.0]
        return X[:5], X[5:8], X[8:]
    if mod == "mixed":
        X = np.empty((11, 3), dtype=object)
        X[:, 0] = ["a", "b", "a", "c", None, "z", "a", "b", "new", "a", "1.5"]
        X[:, 1] = [1.0, "2", None, 4, 5, 6, "?", 8, 9, -1e6, 2]
        X[:, 2] = ["x", "y", "x", "x", "nan", "y", "w", "x", "q", "y", "x"]
        odd = X[8:9].copy()
        odd[0, 1] = "low"       # turns a numeric column into words: outside the fit rows it may be refused, not change the others
        return X[:5], X[5:8], np.concatenate([X[8:], odd])
    if mod == "text":
        X = np.empty(11, dtype=object)
        X[:] = ["the cat", "a dog the", "", "cat cat bird", "dog sat", "bird unseen", "the the", "cat", "zebra zebra zebra", "the cat sat dog bird", "!"]
        return X[:5], X[5:8], X[8:]
    X = r.integers(0, 255, size=(11, 5, 6, 3)).astype(np.uint8)
    return X[:5], X[5:8], X[8:]


def cases(tier):
    for mod in PLANS:
        for p in range(len(PLANS[mod])):
            yield {"kind": "iso", "mod": mod, "plan": p}
    ntr, nte = (4, 3) if tier == "quick" else (5, 4)
    for n in range(0, ntr + 1):
        for m in range(0, nte + 1):
            yield {"kind": "labels", "n": n, "m": m}


def run(mod, steps, Xtr, Xte, fit):
    ds = LoadedDataset(train=Split(X=Xtr, y=np.arange(len(Xtr))), test=Split(X=Xte, y=np.arange(len(Xte)) + 100), meta={"modality": {"mixed": "tabular"}.get(mod, mod)})
    key = "features.X" if any(s.step_id.split(".")[0] != "vision" for s in steps) else "raw.X"
    try:
        res = preprocess(ds, prep.plan(steps, key), seed=2, fit_indices=np.asarray(fit), cache=False)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return [split_rows(s.X) for s in (res.dataset.train, res.dataset.test)] + [prep.canon(res.dataset.train.y), prep.canon(res.dataset.test.y)]


def split_rows(X):
    if hasattr(X, "toarray"):
        X = X.toarray()
    if hasattr(X, "detach"):
        X = X.numpy()
    return [np.asarray(x) for x in X]


def eq(a, b, exact=True):
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in "fc":
        return bool(np.array_equal(a, b)) if a.dtype != object else [str(x) for x in a.reshape(-1)] == [str(x) for x in b.reshape(-1)]
    return bool(np.array_equal(a, b, equal_nan=True)) if exact else bool(np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True))


def run_case(c, R):
    if c["kind"] == "labels":
        return labels(c, R)
    mod = c["mod"]
    steps = PLANS[mod][c["plan"]]
    tag = [(s.step_id, dict(s.params)) for s in steps]
    Xtr, Xte, alt = rows(mod)
    n, m = len(Xtr), len(Xte)
    keep = prep.canon(Xtr), prep.canon(Xte)
    for size in range(1, n + 1):
        for fit in itertools.combinations(range(n), size):
            base = run(mod, steps, Xtr, Xte, fit)
            R.step()
            R.state(mod, tag, fit)
            if isinstance(base, str):
                R.outcome(base)
                continue
            R.check(len(base[0]) == n and len(base[1]) == m, lambda: f"{tag}: {len(base[0])}/{len(base[1])} output rows for {n}/{m} input rows", "rows")
            R.check(base[2] == prep.canon(np.arange(n)) and base[3] == prep.canon(np.arange(m) + 100), "labels reordered", "rows")
            R.outcome(len(base[0][0].reshape(-1)))
            # (a) replacing a row outside the fit set changes that row's output only
            for i in [j for j in range(n) if j not in fit] + [n + j for j in range(m)]:
                for a in alt:
                    tr, te = Xtr.copy(), Xte.copy()
                    if i < n:
                        tr[i] = a
                    else:
                        te[i - n] = a
                    got = run(mod, steps, tr, te, fit)
                    R.step()
                    if got == "ValueError" and mod == "mixed" and a[1] == "low":
                        R.outcome("refused")
                        continue
                    R.check(not isinstance(got, str), lambda: f"{tag} fit={fit}: replacing row {i} outside the fit set raises {got}", "isolation")
                    for j in range(n + m):
                        if j != i:
                            u, v = (base[0][j], got[0][j]) if j < n else (base[1][j - n], got[1][j - n])
                            R.check(eq(u, v), lambda: f"{tag} fit={fit}: replacing row {i} (not in the fit set) changes the output of row {j}: {u} -> {v}", "isolation")
            if any(s.step_id == "embeddings.auto" for s in steps):
                continue  # the offline stub encoder hashes the position of a sample as well
            # (b) the output of a test row does not depend on its position or company
            if size in (2, n):
                for p in itertools.permutations(range(m)):
                    got = run(mod, steps, Xtr, Xte[list(p)], fit)
                    R.step()
                    for j, q in enumerate(p):
                        R.check(eq(got[1][j], base[1][q]), lambda: f"{tag} fit={fit}: test rows in order {p}: output row {j} is not that of input row {q}", "alignment")
                for j in range(m):
                    got = run(mod, steps, Xtr, Xte[[j]], fit)
                    R.step()
                    R.check(not isinstance(got, str) and eq(got[1][0], base[1][j], exact=False), lambda: f"{tag} fit={fit}: test row {j} alone gives {got if isinstance(got, str) else got[1][0]}, in the batch {base[1][j]}", "alignment")
                # (c) order and repetition of fit indices do not matter for the rows' identity: same set, same result up to rounding
                got = run(mod, steps, Xtr, Xte, fit[::-1])
                if not any(s.step_id.startswith(("text.vocab", "core.pca")) for s in steps):
                    for j in range(n):
                        R.check(eq(got[0][j], base[0][j], exact=False), lambda: f"{tag}: fit={fit} and reversed differ on row {j}", "fit-order")
            # (d) a train row put into the test split is transformed as in the train split
            got = run(mod, steps, Xtr, Xtr[:3], fit)
            for j in range(3):
                R.check(eq(got[1][j], base[0][j], exact=False), lambda: f"{tag} fit={fit}: row {j} gives {base[0][j]} in train but {got[1][j]} in test", "same-map")
    R.check(keep == (prep.canon(Xtr), prep.canon(Xte)), "input modified", "mutation")


ENC = [lambda v: np.asarray([5, -1, 0, 7])[list(v)].astype(np.int64), lambda v: np.asarray(["b", "aa", "", "c"])[list(v)],
       lambda v: np.asarray(["b", "aa", "zz", "c"], dtype=object)[list(v)], lambda v: np.asarray([1.5, -1.0, 0.0, 2.5])[list(v)]]


def labels(c, R):
    n, m = c["n"], c["m"]
    for tr in itertools.product(range(4), repeat=n):
        for te in itertools.product(range(4), repeat=m):
            if tr + te and (tr + te)[0] > 1 and n + m > 5:
                continue
            for e, enc in enumerate(ENC):
                if n + m > 5 and e != (sum(tr) + sum(te)) % 4:
                    continue
                ytr, yte = enc(tr), enc(te)
                ds = LoadedDataset(train=Split(X=np.zeros((n, 1)), y=ytr), test=Split(X=np.zeros((m, 1)), y=yte), meta={"modality": "tabular"})
                R.step()
                R.state(tr, te, e)
                res = preprocess(ds, prep.plan([S("labels.encode"), S("labels.ensure_onehot", unlabeled_value=-1)], "raw.X"), cache=False)
                A = [a.data for a in (res.train_artifacts, res.test_artifacts)]
                R.check(prep.canon(res.dataset.train.y) == prep.canon(A[0]["labels.y"]) and prep.canon(res.dataset.test.y) == prep.canon(A[1]["labels.y"]), "y of the result is not labels.y", "encode")
                code = {}
                for a, y in zip(A, (ytr, yte), strict=True):
                    codes = a["labels.y"]
                    R.check(codes.shape == y.shape and codes.dtype == np.int64, f"codes {codes.dtype}{codes.shape}", "encode")
                    for lab, k in zip(y.tolist(), codes.tolist(), strict=True):
                        R.check(code.setdefault(lab, k) == k, lambda: f"train {ytr.tolist()} test {yte.tolist()}: label {lab!r} is encoded as {code[lab]} and {k}", "encode")
                        R.check(a["labels.classes"][k] == lab, lambda: f"classes[{k}] = {a['labels.classes'][k]!r} for label {lab!r}", "encode")
                R.check(len(set(code.values())) == len(code), lambda: f"train {ytr.tolist()} test {yte.tolist()}: two labels share a code: {code}", "encode")
                R.check(sorted(set(A[0]["labels.y"].tolist())) == list(range(len(set(tr)))), "train codes are not contiguous", "encode")
                # one-hot: the same column means the same label in both splits
                seen = set(ytr.tolist())
                col = {}
                for s, (a, y) in enumerate(zip(A, (ytr, yte), strict=True)):
                    oh, lab = a["labels.y_onehot"], a["labels.is_labeled"]
                    labeled = [bool(v != -1) if not isinstance(v, str) else True for v in y.tolist()]
                    R.check(lab.tolist() == labeled and lab.dtype == bool, lambda: f"is_labeled {lab.tolist()} for {y.tolist()}", "onehot")
                    R.check(oh.shape[0] == len(y), "one-hot rows", "onehot")
                    for v, row, ok in zip(y.tolist(), oh.tolist(), labeled, strict=True):
                        if not ok:
                            R.check(sum(map(abs, row)) == 0, lambda: f"unlabeled row has one-hot {row}", "onehot")
                        elif s == 0 or v in seen:
                            R.check(sorted(row) == [0.0] * (len(row) - 1) + [1.0], lambda: f"label {v!r}: one-hot {row}", "onehot")
                            k = row.index(1.0)
                            R.check(col.setdefault(v, k) == k, lambda: f"train {ytr.tolist()} test {yte.tolist()}: label {v!r} is column {col[v]} and {k}", "onehot")
                R.check(len(set(col.values())) == len(col), "two labels share a column", "onehot")
                if any(v != -1 for v in ytr.tolist()):
                    R.check(A[0]["labels.y_onehot"].shape[1] == A[1]["labels.y_onehot"].shape[1], lambda: f"one-hot widths {A[0]['labels.y_onehot'].shape} {A[1]['labels.y_onehot'].shape}", "onehot")
                R.outcome(e, len(code), len(col))
