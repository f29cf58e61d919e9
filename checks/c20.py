"""Preprocessing steps compute their documented function (independent reference implementations)."""
import collections
import itertools
import math
import warnings

import numpy as np
from modssc.preprocess.registry import StepRegistry
from modssc.preprocess.store import ArtifactStore

from mc import choice

PID = "C20"
BOUNDS = {
    "quick": "numeric matrices up to 2x2 and 3x1 over {0,1,2,NaN} in full, every 4th 3x2/2x3 and every 61st 3x3, x every fit subset; all texts of <=3 tokens over 4 tokens in corpora of 3; "
             "all image shapes N<=2, H,W<=5, C in {1,2,3,4} in both layouts; resize from <=6x6 to <=7x7; all edge lists of <=3 edges x every answer of the generator",
    "thorough": "as quick with every 3x2, 2x3 and 3x3 matrix, corpora of 4 texts and edge lists of 4 edges",
}
ASSUMPTIONS = ["images whose layout is ambiguous (a channel-like size in both positions) are taken as channels-last, as documented in the code",
               "ZCA and PCA are compared up to rounding (1e-5) and PCA up to the sign/rotation of equal singular values"]
CASE_TIMEOUT = 800
REG = StepRegistry.builtin()
V = (0.0, 1.0, 2.0, float("nan"))


def setup(tier):
    warnings.simplefilter("ignore")


def cases(tier):
    for shape in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3)):
        parts = 1 if shape[0] * shape[1] < 6 else (16 if shape == (3, 3) else 8)
        for part in range(parts):
            yield {"kind": "num", "shape": shape, "part": part, "parts": parts}
    for k in range(16):
        yield {"kind": "text", "k": k}
    yield {"kind": "casts"}
    for lay in ("NHWC", "NCHW"):
        for n in (1, 2):
            yield {"kind": "vision", "lay": lay, "n": n}
    for e in range(0, 4 if tier == "quick" else 5):
        yield {"kind": "edges", "e": e}
    yield {"kind": "onehot"}


def do(sid, data, fit=None, rng=None, test=None, **params):
    st = ArtifactStore(dict(data))
    obj = REG.instantiate(sid, params=params)
    rng = rng if rng is not None else np.random.default_rng(0)
    if fit is not None:
        obj.fit(st, fit_indices=np.asarray(fit, dtype=np.int64), rng=rng)
    return obj.transform(ArtifactStore(dict(test)) if test is not None else st, rng=rng)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)


def k_num(c, R):
    n, d = c["shape"]
    stride = 1 if R.tier == "thorough" else {9: 61, 6: 4}.get(n * d, 1)
    for i, vals in enumerate(itertools.product(V, repeat=n * d)):
        if i % c["parts"] != c["part"] or (i // c["parts"]) % stride:
            continue
        X = np.asarray(vals).reshape(n, d)
        nan = np.isnan(X)
        R.state(n, d, str(vals))
        for size in range(1, n + 1):
            for fit in itertools.combinations(range(n), size):
                F = X[list(fit)]
                fn = np.isnan(F)
                means = [F[~fn[:, j], j].mean() if (~fn[:, j]).any() else None for j in range(d)]
                # impute
                R.step()
                for strat, f in (("mean", np.mean), ("median", np.median)):
                    want = []
                    for j in range(d):
                        seen = F[~fn[:, j], j]
                        if len(seen):
                            want.append(np.where(nan[:, j], f(seen), X[:, j]))
                    want = np.stack(want, axis=1) if want else np.zeros((n, 0))
                    got = do("tabular.impute", {"features.X": X}, fit, strategy=strat)["features.X"]
                    R.check(close(got, want), lambda: f"impute {strat} X={X.tolist()} fit={fit}: {np.asarray(got).tolist()} expected {want.tolist()}", "impute")
                if not nan.any():
                    mu, sd = F.mean(0), F.std(0)
                    want = (X - mu) / np.where(sd == 0, 1.0, sd)
                    got = do("tabular.standard_scaler", {"raw.X": X}, fit)["features.X"]
                    R.check(close(got, want) and got.dtype == np.float32, lambda: f"scaler X={X.tolist()} fit={fit}: {got.tolist()} expected {want.tolist()}", "scaler")
                    zca(X, fit, R)
                # PCA: missing entries take the fit mean of their column
                imp = np.asarray([m if m is not None else 0.0 for m in means])
                Xi = np.where(nan, imp, X)
                for center in (True, False):
                    for k in (1, 2, 5):
                        got = do("core.pca", {"features.X": X}, fit, n_components=k, center=center)["features.X"]
                        A = Xi[list(fit)]
                        mu = A.mean(0) if center else np.zeros(d)
                        kk = max(1, min(k, len(fit), d))
                        R.check(got.shape == (n, kk) and got.dtype == np.float32, lambda: f"pca X={X.tolist()} fit={fit} k={k}: shape {got.shape}", "pca")
                        w, U = np.linalg.eigh((A - mu).T @ (A - mu))
                        w, U = w[::-1], U[:, ::-1]
                        # projections onto eigenspaces that are unambiguous: compare squared norms per group of equal eigenvalues
                        P = (Xi - mu) @ U
                        j = 0
                        while j < kk:
                            e = j
                            while e < d and abs(w[e] - w[j]) < 1e-6:
                                e += 1
                            if e <= kk and w[j] > 1e-6:
                                a = np.asarray(got[:, j:e], float)
                                b = P[:, j:e]
                                R.check(close(a @ a.T, b @ b.T, 1e-4), lambda: f"pca X={X.tolist()} fit={fit} k={k} center={center}: {got.tolist()} is not the projection on the top components", "pca")
                            j = e
                R.outcome(size, int(nan.sum()))
        # ensure_2d / auto embedding keep values
        for arr in (X, X.reshape(-1), X.reshape(n, d, 1), X.astype(np.float32)):
            for sid in ("core.ensure_2d", "embeddings.auto"):
                if sid == "embeddings.auto" and arr.ndim == 3:
                    continue
                got = do(sid, {"raw.X": arr})["features.X"]
                want = arr.reshape(len(arr), -1)
                R.check(got.shape == want.shape and np.array_equal(np.asarray(got, want.dtype), want.astype(got.dtype).astype(want.dtype), equal_nan=True), lambda: f"{sid} on shape {arr.shape}: {got}", "2d")


def zca(X, fit, R):
    n, d = X.shape
    eps = 0.1
    got = do("vision.zca_whitening", {"raw.X": X}, fit, eps=eps)["raw.X"]
    F = X[list(fit)]
    mu = F.mean(0)
    cov = (F - mu).T @ (F - mu) / len(fit)
    # W is the symmetric inverse square root of cov + eps: W W (cov + eps I) = I
    from scipy.linalg import sqrtm
    W = np.linalg.inv(np.real(sqrtm(cov + eps * np.eye(d))))
    R.check(close(got, (X - mu) @ W, 1e-4), lambda: f"zca X={X.tolist()} fit={fit}: {got.tolist()} expected {((X - mu) @ W).tolist()}", "zca")


TOK = ("aa", "Bb", "bb", "c")


def k_text(c, R):
    texts = [" ".join(t) for m in range(4) for t in itertools.product(TOK, repeat=m)]
    texts = [t.replace(" ", "  ", 1) if i % 5 == 0 else t for i, t in enumerate(texts)]
    m = 3 if R.tier == "quick" else 4
    n = len(texts)
    for i in range(c["k"], n, 16):
        for j in range(n):
            corpus = [texts[i], texts[j], texts[(3 * i + 7 * j + 5) % n], texts[(i * j + 11) % n]][:m]
            X = np.empty(m, dtype=object)
            X[:] = corpus
            form = (X, np.asarray(corpus), list(corpus))[(i + 2 * j) % 3]
            one_corpus(R, corpus, form, (i + j) % 3)
            R.state(corpus)


def one_corpus(R, corpus, X, var):
    R.step()
    m = len(corpus)
    toks = [t.lower().split() for t in corpus]
    for L, vs, lower in ((2, 50, True), (4, 3, False)):
        out = do("text.hash_tokenizer", {"raw.X": X}, max_length=L, vocab_size=vs, lowercase=lower)
        ids, mask = out["tokens.input_ids"], out["tokens.attention_mask"]
        R.check(ids.shape == (m, L) and mask.shape == (m, L), "hash tokenizer shape", "hash")
        for r, t in enumerate(corpus):
            t = (t.lower() if lower else t).split()[:L]
            R.check(mask[r].tolist() == [1] * len(t) + [0] * (L - len(t)), lambda: f"{corpus[r]!r}: mask {mask[r].tolist()}", "hash")
            R.check(all(2 <= v < max(vs, 3) for v in ids[r][:len(t)].tolist()) and not ids[r][len(t):].any(), lambda: f"{corpus[r]!r}: ids {ids[r].tolist()} vocab_size {vs}", "hash")
        table = {}
        for r, t in enumerate(corpus):
            for w, v in zip((t.lower() if lower else t).split()[:L], ids[r].tolist(), strict=False):
                R.check(table.setdefault(w, v) == v, lambda: f"token {w!r} has two ids", "hash")
    fits = [tuple(range(m)), (0,), (m - 1, 0)]
    fit = fits[var]
    cnt = collections.Counter(w for r in fit for w in toks[r])
    for vs, mf, L in ((20, 1, 3), (20, 2, 2), (3, 1, 4), (4, 2, 4)):
        out = do("text.vocab_tokenizer", {"raw.X": X}, fit, vocab_size=vs, min_freq=mf, max_length=L)
        ids, mask = out["tokens.input_ids"], out["tokens.attention_mask"]
        R.check(np.array_equal(ids, out["features.X"]), "features.X is not the ids", "vocab")
        ok = {w for w in cnt if cnt[w] >= mf}
        known = {}
        for r in range(m):
            t = toks[r][:L]
            R.check(mask[r].tolist() == [1] * len(t) + [0] * (L - len(t)), lambda: f"{corpus[r]!r}: mask {mask[r].tolist()}", "vocab")
            R.check(not ids[r][len(t):].any(), "padding ids", "vocab")
            for w, v in zip(t, ids[r].tolist(), strict=False):
                R.check(1 <= v < vs, lambda: f"id {v} outside the vocabulary size {vs}", "vocab")
                R.check(known.setdefault(w, v) == v, lambda: f"token {w!r} has two ids", "vocab")
        named = {w: v for w, v in known.items() if v != 1}
        R.check(set(named) <= ok, lambda: f"corpus {corpus} fit {fit}: {set(named) - ok} got an id but is not frequent in the fit rows", "vocab")
        R.check(len(set(named.values())) == len(named), lambda: f"two tokens share an id: {named}", "vocab")
        if len(ok) <= vs - 2:
            R.check(set(known) - set(named) <= set(known) - ok, lambda: f"corpus {corpus} fit {fit} vocab_size {vs} min_freq {mf}: {ok & set(known) - set(named)} unknown", "vocab")
        else:
            low = min((cnt[w] for w in named), default=0)
            R.check(all(cnt[w] <= low for w in ok & set(known) - set(named)) or not named, lambda: f"corpus {corpus} fit {fit}: kept {named} over more frequent {ok - set(named)}", "vocab")
        R.check(out["metadata.vocab_size"] == 2 + min(len(ok), vs - 2), lambda: f"vocab size {out['metadata.vocab_size']} for {len(ok)} frequent tokens, limit {vs}", "vocab")
        R.outcome(len(named))
    # tf-idf: words of >= 2 characters, smoothed idf over the fit rows, l2 rows
    docs = [[w for w in t if len(w) >= 2] for t in toks]
    voc = sorted({w for r in fit for w in docs[r]})
    if not voc:
        return
    nf = len(fit)
    idf = {w: math.log((1 + nf) / (1 + sum(w in docs[r] for r in fit))) + 1 for w in voc}
    want = np.asarray([[docs[r].count(w) * idf[w] for w in voc] for r in range(m)])
    nrm = np.sqrt((want ** 2).sum(1, keepdims=True))
    want = want / np.where(nrm == 0, 1, nrm)
    got = do("text.tfidf", {"raw.X": X}, fit)["features.X"].toarray()
    R.check(close(got, want), lambda: f"tfidf {corpus} fit {fit}: {got.tolist()} expected {want.tolist()}", "tfidf")
    s = do("text.ensure_strings", {"raw.X": X})["raw.X"]
    R.check(s == list(corpus) and all(type(x) is str for x in s), "ensure_strings", "strings")


def k_casts(c, R):
    import torch
    vals = [np.asarray(v, dtype=t) for v in ([[1, 2], [3, 4]], [[0, 255]], [[1.5, -2.25]], [[]], [1, 2, 3]) for t in ("int64", "uint8", "float32", "float64", "int32") if not (t == "uint8" and v == [[1.5, -2.25]])]
    for x in vals:
        for src in (x, torch.as_tensor(x), x.tolist()):
            for dt in ("float32", "float64", "int64", "int32"):
                R.step()
                R.state(str(x.dtype), x.tolist(), type(src).__name__, dt)
                for got, lib in ((do("core.to_torch", {"features.X": src}, dtype=dt)["features.X"], "torch"), (do("core.cast_dtype", {"features.X": src}, dtype=dt)["features.X"], "numpy")):
                    R.check(str(got.dtype).split(".")[-1] == dt and np.array_equal(np.asarray(got), np.asarray(x).astype(dt)), lambda: f"{lib} cast of {src!r} to {dt}: {got!r}", "cast")
                y = do("labels.to_torch", {"raw.y": src}, dtype=dt)["labels.y"]
                R.check(isinstance(y, torch.Tensor) and str(y.dtype).endswith(dt) and np.array_equal(y.numpy(), x.astype(dt)), "labels.to_torch", "cast")
            h = do("core.cast_fp16", {"features.X": src})["features.X"]
            R.check(h.dtype == np.float16 and np.array_equal(h, x.astype(np.float16)), "fp16", "cast")
            g = do("core.to_numpy", {"features.X": src})["features.X"]
            R.check(isinstance(g, np.ndarray) and np.array_equal(g, x), "to_numpy", "cast")
            g = do("labels.to_numpy", {"raw.y": src})["labels.y"]
            R.check(isinstance(g, np.ndarray) and np.array_equal(g, x), "labels.to_numpy", "cast")
            R.outcome(str(x.dtype), type(src).__name__)


def k_vision(c, R):
    n, lay = c["n"], c["lay"]
    for h, w, ch in itertools.product(range(1, 7), range(1, 7), (1, 2, 3, 4)):
        # unambiguous layouts, plus the ones documented as channels-last
        if lay == "NCHW" and w <= 4:
            continue
        if lay == "NHWC" and h <= 4 and ch > 4:
            continue
        hwc = np.arange(n * h * w * ch).reshape(n, h, w, ch) % 251
        for dt in (np.uint8, np.float32):
            base = hwc.astype(dt)
            x = base if lay == "NHWC" else base.transpose(0, 3, 1, 2)
            back = (lambda a: a) if lay == "NHWC" else (lambda a: a.transpose(0, 2, 3, 1))
            R.step()
            R.state(lay, n, h, w, ch, str(dt))
            for order in ("NCHW", "NHWC", "nchw"):
                got = do("vision.channels_order", {"raw.X": x}, order=order)["raw.X"]
                want = base if order.upper() == "NHWC" else base.transpose(0, 3, 1, 2)
                R.check(got.shape == want.shape and np.array_equal(got, want) and got.dtype == dt, lambda: f"channels_order {order} of {lay} {x.shape}: shape {got.shape}", "order")
            for k in (1, 2, 3, 4):
                got = back(do("vision.ensure_num_channels", {"raw.X": x}, num_channels=k)["raw.X"])
                want = np.repeat(base, k, axis=3) if ch == 1 else base[..., :k] if k <= ch else np.concatenate([base, np.zeros((n, h, w, k - ch), dt)], axis=3)
                R.check(got.shape == want.shape and np.array_equal(got, want), lambda: f"ensure_num_channels {k} of {lay} {x.shape}: {got.shape}", "channels")
            mean, std = tuple(range(1, ch + 1)), tuple(2.0 * (i + 1) for i in range(ch))
            got = back(do("vision.normalize", {"raw.X": x}, mean=mean, std=std)["raw.X"])
            R.check(close(got, (base.astype(float) - np.asarray(mean)) / np.asarray(std)), lambda: f"normalize {lay} {x.shape}", "normalize")
            if dt == np.uint8:
                for H, W in itertools.product(range(1, 8), repeat=2):
                    got = back(do("vision.resize", {"raw.X": x}, height=H, width=W)["raw.X"])
                    R.check(got.shape == (n, H, W, ch) and got.dtype == np.uint8, lambda: f"resize {lay} {x.shape} to {H}x{W}: {got.shape} {got.dtype}", "resize")
                    ri, ci = src_index(R, got, base, 1), src_index(R, got, base, 2)
                    R.check(ri is not None and ci is not None, lambda: f"resize {lay} {x.shape} to {H}x{W} is not a selection of source rows and columns", "resize")
                    for idx, size, out in ((ri, h, H), (ci, w, W)):
                        R.check(idx == sorted(idx) and idx[0] == 0 and (out == 1 or idx[-1] == size - 1) and
                                all(abs(v - i * (size - 1) / max(1, out - 1)) < 1 for i, v in enumerate(idx)), lambda: f"resize {size} -> {out} takes source positions {idx}", "resize")
            if ch == 1:
                for aslist in (True, False):
                    got = do("vision.squeeze", {"raw.X": base}, as_list=aslist)["raw.X"]
                    R.check(isinstance(got, list) == aslist and np.array_equal(np.asarray(got), base[..., 0]), "squeeze", "squeeze")
            R.outcome(lay, ch, h == w)


def src_index(R, got, base, axis):
    """Positions along `axis` of `base` that `got` selects (values are distinct up to 251)."""
    g, b = np.moveaxis(got, axis, 1), np.moveaxis(base, axis, 1)
    out = []
    prev = 0
    for i in range(g.shape[1]):
        m = [j for j in range(b.shape[1]) if np.array_equal(g[:, i, 0], b[:, j, 0])]
        if not m:
            return None
        nxt = [j for j in m if j >= prev]
        prev = nxt[0] if nxt else m[0]
        out.append(prev)
    return out


def k_edges(c, R):
    e = c["e"]
    for edges in itertools.product(list(itertools.product(range(3), repeat=2)), repeat=e):
        for form in ("coo", "rows"):
            ei = np.asarray(edges, dtype=np.int64).reshape(e, 2)
            if form == "coo":
                ei = ei.T
            elif e == 2:
                continue  # a 2x2 array is taken as (2, E)
            for frac in (0.5, 1.0):
                for wt in (None, np.arange(e, dtype=np.float32) + 0.5):
                    R.state(edges, form, frac, wt is None)
                    data = {"graph.edge_index": ei}
                    if wt is not None:
                        data["graph.edge_weight"] = wt
                    w = do("graph.attach_edge_weight", data, weight=2.5)["graph.edge_weight"]
                    R.check(w.shape == (e,) and (np.array_equal(w, wt) if wt is not None else bool((w == 2.5).all())), lambda: f"attach_edge_weight: {w}", "attach")
                    sizes = set()
                    for out in outcomes(data, frac, R):
                        R.step()
                        g = out["graph.edge_index"]
                        g = (g.T if form == "coo" else g).tolist()
                        keep = subset_pos(g, edges, out.get("graph.edge_weight"))
                        R.check(keep, lambda: f"edges {edges} weights {wt} keep_fraction={frac}: {g} weights {out.get('graph.edge_weight')} is not a sub-list with its weights", "sparsify")
                        R.check(len(g) > 0 or e == 0, lambda: f"edges {edges} keep_fraction={frac}: all edges dropped", "sparsify")
                        R.check(frac < 1 or len(g) == e, "keep_fraction=1 drops edges", "sparsify")
                        R.check(("graph.edge_weight" in out) == (wt is not None), "weights", "sparsify")
                        sizes.add(len(g))
                    R.outcome(e, frac, sorted(sizes))


def outcomes(data, frac, R):
    got = []
    _, capped = choice.explore(lambda rng: got.append(do("graph.edge_sparsify", data, rng=rng, keep_fraction=frac)), 100000)
    R.check(not capped, "more answer sequences than expected", "cap")
    yield from got


def subset_pos(g, edges, w):
    pos = -1
    for i, e in enumerate(g):
        if w is not None:
            p = int(round(float(w[i]) - 0.5))
            if p <= pos or p >= len(edges) or list(edges[p]) != list(e):
                return False
            pos = p
        else:
            nxt = [j for j in range(pos + 1, len(edges)) if list(edges[j]) == list(e)]
            if not nxt:
                return False
            pos = nxt[0]
    return w is None or len(w) == len(g)


MISSING = {"", "?", "nan", "NaN", "NA", "N/A", "null", "None"}


def k_onehot(c, R):
    vals = ("a", "b", None, "?", 1.0, "2", float("nan"), "x y", b"a", True)
    isnum = lambda v: isinstance(v, (int, float)) or (isinstance(v, str) and v.strip().replace(".", "").isdigit())  # noqa: E731
    miss = lambda v: v is None or (isinstance(v, float) and math.isnan(v)) or (isinstance(v, (str, bytes)) and (v.decode() if isinstance(v, bytes) else v).strip() in MISSING)  # noqa: E731
    for col in itertools.product(vals, repeat=3):
        if any(isinstance(v, bytes) for v in col) and not all(isinstance(v, bytes) or miss(v) for v in col):
            continue
        for extra in (None, (1, "3", None)):
            X = np.empty((3, 1 if extra is None else 2), dtype=object)
            X[:, 0] = col
            if extra:
                X[:, 1] = extra
            for fit in ((0,), (0, 1), (0, 1, 2), (2,)):
                R.step()
                R.state(str(col), extra, fit)
                num = [j for j in range(X.shape[1]) if all(miss(v) or isnum(v) for v in X[list(fit), j])]
                cat = [j for j in range(X.shape[1]) if j not in num]
                bad = any(not miss(v) and not isnum(v) for j in num for v in X[:, j])
                try:
                    got = do("tabular.one_hot", {"raw.X": X}, fit)["features.X"]
                except Exception as e:  # noqa: BLE001
                    R.check(bad, lambda: f"one_hot {X.tolist()} fit={fit} raises {type(e).__name__}: {e}", "onehot")
                    R.outcome("raises")
                    continue
                name = lambda v: "__missing__" if miss(v) else str(v)  # noqa: E731
                cols = [np.asarray([np.nan if miss(v) else float(v) for v in X[:, j]]) for j in num]
                for j in cat:
                    for lv in sorted({name(v) for v in X[list(fit), j]}):
                        cols.append(np.asarray([1.0 if name(v) == lv else 0.0 for v in X[:, j]]))
                R.check(close(got, np.stack(cols, 1)), lambda: f"one_hot {X.tolist()} fit={fit}: {got.tolist()} expected {np.stack(cols, 1).tolist()}", "onehot")
                R.outcome(len(num), len(cat), got.shape[1])
