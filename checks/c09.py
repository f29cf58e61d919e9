"""Feature views: column selection semantics, row/label preservation, determinism."""
import itertools

import numpy as np
from modssc.data_loader.types import LoadedDataset, Split
from modssc.preprocess import PreprocessPlan, StepConfig
from modssc.views import ColumnSelectSpec, ViewSpec, ViewsPlan, generate_views, two_view_random_feature_split
from modssc.views.errors import ViewsValidationError

from mc import gen
from mc.core import digest

PID = "C09"
BOUNDS = {
    "quick": "feature counts 1..5; all plans of 2 views and a third of all plans of 3 views over the menu {all, every index subset, 4 "
             "random fractions, complement of any earlier view}; 6 dataset forms (test/no test, node-feature dict, edges+masks, "
             "torch, preprocessed); 2 seeds; malformed specs menu; views with steps of their own: every pair and triple of 5 step lists x column choices x 5 sets of fitted rows",
    "thorough": "feature counts 1..6, all 3-view plans, 4 seeds",
}
ASSUMPTIONS = []
PRE = PreprocessPlan(steps=(StepConfig(step_id="core.ensure_2d"),))

# steps a view may have of its own, with the matrix they give: (fit rows of X, X) -> features
OWN = [(None, lambda f, X: X), ((("core.ensure_2d", {}),), lambda f, X: X),
       ((("tabular.standard_scaler", {}),), lambda f, X: (X - f.mean(0)) / np.where(f.std(0) == 0, 1, f.std(0))),
       ((("tabular.standard_scaler", {"with_std": False}),), lambda f, X: X - f.mean(0)),
       ((("tabular.standard_scaler", {"with_mean": False}), ("tabular.standard_scaler", {"with_std": False})),
        lambda f, X: (X - f.mean(0)) / np.where(f.std(0) == 0, 1, f.std(0)))]


def _own(c, R):
    """Every view applies its own steps, fitted on the given rows, to the dataset that was passed in."""
    n, nf = 6, 3
    X = np.asarray([[((i + 2) * (j + 3) ** 2) % 17 for j in range(nf)] for i in range(n)], dtype=float)
    Xt = X[::-1] * 2 + 1
    y, yt = np.arange(n) % 2, np.arange(n) % 3
    cols = [(None, [0, 1, 2]), (ColumnSelectSpec(mode="indices", indices=(0, 2)), [0, 2]), (ColumnSelectSpec(mode="complement", complement_of="a"), None)]
    names = "abc"[:len(c["pre"])]
    for sel in itertools.product(range(3), repeat=len(names) - 1):
        first = cols[1] if 2 in sel else cols[0]
        for fit in (None, [0], [1, 4], [0, 2, 3, 5], [5, 4, 3, 2, 1, 0]):
            for test in (False, True):
                d = LoadedDataset(train=Split(X=X.copy(), y=y), test=Split(X=Xt.copy(), y=yt) if test else None, meta={"dataset_fingerprint": "f"})
                before = frozen(d)
                vs, want = [], {}
                for nm, pi, (cs, ci) in zip(names, c["pre"], [first] + [cols[i] for i in sel]):
                    st = OWN[pi][0]
                    pp = None if st is None else PreprocessPlan(steps=tuple(StepConfig(step_id=i, params=dict(p)) for i, p in st))
                    vs.append(ViewSpec(name=nm, columns=cs, preprocess=pp))
                    want[nm] = (OWN[pi][1], sorted(set(range(nf)) - {0, 2}) if ci is None else ci)
                r = generate_views(d, plan=ViewsPlan(views=tuple(vs)), seed=3, cache=False, fit_indices=None if fit is None else np.asarray(fit))
                R.step()
                R.state("own", c["pre"], sel, fit, test)
                R.check(frozen(d) == before, "input dataset mutated by a view's steps", "mutation")
                f = X if fit is None else X[fit]
                for nm in names:
                    fn, cl = want[nm]
                    v = r.views[nm]
                    for got, src, lab in ((v.train, X, y), (v.test, Xt, yt)):
                        if got is None:
                            R.check(src is Xt and not test, "a split is missing", "splits")
                            continue
                        ref = fn(f, src)[:, cl]
                        R.check(np.asarray(got.X).shape == ref.shape and np.allclose(np.asarray(got.X), ref, atol=1e-5, rtol=1e-5),
                                f"view {nm} with steps {c['pre']} fitted on rows {fit}: features are not its own steps applied to the dataset", "own-steps")
                        R.check(np.array_equal(np.asarray(got.y), lab), "labels changed", "labels")
                R.outcome("own", r.views["b"].train.X)


def forms(nf):
    n, m = 4, 3
    X = np.arange(n * nf, dtype=float).reshape(n, nf)
    Xt = 100 + np.arange(m * nf, dtype=float).reshape(m, nf)
    y, yt = np.asarray([0, 1, 1, 0]), np.asarray([1, 0, 1])
    meta = {"dataset_fingerprint": "f", "nested": {"a": [1]}, "views": {"old": {"columns": [0]}}}
    yield "plain", LoadedDataset(train=Split(X=X, y=y), test=None, meta=dict(meta))
    yield "test", LoadedDataset(train=Split(X=X, y=y), test=Split(X=Xt, y=yt), meta=dict(meta))
    yield "dict", LoadedDataset(train=Split(X={"x": X, "edge_index": np.asarray([[0], [1]])}, y=y),
                                test=Split(X={"x": Xt, "edge_index": np.asarray([[1], [0]])}, y=yt), meta=dict(meta))
    yield "graph", LoadedDataset(train=Split(X=X, y=y, edges=np.asarray([[0, 1], [1, 2]]),
                                             masks={"train": np.asarray([True, False, True, False])}), test=None, meta=dict(meta))
    import torch
    yield "torch", LoadedDataset(train=Split(X=torch.tensor(X), y=torch.tensor(y)), test=None, meta=dict(meta))
    yield "pre", LoadedDataset(train=Split(X=X, y=y), test=Split(X=Xt, y=yt), meta=dict(meta))


def menu(nf, earlier):
    yield None
    yield ("all",)
    for s in gen.subsets(range(nf)):
        if s:
            yield ("indices", tuple(reversed(s)))
    for f in (0.1, 0.5, 0.7, 1.0):
        yield ("random", f, 0)
    yield ("random", 0.5, 3)
    for e in earlier:
        yield ("complement", e)


def spec(m):
    if m is None:
        return None
    if m[0] == "all":
        return ColumnSelectSpec()
    if m[0] == "indices":
        return ColumnSelectSpec(mode="indices", indices=m[1])
    if m[0] == "random":
        return ColumnSelectSpec(mode="random", fraction=m[1], seed_offset=m[2])
    return ColumnSelectSpec(mode="complement", complement_of=m[1])


def cases(tier):
    for nf in range(1, 6 if tier == "quick" else 7):
        for a in range(len(list(menu(nf, [])))):
            yield {"kind": "plan", "nf": nf, "a": a}
    for ps in itertools.product(range(len(OWN)), repeat=2):
        yield {"kind": "own", "pre": ps, "third": False}
        for third in range(len(OWN)):
            yield {"kind": "own", "pre": ps + (third,), "third": True}
    yield {"kind": "bad"}


def feats(X):
    X = X["x"] if isinstance(X, dict) else X
    return np.asarray(X)


def frozen(d):
    def sp(s):
        return None if s is None else [s.X, s.y, s.edges, s.masks]
    return digest([sp(d.train), sp(d.test), d.meta])


def run_case(c, R):
    if c["kind"] == "bad":
        return _bad(R)
    if c["kind"] == "own":
        return _own(c, R)
    nf = c["nf"]
    a = list(menu(nf, []))[c["a"]]
    plans = []
    for b in menu(nf, ["a"]):
        plans.append([a, b])
        for i, d in enumerate(menu(nf, ["a", "b"])):
            if R.tier == "thorough" or (i + len(plans) + c["a"]) % 3 == 0:
                plans.append([a, b, d])
    fs = list(forms(nf))
    for pi, pl in enumerate(plans):
        for fi, (form, ds) in enumerate(fs):
            if len(pl) == 3 and (pi + fi) % 6:
                continue
            for seed in ((0, 11) if R.tier == "quick" else (0, 1, 11, 2**31)):
                _one(R, nf, pl, form, ds, seed)


def _resolve(pl, nf, cols):
    """Which views are determined, None for random ones; 'err' when a complement is empty."""
    out = {}
    for nm, m in zip("abc", pl):
        if m is None or m[0] == "all":
            out[nm] = list(range(nf))
        elif m[0] == "indices":
            out[nm] = sorted(m[1])
        elif m[0] == "random":
            out[nm] = ("rand", max(1, min(nf, m[1] * nf)))
        else:
            base = out[m[1]]
            if isinstance(base, tuple):
                if pl["abc".index(m[1])][1] == 1.0:
                    return "err"
                out[nm] = ("comp", m[1])
            else:
                out[nm] = sorted(set(range(nf)) - set(base))
                if not out[nm]:
                    return "err"
    return out


def _one(R, nf, pl, form, ds, seed):
    pre = PRE if form == "pre" else None
    plan = ViewsPlan(views=tuple(ViewSpec(name=nm, columns=spec(m), preprocess=pre, meta={"role": nm}) for nm, m in zip("abc", pl)))
    want = _resolve(pl, nf, None)
    before = frozen(ds)
    R.step()
    R.state(nf, pl, form, seed)
    try:
        res = generate_views(ds, plan=plan, seed=seed, cache=False)
    except ViewsValidationError:
        # a complement is empty; a random view may also have taken every column (only if rounding allows it)
        rand_full = any(m and m[0] == "random" and m[1] * nf > nf - 1 for m in pl) or nf == 1
        R.check(want == "err" or rand_full, f"valid views plan rejected: {pl} nf={nf}", "reject")
        R.check(frozen(ds) == before, "input dataset mutated", "mutation")
        R.outcome("rejected")
        return
    R.check(want != "err", f"empty complement view accepted: {pl}", "empty-complement")
    R.check(frozen(ds) == before, f"input dataset mutated by view generation ({form})", "mutation")
    R.check(list(res.views) == list("abc"[:len(pl)]) and set(res.columns) == set(res.views), "view names", "names")
    for nm, m in zip("abc", pl):
        cols = np.asarray(res.columns[nm])
        cl = cols.tolist()
        R.check(cl == sorted(set(cl)) and cl and 0 <= cl[0] and cl[-1] < nf, f"columns {cl} not sorted/unique/in range", "columns")
        w = want[nm]
        if isinstance(w, list):
            R.check(cl == w, f"view {nm} of {pl} has columns {cl}, expected {w}", "select")
        elif w[0] == "rand":
            R.check(abs(len(cl) - w[1]) < 1, f"random view keeps {len(cl)} of {nf} columns for fraction {m[1]}", "fraction")
        if m and m[0] == "complement":
            o = res.columns[m[1]].tolist()
            R.check(not set(o) & set(cl) and sorted(o + cl) == list(range(nf)), f"complement view overlaps or leaves gaps {o} {cl}", "complement")
        v = res.views[nm]
        for got, src in ((v.train, ds.train), (v.test, ds.test)):
            R.check((got is None) == (src is None), "test split lost or invented", "splits")
            if src is None:
                continue
            g, s = feats(got.X), feats(src.X)
            R.check(g.shape == (s.shape[0], len(cl)) and np.array_equal(g, s[:, cols]), f"view {nm} features are not X[:, {cl}] ({form})", "features")
            R.check(np.array_equal(np.asarray(got.y), np.asarray(src.y)), "labels changed", "labels")
            R.check((got.edges is None) == (src.edges is None) and (src.edges is None or np.array_equal(got.edges, src.edges)), "edges changed", "edges")
            R.check(digest(got.masks) == digest(src.masks), "masks changed", "masks")
            if isinstance(src.X, dict):
                R.check(set(got.X) == set(src.X) and np.array_equal(got.X["edge_index"], src.X["edge_index"]), "node dict changed", "dict")
        R.check(v.meta["views"][nm]["columns"] == cl, "recorded columns differ", "meta")
    again = generate_views(ds, plan=plan, seed=seed, cache=False)
    R.check(all(np.array_equal(again.columns[k], res.columns[k]) for k in res.columns), "views not deterministic", "determinism")
    if len(pl) == 3:
        two = generate_views(ds, plan=ViewsPlan(views=plan.views[:2]), seed=seed, cache=False)
        R.check(all(np.array_equal(two.columns[k], res.columns[k]) for k in two.columns), "adding a view changed the others", "independence")
    R.outcome([x.tolist() for x in res.columns.values()])


def _bad(R):
    ds = list(forms(3))[1][1]
    C = ColumnSelectSpec
    A = ViewSpec(name="a")
    bad = [(A,), (A, A), (A, ViewSpec(name="b", columns=C(mode="indices"))), (A, ViewSpec(name="b", columns=C(mode="indices", indices=(-1,)))),
           (A, ViewSpec(name="b", columns=C(mode="indices", indices=(3,)))), (A, ViewSpec(name="b", columns=C(mode="indices", indices=(0, 0)))),
           (A, ViewSpec(name="b", columns=C(mode="random", fraction=0.0))), (A, ViewSpec(name="b", columns=C(mode="random", fraction=1.1))),
           (A, ViewSpec(name="b", columns=C(mode="complement"))), (A, ViewSpec(name="b", columns=C(mode="complement", complement_of="c"))),
           (ViewSpec(name="b", columns=C(mode="complement", complement_of="a")), A), (A, ViewSpec(name=" ")), (A, ViewSpec(name="b", columns=C(mode="x"))),
           (A, ViewSpec(name="b", columns=C(mode="complement", complement_of="b"))), ()]
    for i, v in enumerate(bad):
        R.step()
        R.state("bad", i)
        try:
            generate_views(ds, plan=ViewsPlan(views=tuple(v)), seed=0, cache=False)
            R.check(False, f"malformed plan accepted: {v}", f"bad{i}")
        except ViewsValidationError:
            R.outcome("rejected", i)
    wide = LoadedDataset(train=Split(X=np.zeros((2, 40)), y=np.zeros(2)), test=None, meta={})
    seen = {}
    for s in range(6):
        for off in (0, 1):
            for nm in ("a", "q"):
                p = two_view_random_feature_split(fraction=0.5, seed_offset=off, name_a=nm, name_b="other")
                r = generate_views(wide, plan=p, seed=s, cache=False)
                R.step()
                R.check(len(r.columns[nm]) == 20 and sorted(r.columns[nm].tolist() + r.columns["other"].tolist()) == list(range(40)),
                        "two-view split is not a balanced partition", "two-view")
                seen.setdefault(digest(r.columns[nm]), []).append((s, off, nm))
    # seed, view name and offset select different columns (chance repeat < 1e-10); seed^offset may coincide by design
    by_name = {nm: {digest(generate_views(wide, plan=two_view_random_feature_split(name_a=nm), seed=s, cache=False).columns[nm]) for s in range(8)} for nm in ("a", "q")}
    R.check(all(len(v) == 8 for v in by_name.values()) and not (by_name["a"] & by_name["q"]), "seed or view name does not vary the random columns", "seed-used")
    one = LoadedDataset(train=Split(X=np.zeros(3), y=np.zeros(3)), test=None, meta={})
    try:
        generate_views(one, plan=two_view_random_feature_split(), seed=0, cache=False)
        R.check(False, "1-D features accepted", "bad-1d")
    except ViewsValidationError:
        R.step()
