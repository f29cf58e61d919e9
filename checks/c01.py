"""Sampling: partition integrity and official-split policy."""
import itertools

import numpy as np
from modssc.sampling import (HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan,
                             SamplingPolicy, SamplingResult, SamplingValidationError, sample)

from mc import ds, gen

PID = "C01"
LEVEL = "model_checking"
BOUNDS = {
    "quick": "all label vectors up to class renaming, n<=5 and <=3 classes, 6 label types; all holdout/k-fold plans "
             "over a fraction grid x 8 policies x official test absent/empty/2 rows x graph with/without masks "
             "(all 4^n mask assignments for n<=4) x 3 imbalance placements; all single-cell corruptions of a result",
    "thorough": "as quick with n<=7, a finer fraction grid and 3 seeds",
}
ASSUMPTIONS = ["seeds are sampled from a small set; within one seed every plan/label/policy combination is enumerated"]

POL = [SamplingPolicy(a, b, c) for a in (True, False) for b in (True, False) for c in (True, False)]
FR = {"quick": (0.0, 0.2, 0.5, 1.0), "thorough": (0.0, 0.1, 0.25, 0.34, 0.5, 0.9, 1.0)}


def _splits(tier):
    fr = FR[tier]
    for t, v, s in itertools.product(fr, fr, (True, False)):
        yield HoldoutSplitSpec(test_fraction=t, val_fraction=v, stratify=s)
    for k in (2, 3):
        for f in range(k):
            for s, sh, v in itertools.product((True, False), (True, False), (0.0, 0.4)):
                yield KFoldSplitSpec(k=k, fold=f, stratify=s, shuffle=sh, val_fraction=v)


IMB = [ImbalanceSpec(), ImbalanceSpec(kind="subsample_max_per_class", apply_to="train", max_per_class=1),
       ImbalanceSpec(kind="subsample_max_per_class", apply_to="labeled", max_per_class=1)]
LAB = LabelingSpec(mode="fraction", value=0.5)


def cases(tier):
    nmax = 5 if tier == "quick" else 7
    seeds = (0,) if tier == "quick" else (0, 1, 2)
    for n in range(0, nmax + 1):
        for y in gen.rgs(n, 3):
            for nt in (None, 0, 2):
                for seed in seeds:
                    yield {"kind": "ind", "y": y, "nt": nt, "seed": seed, "lk": "int"}
    for lk in gen.LABEL_KINDS:
        for y in gen.rgs(4, 3):
            yield {"kind": "ind", "y": y, "nt": 2, "seed": 3, "lk": lk}
            yield {"kind": "ind", "y": y, "nt": None, "seed": 3, "lk": lk}
    for n in range(1, nmax + 1):
        for y in gen.rgs(n, 3):
            yield {"kind": "graph", "y": y, "seed": 0}
    mm = 4 if tier == "quick" else 5
    for n in range(1, mm + 1):
        for assign in itertools.product(range(4), repeat=n):
            yield {"kind": "masks", "assign": assign, "seed": 1}
    yield {"kind": "corrupt", "graph": False}
    yield {"kind": "corrupt", "graph": True}


def near(size, frac, n):
    return abs(size - frac * n) < 1


def _uniq(R, name, a, hi):
    a = np.asarray(a)
    R.check(a.ndim == 1 and a.dtype.kind in "iu", f"{name} is not an integer index vector")
    R.check(len(set(a.tolist())) == a.size, f"{name} has duplicates: {a}", f"dup:{name}")
    R.check(all(0 <= i < hi for i in a.tolist()), f"{name} out of range: {a} (n={hi})", f"range:{name}")
    return set(a.tolist())


def _ind(R, c, split, pol, imb, y):
    nt, n = c["nt"], len(c["y"])
    yt = None if nt is None else gen.LABEL_KINDS[c["lk"]]([0, 1][:nt])
    data = ds.inductive(y, yt)
    plan = SamplingPlan(split=split, labeling=LAB, imbalance=imb, policy=pol)
    res, path = sample(data, plan=plan, seed=c["seed"])
    R.step()
    official = nt is not None and pol.respect_official_test and not pol.allow_override_official
    tr, va = _uniq(R, "train", res.train_idx, n), _uniq(R, "val", res.val_idx, n)
    te = _uniq(R, "test", res.test_idx, nt if official else n)
    la, un = _uniq(R, "labeled", res.labeled_idx, n), _uniq(R, "unlabeled", res.unlabeled_idx, n)
    R.check(path is None and not res.is_graph(), "inductive result is graph-like")
    R.check(not (tr & va), "train and val overlap", "overlap")
    R.check(res.refs["test"] == ("test" if official else "train"), "test indices refer to the wrong partition", "ref")
    R.check(all(res.refs[k] == "train" for k in ("train", "val", "train_labeled", "train_unlabeled")), "refs", "ref")
    R.check(la <= tr and not (la & un) and (la | un) == tr, f"labeled/unlabeled do not partition train: {tr},{la},{un}",
            "lab-partition")
    if official:
        R.check(te == set(range(nt)), "official test set not used verbatim", "official-test")
        pool = set(range(n))
    else:
        R.check(not (te & (tr | va)), "test overlaps train/val", "overlap")
        pool = set(range(n)) - te
    dropped = pool - tr - va
    if imb.kind == "none" or imb.apply_to != "train":
        R.check(not dropped, f"samples {dropped} are in no partition", "cover")
    else:
        # removing rows from train is the only allowed loss, and only to enforce the cap
        for cl in set(y[i] for i in dropped):
            R.check(sum(1 for i in tr if y[i] == cl) == 1, "row dropped although its class is below the cap", "drop")
        R.check(all(sum(1 for i in tr if y[i] == cl) <= 1 for cl in set(y.tolist())), "cap exceeded", "cap")
    # sizes
    full_train = len(tr) + len(dropped)
    if isinstance(split, HoldoutSplitSpec):
        if not official:
            R.check(near(len(te), split.test_fraction, n), f"test size {len(te)} vs {split.test_fraction}*{n}", "size")
        pn = n if official else n - len(te)
        R.check(near(len(va), split.val_fraction, pn), f"val size {len(va)} vs {split.val_fraction}*{pn}", "size")
        R.check(full_train + len(va) == pn, "train+val size", "size")
    elif official:
        R.check(full_train + len(va) == n, "k-fold train+val size", "size")
    st = res.stats
    R.check(st["train"]["n"] == len(tr) and st["val"]["n"] == len(va) and st["test"]["n"] == len(te)
            and st["train_labeled"]["n"] == len(la), "reported sizes differ from the split", "stats")
    for nm, s, yy in (("train", tr, y), ("val", va, y), ("train_labeled", la, y),
                      ("test", te, yt if official else y)):
        exp = {}
        for i in s:
            exp[str(yy[i])] = exp.get(str(yy[i]), 0) + 1
        R.check(dict(st[nm]["classes"]) == exp, f"class statistics of {nm}: {st[nm]} vs {exp}", "stats")
    res.validate(n_train=n, n_test=nt, n_nodes=None)
    R.state(c["y"], c["lk"], nt, str(split), str(pol), str(imb))
    R.outcome(sorted(tr), sorted(va), sorted(te), sorted(la))


def _graph(R, data, split, pol, imb, y, seed, official):
    n = len(y)
    plan = SamplingPlan(split=split, labeling=LAB, imbalance=imb, policy=pol)
    res, _ = sample(data, plan=plan, seed=seed)
    R.step()
    R.check(res.is_graph() and set(res.masks) == {"train", "val", "test", "labeled", "unlabeled"}, "mask keys")
    m = {k: np.asarray(v) for k, v in res.masks.items()}
    for k, v in m.items():
        R.check(v.dtype == bool and v.shape == (n,), f"mask {k} malformed")
    R.check(not ((m["train"] & m["val"]) | (m["train"] & m["test"]) | (m["val"] & m["test"])).any(), "masks overlap",
            "overlap")
    R.check(np.array_equal(m["labeled"] | m["unlabeled"], m["train"]) and not (m["labeled"] & m["unlabeled"]).any(),
            "labeled/unlabeled do not partition train", "lab-partition")
    train_imb = imb.kind != "none" and imb.apply_to == "train"
    if official is not None:
        R.check(np.array_equal(m["val"], official["val"]) and np.array_equal(m["test"], official["test"]),
                "official val/test masks not used verbatim", "official-mask")
        base = official["train"]
    else:
        base = ~(m["val"] | m["test"])
    if not train_imb:
        R.check(np.array_equal(m["train"], base), "train mask is not the expected remainder", "cover")
    else:
        R.check(not (m["train"] & ~base).any(), "train imbalance added nodes", "cover")
        for cl in set(y.tolist()):
            b, t = int((base & (y == cl)).sum()), int((m["train"] & (y == cl)).sum())
            R.check(t == min(b, 1), f"train imbalance cap not applied to a graph dataset: class {cl} keeps {t} of {b}",
                    "graph-train-imbalance")
    if isinstance(split, HoldoutSplitSpec) and official is None:
        R.check(near(int(m["test"].sum()), split.test_fraction, n), "test size", "size")
        R.check(near(int(m["val"].sum()), split.val_fraction, n - int(m["test"].sum())), "val size", "size")
    for name, idx in (("train", res.train_idx), ("val", res.val_idx), ("test", res.test_idx),
                      ("labeled", res.labeled_idx), ("unlabeled", res.unlabeled_idx)):
        R.check(np.array_equal(np.asarray(idx), np.flatnonzero(m[name])), f"{name}_idx differs from the mask", "idx")
    R.check(all(res.stats[k] == int(m[k].sum()) for k in m) and res.stats["nodes"] == n, "graph statistics", "stats")
    res.validate(n_train=0, n_test=None, n_nodes=n)
    R.state(y.tolist(), str(split), str(pol), str(imb), None if official is None else [official[k].tolist() for k in official])
    R.outcome([m[k].tolist() for k in sorted(m)])


def run_case(c, R):
    tier = R.tier
    if c["kind"] == "ind":
        y = gen.LABEL_KINDS[c["lk"]](c["y"])
        pols = POL if c["nt"] is not None else POL[:2]
        for split in _splits(tier):
            for pol in pols:
                if isinstance(split, KFoldSplitSpec) and pol.use_official_graph_masks:
                    continue
                for imb in IMB:
                    if imb.kind != "none" and split.stratify:
                        continue
                    _ind(R, c, split, pol, imb, y)
    elif c["kind"] == "graph":
        y = np.asarray(c["y"], dtype=np.int64)
        n = len(y)
        data = ds.graph(y, [[i for i in range(n)], [(i + 1) % n for i in range(n)]])
        for split in _splits(tier):
            for pol in (POL[0], POL[-1]):
                for imb in IMB:
                    _graph(R, data, split, pol, imb, y, c["seed"], None)
    elif c["kind"] == "masks":
        a = np.asarray(c["assign"])
        n = len(a)
        y = np.arange(n) % 2
        off = {"train": a == 1, "val": a == 2, "test": a == 3}
        data = ds.graph(y, [list(range(n)), [(i + 1) % n for i in range(n)]], masks=off)
        for pol in POL:
            for split in (HoldoutSplitSpec(test_fraction=0.5, val_fraction=0.5), KFoldSplitSpec(k=2, fold=1)):
                for imb in IMB:
                    _graph(R, data, split, pol, imb, y, c["seed"], off if pol.use_official_graph_masks else None)
        R.check(all(np.array_equal(off[k], data.train.masks[k]) for k in off), "official masks mutated", "mutation")
    else:
        _corrupt(c["graph"], R)


def _rebuild(res, **kw):
    d = dict(schema_version=res.schema_version, created_at=res.created_at, dataset_fingerprint=res.dataset_fingerprint,
             split_fingerprint=res.split_fingerprint, plan=res.plan, indices=res.indices, refs=res.refs,
             masks=res.masks, stats=res.stats)
    d.update(kw)
    return SamplingResult(**d)


def _expect_reject(R, res, what, **kw):
    R.step()
    try:
        res.validate(**kw)
    except SamplingValidationError:
        R.outcome("rejected", what)
        return
    R.check(False, f"validation accepts a split with {what}", f"validate:{what.split(' ')[0]}")


def _corrupt(graph, R):
    y = np.asarray([0, 1, 0, 1, 0, 1, 0, 1])
    n = len(y)
    plan = SamplingPlan(split=HoldoutSplitSpec(test_fraction=0.25, val_fraction=0.34), labeling=LAB)
    if graph:
        res, _ = sample(ds.graph(y, [[0], [1]]), plan=plan, seed=0)
        for k in res.masks:
            for i in range(n):   # flip every single cell; accept only if the result is still consistent
                m = {q: np.array(v) for q, v in res.masks.items()}
                m[k][i] = ~m[k][i]
                ok = (not ((m["train"] & m["val"]) | (m["train"] & m["test"]) | (m["val"] & m["test"])).any()
                      and not (m["labeled"] & ~m["train"]).any() and np.array_equal(m["unlabeled"], m["train"] & ~m["labeled"]))
                R.state("g", k, i)
                if not ok:
                    _expect_reject(R, _rebuild(res, masks=m), f"flip {k}[{i}]", n_train=0, n_test=None, n_nodes=n)
            m = dict(res.masks)
            del m[k]
            _expect_reject(R, _rebuild(res, masks=m), f"missing {k}", n_train=0, n_test=None, n_nodes=n)
        _expect_reject(R, res, "wrong node count", n_train=0, n_test=None, n_nodes=n + 1)
        return
    res, _ = sample(ds.inductive(y), plan=plan, seed=0)
    resT, _ = sample(ds.inductive(y, [0, 1]), plan=plan, seed=0)
    for base, nt in ((res, None), (resT, 2)):
        for k in base.indices:
            a = np.asarray(base.indices[k])
            hi = 2 if base.refs[k] == "test" else n
            for pos in range(a.size):
                for v in range(-1, hi + 1):      # every single-cell overwrite
                    if v == a[pos]:
                        continue
                    ind = {q: np.array(w) for q, w in base.indices.items()}
                    ind[k][pos] = v
                    R.state("i", nt, k, pos, v)
                    if not _consistent(ind, base.refs, n, nt):
                        _expect_reject(R, _rebuild(base, indices=ind), f"{k}[{pos}]={v} (refs test={base.refs['test']})",
                                       n_train=n, n_test=nt, n_nodes=None)
            for pos in range(a.size):          # every single deletion
                ind = {q: np.array(w) for q, w in base.indices.items()}
                ind[k] = np.delete(ind[k], pos)
                if not _consistent(ind, base.refs, n, nt):
                    _expect_reject(R, _rebuild(base, indices=ind), f"drop {k}[{pos}]", n_train=n, n_test=nt, n_nodes=None)
            ind = dict(base.indices)
            del ind[k]
            _expect_reject(R, _rebuild(base, indices=ind), f"missing {k}", n_train=n, n_test=nt, n_nodes=None)


def _consistent(ind, refs, n, nt):
    for k, a in ind.items():
        hi = nt if refs[k] == "test" else n
        if len(set(a.tolist())) != a.size or any(not 0 <= i < hi for i in a.tolist()):
            return False
    s = {k: set(v.tolist()) for k, v in ind.items()}
    if s["train"] & s["val"]:
        return False
    if refs["test"] == "train" and (s["test"] & (s["train"] | s["val"])):
        return False
    return not (s["train_labeled"] & s["train_unlabeled"]) and (s["train_labeled"] | s["train_unlabeled"]) == s["train"]
