"""Sampling: stratified holdout proportions and k-fold coverage."""
import itertools

import numpy as np
from modssc.sampling import HoldoutSplitSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy, sample

from mc import ds, gen

PID = "C02"
BOUNDS = {
    "quick": "all class-count vectors over 3 classes with n<=9 (2 arrangements, 3 label types), all fractions of a 6-value "
             "grid for test x val; k-fold: all k<=4 (k<=n or not), every fold, shuffle/stratify/val, 2 seeds, inductive, "
             "official-test and graph datasets",
    "thorough": "n<=13, 4 arrangements, 5 seeds, k<=6",
}
ASSUMPTIONS = ["seeds from a small set"]
FR = (0.0, 0.15, 0.3, 0.5, 0.75, 1.0)
LAB = LabelingSpec(mode="count", value=1)


def arrangements(counts, m):
    base = [c for c, n in enumerate(counts) for _ in range(n)]
    yield base
    if m > 1:
        yield base[::-1]
    if m > 2:
        n = len(base)
        yield [base[(i * 7 + 3) % n] for i in range(n)] if n and n % 7 else base[n // 2:] + base[:n // 2]
    if m > 3:
        yield base[1::2] + base[::2]


def cases(tier):
    nmax, m, kmax = (9, 2, 4) if tier == "quick" else (13, 4, 6)
    for n in range(1, nmax + 1):
        for counts in gen.multiset_counts(n, 3):
            for a, y in enumerate(arrangements(counts, m)):
                yield {"y": y, "lk": ("int", "str", "gap", "float")[(n + a) % 4], "kmax": kmax}


def parts(y, split, pol, form, seed):
    if form == "graph":
        d = ds.graph(y, [[0], [0]])
    else:
        d = ds.inductive(y, y[:1] if form == "official" else None)
    r, _ = sample(d, plan=SamplingPlan(split=split, labeling=LAB, policy=pol), seed=seed)
    return r.train_idx, r.val_idx, r.test_idx


def prop(R, y, pool, hold, what):
    pool, hold = np.asarray(pool), np.asarray(hold)
    if not len(pool):
        return
    for cl in np.unique(y[pool]):
        nc = int((y[pool] == cl).sum())
        h = int((y[hold] == cl).sum())
        e = nc * len(hold) / len(pool)
        R.check(abs(h - e) < 1, f"{what}: class {cl} has {h} held-out samples, proportional share is {e:.2f}", "stratify")


def run_case(c, R):
    y = gen.LABEL_KINDS[c["lk"]](c["y"])
    n = len(y)
    seeds = (0, 1) if R.tier == "quick" else (0, 1, 2, 3, 4)
    for form in ("plain", "official", "graph"):
        pol = SamplingPolicy()
        for t, v in itertools.product(FR, FR):
            for strat in (True, False):
                tr, va, te = parts(y, HoldoutSplitSpec(test_fraction=t, val_fraction=v, stratify=strat), pol, form, seeds[0])
                R.step()
                if strat:
                    if form != "official":
                        prop(R, y, np.arange(n), te, f"test ({t})")
                        tv = np.concatenate([tr, va])
                    else:
                        tv = np.arange(n)
                    prop(R, y, tv, va, f"val ({v})")
                R.outcome(len(tr), len(va), len(te))
        for k in range(2, c["kmax"] + 1):
            for strat, sh, v, seed in itertools.product((True, False), (True, False), (0.0, 0.4), seeds):
                folds, ref = [], None
                for f in range(k):
                    tr, va, te = parts(y, KFoldSplitSpec(k=k, fold=f, stratify=strat, shuffle=sh, val_fraction=v), pol, form, seed)
                    R.step()
                    fold = va if form == "official" else te
                    folds.append(sorted(fold.tolist()))
                    rest = set(range(n)) - set(fold.tolist())
                    keep = set(tr.tolist()) | (set() if form == "official" else set(va.tolist()))
                    R.check(rest == keep, f"fold {f}/{k}: train(+val) is not the complement of the fold", "kfold-complement")
                    if form != "official":
                        R.check(abs(len(va) - v * len(rest)) < 1, "k-fold val size", "kfold-val")
                        if strat:
                            prop(R, y, sorted(rest), va, "k-fold val")
                    R.state(c["y"], form, k, f, strat, sh, v, seed)
                allf = sorted(i for f in folds for i in f)
                R.check(allf == list(range(n)), f"the {k} folds do not partition the data: {folds}", "kfold-cover")
                sizes = [len(f) for f in folds]
                if strat:
                    for cl in np.unique(y):
                        per = [int((y[f] == cl).sum()) if f else 0 for f in folds]
                        R.check(max(per) - min(per) <= 1, f"class {cl} spread over folds {per}", "kfold-strat")
                else:
                    R.check(max(sizes) - min(sizes) <= 1, f"fold sizes {sizes}", "kfold-size")
                R.outcome(sorted(sizes))
            for strat in (True, False):
                a = [parts(y, KFoldSplitSpec(k=k, fold=0, stratify=strat, shuffle=False), pol, form, s)[2].tolist() for s in (0, 5)]
                R.check(a[0] == a[1], "unshuffled folds depend on the seed", "kfold-noshuffle")
