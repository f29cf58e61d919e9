"""Sampling: labelled budget and class-imbalance caps."""
import itertools

import numpy as np
from modssc.sampling import HoldoutSplitSpec, ImbalanceSpec, LabelingSpec, SamplingPlan, SamplingValidationError, sample

from mc import ds, gen

PID = "C03"
BOUNDS = {
    "quick": "all class-count vectors over <=3 classes with n<=9; every labelling mode x value grid x min_per_class 0..3 x "
             "strategy; all fixed index sets of size <=3 for n<=5; imbalance kinds x caps 1..4 x alpha grid x train/labelled",
    "thorough": "n<=13 and 2 seeds",
}
ASSUMPTIONS = ["seeds from a small set"]
FULL = HoldoutSplitSpec(test_fraction=0.0, val_fraction=0.0, stratify=False)


def cases(tier):
    nmax = 9 if tier == "quick" else 13
    for n in range(1, nmax + 1):
        for counts in gen.multiset_counts(n, 3):
            yield {"kind": "lab", "counts": counts, "lk": ("int", "str", "neg")[n % 3]}
            yield {"kind": "imb", "counts": counts}
    for n in range(1, 6):
        yield {"kind": "fixed", "n": n}


def data(form, y):
    return ds.graph(y, [[0], [0]]) if form == "graph" else ds.inductive(y)


def run_case(c, R):
    {"lab": _lab, "imb": _imb, "fixed": _fixed}[c["kind"]](c, R)


def _lab(c, R):
    counts = [x for x in c["counts"] if x]
    v = [k for k, m in enumerate(c["counts"]) for _ in range(m)]
    v = v[::2] + v[1::2]
    y = gen.LABEL_KINDS[c["lk"]](v)
    n, K = len(v), len(counts)
    cls = {k: m for k, m in enumerate(c["counts"]) if m}
    lab_of = np.asarray(v)
    specs = [("fraction", f) for f in (0.05, 0.2, 0.5, 0.8, 1.0)] + [("count", k) for k in range(0, n + 2)] + \
            [("per_class", k) for k in range(0, 4)]
    for (mode, val), mpc, strat in itertools.product(specs, range(4), ("proportional", "balanced")):
        for form in ("plain", "graph"):
            for seed in ((0,) if R.tier == "quick" else (0, 1)):
                spec = LabelingSpec(mode=mode, value=val, min_per_class=mpc, strategy=strat)
                r, _ = sample(data(form, y), plan=SamplingPlan(split=FULL, labeling=spec), seed=seed)
                R.step()
                lab = np.asarray(r.labeled_idx)
                per = {k: int((lab_of[lab] == k).sum()) for k in cls}
                what = f"{mode}={val} min_per_class={mpc} {strat} counts={c['counts']} -> {per}"
                R.check(len(set(lab.tolist())) == len(lab) and len(lab) <= n, what, "labeled-dup")
                for k, m in cls.items():
                    if m >= mpc:
                        R.check(per[k] >= mpc, f"class {k} below min_per_class: {what}", "min-per-class")
                floor = sum(mpc for m in cls.values() if m >= mpc)
                if mode == "fraction":
                    R.check(abs(max(0, len(lab) - max(0, floor - val * n if floor > val * n else 0)) - val * n) < 1
                            if floor <= val * n else len(lab) <= max(floor, round(val * n) + 1),
                            f"labelled size {len(lab)}: {what}", "label-fraction")
                elif mode == "count":
                    R.check(len(lab) == max(min(val, n), floor), f"labelled size {len(lab)}: {what}", "label-count")
                else:
                    if mpc <= val:
                        for k, m in cls.items():
                            R.check(per[k] >= min(val, m), f"class {k} under-labelled: {what}", "per-class")
                        if all(m >= val for m in cls.values()):
                            R.check(all(p == val for p in per.values()), f"per_class not exact: {what}", "per-class")
                target = len(lab)
                if mode != "per_class" and strat == "balanced" and target:
                    base = target // K
                    if all(m > base for m in cls.values()) and mpc <= base:
                        R.check(max(per.values()) - min(per.values()) <= 1, f"not balanced: {what}", "balanced")
                if mode == "count" and strat == "proportional" and val <= n:
                    if all((m * val) // n >= mpc for m in cls.values()):
                        R.check(all(abs(per[k] - m * val / n) < 1 for k, m in cls.items()), f"not proportional: {what}",
                                "proportional")
                R.state(c["counts"], mode, val, mpc, strat, form, seed)
                R.outcome(tuple(per.values()))


def _fixed(c, R):
    n = c["n"]
    y = np.arange(n) % 2
    split = HoldoutSplitSpec(test_fraction=0.4, val_fraction=0.0, stratify=False)
    for form in ("plain", "graph"):
        r0, _ = sample(data(form, y), plan=SamplingPlan(split=split), seed=0)
        train = set(r0.train_idx.tolist())
        for size in range(0, 4):
            for fx in itertools.product(range(-1, n + 1), repeat=size):
                R.step()
                R.state(n, form, fx)
                ok = len(set(fx)) == len(fx) and set(fx) <= train
                try:
                    r, _ = sample(data(form, y), plan=SamplingPlan(split=split, labeling=LabelingSpec(fixed_indices=list(fx))), seed=0)
                    R.outcome("ok", len(fx))
                    R.check(ok or not train, f"invalid fixed indices {fx} accepted (train={train})", "fixed")
                    if train:
                        R.check(sorted(fx) == sorted(r.labeled_idx.tolist()), f"fixed labels {fx} not used", "fixed")
                except SamplingValidationError:
                    R.outcome("rejected")
                    R.check(not ok, f"valid fixed indices {fx} rejected (train={train})", "fixed")


def _imb(c, R):
    v = np.asarray([k for k, m in enumerate(c["counts"]) for _ in range(m)])
    y = v.copy()
    n = len(v)
    cls = {k: m for k, m in enumerate(c["counts"]) if m}
    specs = [ImbalanceSpec(kind="subsample_max_per_class", max_per_class=k, apply_to=a)
             for k in (1, 2, 3, 4) for a in ("train", "labeled")]
    specs += [ImbalanceSpec(kind="long_tail", alpha=al, min_per_class=m, apply_to=a)
              for al in (0.1, 0.5, 0.9) for m in (0, 1, 2) for a in ("train", "labeled")]
    for spec in specs:
        for form in ("plain", "graph"):
            r, _ = sample(data(form, y), plan=SamplingPlan(split=FULL, labeling=LabelingSpec(mode="fraction", value=1.0),
                                                           imbalance=spec), seed=0)
            R.step()
            tr, la = r.train_idx, r.labeled_idx
            adj = tr if spec.apply_to == "train" else la
            if spec.apply_to == "labeled":
                R.check(len(tr) == n, "labelled imbalance changed the train set", "imb-scope")
                R.check(sorted(set(tr.tolist()) - set(la.tolist())) == sorted(r.unlabeled_idx.tolist()),
                        "rows removed from the labelled set must become unlabelled", "imb-scope")
            kept = {k: int((v[adj] == k).sum()) for k in cls}
            what = f"{spec} {form} counts={c['counts']} kept={kept}"
            if spec.kind == "subsample_max_per_class":
                R.check(all(kept[k] == min(m, spec.max_per_class) for k, m in cls.items()), f"cap: {what}", "imb-cap")
            else:
                srt = sorted(cls.values(), reverse=True)
                want = sorted((m, min(m, max(int(round(srt[0] * spec.alpha ** i)), spec.min_per_class)))
                              for i, m in enumerate(srt))
                R.check(sorted((m, kept[k]) for k, m in cls.items()) == want, f"long tail: {what} want {want}", "imb-tail")
            R.state(c["counts"], str(spec), form)
            R.outcome(sorted(kept.values()))
