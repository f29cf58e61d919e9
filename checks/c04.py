"""Sampling: a split is a pure function of labels, plan and seed; its stages use independent random streams."""
import itertools
import json
import os
import random
import subprocess
import sys

import numpy as np
from modssc.sampling import (HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy,
                             sample)

from mc import ds, gen
from mc.core import digest

PID = "C04"
BOUNDS = {
    "quick": "10 plans x 3 dataset forms x 2 seeds; all operation sequences up to length 3 over {sample each of 4 other plans, "
             "reseed/draw global numpy, reseed/draw random, reseed torch, save} before the sampled call; all ordered pairs of "
             "labelling/imbalance specs for stream isolation over all label vectors n<=6; a fresh interpreter per hash seed",
    "thorough": "sequences up to length 4, label vectors n<=8",
}
ASSUMPTIONS = []
Y = np.asarray([0, 1, 0, 2, 1, 0, 2, 1, 0, 0, 1, 2])
SPL = [HoldoutSplitSpec(test_fraction=0.25, val_fraction=0.25), HoldoutSplitSpec(test_fraction=0.3, val_fraction=0.2, stratify=False),
       KFoldSplitSpec(k=3, fold=1), KFoldSplitSpec(k=2, fold=0, stratify=False, val_fraction=0.3),
       KFoldSplitSpec(k=3, fold=2, shuffle=False)]
LABS = [LabelingSpec(mode="fraction", value=0.4), LabelingSpec(mode="count", value=3), LabelingSpec(mode="per_class", value=1),
        LabelingSpec(mode="fraction", value=0.9, strategy="balanced", min_per_class=0), LabelingSpec(mode="fraction", value=1.0)]
IMBS = [ImbalanceSpec(), ImbalanceSpec(kind="subsample_max_per_class", max_per_class=1, apply_to="labeled"),
        ImbalanceSpec(kind="long_tail", alpha=0.5, apply_to="labeled")]
TRI = ImbalanceSpec(kind="subsample_max_per_class", max_per_class=2, apply_to="train")
FORMS = ("plain", "official", "graph", "masks")
OPS = ("s0", "s1", "s2", "s3", "np", "rnd", "torch", "save", "other")


def data(form, y):
    if form == "graph":
        return ds.graph(y, [[0, 1], [1, 2]])
    if form == "masks":
        m = np.arange(len(y)) % 4
        return ds.graph(y, [[0], [0]], masks={"train": m < 2, "val": m == 2, "test": m == 3})
    return ds.inductive(y, y[:3] if form == "official" else None)


def obs(r):
    return {"idx": {k: np.asarray(v).tolist() for k, v in r.indices.items()}, "refs": dict(r.refs),
            "masks": {k: np.asarray(v).tolist() for k, v in r.masks.items()}, "fp": r.split_fingerprint,
            "stats": json.dumps(r.stats, sort_keys=True, default=str)}


def parts(r):
    return sorted(r.train_idx.tolist()), sorted(r.val_idx.tolist()), sorted(r.test_idx.tolist())


def plans():
    for i, s in enumerate(SPL):
        yield SamplingPlan(split=s, labeling=LABS[i % 5], imbalance=IMBS[i % 3])
        yield SamplingPlan(split=s, labeling=LABS[(i + 1) % 5], imbalance=TRI)


def table():
    """Everything the fresh-interpreter comparison looks at."""
    return {f"{form}-{i}-{s}": obs(sample(data(form, Y), plan=p, seed=s)[0])
            for form in FORMS for i, p in enumerate(plans()) for s in (0, 7)}


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for d in range(0, depth + 1):
        for seq in itertools.product(OPS, repeat=d):
            yield {"kind": "hist", "seq": seq}
    nmax = 6 if tier == "quick" else 8
    for n in range(2, nmax + 1):
        for y in gen.rgs(n, 3):
            yield {"kind": "iso", "y": y}
    for hs in ("0", "1", "12345"):
        yield {"kind": "proc", "hs": hs}
    yield {"kind": "seeds"}


REF = {}


def setup(tier):
    REF.update(table())


def run_case(c, R):
    if c["kind"] == "hist":
        pl = list(plans())
        for op in c["seq"]:
            R.step()
            if op[0] == "s" and op != "save":
                sample(data("plain", Y[: 6 + int(op[1])]), plan=pl[int(op[1]) * 2], seed=int(op[1]))
            elif op == "np":
                np.random.seed(1)
                np.random.rand(3)
            elif op == "rnd":
                random.seed(5)
                random.random()
            elif op == "torch":
                import torch
                torch.manual_seed(3)
            elif op == "save":
                sample(data("plain", Y), plan=pl[0], seed=0, save=True, cache_root=R.fresh_dir())
            else:
                sample(data("graph", Y), plan=pl[5], seed=7)
        st = np.random.get_state()[1].tolist(), random.getstate()
        k = len(c["seq"])
        for form in FORMS:
            for i, p in enumerate(pl):
                if (i + k) % 3:      # every plan is visited by every third history
                    continue
                for s in (0, 7):
                    d = data(form, Y)
                    before = digest([d.train.X, d.train.y, getattr(d.train, "masks", None), d.meta])
                    got = obs(sample(d, plan=p, seed=s)[0])
                    R.step()
                    R.check(got == REF[f"{form}-{i}-{s}"], f"result depends on earlier calls {c['seq']}: {form} plan {i} seed {s}", "history")
                    R.check(digest([d.train.X, d.train.y, getattr(d.train, "masks", None), d.meta]) == before, "dataset mutated", "mutation")
                    R.outcome(got["fp"])
        R.check((np.random.get_state()[1].tolist(), random.getstate()) == st, "sampling consumed global random state", "global-rng")
        R.state(c["seq"])
    elif c["kind"] == "iso":
        y = np.asarray(c["y"])
        for form in FORMS:
            for split in SPL:
                for seed in (0, 1):
                    ref = None
                    for lab, imb in itertools.product(LABS, IMBS):
                        r, _ = sample(data(form, y), plan=SamplingPlan(split=split, labeling=lab, imbalance=imb), seed=seed)
                        R.step()
                        ref = ref or parts(r)
                        R.check(parts(r) == ref, f"train/val/test changed with the labelling plan: {form} {split} {lab} {imb}", "stream-split")
                        R.state(c["y"], form, str(split), seed, str(lab), str(imb))
                        R.outcome(parts(r))
                    for lab in LABS:
                        base = sample(data(form, y), plan=SamplingPlan(split=split, labeling=lab), seed=seed)[0]
                        for imb in IMBS[1:]:
                            r = sample(data(form, y), plan=SamplingPlan(split=split, labeling=lab, imbalance=imb), seed=seed)[0]
                            R.check(set(r.labeled_idx.tolist()) <= set(base.labeled_idx.tolist()),
                                    "labelled imbalance selected rows outside the labelled set", "stream-label")
                        r = sample(data(form, y), plan=SamplingPlan(split=split, labeling=lab, imbalance=TRI), seed=seed)[0]
                        R.check(parts(r)[1:] == ref[1:] and set(parts(r)[0]) <= set(ref[0]),
                                "train imbalance changed val/test or added rows", "stream-imb")
    elif c["kind"] == "proc":
        env = dict(os.environ, PYTHONHASHSEED=c["hs"])
        out = subprocess.run([sys.executable, "-W", "ignore", "-c",
                              "import json,logging;logging.disable(50);from checks import c04;print('@@'+json.dumps(c04.table(),sort_keys=True))"],
                             env=env, capture_output=True, text=True, timeout=140)
        R.step()
        line = [x for x in out.stdout.splitlines() if x.startswith("@@")]
        R.check(bool(line), f"fresh interpreter failed: {out.stderr[-500:]}", "proc")
        got = json.loads(line[0][2:])
        ref = json.loads(json.dumps(REF, sort_keys=True))
        bad = [k for k in ref if got[k] != ref[k]]
        R.check(not bad, f"another interpreter gives different splits: {bad[:4]}", "proc")
        R.state(c["hs"])
    else:
        y = np.asarray(list(range(3)) * 20)
        for form in ("plain", "graph"):
            for split in (SPL[0], SPL[1], SPL[2]):
                seen, seen_lab = {}, {}
                for s in range(12):
                    r = sample(data(form, y), plan=SamplingPlan(split=split, labeling=LABS[0]), seed=s)[0]
                    R.step()
                    R.state(form, str(split), s)
                    R.check(r.split_fingerprint not in seen, "two seeds share a split fingerprint", "seed-fp")
                    seen[r.split_fingerprint] = parts(r)
                    seen_lab[s] = r.labeled_idx.tolist()
                # 12 seeds drawing from > 1e9 possible splits: a repeat means that the seed is ignored
                R.check(len(set(map(str, seen.values()))) == 12, f"the seed does not vary the split ({form}, {split})", "seed-used")
                R.check(len(set(map(str, seen_lab.values()))) == 12, "the seed does not vary the labelled set", "seed-used")
            m = data("masks", y)
            labs = [sample(m, plan=SamplingPlan(split=SPL[0], labeling=LABS[0]), seed=s)[0].labeled_idx.tolist() for s in range(8)]
            R.check(len(set(map(str, labs))) == 8, "the seed does not vary the labelled set under official masks", "seed-used")
        _identity(R)
        a = SamplingPlan()
        fps = {sample(ds.inductive(Y), plan=a, seed=0, dataset_fingerprint=f)[0].split_fingerprint for f in ("x", "y", None)}
        R.check(len(fps) == 3, "dataset identity not part of the split fingerprint", "seed-fp")


def _identity(R):
    """Two requests with the same split fingerprint (hence the same cache directory) draw the same split."""
    y = np.asarray(list(range(3)) * 20)
    big = [s * (2 ** k) + d for k in (8, 16, 31, 32, 48, 53, 63, 64) for s in (1, -1) for d in (0, 1)]
    base = {"split": {"kind": "holdout", "test_fraction": 0.25, "val_fraction": 0.25}, "labeling": {"mode": "fraction", "value": 0.4}}
    kf = {"split": {"kind": "kfold", "k": 3, "fold": 1}, "labeling": {"mode": "count", "value": 3}}
    plans = [base, kf]
    for sect, key, vals in (("split", "test_fraction", (0.2, 0.2500001, 0.3)), ("split", "val_fraction", (0.0, 0.2, 0.2000001)),
                            ("split", "stratify", (False,)), ("split", "shuffle", (False,)),
                            ("labeling", "value", (0.1, 0.41)), ("labeling", "strategy", ("balanced",)), ("labeling", "min_per_class", (0, 2, 5))):
        for v in vals:
            plans.append({**base, sect: {**base[sect], key: v}})
    for key, vals in (("k", (2, 4)), ("fold", (0, 2)), ("stratify", (False,)), ("shuffle", (False,)), ("val_fraction", (0.3,))):
        for v in vals:
            plans.append({**kf, "split": {**kf["split"], key: v}})
    for im in ({"kind": "subsample_max_per_class", "max_per_class": m, "apply_to": t} for m in (1, 2) for t in ("labeled", "train")):
        plans.append({**base, "imbalance": im})
    for im in ({"kind": "long_tail", "alpha": a, "min_per_class": m, "apply_to": t} for a in (0.5, 0.6) for m in (1, 2) for t in ("labeled", "train")):
        plans.append({**base, "imbalance": im})
    for pol in ({"respect_official_test": False}, {"use_official_graph_masks": False}, {"allow_override_official": True}):
        plans.append({**base, "policy": pol})
    for form in ("plain", "official", "masks"):
        seen = {}
        for i, pd in enumerate(plans):
            try:
                plan = SamplingPlan.from_dict(pd)
            except Exception as e:
                R.check(False, f"plan {pd} is refused: {e}", "identity")
            for s in [0, 1, 2] + (big if i < 2 else []):
                try:
                    r = sample(data(form, y), plan=plan, seed=s)[0]
                except Exception as e:      # e.g. a plan that this form of dataset does not allow
                    R.outcome("refused", form, i, type(e).__name__)
                    continue
                R.step()
                R.state("identity", form, i, s)
                o = obs(r)
                got = (o["idx"], o["masks"], o["refs"])
                if r.split_fingerprint in seen:
                    R.check(seen[r.split_fingerprint][0] == got,
                            f"{form}: plan {pd} seed {s} shares its fingerprint with {seen[r.split_fingerprint][1]} but draws another split", "seed-fp")
                else:
                    seen[r.split_fingerprint] = (got, (pd, s))
