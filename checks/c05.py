"""Split persistence: exact round trip, and atomicity under a kill at any point of a save."""
import functools
import itertools
import shutil
from pathlib import Path

import numpy as np
from modssc.sampling import (HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan,
                             SamplingResult, load_split, sample, save_split, split_dir_for)

from mc import ds, fs, gen

PID = "C05"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one save/load round trip, or one kill (before file-system event k, with the file being written "
        "left empty/half/one byte short) or injected OSError during a save followed by load; non-trivial = distinct "
        "(history, crash point, torn pattern, directory content)")
BOUNDS = {"quick": "round trip: all label vectors n<=5 x 12 plans x official test/masks; crash: 6x6 ordered pairs of splits "
                   "(fresh save, overwrite), every event, 4 torn patterns, then re-save; plus an OSError at every event",
          "thorough": "as quick with n<=6, 10x10 pairs and histories of three saves with two kills"}
ASSUMPTIONS = ["crash model: process kill (data handed to the OS survives); writes tear at a prefix",
               "no two processes save the same split concurrently"]


@functools.lru_cache(None)
def pool(i):
    y = np.asarray([0, 1, 0, 1, 2, 2, 0, 1])
    plans = [SamplingPlan(split=HoldoutSplitSpec(test_fraction=0.25, val_fraction=0.25)),
             SamplingPlan(split=KFoldSplitSpec(k=2, fold=1), labeling=LabelingSpec(mode="count", value=3)),
             SamplingPlan(split=HoldoutSplitSpec(test_fraction=0.0, val_fraction=0.0),
                          labeling=LabelingSpec(mode="per_class", value=1))]
    if i < 3:
        return sample(ds.inductive(y), plan=plans[i], seed=i)[0]
    if i < 6:
        return sample(ds.graph(y, [[0, 1], [1, 2]]), plan=plans[i - 3], seed=i)[0]
    if i < 9:
        return sample(ds.inductive(y, [0, 1]), plan=plans[i - 6], seed=i)[0]
    return sample(ds.inductive(np.zeros(200, dtype=int)), plan=plans[0], seed=i)[0]


def same(a: SamplingResult, b: SamplingResult):
    if (a.schema_version, a.created_at, a.dataset_fingerprint, a.split_fingerprint) != (
            b.schema_version, b.created_at, b.dataset_fingerprint, b.split_fingerprint):
        return "identity fields differ"
    if dict(a.plan) != dict(b.plan):
        return f"plan {a.plan} != {b.plan}"
    if dict(a.refs) != dict(b.refs):
        return "refs differ"
    for nm in ("indices", "masks"):
        x, y = getattr(a, nm), getattr(b, nm)
        if set(x) != set(y):
            return f"{nm} keys differ: {set(x)} {set(y)}"
        for k in x:
            u, v = np.asarray(x[k]), np.asarray(y[k])
            if u.shape != v.shape or not np.array_equal(u, v) or (u.dtype == bool) != (v.dtype == bool):
                return f"{nm}[{k}] differs: {u} {v}"
    if a.is_graph() != b.is_graph():
        return "mode differs"
    if dict(a.stats) != dict(b.stats):
        return f"stats differ {a.stats} {b.stats}"
    return None


def cases(tier):
    nmax = 5 if tier == "quick" else 6
    for n in range(0, nmax + 1):
        for y in gen.rgs(n, 3):
            yield {"kind": "rt", "y": y}
    p = 6 if tier == "quick" else 10
    for a, b in itertools.product([None] + list(range(p)), range(p)):
        yield {"kind": "crash", "a": a, "b": b}
    for a, b in itertools.product([None, 0, 3], range(p)):
        yield {"kind": "oserr", "a": a, "b": b}
    if tier == "thorough":
        for a, b, c in itertools.product(range(4), repeat=3):
            yield {"kind": "crash2", "a": a, "b": b, "c": c}


PLANS = [SamplingPlan(split=s, labeling=lb, imbalance=im)
         for s in (HoldoutSplitSpec(test_fraction=0.3, val_fraction=0.3), KFoldSplitSpec(k=2, fold=0, val_fraction=0.4))
         for lb in (LabelingSpec(mode="fraction", value=0.5), LabelingSpec(mode="per_class", value=1, strategy="balanced"))
         for im in (ImbalanceSpec(), ImbalanceSpec(kind="long_tail", alpha=0.5, apply_to="labeled"),
                    ImbalanceSpec(kind="subsample_max_per_class", max_per_class=1))]


def run_case(c, R):
    if c["kind"] == "rt":
        y = np.asarray(c["y"], dtype=np.int64)
        for pi, plan in enumerate(PLANS):
            for data in (ds.inductive(y), ds.inductive(y, [0, 1, 0]), ds.graph(y, [[], []])):
                root = R.fresh_dir()
                res, path = sample(data, plan=plan, seed=pi, save=True, cache_root=root)
                R.step()
                got = load_split(path)
                d = same(res, got)
                R.check(d is None, f"loaded split differs from the saved one: {d}", "roundtrip")
                R.check(Path(path) == split_dir_for(dataset_fingerprint=res.dataset_fingerprint,
                                                    split_fingerprint=res.split_fingerprint, root=root), "path")
                R.check(got.train_idx.tolist() == res.train_idx.tolist(), "train idx")
                got.validate(n_train=len(y), n_test=None if data.test is None else 3, n_nodes=len(y))
                before = fs.tree(root)
                try:
                    save_split(pool(1), path, overwrite=False)
                    R.check(False, "existing split overwritten without overwrite=True", "overwrite")
                except FileExistsError:
                    pass
                R.check(fs.tree(root) == before, "refused save modified the existing split", "overwrite")
                save_split(pool(1), path, overwrite=True)
                R.check(same(pool(1), _strip(load_split(path), pool(1))) is None, "overwrite did not replace", "overwrite")
                R.state(c["y"], pi, data.test is None, hasattr(data.train, "edges"))
                R.outcome(res.split_fingerprint)
                shutil.rmtree(root)
        return
    base, work = R.fresh_dir("base"), R.fresh_dir("work")
    out = work / "split"
    a = None if c["a"] is None else pool(c["a"])
    b = pool(c["b"])
    allowed = [x for x in (a, b) if x is not None]
    if a is not None:
        save_split(a, base / "split")

    def op(res=b):
        save_split(res, out, overwrite=True)
        return True

    if c["kind"] == "oserr":
        _, evs = fs.record(work, op) if not fs.snapshot(base, work) else None
        for k in range(len(evs)):
            fs.snapshot(base, work)
            r = fs.fail_at(work, op, k)
            R.step()
            R.check(r[0] in ("ok", "exc"), f"save with a failing write ended as {r}", "oserr")
            got = _load(out)
            _judge(R, got, allowed, r[0] == "ok", b, a, f"OSError at event {k} {evs[k]}")
            R.state(c["a"], c["b"], "oserr", k)
        return
    for k, how, ev in fs.crash_states(base, work, op):
        R.step()
        R.check(how != "hang", "save hangs")
        tree = fs.tree(work)
        R.state(c["a"], c["b"], c.get("c"), k, how, sorted(tree))
        got = _load(out)
        _judge(R, got, allowed, ev[0] == "end" and how is None, b, a, f"kill before event {k} {ev}, torn={how}")
        if c["kind"] == "crash2":
            cc = pool(c["c"])
            base2 = R.fresh_dir("b2")
            fs.snapshot(work, base2)
            w2 = R.fresh_dir("w2")
            out2 = w2 / "split"
            for k2, how2, ev2 in fs.crash_states(base2, w2, lambda: save_split(cc, out2, overwrite=True)):
                R.step()
                R.state(c["a"], c["b"], c["c"], k, how, k2, how2)
                _judge(R, _load(out2), allowed + [cc], ev2[0] == "end" and how2 is None, cc, None,
                       f"second kill at {k2} {ev2} torn={how2} after {k} {how}")
            shutil.rmtree(base2)
            shutil.rmtree(w2)
        # recovery: the same save again always succeeds and is complete
        save_split(b, out, overwrite=True)
        d = same(b, load_split(out))
        R.check(d is None, f"re-save after the crash is not usable: {d}", "recover")


def _load(out):
    try:
        return ("ok", load_split(out))
    except Exception as e:  # noqa: BLE001   an explicit error is acceptable, a wrong split is not
        return ("err", type(e).__name__)


def _judge(R, got, allowed, complete, b, a, where):
    R.outcome(got[0], got[1] if got[0] == "err" else got[1].split_fingerprint)
    if got[0] == "err":
        R.count("load_errors")
        R.check(not complete, f"{where}: completed save cannot be loaded: {got[1]}", "complete")
        return
    R.count("load_ok")
    diffs = [same(x, got[1]) for x in allowed]
    R.check(any(d is None for d in diffs), f"{where}: load returns a split that was never saved: {diffs}", "mixed-split")
    if complete:
        R.check(same(b, got[1]) is None, f"{where}: completed save did not take effect", "complete")


def _strip(got, ref):
    # pool() builds a fresh result each time; only the creation time differs
    return SamplingResult(**{**got.__dict__, "created_at": ref.created_at})
