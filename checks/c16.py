"""Preprocessing: the step cache is transparent over all plans sharing one cache directory."""
import itertools
import warnings

import numpy as np
from modssc.preprocess import preprocess

from mc import prep

PID = "C16"
BOUNDS = {
    "quick": "every plan of <=3 steps over 22 (tabular), 15 (text), 15 (vision), 12 (graph) configured steps, run cold and warm in one cache shared by all plans "
             "with the same last step, by two datasets and (length <=2) by two seeds and two fit subsets; 33 kinds of cached values; plans of <=2 steps with every array memory-mapped",
    "thorough": "as quick with the seed and fit variants at length 3 and global random state disturbed before every run",
}
ASSUMPTIONS = ["datasets carry the content fingerprint the loader gives them", "floating-point results are compared bit for bit on one machine with single-threaded BLAS per worker"]
CASE_TIMEOUT = 800


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def cases(tier):
    for mod in sorted(prep.ALPHABET):
        for last in range(len(prep.ALPHABET[mod])):
            for test in ((True, False) if mod != "graph" else (False,)):
                yield {"kind": "plans", "mod": mod, "last": last, "test": test}
    for k in range(prep.N_OBJ):
        for big in (False, True):
            yield {"kind": "obj", "k": k, "big": big}
    for mod in sorted(prep.ALPHABET):
        for last in range(len(prep.ALPHABET[mod])):
            yield {"kind": "plans", "mod": mod, "last": last, "test": mod != "graph", "big": True}


def go(ds, steps, seed, fit, reg, root):
    try:
        return prep.obs(preprocess(ds, prep.plan(steps), seed=seed, fit_indices=fit, cache=root is not None, cache_dir=root, registry=reg))
    except Exception as e:  # noqa: BLE001
        return {"exc": type(e).__name__}


def run_case(c, R):
    from modssc.preprocess import cache as pcache
    reg = prep.registry()
    # "big": treat every array as large (memory-mapped on load) and every object array as too long for JSON
    pcache.MMAP_THRESHOLD_BYTES, pcache.OBJECT_JSON_MAX_ITEMS = (1, 0) if c.get("big") else (64 << 20, 10000)
    root = str(R.fresh_dir("cache"))
    if c["kind"] == "obj":
        for mod, test in (("tabular", True), ("tabular", False), ("graph", False)):
            ds = prep.dataset(mod, 0, test)
            steps = [prep.S("mc.obj", kind=c["k"]), prep.S("mc.noise")]
            want = go(ds, steps, 0, None, reg, None)
            for run in range(3):
                got = go(ds, steps, 0, None, reg, root)
                R.step()
                R.check(got == want, lambda: f"value kind {c['k']} on {mod}, cached run {run}: {prep.diff(want, got)}", "value-kind")
            R.state("obj", c["k"], mod, test)
            R.outcome(want["train"]["X"] if "train" in want else want)
        return
    A = prep.ALPHABET[c["mod"]]
    last = A[c["last"]]
    n = 0
    for d in range(0, 2 if c.get("big") else 3):
        for pre in itertools.product(range(len(A)), repeat=d):
            steps = [A[i] for i in pre] + [last]
            for which in (0, 1):
                ds = prep.dataset(c["mod"], which, c["test"])
                ntr = len(ds.train.y)
                variants = [(0, np.arange(ntr))]
                if d < 2 or R.tier == "thorough":
                    variants += [(1, np.arange(ntr)), (0, np.asarray([0, 2, 3])), (0, np.asarray([0, 0, 3, 0, 2])), (0, np.asarray([3, 2, 0]))]
                elif which:
                    variants = [(0, np.asarray([0, 2, 3])), (0, np.asarray([3, 3, 2, 0]))]
                for seed, fit in variants:
                    if R.tier == "thorough":
                        np.random.seed(n)
                    want = go(ds, steps, seed, fit, reg, None)
                    n += 1
                    R.state(c["mod"], c["test"], [s.step_id + str(s.params) for s in steps], which, seed, fit)
                    for run in ("cold", "warm"):
                        got = go(ds, steps, seed, fit, reg, root)
                        R.step()
                        R.check(got == want, lambda: f"{[(s.step_id, dict(s.params)) for s in steps]} seed={seed} fit={fit.tolist()} dataset={which} ({run} run in a shared cache): "
                                f"{prep.diff(want, got)}", "cache-differs:" + last.step_id)
                        if "exc" in want:
                            break
                    R.outcome(want.get("exc"), want.get("train"))
