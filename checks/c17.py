"""Preprocessing cache: kills, failing I/O, damaged files and concurrent runs never change a result."""
import itertools
import re
import shutil
import warnings

import numpy as np
from modssc.preprocess import preprocess

from mc import fs, prep, sched
from mc.prep import S

PID = "C17"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one preprocess run on a cache directory left by a kill (before file-system event k, file in flight torn), by an injected OSError, "
        "by losing or emptying cached files, or by one schedule of concurrent runs; non-trivial = distinct (plan, fault, directory content) or schedule")
BOUNDS = {"quick": "14 plans x {cold, sharing plan cached}: every event x 4 torn patterns, ENOSPC at every event; every cached file and every pair of "
                   "cached files missing/empty/cut; 2 concurrent runs (same or overlapping plans): all schedules with <=2 preemptions (1-step plans), <=1 (2-step); 3 runs <=1",
          "thorough": "as quick with a second kill during recovery, 3 preemptions (1-step) and 2 (2-step)"}
ASSUMPTIONS = ["crash model: process kill; the data handed to the OS survives and writes tear at a prefix",
               "a bare number or string in a JSON file is not cut at rest (a cut number is a number)",
               "participants of a schedule are threads; the pipeline shares no in-memory state between runs"]
CASE_TIMEOUT = 800

PLANS = {
    "cast": ("tabular", [S("core.copy_raw"), S("core.cast_dtype", dtype="float64")]),
    "noise": ("tabular", [S("mc.noise")]),
    "noise2": ("tabular", [S("mc.noise"), S("mc.fitnoise")]),
    "scale": ("tabular", [S("core.ensure_2d"), S("tabular.standard_scaler"), S("core.to_torch")]),
    "labels": ("tabular", [S("labels.encode"), S("labels.ensure_onehot")]),
    "tfidf": ("text", [S("text.tfidf"), S("labels.encode")]),
    "strings": ("text", [S("text.ensure_strings"), S("text.hash_tokenizer", max_length=3, vocab_size=50)]),
    "resize": ("vision", [S("vision.resize", height=2, width=7), S("core.copy_raw")]),
    "edges": ("graph", [S("graph.attach_edge_weight"), S("graph.edge_sparsify", keep_fraction=0.5)]),
    "obj0": ("tabular", [S("mc.obj", kind=0)]),
    "obj9": ("tabular", [S("mc.obj", kind=9), S("mc.noise")]),
    "obj11": ("tabular", [S("mc.obj", kind=11), S("mc.noise")]),
    "obj15": ("tabular", [S("mc.obj", kind=15), S("mc.noise")]),
    "onlynoise": ("graph", [S("mc.noise"), S("labels.encode")]),
}
CONC = [("noise", "noise", 0), ("obj0", "obj0", 0), ("noise2", "noise2", 1), ("noise", "noise2", 1), ("labels", "labels", 1), ("scale", "scale", 1), ("edges", "edges", 1), ("obj9", "obj9", 1)]


# accesses to randomly named temporaries (private to one run) and to the cache root commute with everything
_TMP = re.compile(r"(^|/)(\.tmp-[a-z0-9_]{8}|tmp[a-z0-9_]{8})(/|$)")


def private(kind, rel):
    return (kind in ("stat", "mkdir") and rel == ".") or bool(_TMP.search(rel))


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def cases(tier):
    for p in PLANS:
        for pre in (False, True):
            yield {"kind": "kill", "plan": p, "pre": pre}
            yield {"kind": "oserr", "plan": p, "pre": pre}
        yield {"kind": "rest", "plan": p}
    for a, b, less in CONC:
        n = 6
        for part in range(n):
            yield {"kind": "conc", "ops": [a, b], "bound": (2 if tier == "quick" else 3) - less, "part": part, "n": n}
    for part in range(6):
        yield {"kind": "conc", "ops": ["noise"] * 3, "bound": 1, "part": part, "n": 6}


def go(name, root, reg):
    mod, steps = PLANS[name]
    ds = prep.dataset(mod, 0)
    res = preprocess(ds, prep.plan(steps), seed=3, fit_indices=np.arange(len(ds.train.y) - 1), cache=root is not None, cache_dir=None if root is None else str(root), registry=reg)
    return prep.obs(res)


def same(R, want, name, root, reg, where, key):
    try:
        got = go(name, root, reg)
    except Exception as e:  # noqa: BLE001
        R.check(False, f"{where}: run raises {type(e).__name__}: {e}", key)
        return
    R.check(got == want, lambda: f"{where}: {prep.diff(want, got)}", key)


def run_case(c, R):
    reg = prep.registry()
    if c["kind"] == "conc":
        return conc(c, R, reg)
    name = c["plan"]
    want = go(name, None, reg)
    base, work = R.fresh_dir("base"), R.fresh_dir("work")
    if c["kind"] == "rest":
        go(name, base, reg)
        files = sorted(str(p.relative_to(base)) for p in base.rglob("*") if p.is_file())
        R.count("cached_files", len(files))
        how = ("gone", "empty", "half", "less1")
        faults = [((f, h),) for f in files for h in how] + [p for p in itertools.product(itertools.product(files, how[:2]), repeat=2) if p[0][0] < p[1][0]]
        for fl in faults:
            fs.snapshot(base, work)
            skip = False
            for f, h in fl:
                p = work / f
                if h == "gone":
                    p.unlink()
                elif h == "empty":
                    p.write_bytes(b"")
                elif f.endswith(".json") and p.name != "manifest.json" and p.read_bytes()[:1] not in (b"[", b"{"):
                    skip = True
                else:
                    skip = not fs.tear(p, h)
            if skip:
                continue
            R.step()
            for i in range(2):
                same(R, want, name, work, reg, f"{name} with {fl} (run {i})", "at-rest")
            R.state(name, "rest", fl)
            R.outcome(name, fs.tree(work) == fs.tree(base))
        return
    if c["pre"]:
        mod, steps = PLANS[name]
        ds = prep.dataset(mod, 0)
        preprocess(ds, prep.plan(steps[:1]), seed=3, fit_indices=np.arange(len(ds.train.y) - 1), cache_dir=str(base), registry=reg)

    def op():
        return go(name, work, reg)
    if c["kind"] == "oserr":
        fs.snapshot(base, work)
        _, evs = fs.record(work, op)
        for k in range(len(evs)):
            fs.snapshot(base, work)
            r = fs.fail_at(work, op, k)
            R.step()
            where = f"{name} OSError at event {k} {evs[k]}"
            if r[0] == "ok":
                R.check(r[1] == want, lambda: f"{where}: result differs: {prep.diff(want, r[1])}", "oserr")
            else:
                R.check(r[0] == "exc" and "OSError" in r[3], lambda: f"{where}: ended as {r[:3]}", "oserr")
            same(R, want, name, work, reg, where, "oserr-after")
            R.state(name, c["pre"], "oserr", k)
            R.outcome(r[0])
        return
    for k, how, ev in fs.crash_states(base, work, op):
        R.check(how != "hang", "run hangs")
        where = f"{name} killed before event {k} {ev} torn={how}"
        R.step()
        R.state(name, c["pre"], k, how, sorted(fs.tree(work)))
        if R.tier == "thorough" and how in (None, "empty"):
            b2, w2 = R.fresh_dir("b2"), R.fresh_dir("w2")
            fs.snapshot(work, b2)
            for k2, how2, ev2 in fs.crash_states(b2, w2, lambda: go(name, w2, reg), torn=(None, "empty")):
                R.step()
                same(R, want, name, w2, reg, f"{where}, again killed before {k2} {ev2} torn={how2}", "kill2")
                R.state(name, c["pre"], k, how, k2, how2)
            shutil.rmtree(b2)
            shutil.rmtree(w2)
        for i in range(2):
            same(R, want, name, work, reg, f"{where} (run {i})", "kill")
        R.outcome(name, ev[0])


def conc(c, R, reg):
    root = R.scratch_root / "work"
    want = [go(n, None, reg) for n in c["ops"]]

    def make():
        if root.exists():
            shutil.rmtree(root)
        root.mkdir()

        def judge(results, schedule, trace):
            def where():
                cuts = [(i, trace[i - 1][2], trace[i][2]) for i in range(1, len(trace)) if trace[i][0] != trace[i - 1][0]]
                return f"{c['ops']} switches at {cuts}"
            for n, w, (st, v) in zip(c["ops"], want, results, strict=True):
                R.check(st == "ok", lambda: f"{where()}: {n} raises {type(v).__name__}: {v}", "concurrent")
                R.check(v == w, lambda: f"{where()}: {n}: {prep.diff(w, v)}", "concurrent")
            for n, w in zip(c["ops"], want, strict=True):
                same(R, w, n, root, reg, f"{where()} afterwards", "concurrent-after")
            R.state(c["ops"], schedule)
            R.outcome(c["ops"], len(schedule))
            R.step(len(schedule))
        return root, [lambda n=n: go(n, root, reg) for n in c["ops"]], judge
    for s in sched.explore(make, c["bound"], part=c["part"], parts=c["n"], skip=private):
        R.count("schedule_cap_hit" if s is None else "schedules")
