"""Graph and view caches: kills, failing I/O, damaged files and concurrent builders never yield a wrong graph."""
import itertools
import re
import shutil
import warnings

import numpy as np
from modssc.graph import GraphArtifact, GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec, build_graph, graph_to_views
from modssc.graph.artifacts import NodeDataset
from modssc.graph.cache import GraphCache, GraphCacheError, ViewsCache
from modssc.graph.errors import GraphCacheError as GraphCacheError2

from mc import fs, sched

PID = "C24"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one build on a cache directory left by a kill (before file-system event k, file in flight torn), by an injected OSError, by losing or damaging cached files, "
        "or by one schedule of concurrent builds; non-trivial = distinct (operation, fault, directory content) or schedule")
BOUNDS = {"quick": "9 build operations x {cold, another shard size cached}: every event x 4 torn patterns, ENOSPC at every event; every cached file and pair of files missing/empty/cut; "
                   "2 concurrent builds: all schedules with <=2 preemptions; 3 builds <=1",
          "thorough": "as quick with a second kill during recovery and one more preemption"}
ASSUMPTIONS = ["crash model: process kill; the data handed to the OS survives and writes tear at a prefix", "participants of a schedule are threads; builders share no in-memory state"]
CASE_TIMEOUT = 800

X = np.asarray([[1.0, 0.0], [0.9, 0.55], [0.2, 1.1], [-0.8, 0.35], [-1.5, -1.9], [0.4, -2.7]])
KN = dict(scheme="knn", metric="euclidean", k=2, symmetrize="or", weights=GraphWeightsSpec("heat", 0.5), normalize="none", self_loops=False, backend="numpy")
OPS = {
    "chunks": ("g", dict(KN, chunk_size=2), None, True), "one": ("g", KN, None, True), "shard": ("g", dict(KN, chunk_size=4), 5, True), "noresume": ("g", KN, 5, False),
    "sk": ("g", dict(KN, backend="sklearn"), None, True), "eps": ("g", dict(KN, scheme="epsilon", radius=1.5, chunk_size=3), 3, True), "empty": ("g", dict(KN, scheme="epsilon", radius=0.001, chunk_size=4), None, True),
    "views": ("v", dict(views=("attr", "diffusion")), None, None), "struct": ("v", dict(views=("struct", "attr"), struct_dim=3, walk_length=3, num_walks_per_node=2, window_size=1), None, None),
}
CONC = [("one", "one", 0), ("chunks", "chunks", 1), ("one", "shard1", 0), ("views", "views", 0), ("struct", "views", 0), ("sk", "one", 0), ("shard1", "one5", 0)]
ALIAS = {"shard1": ("g", KN, 7, True), "one5": ("g", KN, 9, False)}
_TMP = re.compile(r"(^|/)tmp[a-z0-9_]{8}(/|$)|manifest\.json[a-z0-9_]{8}\.tmp$|\.npz[a-z0-9_]{8}\.tmp\.npz$")


def private(kind, rel):
    return rel in ("", ".") or bool(_TMP.search(rel))


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)


def cases(tier):
    for p in OPS:
        for pre in (False, True) if OPS[p][0] == "g" else (False,):
            yield {"kind": "kill", "op": p, "pre": pre}
            yield {"kind": "oserr", "op": p, "pre": pre}
        yield {"kind": "rest", "op": p}
    for a, b, less in CONC:
        for part in range(6):
            yield {"kind": "conc", "ops": [a, b], "bound": (2 if tier == "quick" else 3) - less, "part": part, "n": 6}
    for part in range(6):
        yield {"kind": "conc", "ops": ["one"] * 3, "bound": 1, "part": part, "n": 6}


def go(name, root, shard=...):
    kind, kw, sh, resume = OPS.get(name) or ALIAS[name]
    if kind == "g":
        g = build_graph(X, spec=GraphBuilderSpec(**kw), cache=root is not None, cache_dir=None if root is None else str(root), edge_shard_size=sh if shard is ... else shard, resume=resume)
        return (g.n_nodes, g.edge_index.tolist(), None if g.edge_weight is None else g.edge_weight.tolist(), g.directed, dict(g.meta))
    ei = np.asarray([[0, 1, 2, 3, 0, 4, 5, 1], [1, 2, 3, 0, 2, 5, 4, 4]])
    nd = NodeDataset(X=X, y=np.arange(6), graph=GraphArtifact(n_nodes=6, edge_index=ei, edge_weight=np.linspace(0.5, 2, 8)), masks={})
    v = graph_to_views(nd, spec=GraphFeaturizerSpec(**kw), seed=1, cache=root is not None, cache_dir=root)
    return ({k: (str(a.dtype), a.tolist()) for k, a in v.views.items()}, v.y.tolist(), dict(v.meta))


def same(R, want, name, root, where, key):
    kind = (OPS.get(name) or ALIAS[name])[0]
    if kind == "g":
        gc = GraphCache(root=root)
        for fp in gc.list():
            try:
                g, _ = gc.load(fp)
            except (GraphCacheError, GraphCacheError2):
                continue
            except Exception as e:  # noqa: BLE001
                R.check(False, f"{where}: reading the entry raises {type(e).__name__}: {e}", key)
                continue
            if fp == want[4]["fingerprint"]:
                got = (g.n_nodes, g.edge_index.tolist(), None if g.edge_weight is None else g.edge_weight.tolist(), g.directed, dict(g.meta))
                R.check(got == want, lambda: f"{where}: the cache entry holds {got}, expected {want}", key)
    try:
        got = go(name, root)
    except Exception as e:  # noqa: BLE001
        R.check(False, f"{where}: build raises {type(e).__name__}: {e}", key)
        return
    R.check(got == want, lambda: f"{where}: {got}, expected {want}", key)


def complete(R, root, name, where):
    """The manifest is written last: an entry said to exist is one that can be read."""
    kind = (OPS.get(name) or ALIAS[name])[0]
    store = GraphCache(root=root) if kind == "g" else ViewsCache(root=root)
    for fp in store.list():
        if store.exists(fp):
            try:
                store.load(fp) if kind == "g" else store.load(fp, y=np.arange(6), masks={})
            except Exception as e:  # noqa: BLE001
                R.check(False, f"{where}: the entry is said to exist but reading it raises {type(e).__name__}: {e}", "complete")


def run_case(c, R):
    if c["kind"] == "conc":
        return conc(c, R)
    name = c["op"]
    want = go(name, None)
    base, work = R.fresh_dir("base"), R.fresh_dir("work")
    if c["kind"] == "rest":
        go(name, base)
        files = sorted(str(p.relative_to(base)) for p in base.rglob("*") if p.is_file())
        R.count("cached_files", len(files))
        how = ("gone", "empty", "half", "less1")
        faults = [((f, h),) for f in files for h in how] + [p for p in itertools.product(itertools.product(files, how), repeat=2) if p[0][0] < p[1][0]]
        for fl in faults:
            fs.snapshot(base, work)
            if not all((work / f).unlink() is None if h == "gone" else fs.tear(work / f, h) for f, h in fl):
                continue
            R.step()
            for i in range(2):
                same(R, want, name, work, f"{name} with {fl} (run {i})", "at-rest")
            R.state(name, "rest", fl)
            R.outcome(name, fs.tree(work) == fs.tree(base))
        return
    if c["pre"]:
        # an unusable entry of another storage layout is in the way
        go(name, base, shard=2)
        man = next(base.rglob("manifest.json"))
        man.write_bytes(man.read_bytes()[:-1])

    def op():
        return go(name, work)
    if c["kind"] == "oserr":
        fs.snapshot(base, work)
        _, evs = fs.record(work, op)
        for k in range(len(evs)):
            fs.snapshot(base, work)
            r = fs.fail_at(work, op, k)
            R.step()
            where = f"{name} OSError at event {k} {evs[k]}"
            if r[0] == "ok":
                R.check(r[1] == want, lambda: f"{where}: result {r[1]}", "oserr")
            else:
                R.check(r[0] == "exc" and "OSError" in r[3], lambda: f"{where}: ended as {r[:3]}", "oserr")
            same(R, want, name, work, where, "oserr-after")
            R.state(name, c["pre"], "oserr", k)
            R.outcome(r[0])
        return
    for k, how, ev in fs.crash_states(base, work, op):
        R.check(how != "hang", "build hangs")
        where = f"{name} killed before event {k} {ev} torn={how}"
        R.step()
        R.state(name, c["pre"], k, how, sorted(fs.tree(work)))
        if R.tier == "thorough" and how in (None, "empty"):
            b2, w2 = R.fresh_dir("b2"), R.fresh_dir("w2")
            fs.snapshot(work, b2)
            for k2, how2, ev2 in fs.crash_states(b2, w2, lambda: go(name, w2), torn=(None, "empty")):
                R.step()
                same(R, want, name, w2, f"{where}, again killed before {k2} {ev2} torn={how2}", "kill2")
                R.state(name, c["pre"], k, how, k2, how2)
            shutil.rmtree(b2)
            shutil.rmtree(w2)
        if not c["pre"]:
            complete(R, work, name, where)
        for i in range(2):
            same(R, want, name, work, f"{where} (run {i})", "kill")
        R.outcome(name, ev[0])


def conc(c, R):
    root = R.scratch_root / "work"
    want = [go(n, None) for n in c["ops"]]

    def make():
        if root.exists():
            shutil.rmtree(root)
        root.mkdir()

        def judge(results, schedule, trace):
            def where():
                cuts = [(i, trace[i - 1][2], trace[i][2]) for i in range(1, len(trace)) if trace[i][0] != trace[i - 1][0]]
                return f"{c['ops']} switches at {cuts}"
            for n, w, (st, v) in zip(c["ops"], want, results, strict=True):
                R.check(st == "ok", lambda: f"{where()}: {n} raises {type(v).__name__}: {v}", "concurrent")
                R.check(v == w, lambda: f"{where()}: {n}: {v}, expected {w}", "concurrent")
            for n, w in zip(c["ops"], want, strict=True):
                same(R, w, n, root, f"{where()} afterwards", "concurrent-after")
            R.state(c["ops"], schedule)
            R.outcome(c["ops"], len(schedule))
            R.step(len(schedule))
        return root, [lambda n=n: go(n, root) for n in c["ops"]], judge
    for s in sched.explore(make, c["bound"], part=c["part"], parts=c["n"], skip=private):
        R.count("schedule_cap_hit" if s is None else "schedules")
