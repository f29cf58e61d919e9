"""Dataset cache: every interleaving of concurrent loads of the same or different entries."""
import itertools
import shutil

from modssc.data_loader import cache as dcache
from modssc.data_loader import load_dataset
from modssc.data_loader.errors import DatasetNotCachedError

from mc import provider, sched

PID = "C14"
BOUNDS = {"quick": "2 participants, every pair of {load, offline, force} on one entry (cold or cached) and on two entries: all schedules with "
                   "<=2 preemptions; 3 participants: all schedules with <=1 preemption; a switch is possible before every file-system access",
          "thorough": "2 participants with <=3 preemptions, 3 participants with <=2"}
ASSUMPTIONS = ["participants are threads of one process; the code under test shares no in-memory state between them and its lock is per file description, so processes behave alike",
               "a file's content appears whole between two file-system accesses; the provider returns the same content to every participant",
               "a reader that overlaps a forced refresh may fail; it may not return wrong data"]
CASE_TIMEOUT = 800
# the directories of the cache exist before the participants start and are never removed: looking at them commutes with everything
SKIP = frozenset((k, d) for d in (".", "raw", "processed", "manifests", "locks") for k in ("stat", "mkdir"))
PARTS = {"quick": 4, "thorough": 40}


def setup(tier):
    provider.register()


def cases(tier):
    n = PARTS[tier]
    b2, b3 = (2, 1) if tier == "quick" else (3, 2)
    for start in ("cold", "cached"):
        for ops in itertools.combinations_with_replacement(("load", "offline", "force"), 2):
            for part in range(n):
                yield {"start": start, "ops": [(o, "tab0") for o in ops], "bound": b2, "part": part, "n": n}
        for ops in (("load", "load", "load"), ("load", "load", "force"), ("load", "force", "force"), ("offline", "load", "force")):
            for part in range(n):
                yield {"start": start, "ops": [(o, "tab0") for o in ops], "bound": b3, "part": part, "n": n}
    for d, ops in itertools.product(("gra0", "tab1"), (("load", "load"), ("force", "load"), ("force", "force"))):
        for part in range(n):
            yield {"start": "cold", "ops": [(ops[0], "tab0"), (ops[1], d)], "bound": b2, "part": part, "n": n}


def call(root, op, d):
    kw = {"load": {}, "offline": {"download": False}, "force": {"force": True}}[op]
    return {**provider.obs(load_dataset(f"mc:{d}", cache_dir=root, **kw)), "meta": 0}


def run_case(c, R):
    base = R.fresh_dir("base")
    provider.FAIL["on"] = False
    provider.CONTENT["version"] = 0
    dcache.ensure_layout(dcache.CacheLayout(root=base))
    datasets = sorted({d for _o, d in c["ops"]})
    if c["start"] == "cached":
        for d in datasets:
            call(base, "load", d)
    want = {d: {**provider.obs(provider.make(d)), "meta": 0} for d in datasets}
    forced = any(o == "force" for o, _ in c["ops"])
    root = R.scratch_root / "work"

    def make():
        if root.exists():
            shutil.rmtree(root)
        shutil.copytree(base, root)
        provider.CALLS.clear()
        provider.OVERLAP.clear()
        provider.ACTIVE.clear()

        def judge(results, schedule, trace):
            def where():
                steps = [f"{t[0]}:{t[2]}" for t in trace]
                cuts = [i for i in range(1, len(trace)) if trace[i][0] != trace[i - 1][0]]
                return f"{c['start']} {c['ops']}, switches at {[(i, steps[i - 1], steps[i]) for i in cuts]}"
            R.check(max(provider.OVERLAP, default=0) <= 1, lambda: f"{where()}: two participants are downloading the same entry at once", "mutex")
            oks = {d: 0 for d in datasets}
            tried = {d: 0 for d in datasets}
            kinds = []
            for (op, d), (st, v) in zip(c["ops"], results, strict=True):
                tried[d] += op != "offline"
                kinds.append(st if st == "ok" else type(v).__name__)
                if st == "ok":
                    oks[d] += op != "offline"
                    R.check(v == want[d], lambda: f"{where()}: {op} {d} returned wrong data {v}", "data")
                    continue
                if isinstance(v, FileExistsError) and op != "offline":
                    R.check(sum(1 for o, e in c["ops"] if e == d and o != "offline") > 1, lambda: f"{where()}: {op} of {d} blocked by another entry's lock", "foreign-lock")
                    continue
                if isinstance(v, DatasetNotCachedError) and op == "offline":
                    continue
                R.check(forced and op != "force" and isinstance(v, (OSError, EOFError, ValueError)),
                        lambda: f"{where()}: {op} {d} failed with {type(v).__name__}: {v}", "raises")
            lay = dcache.CacheLayout(root=root)
            left = sorted(p.name for p in lay.locks_root.glob("*"))
            R.check(not left, lambda: f"{where()}: lock left behind {left}", "lock-left")
            for d in datasets:
                R.check(not tried[d] or oks[d], lambda: f"{where()}: every participant failed to get {d}: {kinds}", "progress")
                if not forced and c["start"] == "cold":
                    R.check(provider.CALLS.count(d) <= 1, lambda: f"{where()}: {d} downloaded {provider.CALLS.count(d)} times", "twice")
                if oks[d] or c["start"] == "cached":
                    try:
                        R.check(call(root, "offline", d) == want[d], lambda: f"{where()}: cached entry {d} is wrong afterwards", "after")
                    except Exception as e:  # noqa: BLE001
                        R.check(type(e).__name__ == "Violation", lambda: f"{where()}: cached entry {d} unusable afterwards: {type(e).__name__}: {e}", "after")
                        raise
                    idx = [r["dataset_id"] for r in dcache.index_list(lay)]
                    R.check(idx.count(d) == 1, lambda: f"{where()}: index after: {idx}", "index")
            R.state(c["start"], c["ops"], schedule)
            R.outcome(tuple(kinds), tuple(sorted(provider.CALLS)))
            R.step(len(schedule))
        return root, [lambda o=o, d=d: call(root, o, d) for o, d in c["ops"]], judge
    for s in sched.explore(make, c["bound"], part=c["part"], parts=c["n"], skip=SKIP):
        if s is None:
            R.count("schedule_cap_hit")
        else:
            R.count("schedules")
