"""Dataset cache: every history of loads, refreshes and purges agrees with a reference model."""
import itertools

from modssc.data_loader import load_dataset
from modssc.data_loader import cache as dcache
from modssc.data_loader.api import download_dataset
from modssc.data_loader.errors import DatasetNotCachedError, UnknownDatasetError

from mc import provider

PID = "C12"
ALPHABET = ([(o, d) for d in ("tab0", "tab1", "gra0") for o in ("load", "offline", "force", "dl")]
            + [("purge", "tab0"), ("purge_uri", "mc:tab"), ("purge_uri", "mc:nope"), ("gc", ""), ("reindex", ""), ("update", ""),
               ("down", ""), ("numpy", "tab0"), ("opt", "tab0"), ("bulk", "")])
BOUNDS = {
    "quick": "all operation histories of length <=3 over a 22-operation alphabet (3 datasets, two sharing one URI, plus an option "
             "variant; loads online/offline/forced, purge, purge by URI, keep-latest, reindex, upstream content change, provider "
             "outage, bulk download), and length 4 over 9 of them; every dataset form (tabular, text, graph, ragged objects)",
    "thorough": "length 4 over the full alphabet, length 5 over 9 operations",
}
ASSUMPTIONS = ["the provider is a stub with controlled content; a single process acts on the cache at a time (C14 covers several)"]
SHORT = [("load", "tab0"), ("offline", "tab0"), ("force", "tab0"), ("load", "tab1"), ("purge_uri", "mc:tab"), ("gc", ""), ("update", ""),
         ("reindex", ""), ("down", "")]


def cases(tier):
    for d in range(1, 4 if tier == "quick" else 5):
        for h in itertools.product(range(len(ALPHABET)), repeat=d):
            if d >= 3 and h[0] in (1, 5, 9):    # an offline load of an empty cache is covered at depth 2
                continue
            yield {"h": h}
    for h in itertools.product(range(len(SHORT)), repeat=4 if tier == "quick" else 5):
        yield {"s": h}
    for d in ("txt0", "obj0", "gra1", "tab2"):
        for a, b in itertools.product(("load", "dl", "force", "numpy"), repeat=2):
            yield {"form": d, "ops": (a, b)}


def setup(tier):
    provider.register()


def fp_of(root, d):
    return [m for m in dcache.index_list(dcache.CacheLayout(root=root)) if m["dataset_id"] == d]


def run_case(c, R):
    import modssc.data_loader.services.service as svc  # noqa: F401  (imported for its side effects on lazily built state)
    root = R.fresh_dir("cache")
    layout = dcache.CacheLayout(root=root)
    provider.CONTENT["version"] = 0
    provider.FAIL["on"] = False
    if "form" in c:
        hist = [(o, c["form"]) for o in c["ops"]]
    else:
        hist = [ALPHABET[i] for i in c["h"]] if "h" in c else [SHORT[i] for i in c["s"]]
    model = {}      # (dataset, opt) -> (stored content version, order)
    fps = {}
    clock = 0
    for k, (op, d) in enumerate(hist):
        provider.CALLS.clear()
        R.step()
        tag = f"step {k} {op} {d} of {hist}"
        v, up = provider.CONTENT["version"], not provider.FAIL["on"]
        if op in ("load", "offline", "force", "dl", "numpy", "opt"):
            key = (d, op == "opt")
            kw = {"options": {"x": 1}} if op == "opt" else {}
            call = {"load": lambda: load_dataset(f"mc:{d}", cache_dir=root), "offline": lambda: load_dataset(f"mc:{d}", cache_dir=root, download=False),
                    "force": lambda: load_dataset(f"mc:{d}", cache_dir=root, force=True), "dl": lambda: download_dataset(f"mc:{d}", cache_dir=root),
                    "numpy": lambda: load_dataset(f"mc:{d}", cache_dir=root, as_numpy=True),
                    "opt": lambda: load_dataset(f"mc:{d}", cache_dir=root, **kw)}[op]
            cached = key in model
            try:
                ds = call()
                got = ("ds", provider.obs(ds))
            except DatasetNotCachedError:
                got = ("missing",)
            except RuntimeError as e:
                if "provider unavailable" not in str(e):
                    raise
                got = ("down",)
            if cached and op != "force":
                want_v, calls = model[key][0], 0
            elif op == "offline":
                R.check(got == ("missing",), f"{tag}: uncached offline load gave {got[0]}", "offline")
                R.check(not provider.CALLS, f"{tag}: offline load contacted the provider", "offline-calls")
                continue
            elif not up:
                R.check(got == ("down",), f"{tag}: provider failure not reported: {got[0]}", "down")
                # a failed refresh may keep or drop the old entry, never corrupt it
                if cached:
                    try:
                        old = provider.obs(load_dataset(f"mc:{d}", cache_dir=root, download=False, **kw))
                        R.check({**old, "meta": 0} == {**provider.obs(provider.make(d, model[key][0])), "meta": 0}, f"{tag}: failed refresh left other data", "down-data")
                    except DatasetNotCachedError:
                        del model[key]
                continue
            else:
                want_v, calls = v, 1
                clock += 1
                model[key] = (v, clock)
            R.check(got[0] == "ds", f"{tag}: {got}", "load")
            want = provider.obs(provider.make(d, want_v))
            meta = dict(got[1]["meta"])
            fp = meta.pop("dataset_fingerprint", None)
            R.check(isinstance(fp, str) and fps.setdefault(key, fp) == fp and len(set(fps.values())) == len(fps), f"{tag}: fingerprint {fp} {fps}", "fingerprint")
            R.check({**got[1], "meta": meta} == want, f"{tag}: wrong data: {got[1]} want {want}", "data")
            R.check(len(provider.CALLS) == calls, f"{tag}: provider contacted {len(provider.CALLS)} times, expected {calls}", "calls")
        elif op == "purge":
            if (d, False) in fps:
                dcache.purge_fingerprint(layout, fps[(d, False)])
                model.pop((d, False), None)
        elif op == "purge_uri":
            dcache.ensure_layout(layout)
            gone = dcache.purge_dataset(layout, d)
            mine = [key for key in model if f"mc:{key[0][:-1]}" == d]
            R.check(sorted(gone) == sorted(fps[key] for key in mine), f"{tag}: purged {gone}, expected {mine}", "purge-uri")
            for key in mine:
                del model[key]
        elif op == "gc":
            dcache.ensure_layout(layout)
            gone = dcache.gc_keep_latest(layout)
            latest = {}
            for key, (_v, t) in model.items():
                u = key[0][:-1]
                if u not in latest or model[latest[u]][1] < t:
                    latest[u] = key
            lose = [key for key in model if key not in latest.values()]
            R.check(sorted(gone) == sorted(fps[key] for key in lose), f"{tag}: removed {gone}, expected {lose}", "gc")
            for key in lose:
                del model[key]
        elif op == "reindex":
            dcache.rebuild_index(layout)
        elif op == "update":
            provider.CONTENT["version"] += 1
        elif op == "down":
            provider.FAIL["on"] = not provider.FAIL["on"]
        elif op == "bulk":
            from modssc.data_loader.api import download_all_datasets
            rep = download_all_datasets(cache_dir=root, include=["toy"], skip_cached=True)
            R.check(set(rep.downloaded) | set(rep.skipped_already_cached) == {"toy"} and not rep.failed, f"{tag}: {rep}", "bulk")
            again = download_all_datasets(cache_dir=root, include=["toy"], skip_cached=True)
            R.check(list(again.skipped_already_cached) == ["toy"], f"{tag}: {again}", "bulk")
        # invariant: what is cached, what is indexed and what is on disk agree with the model
        if root.exists() and layout.index_path.exists():
            idx = {r["fingerprint"] for r in dcache.index_list(layout) if r["provider"] == "mc"}
            R.check(idx == {fps[key] for key in model}, f"{tag}: index lists {idx}, model {model}", "index")
        for key, fp in fps.items():
            R.check(dcache.is_cached(layout, fp) == (key in model), f"{tag}: is_cached({key}) wrong", "is_cached")
        R.check(not list(layout.locks_root.glob("*")) if layout.locks_root.exists() else True, f"{tag}: lock left behind", "lock-left")
        R.state(sorted((key, v_[0], v_[1]) for key, v_ in model.items()), provider.CONTENT["version"], provider.FAIL["on"], op, d)
        R.outcome(op, sorted(model))
    # recovery: whatever happened, a final load gives current or stored content
    provider.FAIL["on"] = False
    d = hist[-1][1] if hist[-1][1] and ":" not in hist[-1][1] else "tab0"
    want_v = model[(d, False)][0] if (d, False) in model else provider.CONTENT["version"]
    got = provider.obs(load_dataset(f"mc:{d}", cache_dir=root))
    R.check({**got, "meta": 0} == {**provider.obs(provider.make(d, want_v)), "meta": 0}, f"final load of {d} after {hist}", "final")
    try:
        load_dataset("nonsense", cache_dir=root)
        R.check(False, "unknown dataset accepted", "unknown")
    except UnknownDatasetError:
        pass
