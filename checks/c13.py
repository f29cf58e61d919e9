"""Dataset cache: a kill or I/O failure at any point of a download, refresh, purge, clean-up or reindex."""
import itertools
import shutil

from modssc.data_loader import cache as dcache
from modssc.data_loader import load_dataset
from modssc.data_loader.errors import DatasetNotCachedError

from mc import fs, provider

PID = "C13"
LEVEL = "fault_enumeration"
RULE = ("one evaluation = one kill (before file-system event k, the file being written left as is/empty/half/one byte short) or one "
        "injected OSError during a cache operation, followed by offline load, online load, offline load; non-trivial = distinct "
        "(operation, form, fault point, torn pattern)")
OPS = ("fresh", "refresh", "purge", "purge_uri", "gc", "reindex", "read")
FORMS = ("tab0", "gra0", "txt0", "obj0")
BOUNDS = {"quick": "7 operations x 4 dataset forms x every file-system event x 4 torn patterns, OSError (ENOSPC) at every event; a second "
                   "dataset sharing the cache must survive; a second kill at every event of the load that recovers from a killed refresh",
          "thorough": "as quick, second kills for fresh loads and purges too, and EIO/EACCES"}
ASSUMPTIONS = ["crash model: process kill (data handed to the OS survives; a write tears at a prefix); the sqlite index file is trusted to be atomic",
               "the provider is a stub; it writes one raw file per load"]


def setup(tier):
    provider.register()


def cases(tier):
    for op, form in itertools.product(OPS, FORMS):
        yield {"op": op, "form": form, "kind": "kill"}
        yield {"op": op, "form": form, "kind": "err", "errno": 28}
        if tier == "thorough":
            yield {"op": op, "form": form, "kind": "err", "errno": 5}
            yield {"op": op, "form": form, "kind": "err", "errno": 13}
    if tier == "thorough":
        for op in ("fresh", "refresh", "purge"):
            for part in range(8):
                yield {"op": op, "form": "tab0", "kind": "kill2", "part": part}
    else:
        for part in range(8):
            yield {"op": "refresh", "form": "tab0", "kind": "kill2", "part": part}


def obs(form, version):
    return {**provider.obs(provider.make(form, version)), "meta": 0}


def get(root, form, **kw):
    try:
        return {**provider.obs(load_dataset(f"mc:{form}", cache_dir=root, **kw)), "meta": 0}
    except DatasetNotCachedError:
        return "missing"


def run_case(c, R):
    op, form = c["op"], c["form"]
    other = {"tab0": "gra1"}.get(form, "tab0")
    base, work = R.fresh_dir("base") / "c", R.fresh_dir("work") / "c"
    base.mkdir()
    provider.FAIL["on"] = False
    provider.CONTENT["version"] = 0
    load_dataset(f"mc:{other}", cache_dir=base)
    if op != "fresh":
        load_dataset(f"mc:{form}", cache_dir=base)
    if op == "gc":
        load_dataset(f"mc:{form[:-1]}{(int(form[-1]) + 1) % 2}", cache_dir=base)   # a newer variant under the same URI
    fps = {m["dataset_id"]: m["fingerprint"] for m in dcache.index_list(dcache.CacheLayout(root=base))}
    lay = dcache.CacheLayout(root=work)
    provider.CONTENT["version"] = 1 if op == "refresh" else 0
    new = provider.CONTENT["version"]
    fn = {"fresh": lambda: get(work, form), "refresh": lambda: get(work, form, force=True), "read": lambda: get(work, form, download=False),
          "purge": lambda: dcache.purge_fingerprint(lay, fps[form]), "purge_uri": lambda: dcache.purge_dataset(lay, f"mc:{form[:-1]}"),
          "gc": lambda: dcache.gc_keep_latest(lay), "reindex": lambda: dcache.rebuild_index(lay)}[op]
    legal = [obs(form, 0)] if op != "fresh" else []
    if op in ("fresh", "refresh"):
        legal.append(obs(form, new))

    def judge(where, done):
        got = get(work, form, download=False)
        R.check(got == "missing" or got in legal, f"{where}: cached load returns data that was never stored: {got}", "torn-data")
        if op == "read" or op == "reindex":
            R.check(got != "missing", f"{where}: a read-only operation lost the entry", "lost")
        if done:
            want = "missing" if op in ("purge", "purge_uri", "gc") else legal[-1]
            R.check(got == want, f"{where}: completed operation is not in effect", "complete")
        got2 = get(work, form)
        R.check(got2 in legal + [obs(form, new)] and (got == "missing" or got2 == got), f"{where}: retry returns {got2}", "retry")
        R.check(get(work, form, download=False) == got2, f"{where}: entry not usable after the retry", "retry-cached")
        R.check(get(work, form, force=True) == obs(form, new), f"{where}: forced refresh after the fault", "force")
        R.check(get(work, other, download=False) == obs(other, 0) or (op == "purge_uri" and other[:-1] == form[:-1]),
                f"{where}: another cached dataset was damaged", "bystander")
        R.check(dcache.is_cached(lay, fps.get(form) or [m["fingerprint"] for m in dcache.index_list(lay) if m["dataset_id"] == form][0]),
                f"{where}: not indexed after recovery", "indexed")
        R.outcome("missing" if got == "missing" else legal.index(got))

    if c["kind"] == "err":
        fs.snapshot(base, work)
        _, evs = fs.record(work, fn)
        for k in range(len(evs)):
            fs.snapshot(base, work)
            r = fs.fail_at(work, fn, k, c["errno"])
            R.step()
            R.state(op, form, "err", c["errno"], k)
            R.check(r[0] in ("ok", "exc"), f"operation with a failing write ended as {r}", "err-end")
            if r[0] == "ok" and op in ("fresh", "refresh"):
                R.check(r[1] == obs(form, new), f"{op} survived an OSError at {evs[k]} but returned {r[1]}", "err-value")
            judge(f"{op} {form}: OSError({c['errno']}) at event {k} {evs[k]}", False)
        return
    for k, how, ev in fs.crash_states(base, work, fn):
        if k % 8 != c.get("part", k % 8):
            continue
        R.step()
        R.check(how != "hang", "operation hangs", "hang")
        R.state(op, form, c["kind"], k, how)
        where = f"{op} {form}: kill before event {k} {ev}, torn={how}"
        if c["kind"] == "kill":
            judge(where, ev[0] == "end" and how is None)
            continue
        base2 = R.fresh_dir("b2") / "c"
        fs.snapshot(work, base2)
        for k2, how2, ev2 in fs.crash_states(base2, work, lambda: get(work, form), torn=(None, "half")):
            R.step()
            R.state(op, form, k, how, k2, how2)
            judge(f"{where}; second kill before {k2} {ev2}, torn={how2}", False)
        shutil.rmtree(base2.parent)
