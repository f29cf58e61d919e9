"""Preprocessing: a plan does exactly what running its applicable steps by hand does; purging changes nothing."""
import itertools
import warnings

import numpy as np
from modssc.preprocess import StepConfig, preprocess
from modssc.preprocess.fingerprint import derive_seed
from modssc.preprocess.services.pipeline import resolve_plan

from mc import prep
from mc.prep import S

PID = "C19"
BOUNDS = {
    "quick": "every plan of <=2 steps over the 4 modality alphabets, and of 3 steps over reduced ones, purge on and off x 4 output keys; "
             "every plan of <=3 steps over {enabled, disabled} x {own, matching, other modality} x 4 required-field sets",
    "thorough": "as quick with 3 steps over the full alphabets",
}
ASSUMPTIONS = ["the reference interpreter takes the seed of a step from derive_seed(seed, id, position)"]
CASE_TIMEOUT = 800
KEYS = ("features.X", "raw.X", "noise.X", "tokens.input_ids")


def setup(tier):
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)


def cases(tier):
    for mod in sorted(prep.ALPHABET):
        for last in range(len(prep.ALPHABET[mod])):
            yield {"kind": "plans", "mod": mod, "last": last}
    for a in range(len(CONDS)):
        yield {"kind": "resolve", "a": a}


CONDS = [dict(enabled=e, modalities=m, requires_fields=r) for e in (True, False) for m in ((), ("text",), ("vision", "text"), ("audio",))
         for r in ((), ("features.X",), ("noise.X", "raw.X"), ("labels.y",))]
BASES = ["core.copy_raw", "mc.noise", "labels.to_numpy", "vision.squeeze"]
OWN = {"core.copy_raw": (), "mc.noise": (), "labels.to_numpy": (), "vision.squeeze": ("vision",)}
PROD = {"core.copy_raw": {"features.X"}, "mc.noise": {"noise.X"}, "labels.to_numpy": {"labels.y"}, "vision.squeeze": {"raw.X"}}


def interpret(ds, steps, seed, fit, reg):
    """steps = [(position, StepConfig)] -> artifacts of both splits"""
    from modssc.preprocess.store import ArtifactStore
    stores = []
    for sp in (ds.train, ds.test):
        if sp is None:
            continue
        st = ArtifactStore({"raw.X": sp.X, "raw.y": sp.y})
        if sp.edges is not None:
            st.set("graph.edge_index", sp.edges)
        for k, v in (sp.masks or {}).items():
            st.set(f"graph.mask.{k}", v)
        stores.append(st)
    for i, cfg in steps:
        rng = np.random.default_rng(derive_seed(seed, step_id=cfg.step_id, step_index=i))
        obj = reg.instantiate(cfg.step_id, params=dict(cfg.params))
        if reg.spec(cfg.step_id).kind == "fittable":
            obj.fit(stores[0], fit_indices=fit, rng=rng)
        for st in stores:
            for k, v in obj.transform(st, rng=rng).items():
                st.set(k, v)
    return [{k: prep.canon(v) for k, v in st.data.items()} for st in stores]


def applicable(cfg, reg, modality):
    mods = cfg.modalities or reg.spec(cfg.step_id).modalities
    return cfg.enabled and not (mods and modality and modality not in mods)


def final(arts, key):
    """X, y and edges of the resulting split."""
    e = arts.get("graph.edge_index")
    if "graph.edge_weight" in arts:
        e = ("D", tuple(sorted(((("str", "edge_index"), e), (("str", "edge_weight"), arts["graph.edge_weight"])))))
    return arts.get(key, arts["raw.X"]), arts.get("labels.y", arts["raw.y"]), e


def run_case(c, R):
    reg = prep.registry()
    if c["kind"] == "resolve":
        return resolve(c, R, reg)
    A = prep.ALPHABET[c["mod"]]
    last = A[c["last"]]
    ds = prep.dataset(c["mod"], 0)
    fit = np.arange(len(ds.train.y))[:-1]
    held = lambda: [prep.canon(v) for s in (ds.train, ds.test) if s is not None for v in (s.X, s.y, s.edges, s.masks)] + [prep.canon(ds.meta)]  # noqa: E731
    before = held()
    for d in range(0, 3):
        pool = range(len(A)) if d < 2 or R.tier == "thorough" else [i for i in range(len(A)) if (i + c["last"]) % 3 == 0]
        for pre in itertools.product(pool, repeat=d):
            steps = [A[i] for i in pre] + [last]
            run = [(i, s) for i, s in enumerate(steps) if applicable(s, reg, ds.meta["modality"])]
            try:
                want = interpret(ds, run, 5, fit, reg)
            except Exception as e:  # noqa: BLE001
                want = type(e).__name__
            R.state(c["mod"], [s.step_id + str(s.params) for s in steps])
            for key in KEYS[:1] if d == 2 else KEYS:
                for purge in (False, True):
                    R.step()
                    where = f"{[(s.step_id, dict(s.params)) for s in steps]} output={key} purge={purge}"
                    try:
                        res = preprocess(ds, prep.plan(steps, key), seed=5, fit_indices=fit, cache=False, registry=reg, purge_unused_artifacts=purge)
                    except Exception as e:  # noqa: BLE001
                        R.check(want == type(e).__name__ or purge and isinstance(want, str), lambda: f"{where}: raises {type(e).__name__}: {e}; by hand: {str(want)[:200]}", "raises")
                        R.outcome(want)
                        continue
                    R.check(not isinstance(want, str), lambda: f"{where}: succeeds but by hand raises {want}", "raises")
                    got = [res.dataset.train] + ([res.dataset.test] if ds.test is not None else [])
                    R.check((res.dataset.test is None) == (ds.test is None), "test split dropped", "split")
                    for nm, g, w, src in zip(("train", "test"), got, want, (ds.train, ds.test), strict=False):
                        have = (prep.canon(g.X), prep.canon(g.y), prep.canon(g.edges) if g.edges is not None else None)
                        R.check(have == final(w, key), lambda: f"{where} {nm}: {str(have)[:300]} by hand {str(final(w, key))[:300]}", "result")
                        R.check(g.masks is src.masks or prep.canon(g.masks) == prep.canon(src.masks), "masks", "result")
                    if not purge:
                        arts = [{k: prep.canon(v) for k, v in a.data.items()} for a in (res.train_artifacts, res.test_artifacts) if a is not None]
                        R.check(arts == want, lambda: f"{where}: artifacts differ from running the steps by hand: {[prep.diff(x, y) for x, y in zip(arts, want, strict=False)]}", "artifacts")
                    R.outcome(have[0])
            R.check(before == held(), lambda: f"{[s.step_id for s in steps]} modified its input dataset", "mutation")


def resolve(c, R, reg):
    rest = CONDS if R.tier == "thorough" else CONDS[::2] + [CONDS[1]]
    for depth in (1, 2, 3):
        for conds in itertools.product(rest, repeat=depth - 1):
            if depth == 3 and R.tier == "quick" and (conds[0]["enabled"] is False and conds[1]["enabled"] is False):
                continue
            for bases in itertools.product(range(4), repeat=1):
                cfgs = []
                for j, cond in enumerate((CONDS[c["a"]],) + conds):
                    cfgs.append(StepConfig(step_id=BASES[(bases[0] + j) % 4], params={}, **cond))
                for modality in ("text", ""):
                    base = prep.dataset("text", 0)
                    ds = type(base)(train=base.train, test=base.test, meta={**base.meta, "modality": modality})
                    fields = {"raw.X", "raw.y"}
                    want, skip = [], []
                    for i, s in enumerate(cfgs):
                        ok = applicable(s, reg, modality) and all(f in fields for f in s.requires_fields)
                        (want if ok else skip).append((i, s.step_id))
                        if ok:
                            fields |= PROD[s.step_id]
                    got = resolve_plan(ds, prep.plan(cfgs), registry=reg)
                    R.step()
                    R.state([(s.step_id, s.enabled, s.modalities, s.requires_fields) for s in cfgs], modality)
                    R.check([(s.index, s.step_id) for s in got.steps] == want, lambda: f"{cfgs} modality={modality!r}: runs {[(s.index, s.step_id) for s in got.steps]}, expected {want}", "resolve")
                    R.check([(s.index, s.step_id) for s in got.skipped] == skip, lambda: f"{cfgs}: skipped {got.skipped}, expected {skip}", "skipped")
                    R.outcome(tuple(want))
                    if depth < 3:
                        res = preprocess(ds, prep.plan(cfgs, "noise.X"), seed=1, cache=False, registry=reg)
                        arts = interpret(ds, [(i, cfgs[i]) for i, _ in want], 1, None, reg)
                        have = [{k: prep.canon(v) for k, v in a.data.items()} for a in (res.train_artifacts, res.test_artifacts)]
                        R.check(have == arts, lambda: f"{cfgs} modality={modality!r}: {[prep.diff(x, y) for x, y in zip(have, arts, strict=False)]}", "resolve-run")
