"""Declarative plans and registries: what is written is what is read, and what is listed is what is there."""
import itertools
import json
import warnings

import yaml
from modssc import data_augmentation as aug
from modssc import supervised as sup
from modssc.data_augmentation import registry as aug_reg
from modssc.data_augmentation.errors import DataAugmentationValidationError as AugError
from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, GraphWeightsSpec
from modssc.graph.errors import GraphValidationError
from modssc.graph.fingerprint import fingerprint_spec
from modssc.inductive import registry as ind_reg
from modssc.inductive.base import MethodInfo as IndInfo
from modssc.preprocess.plan import PreprocessPlan, StepConfig, dump_plan, load_plan
from modssc.preprocess.registry import available_steps, default_step_registry, step_info
from modssc.sampling import HoldoutSplitSpec, ImbalanceSpec, KFoldSplitSpec, LabelingSpec, SamplingPlan, SamplingPolicy
from modssc.supervised import registry as sup_reg
from modssc.supervised.errors import UnknownBackendError, UnknownClassifierError
from modssc.transductive import registry as tra_reg
from modssc.transductive.base import MethodInfo as TraInfo
from modssc.views.errors import ViewsValidationError
from modssc.views.plan import ColumnSelectSpec, ViewSpec, ViewsPlan

PID = "C06"
BOUNDS = {
    "quick": "sampling plans: the full product of small value sets of each section, every subset of keys present, every "
             "single structural breach; preprocessing plans: every plan of up to 2 steps over 12 steps x 2 output keys; "
             "graph specs: every pair of deviations from 6 base specs over every field; view plans: every plan of up to 3 "
             "views over 3 names x 12 column selections; registries: every operation sequence up to length 3 (4 for classifiers) against a "
             "dictionary; every catalogue entry",
    "thorough": "preprocessing plans of up to 3 steps; triples of graph-spec deviations; registry sequences up to length 4 (5)",
}
ASSUMPTIONS = []
CASE_TIMEOUT = 600


BUILTIN = {}


def setup(tier):
    warnings.simplefilter("ignore")
    BUILTIN.update(inductive=ind_reg.available_methods(), transductive=tra_reg.available_methods(), augmentation=aug.available_ops())


def refuses(R, fn, exc, msg, key):
    try:
        r = fn()
    except exc:
        R.outcome("refused")
        return
    except Exception as e:
        R.check(False, f"{msg}: raises {type(e).__name__}: {e} instead of {exc}", key)
    R.check(False, f"{msg}: accepted as {r!r}", key)


def through(d, how):
    """The mapping after a trip through a file format, or with its keys in another order."""
    if how == "json":
        return json.loads(json.dumps(d))
    if how == "yaml":
        return yaml.safe_load(yaml.safe_dump(d))
    if how == "reversed":
        if isinstance(d, dict):
            return {k: through(d[k], how) for k in reversed(d)}
        return [through(v, how) for v in d] if isinstance(d, list) else d
    return d


HOWS = ("same", "json", "yaml", "reversed")

# ---------------------------------------------------------------- sampling plans
SPLITS = {
    "holdout": (HoldoutSplitSpec, {"test_fraction": (0.2, 0.0, 0.35), "val_fraction": (0.1, 0.25), "stratify": (True, False), "shuffle": (True, False)}),
    "kfold": (KFoldSplitSpec, {"k": (5, 2), "fold": (0, 1), "stratify": (True, False), "shuffle": (True, False), "val_fraction": (0.0, 0.2)}),
}
LAB = {"mode": ("fraction", "count", "per_class"), "value": (0.1, 1, 3), "per_class": (False, True), "min_per_class": (1, 0, 2),
       "strategy": ("proportional", "balanced"), "fixed_indices": (None, [], [4, 0])}
IMB = {"kind": ("none", "subsample_max_per_class", "long_tail"), "apply_to": ("train", "labeled"), "max_per_class": (None, 2, 7),
       "alpha": (None, 0.5, 1.5), "min_per_class": (1, 0, 3)}
POL = {"respect_official_test": (True, False), "use_official_graph_masks": (True, False), "allow_override_official": (False, True)}


def combos(spec):
    for vals in itertools.product(*spec.values()):
        yield dict(zip(spec, vals, strict=True))


def section(kind):
    if kind in SPLITS:
        for kw in combos(SPLITS[kind][1]):
            yield {"kind": kind, **kw}
    elif kind == "labeling":
        for kw in combos(LAB):
            if kw["mode"] != "fraction" and kw["value"] == 0.1:
                continue
            yield {**kw, "value": float(kw["value"]) if kw["mode"] == "fraction" else int(kw["value"])}
    elif kind == "imbalance":
        yield from combos(IMB)
    else:
        yield from combos(POL)


CLS = {"holdout": HoldoutSplitSpec, "kfold": KFoldSplitSpec, "labeling": LabelingSpec, "imbalance": ImbalanceSpec, "policy": SamplingPolicy}
SLOT = {"holdout": "split", "kfold": "split", "labeling": "labeling", "imbalance": "imbalance", "policy": "policy"}
DEF = {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.1, "stratify": True, "shuffle": True},
       "labeling": {"mode": "fraction", "value": 0.1, "per_class": False, "min_per_class": 1, "strategy": "proportional", "fixed_indices": None},
       "imbalance": {"kind": "none", "apply_to": "train", "max_per_class": None, "alpha": None, "min_per_class": 1},
       "policy": {"respect_official_test": True, "use_official_graph_masks": True, "allow_override_official": False}}
KDEF = {"kind": "kfold", "k": 5, "fold": 0, "stratify": True, "shuffle": True, "val_fraction": 0.0}


def typed(a, b):
    """Equal including the kinds of the leaves (True is not 1, 1 is not 1.0)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(typed(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(typed, a, b))
    return a == b


def run_sampling(c, R):
    kind = c["section"]
    slot = SLOT[kind]
    sig = set()
    for d in section(kind):
        R.step()
        kw = {**DEF, slot: d}
        plan = SamplingPlan(**{slot: CLS[kind](**d)})
        out = plan.as_dict()
        R.check(typed(out, kw), f"as_dict of {d} gives {out}", "sampling-as-dict")
        for how in HOWS:
            back = SamplingPlan.from_dict(through(out, how))
            R.check(back == plan, f"{how}: {d} read back as {back}", "sampling-round-trip")
            R.check(typed(back.as_dict(), out), f"{how}: {d} written again as {back.as_dict()}", "sampling-round-trip")
        direct = SamplingPlan.from_dict({slot: d})
        R.check(direct == plan, f"{d} read as {direct}", "sampling-read")
        sig.add(json.dumps(out, sort_keys=True))
        R.state(slot, tuple(map(str, d.values())))
    R.check(len(sig) == len(list(section(kind))), "two different plans are written alike", "sampling-injective")


def run_subset(c, R):
    """A missing key means its documented default."""
    slot = c["slot"]
    base = c["full"]
    default = KDEF if base.get("kind") == "kfold" else DEF[slot]
    keys = [k for k in base if not (slot == "split" and k == "kind")]
    for r in range(len(keys) + 1):
        for pick in itertools.combinations(keys, r):
            d = {k: base[k] for k in pick}
            if base.get("kind") == "kfold":
                d["kind"] = "kfold"
            if slot == "labeling" and "value" in d and "mode" not in d:
                d["value"] = 0.5
            want = {**default, **d}
            if slot == "labeling" and "mode" in d and "value" not in d:
                continue        # an absolute mode without its value is not meaningful
            got = SamplingPlan.from_dict({slot: d}).as_dict()
            R.step()
            R.state(slot, tuple(pick))
            R.check(typed(got, {**DEF, slot: want}), f"{slot}={d} read as {got[slot]}, expected {want}", "sampling-default")


def run_breach(c, R):
    full = SamplingPlan(split=CLS[c["split"]]()).as_dict()
    R.check(SamplingPlan.from_dict({}) == SamplingPlan(), "the empty plan is not the default plan", "sampling-default")
    for slot in full:
        R.check(SamplingPlan.from_dict({slot: None}) == SamplingPlan(), f"{slot}: null is not the default", "sampling-default")
        R.step()
        R.state(slot)
        for bad in ("x", 1, [], [1], True, 0.5, b"k"):
            refuses(R, lambda b=bad, s=slot: SamplingPlan.from_dict({**full, s: b}), ValueError, f"{slot}={bad!r}", "sampling-kind")
        for name in ("extra", "Kind", "test_size", "labeling", ""):
            if name in full[slot]:
                continue
            for val in (None, 0, {}):
                refuses(R, lambda s=slot, n=name, v=val: SamplingPlan.from_dict({**full, s: {**full[s], n: v}}), ValueError,
                        f"unknown key {name!r} in {slot}", "sampling-unknown")
    for name in ("extra", "splits", "Split", "seed"):
        refuses(R, lambda n=name: SamplingPlan.from_dict({**full, n: {}}), ValueError, f"unknown section {name!r}", "sampling-unknown")
    other = {"holdout": ("k", "fold"), "kfold": ("test_fraction",)}[c["split"]]
    for k in other:
        refuses(R, lambda k=k: SamplingPlan.from_dict({"split": {**full["split"], k: 1}}), ValueError, f"{k} in a {c['split']} split", "sampling-unknown")
    enum = {"split": {"kind": ("x", "", "Holdout", "HOLDOUT")}, "labeling": {"mode": ("x", "", "percent"), "strategy": ("x", "", "equal")},
            "imbalance": {"kind": ("x", "", "longtail"), "apply_to": ("x", "", "test")}}
    for slot, f in enum.items():
        for k, vals in f.items():
            for v in vals:
                refuses(R, lambda s=slot, k=k, v=v: SamplingPlan.from_dict({s: {**full[s], k: v}}), ValueError, f"{slot}.{k}={v!r}", "sampling-enum")
    for v in ("12", b"12", 3, 2.5, {"a": 1}, {1, 2}):
        refuses(R, lambda v=v: SamplingPlan.from_dict({"labeling": {"fixed_indices": v}}), ValueError, f"fixed_indices={v!r}", "sampling-kind")


# ---------------------------------------------------------------- preprocessing plans
STEPS = [StepConfig("core.ensure_2d"), StepConfig("core.ensure_2d", enabled=False), StepConfig("core.cast_dtype", {"dtype": "float32"}),
         StepConfig("core.cast_dtype", {"dtype": "float64"}), StepConfig("core.pca", {"n_components": 2, "center": True}),
         StepConfig("core.pca", {"n_components": 2, "center": False}), StepConfig("x.y", {"a": {"b": [1, 2.5, None, "t: u"]}, "n": "1"}),
         StepConfig("x.y", {"a": {"b": [1, 2.5, None, "t: u"]}, "n": 1}), StepConfig("x.y", {"a": None}, modalities=("text", "vision")),
         StepConfig("x.y", {"a": None}, modalities=("vision", "text")), StepConfig("x.y", {"a": None}, requires_fields=("raw.X",)),
         StepConfig("é: 1", {"k é": "yes", "no": "off", "t": "2020-01-01", "e": "1e-3"}, ("no",), ("on", "null"), True)]


def plan_dict(p):
    return {"output_key": p.output_key, "steps": [{"id": s.step_id, "params": dict(s.params), "modalities": list(s.modalities),
                                                  "requires_fields": list(s.requires_fields), "enabled": s.enabled} for s in p.steps]}


def plan_keys(p):
    return json.dumps(plan_dict(p), sort_keys=True)


def run_prep(c, R):
    f = R.fresh_dir() / "plan.yaml"
    prints = {}
    for key in ("features.X", "out"):
        for rest in itertools.product(range(len(STEPS)), repeat=c["more"]):
            p = PreprocessPlan(steps=tuple(STEPS[i] for i in (*c["head"], *rest)), output_key=key)
            R.step()
            R.state(key, c["head"], rest)
            R.check(typed(p.to_dict(), plan_dict(p)), f"to_dict of {p} is {p.to_dict()}", "prep-as-dict")
            dump_plan(p, f)
            back = load_plan(f if rest else str(f))
            R.check(back == p and typed(back.to_dict(), plan_dict(p)), f"{p} read back as {back}", "prep-round-trip")
            R.check(back.fingerprint() == p.fingerprint(), f"fingerprint of {p} changes on disk", "prep-fingerprint")
            for how in ("json", "reversed"):
                f.write_text(json.dumps(through(p.to_dict(), how)))
                R.check(load_plan(f) == p, f"{how}: {p} read back as {load_plan(f)}", "prep-round-trip")
            prints.setdefault(p.fingerprint(), set()).add(plan_keys(p))
    for k, v in prints.items():
        R.check(len(v) == 1, f"fingerprint {k} shared by {sorted(v)}", "prep-fingerprint")


def run_prepdoc(c, R):
    f = R.fresh_dir() / "p.yaml"

    def load(doc, raw=False):
        f.write_text(doc if raw else yaml.safe_dump(doc))
        return load_plan(f)

    ok = {"id": "a"}
    for step in (ok, {"step_id": "a"}, {"id": "a", "step_id": "b"}, {"id": "a", "params": None}, {"id": "a", "params": {}},
                 {"id": "a", "modalities": None}, {"id": "a", "requires_fields": []}, {"id": "a", "enabled": True}, {"id": None, "step_id": "a"}):
        R.step()
        p = load({"steps": [step]})
        R.state(str(step))
        R.check(p == PreprocessPlan(steps=(StepConfig("a"),)), f"{step} read as {p}", "prep-default")
    R.check(load({}) == PreprocessPlan(steps=()) and load({"output_key": "k"}) == PreprocessPlan((), "k"), "a plan without steps is not the empty plan", "prep-default")
    R.check(load({"steps": [{"id": "a", "enabled": False}]}).steps[0].enabled is False, "a disabled step is read as enabled", "prep-default")
    for bad in ("[]", "- id: a", "text", "3", "", "null"):
        refuses(R, lambda b=bad: load(b, True), ValueError, f"plan file {bad!r}", "prep-kind")
    for bad in (3, {"id": "a"}, True):
        refuses(R, lambda b=bad: load({"steps": b}), ValueError, f"steps={bad!r}", "prep-kind")
    for bad in ("a", 3, None, ["id"], {}, {"params": {}}, {"id": ""}, {"id": None}, {"step_id": ""}, {"step_id": None}, {"name": "a"},
                {"id": "a", "params": [1]}, {"id": "a", "params": "x"}, {"id": "a", "params": 3}):
        for pos in (0, 1):
            steps = [ok]
            steps.insert(pos, bad)
            refuses(R, lambda s=steps: load({"steps": s}), ValueError, f"step {bad!r}", "prep-step")


# ---------------------------------------------------------------- graph specs
BASES = [GraphBuilderSpec(), GraphBuilderSpec(scheme="epsilon", radius=0.5), GraphBuilderSpec(scheme="anchor", n_anchors=4),
         GraphBuilderSpec(metric="euclidean", weights=GraphWeightsSpec("heat", 2.0)), GraphBuilderSpec(weights=GraphWeightsSpec("cosine")),
         GraphBuilderSpec(backend="faiss", weights=GraphWeightsSpec())]
W = tuple(GraphWeightsSpec(k, s) for k in ("binary", "heat", "cosine", "gauss") for s in (None, 0.0, 0.5, -1.0))
FIELDS = {"scheme": ("knn", "epsilon", "anchor", "x"), "metric": ("cosine", "euclidean", "manhattan"), "k": (None, 0, 1, -1, 30), "radius": (None, 0.0, 0.5, -0.5),
          "symmetrize": ("none", "or", "mutual", "and"), "weights": W, "normalize": ("none", "rw", "sym", "l2"), "self_loops": (True, False),
          "backend": ("auto", "numpy", "sklearn", "faiss", "torch"), "chunk_size": (512, 1, 0, -1), "feature_field": ("features.X", "raw.X"),
          "n_anchors": (None, 0, 1, -2), "anchors_k": (5, 1, 0), "anchors_method": ("random", "kmeans", "grid"), "candidate_limit": (1000, 1, 0),
          "faiss_exact": (False, True), "faiss_hnsw_m": (32, 1, 0), "faiss_ef_search": (64, 1, 0), "faiss_ef_construction": (200, 1, 0)}
FEAT = {"views": (("attr",), ("diffusion", "attr"), ("struct",), (), ("attr", "pca"), ("x",)), "diffusion_steps": (5, 0, -1), "diffusion_alpha": (0.1, 0.0, 1.0, -0.1, 1.1),
        "struct_method": ("deepwalk", "node2vec", "line"), "struct_dim": (64, 1, 0), "walk_length": (40, 2, 1), "num_walks_per_node": (10, 1, 0),
        "window_size": (5, 1, 0), "p": (1.0, 0.5, 0.0, -1.0), "q": (1.0, 2.0, 0.0), "cache": (True, False)}


def good_builder(v):
    ok = v["metric"] in ("cosine", "euclidean") and v["symmetrize"] in ("none", "or", "mutual") and v["normalize"] in ("none", "rw", "sym")
    ok = ok and v["backend"] in ("auto", "numpy", "sklearn", "faiss") and v["scheme"] in ("knn", "epsilon", "anchor")
    ok = ok and min(v["chunk_size"], v["faiss_hnsw_m"], v["faiss_ef_search"], v["faiss_ef_construction"]) > 0
    w = v["weights"]
    ok = ok and w.kind in ("binary", "heat", "cosine") and (w.kind != "heat" or (w.sigma is not None and w.sigma > 0)) and (w.kind != "cosine" or v["metric"] == "cosine")
    if v["scheme"] == "epsilon":
        return ok and v["radius"] is not None and v["radius"] > 0 and v["backend"] != "faiss"
    ok = ok and v["k"] is not None and v["k"] > 0
    if v["scheme"] == "anchor":
        ok = ok and v["anchors_k"] > 0 and v["candidate_limit"] > 0 and v["anchors_method"] in ("random", "kmeans") and (v["n_anchors"] is None or v["n_anchors"] > 0)
    return ok


def good_feat(v):
    return (v["diffusion_steps"] >= 0 and 0 <= v["diffusion_alpha"] <= 1 and len(v["views"]) > 0 and set(v["views"]) <= {"attr", "diffusion", "struct"}
            and v["struct_method"] in ("deepwalk", "node2vec") and v["walk_length"] > 1
            and min(v["struct_dim"], v["num_walks_per_node"], v["window_size"]) > 0 and v["p"] > 0 and v["q"] > 0)


def plain(v):
    if isinstance(v, GraphWeightsSpec):
        return {"kind": v.kind, "sigma": v.sigma}
    return list(v) if isinstance(v, tuple) else v


def run_spec(c, R):
    cls, fields, good = (GraphBuilderSpec, FIELDS, good_builder) if c["spec"] == "builder" else (GraphFeaturizerSpec, FEAT, good_feat)
    base = BASES[c["base"]] if c["spec"] == "builder" else GraphFeaturizerSpec()
    prints = {}
    seen = set()
    rest = [n for n in fields if n > c["field"]]
    for more in itertools.combinations(rest, c["depth"] - 1):
        names = (c["field"], *more)
        for vals in itertools.product(*(fields[n] for n in names)):
            v = {n: getattr(base, n) for n in fields} | dict(zip(names, vals, strict=True))
            if str(v) in seen:
                continue
            seen.add(str(v))
            spec = cls(**v)
            R.step()
            want = {k: plain(x) for k, x in v.items()}
            R.check(typed(spec.to_dict(), want), f"to_dict of {spec} is {spec.to_dict()}", "spec-as-dict")
            for how in ("same", "json", "reversed"):
                back = cls.from_dict(through(spec.to_dict(), how))
                R.check(back == spec and typed(back.to_dict(), want), f"{how}: {spec} read back as {back}", "spec-round-trip")
            fp = fingerprint_spec(spec.to_dict())
            prints.setdefault(fp, set()).add(json.dumps(want, sort_keys=True))
            R.check(fp == fingerprint_spec(spec) == fingerprint_spec(through(want, "reversed")), f"{spec}: its fingerprint depends on how it is held", "spec-fingerprint")
            valid = good(v)
            R.state(c["spec"], valid, names)
            R.outcome("valid" if valid else "refused")
            try:
                spec.validate()
                R.check(valid, f"validate accepts {dict(zip(names, vals, strict=True))} on base {c['base']}", "spec-validate")
            except GraphValidationError as e:
                R.check(not valid, f"validate refuses {dict(zip(names, vals, strict=True))} on base {c['base']}: {e}", "spec-validate")
    for k, v in prints.items():
        R.check(len(v) == 1, f"fingerprint {k} shared by {sorted(v)}", "spec-fingerprint")


# ---------------------------------------------------------------- view plans
COLS = [None, ColumnSelectSpec(), ColumnSelectSpec("indices", (0, 2)), ColumnSelectSpec("indices"), ColumnSelectSpec("indices", (1, -1)),
        ColumnSelectSpec("random", fraction=1.0), ColumnSelectSpec("random", fraction=0.0), ColumnSelectSpec("random", fraction=1.01),
        ColumnSelectSpec("complement"), ColumnSelectSpec("complement", complement_of="a"), ColumnSelectSpec("complement", complement_of="b"), ColumnSelectSpec("half")]
GOODCOL = [True, True, True, False, False, True, False, False, False, True, True, False]
NAMES = ("a", "b", " ")


def run_views(c, R):
    n = c["n"]
    for names in itertools.product(NAMES, repeat=n):
        for cols in itertools.product(range(len(COLS)), repeat=n):
            if (n and cols[0] != c["first"]) or (n > 2 and " " in names and sum(cols) % 3):
                continue
            plan = ViewsPlan(tuple(ViewSpec(m, columns=COLS[i]) for m, i in zip(names, cols, strict=True)))
            ok = n >= 2 and len(set(names)) == n and all(m.strip() for m in names) and all(GOODCOL[i] for i in cols)
            for j, i in enumerate(cols):
                if i in (9, 10):
                    ok = ok and COLS[i].complement_of in names[:j]
            R.step()
            R.state(names, cols)
            R.outcome("valid" if ok else "refused")
            try:
                plan.validate()
                R.check(ok, f"validate accepts names {names} columns {[COLS[i] for i in cols]}", "views-validate")
            except ViewsValidationError as e:
                R.check(not ok, f"validate refuses names {names} columns {[COLS[i] for i in cols]}: {e}", "views-validate")


# ---------------------------------------------------------------- registries
class Good:
    info = IndInfo(method_id="g", name="G")


class Other:
    info = TraInfo(method_id="o", name="O")


class Bare:
    pass


HERE = __name__
PATHS = {"good": f"{HERE}:Good", "other": f"{HERE}:Other", "bare": f"{HERE}:Bare", "gone": f"{HERE}:Nope", "nocolon": f"{HERE}.Good"}
MOPS = [("reg", i, p, s) for i in ("a", "b") for p, s in (("good", "implemented"), ("good", "planned"), ("other", "implemented"), ("bare", "planned"))] + \
       [("reg", "", "good", "implemented"), ("reg", "a", "nocolon", "implemented"), ("reg", "b", "good", "beta"), ("reg", "a", "gone", "implemented")]


def run_methods(c, R):
    reg, exc = (ind_reg, "Ind") if c["which"] == "inductive" else (tra_reg, "Tra")
    own = "good" if exc == "Ind" else "other"
    base_all = [m for m in reg.available_methods(available_only=False) if not m.startswith("mc.")]
    base = [m for m in reg.available_methods() if not m.startswith("mc.")]
    serial = 0
    for seq in itertools.product(range(len(MOPS)), repeat=c["len"]):
        if seq[0] != c["first"]:
            continue
        serial += 1
        pre = f"mc.{c['which']}.{c['len']}.{c['first']}.{serial}."
        model = {}
        for n in seq:
            _, i, p, s = MOPS[n]
            mid = pre + i if i else ""
            bad = not i or ":" not in PATHS[p] or s not in ("implemented", "planned") or (mid in model and model[mid][0] != p)
            R.step()
            try:
                reg.register_method(mid, PATHS[p], status=s)
                R.check(not bad, f"{[MOPS[k] for k in seq]}: registering {i!r} -> {p} ({s}) is accepted", "registry-register")
                model[mid] = (p, s)
            except ValueError:
                R.check(bad, f"{[MOPS[k] for k in seq]}: registering {i!r} -> {p} ({s}) is refused", "registry-register")
            mine = lambda ms: [m for m in ms if m.startswith(pre)]      # noqa: E731
            R.check(mine(reg.available_methods(available_only=False)) == sorted(model), f"after {[MOPS[k] for k in seq]}: lists {mine(reg.available_methods(available_only=False))}, registered {model}", "registry-list")
            R.check(mine(reg.available_methods()) == sorted(m for m, v in model.items() if v[1] == "implemented"),
                    f"after {[MOPS[k] for k in seq]}: lists {mine(reg.available_methods())} as available, registered {model}", "registry-list")
            R.state(c["which"], tuple(sorted((k[len(pre):], v) for k, v in model.items())))
        for mid in (pre + "a", pre + "b", pre + "zz"):
            if mid not in model:
                refuses(R, lambda m=mid: reg.get_method_class(m), KeyError, f"unknown id {mid}", "registry-get")
                refuses(R, lambda m=mid: reg.get_method_info(m), KeyError, f"unknown id {mid}", "registry-get")
                continue
            p = model[mid][0]
            if p == "gone":
                refuses(R, lambda m=mid: reg.get_method_class(m), (AttributeError, ImportError), "a class that is not there", "registry-get")
                continue
            cls = reg.get_method_class(mid)
            R.check(cls.__name__ == {"good": "Good", "other": "Other", "bare": "Bare"}[p], f"{mid} ({p}) resolves to {cls}", "registry-get")
            if p == own:
                R.check(reg.get_method_info(mid) is cls.info, f"{mid}: info is not the class's", "registry-get")
            else:
                refuses(R, lambda m=mid: reg.get_method_info(m), TypeError, f"{p} has no info of this family", "registry-get")
    R.check([m for m in reg.available_methods(available_only=False) if not m.startswith("mc.")] == base_all and [m for m in reg.available_methods() if not m.startswith("mc.")] == base,
            "registrations change the built-in methods", "registry-list")


SOPS = [("cls", i, d, p) for i in ("a", "b") for d, p in (("x", ("numpy",)), ("y", ("numpy",)), ("x", ("torch", "numpy")))] + \
       [("bk", i, b, f) for i in ("a", "b") for b in ("numpy", "torch") for f in ("m:F", "m:G")]


def run_classifiers(c, R):
    serial = 0
    for seq in itertools.product(range(len(SOPS)), repeat=c["len"]):
        if seq[0] != c["first"]:
            continue
        serial += 1
        pre = f"mc.{c['len']}.{c['first']}.{serial}."
        model = {}
        for n in seq:
            op, i, u, v = SOPS[n]
            key = pre + i
            R.step()
            h = [SOPS[k] for k in seq]
            if op == "cls":
                bad = key in model and model[key][:2] != (u, v)
                try:
                    sup_reg.register_classifier(key=key, description=u, preferred_backends=v)
                    R.check(not bad, f"{h}: {SOPS[n]} accepted", "classifier-register")
                    model.setdefault(key, (u, v, {}))
                except ValueError:
                    R.check(bad, f"{h}: {SOPS[n]} refused", "classifier-register")
            else:
                want = UnknownClassifierError if key not in model else ValueError if u in model[key][2] else None
                try:
                    sup_reg.register_backend(classifier_id=key, backend=u, factory=v, supports_gpu=u == "torch", notes=i)
                    R.check(want is None, f"{h}: {SOPS[n]} accepted", "classifier-register")
                    model[key][2][u] = v
                except (UnknownClassifierError, ValueError) as e:
                    R.check(want is not None and isinstance(e, want), f"{h}: {SOPS[n]} refused with {e!r}", "classifier-register")
            ids = [k for k in sup_reg.list_classifiers() if k.startswith(pre)]
            R.check(ids == sorted(model) and [s.key for s in sup_reg.iter_specs() if s.key.startswith(pre)] == ids, f"{h}: lists {ids}, registered {sorted(model)}", "classifier-list")
            for k, (d, p, bk) in model.items():
                s = sup_reg.get_spec(k)
                R.check(s.description == d and s.preferred_backends == p and {b: x.factory for b, x in s.backends.items()} == bk, f"{h}: {k} is {s}, registered {model[k]}", "classifier-get")
                for b in ("numpy", "torch"):
                    if b in bk:
                        x = sup_reg.get_backend_spec(k, b)
                        R.check(x.backend == b and x.factory == bk[b] and x.supports_gpu == (b == "torch") and x.notes == k[-1], f"{h}: backend {b} of {k} is {x}", "classifier-get")
                    else:
                        refuses(R, lambda k=k, b=b: sup_reg.get_backend_spec(k, b), UnknownBackendError, f"{h}: backend {b} of {k}", "classifier-get")
            R.state(tuple(sorted((k[len(pre):], v[0], v[1], tuple(sorted(v[2].items()))) for k, v in model.items())))
        for i in ("a", "b"):
            if pre + i not in model:
                refuses(R, lambda k=pre + i: sup_reg.get_spec(k), UnknownClassifierError, f"unknown classifier after {seq}", "classifier-get")


def op_class(name, modality, body=True):
    ns = {"op_id": name, "modality": modality, "__init__": lambda self, a=1: setattr(self, "a", a), "apply": lambda self, x, **k: x} if body else {}
    return type("Op", (), ns)


MODS = ("any", "audio", "graph", "tabular", "text", "vision")
AOPS = [("reg", i, k) for i in ("a", "b") for k in ("text1", "text2", "any", "bare")]


def run_augops(c, R):
    base = {m: set(aug.available_ops(modality=m)) for m in MODS} | {None: set(aug.available_ops())}
    serial = 0
    for seq in itertools.product(range(len(AOPS)), repeat=c["len"]):
        if seq[0] != c["first"]:
            continue
        serial += 1
        pre = f"mc.{c['len']}.{c['first']}.{serial}."
        ks = {"text1": op_class(pre, "text"), "text2": op_class(pre, "text"), "any": op_class(pre, "any"), "bare": op_class(pre, "", False)}
        model = {}
        for n in seq:
            _, i, k = AOPS[n]
            key = pre + i
            bad = k == "bare" or (key in model and model[key] != k)
            R.step()
            try:
                out = aug_reg.register_op(key)(ks[k])
                R.check(not bad and out is ks[k], f"{[AOPS[q] for q in seq]}: {AOPS[n]} accepted", "op-register")
                model[key] = k
            except AugError:
                R.check(bad, f"{[AOPS[q] for q in seq]}: {AOPS[n]} refused", "op-register")
            for m in (*MODS, None):
                want = {q for q, v in model.items() if m is None or v == "any" or (v[:4] == "text" and m == "text")}
                got = [q for q in aug.available_ops(modality=m) if q.startswith(pre)]
                R.check(got == sorted(want), f"{[AOPS[q] for q in seq]}: modality {m} lists {got}, registered {model}", "op-list")
            R.state(tuple(sorted((k2[len(pre):], v) for k2, v in model.items())))
        for i in ("a", "b"):
            key = pre + i
            if key in model:
                op = aug.get_op(key, a=7)
                R.check(type(op) is ks[model[key]] and op.a == 7 and aug.get_op(key).a == 1, f"{key} resolves to {op}", "op-get")
                refuses(R, lambda k=key: aug.get_op(k, zz=1), AugError, "an unknown parameter", "op-get")
                inf = aug_reg.op_info(key)
                R.check(inf["op_id"] == key and inf["modality"] == type(op).modality and inf["defaults"] == {"a": 1}, f"op_info({key}) = {inf}", "op-get")
            else:
                refuses(R, lambda k=key: aug.get_op(k), AugError, "an unknown op", "op-get")
    R.check(all({q for q in aug.available_ops(modality=m) if not q.startswith("mc.")} == {q for q in base[m] if not q.startswith("mc.")} for m in (*MODS, None)), "registrations change the built-in ops", "op-list")


def run_catalog(c, R):
    """Everything that is listed is there, under the id and metadata it is listed with."""
    which = c["which"]
    R.state(which)
    if which in ("inductive", "transductive"):
        reg, info = (ind_reg, IndInfo) if which == "inductive" else (tra_reg, TraInfo)
        ids = reg.available_methods(available_only=False)
        R.check(ids == sorted(set(ids)) and set(reg.available_methods()) <= set(ids), f"{which} list {ids}", "catalog-list")
        for m in BUILTIN[which]:
            R.step()
            R.state(m)
            cls, i = reg.get_method_class(m), reg.get_method_info(m)
            R.check(isinstance(i, info) and i.method_id == m, f"{which} {m}: info is of {i.method_id}", "catalog-id")
            R.check(callable(getattr(cls, "fit", None)) and callable(getattr(cls, "predict_proba", None)), f"{which} {m}: {cls} has no fit/predict_proba", "catalog-id")
            R.check(cls().info.method_id == m, f"{which} {m}: an instance says {cls().info.method_id}", "catalog-id")
    elif which == "supervised":
        for e in sup.available_classifiers():
            s = sup_reg.get_spec(e["key"])
            if s.key.startswith("mc."):
                continue
            for b in s.backends:
                R.step()
                R.state(s.key, b)
                m = sup.create_classifier(s.key, backend=b)
                R.check(m.classifier_id == s.key and m.backend == b, f"{s.key}/{b} creates {m.classifier_id}/{m.backend}", "catalog-id")
                refuses(R, lambda k=s.key: sup.create_classifier(k, backend="nope"), UnknownBackendError, "unknown backend", "catalog-id")
    elif which == "augmentation":
        for o in BUILTIN[which]:
            R.step()
            R.state(o)
            inf, op = aug_reg.op_info(o), aug.get_op(o)
            R.check(inf["op_id"] == o == op.op_id and inf["modality"] == op.modality, f"{o}: {inf}, instance {op.op_id}/{op.modality}", "catalog-id")
            R.check(op.modality == "any" or o.split(".")[0] in (op.modality, "core"), f"{o} is of modality {op.modality}", "catalog-id")
            for m in MODS:
                R.check((o in aug.available_ops(modality=m)) == (op.modality in (m, "any")), f"{o} ({op.modality}) listing for {m}", "catalog-list")
    else:
        ids = available_steps()
        R.check(ids == sorted(set(ids)), f"steps {ids}", "catalog-list")
        for s in ids:
            R.step()
            R.state(s)
            inf = step_info(s)
            R.check(inf["id"] == s and inf["kind"] in ("transform", "fittable", "featurizer") and inf["produces"] is not None, f"{s}: {inf}", "catalog-id")
            try:
                obj = default_step_registry().instantiate(s, params={})
            except TypeError:
                R.outcome("needs parameters")
                continue
            R.check(callable(getattr(obj, "transform", None)), f"{s} has no transform", "catalog-id")
            R.check((inf["kind"] != "fittable") or callable(getattr(obj, "fit", None)), f"{s} is listed as fittable but has no fit", "catalog-id")


# ----------------------------------------------------------------
def cases(tier):
    deep = tier != "quick"
    for s in CLS:
        yield {"kind": "sampling", "section": s}
    fulls = [("split", {"kind": "holdout", "test_fraction": 0.0, "val_fraction": 0.3, "stratify": False, "shuffle": False}),
             ("split", {"kind": "kfold", "k": 3, "fold": 1, "stratify": False, "shuffle": False, "val_fraction": 0.2}),
             ("labeling", {"mode": "count", "value": 4, "per_class": True, "min_per_class": 0, "strategy": "balanced", "fixed_indices": [3, 1]}),
             ("imbalance", {"kind": "long_tail", "apply_to": "labeled", "max_per_class": 2, "alpha": 0.5, "min_per_class": 0}),
             ("policy", {"respect_official_test": False, "use_official_graph_masks": False, "allow_override_official": True})]
    for slot, full in fulls:
        yield {"kind": "subset", "slot": slot, "full": full}
    for s in SPLITS:
        yield {"kind": "breach", "split": s}
    yield {"kind": "prep", "head": (), "more": 0}
    for i in range(len(STEPS)):
        yield {"kind": "prep", "head": (i,), "more": 1}
        yield {"kind": "prep", "head": (i,), "more": 0}
        if deep:
            yield {"kind": "prep", "head": (i,), "more": 2}
    yield {"kind": "prepdoc"}
    for b in range(len(BASES)):
        for f in FIELDS:
            for d in (1, 2, 3) if deep else (1, 2):
                yield {"kind": "spec", "spec": "builder", "base": b, "field": f, "depth": d}
    for f in FEAT:
        for d in (1, 2, 3, 4) if deep else (1, 2, 3):
            yield {"kind": "spec", "spec": "feat", "base": 0, "field": f, "depth": d}
    for n in (0, 1, 2, 3):
        for f in range(len(COLS)) if n else (0,):
            yield {"kind": "views", "n": n, "first": f}
    for ln in (1, 2, 3, 4) if deep else (1, 2, 3):
        for w in ("inductive", "transductive"):
            for f in range(len(MOPS)):
                yield {"kind": "methods", "which": w, "len": ln, "first": f}
        for f in range(len(AOPS)):
            yield {"kind": "augops", "len": ln, "first": f}
    for ln in (1, 2, 3, 4):
        if ln < 4 or deep:
            for f in range(len(SOPS)):
                yield {"kind": "classifiers", "len": ln, "first": f}
    for w in ("inductive", "transductive", "supervised", "augmentation", "preprocess"):
        yield {"kind": "catalog", "which": w}


def run_case(c, R):
    {"sampling": run_sampling, "subset": run_subset, "breach": run_breach, "prep": run_prep, "prepdoc": run_prepdoc, "spec": run_spec,
     "views": run_views, "methods": run_methods, "classifiers": run_classifiers, "augops": run_augops, "catalog": run_catalog}[c["kind"]](c, R)
