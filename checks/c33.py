"""Benchmark configuration, limits, search, seed sweeps and run records."""
import copy
import itertools
import json
import logging
import math
import os
import subprocess
import sys
import warnings
from pathlib import Path
from types import SimpleNamespace

import torch
import yaml
from mc import scorestub as stub

stub.register()  # the benchmark lists the known metrics when it is imported

from bench import limits as b_limits  # noqa: E402
from bench import main as b_main  # noqa: E402
from bench.context import RunContext, next_available_run_dir  # noqa: E402
from bench.orchestrators.reporting import write_seed_sweep_summary  # noqa: E402
from bench.schema import BenchConfigError, ExperimentConfig  # noqa: E402
from bench.seed_sweep import apply_global_seed  # noqa: E402
from bench.utils.io import load_yaml  # noqa: E402

PID = "C33"
BOUNDS = {"quick": "limits: every pair of 10 limited settings x 6 values each x 6 limit forms; contract: every pair of 21 contract breaches; faults: every pair of 13 faulty stages x fail_fast; search: every score table over {0, 1/2, NaN} for 4 trials and 2x2 repeats, both directions, grid and random; sweeps: every failing subset of 3 runs x 3 score tables; explicit seeds: every subset of 5 sections; placeholders: every sequence of up to 4 of 10 tokens; every unknown key, missing key and wrong-typed leaf of a full configuration",
          "thorough": "triples of limited settings and of contract breaches; 5 tokens; search over {0, 1/2, 1, NaN}"}
ASSUMPTIONS = ["the method and metric of search and sweep runs are scripted probes registered through the public registries; all other stages are real, on the toy dataset"]
CASE_TIMEOUT = 700
ABSENT = "<absent>"


def setup(tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)
    stub.register()


def base(out, **over):
    cfg = {
        "run": {"name": "r", "seed": 3, "output_dir": str(out / "runs")},
        "dataset": {"id": "toy", "options": {"n_samples": 16, "n_classes": 2, "official_test": False}, "cache_dir": str(out / "cache")},
        "sampling": {"plan": {"split": {"kind": "holdout", "test_fraction": 0.25, "val_fraction": 0.25}, "labeling": {"mode": "fraction", "value": 0.5}}},
        "preprocess": {"cache": False, "fit_on": "train_labeled", "plan": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}]}},
        "method": {"kind": "inductive", "id": "mc_score", "device": {"device": "cpu"}, "params": {"backend": "numpy"}},
        "evaluation": {"report_splits": ["val", "test"], "metrics": ["mc_score"]},
    }
    for k, v in over.items():
        put(cfg, k.split("__"), v)
    return cfg


def put(d, path, v):
    for k in path[:-1]:
        if isinstance(k, str) and not isinstance(d.get(k), dict | list):
            d[k] = {}
        d = d[k]
    if v is ABSENT:
        d.pop(path[-1], None)
    else:
        d[path[-1]] = v


def get(d, path):
    for k in path:
        if isinstance(d, dict):
            if k not in d:
                return ABSENT
        elif not (isinstance(d, list) and isinstance(k, int) and k < len(d)):
            return ABSENT
        d = d[k]
    return d


def full(out):
    """Every section present."""
    return base(
        out,
        run__seeds=ABSENT,
        views={"plan": {"views": [{"name": "a", "columns": {"mode": "indices", "indices": [0, 1]}}, {"name": "b", "columns": {"mode": "indices", "indices": [2, 3]}}]}},
        graph={"enabled": True, "cache": False, "spec": {"scheme": "knn", "k": 2, "backend": "numpy"}},
        augmentation={"mode": "fixed", "modality": "tabular", "weak": {"steps": [{"id": "core.identity"}]}, "strong": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.1}}]}},
    )


def run(d, cfg, **kw):
    """Run one experiment -> (code or None, exception or None)."""
    p = d / "exp.yaml"
    p.write_text(yaml.safe_dump(cfg, sort_keys=False), encoding="utf-8")
    try:
        return b_main.run_experiment(p, **kw), None
    except Exception as e:
        return None, e


def reports(out):
    root = out / "runs"
    return sorted(root.glob("*/run.json")) if root.exists() else []


def load(p):
    return json.loads(p.read_text(encoding="utf-8"))


# ---------------------------------------------------------------------------- limits
WHERE = [  # path, limit, filled in when missing
    (("dataset", "options", "max_train_samples"), "max_train_samples", True),
    (("dataset", "options", "max_test_samples"), "max_test_samples", True),
    (("preprocess", "plan", "steps", 0, "params", "batch_size"), "max_preprocess_batch_size", False),
    (("preprocess", "plan", "steps", 1, "params", "batch_size"), "max_preprocess_batch_size", False),
    (("views", "plan", "views", 1, "preprocess", "steps", 0, "params", "batch_size"), "max_preprocess_batch_size", False),
    (("method", "params", "batch_size"), "max_method_batch_size", False),
    (("method", "params", "sup_batch_size"), "max_method_sup_batch_size", False),
    (("method", "params", "classifier_params", "batch_size"), "max_method_batch_size", False),
    (("method", "model", "classifier_params", "batch_size"), "max_method_batch_size", False),
    (("graph", "spec", "chunk_size"), "max_graph_chunk_size", True),
]
NAMES = ["max_preprocess_batch_size", "max_method_batch_size", "max_method_sup_batch_size", "max_graph_chunk_size", "max_train_samples", "max_test_samples"]
PRESET = {"v100": dict(max_preprocess_batch_size=32, max_method_batch_size=128, max_method_sup_batch_size=64, max_graph_chunk_size=512),
          "h100": dict(max_preprocess_batch_size=64, max_method_batch_size=512, max_method_sup_batch_size=256, max_graph_chunk_size=1024)}
VALUES = [ABSENT, None, 1, 40, 40.0, 2000]


def limits_forms():
    yield {}
    for i, n in enumerate(NAMES):
        yield {n: 40 + i}
    yield {n: 39 + i for i, n in enumerate(NAMES)}
    yield {"profile": "v100"}
    yield {"profile": "H100"}
    yield {"profile": "v100", "max_method_batch_size": 2001, "max_graph_chunk_size": 3}
    yield {"profile": "auto", "max_train_samples": 5}


def limits_raw():
    raw = base(Path("/nowhere"))
    raw["dataset"].pop("options")
    raw["preprocess"]["plan"]["steps"] = [{"id": "core.ensure_2d", "params": {}}, {"id": "core.to_numpy", "params": {"other": 5000}}, {"id": "core.to_numpy"}]
    raw["views"] = {"plan": {"views": [{"name": "a"}, {"name": "b", "preprocess": {"steps": [{"id": "core.ensure_2d", "params": {}}]}}]}}
    raw["method"]["params"] = {"max_iter": 100000, "classifier_params": {"max_iter": 5000}}
    raw["method"]["model"] = {"classifier_id": "mlp", "classifier_params": {"hidden": 9999}}
    raw["graph"] = {"enabled": True, "spec": {"scheme": "knn", "k": 9999}}
    return raw


def resolved_ref(lim, profile_of_auto):
    p = (lim.get("profile") or "").lower() or None
    if p == "auto":
        p = profile_of_auto
    out = dict.fromkeys(NAMES)
    out.update(PRESET.get(p, {}))
    out.update({k: v for k, v in lim.items() if k in NAMES})
    return out


def k_limits(R, first, width):
    forms = list(limits_forms())
    rest = list(itertools.combinations(range(first + 1, len(WHERE)), width - 1))
    for others in rest or [()]:
        spots = (first, *others)
        if width > 1 and not rest:
            return
        for vals in itertools.product(VALUES, repeat=len(spots)):
            raw0 = limits_raw()
            for s, v in zip(spots, vals):
                put(raw0, WHERE[s][0], v)
            for lim in forms:
                R.step(1)
                R.state((spots, str(vals), str(lim)))
                raw = copy.deepcopy(raw0)
                raw["limits"] = dict(lim)
                cfg = ExperimentConfig.from_dict(raw)
                got, changes, res = b_limits.apply_limits(raw, limits=cfg.limits)
                want = copy.deepcopy(raw0)
                want["limits"] = dict(lim)
                ref = resolved_ref(lim, "v100")
                n = 0
                if any(v is not None for v in ref.values()):
                    want["dataset"].setdefault("options", {})
                for path, name, fill in WHERE:
                    lv = ref[name]
                    if lv is None:
                        continue
                    cur = get(want, path)
                    if cur is ABSENT or cur is None:
                        if fill:
                            put(want, path, lv)
                            n += 1
                    elif cur > lv:
                        put(want, path, lv)
                        n += 1
                what = f"limits {lim} with {[('.'.join(map(str, WHERE[s][0])), v) for s, v in zip(spots, vals)]}"
                R.check(got == want, f"{what}: the limited configuration is {diff(want, got)}", key="limits")
                R.check(len(changes) == n, f"{what}: {n} settings changed but {changes} reported", key="limits")
                if any(v is not None for v in ref.values()):
                    R.check(all(getattr(res, k) == v for k, v in ref.items()), f"{what}: resolved to {res}", key="limits")
                again, more, _ = b_limits.apply_limits(copy.deepcopy(got), limits=cfg.limits)
                R.check(again == got and not more, f"{what}: applying the limits twice changes {more}", key="limits")


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        return [x for k in sorted(set(a) | set(b), key=str) for x in diff(a.get(k, ABSENT), b.get(k, ABSENT), f"{path}.{k}")]
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [x for i, (p, q) in enumerate(zip(a, b)) for x in diff(p, q, f"{path}[{i}]")]
    return [] if a == b else [f"{path}: expected {a}, got {b}"]


def k_detect(R):
    """limits.profile=auto follows the GPU that is present."""
    gb = 1024 ** 3
    saved = torch.cuda.is_available, torch.cuda.get_device_properties
    try:
        for avail in (False, True):
            for name in ("NVIDIA H100 80GB", "Tesla V100-SXM2-16GB", "A100", ""):
                for mem in (0, 16 * gb, 59 * gb, 60 * gb, 80 * gb):
                    R.step(1)
                    R.state((avail, name, mem))
                    torch.cuda.is_available = lambda a=avail: a
                    torch.cuda.get_device_properties = lambda i, n=name, m=mem: SimpleNamespace(name=n, total_memory=m)
                    cfg = ExperimentConfig.from_dict(limits_raw() | {"limits": {"profile": "auto"}}).limits
                    res = b_limits.resolve_limits(cfg)
                    if not avail:
                        want = "v100"
                    elif "h100" in name.lower():
                        want = "h100"
                    elif "v100" in name.lower():
                        want = "v100"
                    else:
                        want = "h100" if mem >= 60 * gb else "v100"
                    R.check(res.profile == want and all(getattr(res, k) == v for k, v in PRESET[want].items()), f"gpu {avail, name, mem}: resolved {res}, expected {want}", key="detect")
                    try:
                        b_limits.resolve_limits(cfg, strict=True)
                        R.check(False, "strict resolution accepts profile=auto", key="detect")
                    except BenchConfigError as e:
                        R.check(e.code == "E_BENCH_AUTO_FORBIDDEN", f"strict auto profile: {e.code}", key="detect")
    finally:
        torch.cuda.is_available, torch.cuda.get_device_properties = saved


# ---------------------------------------------------------------------------- schema
def everything(out):
    cfg = full(out)
    cfg["run"].update(seeds=[1, 2], fail_fast=True, log_level="none", benchmark_mode=False, allow_custom_factories=False)
    cfg["limits"] = {"profile": "v100"} | {n: 8 for n in NAMES}
    cfg["dataset"]["download"] = True
    cfg["sampling"]["seed"] = 1
    cfg["preprocess"].update(seed=1, cache_dir=str(out / "pre"))
    cfg["views"]["seed"] = 1
    cfg["graph"].update(seed=1, cache_dir=str(out / "g"))
    cfg["augmentation"].update(seed=1, enabled=True)
    cfg["method"]["device"].update(dtype="float32", resolved_device="cpu")
    cfg["method"]["model"] = {"classifier_id": "mlp", "classifier_backend": "torch", "classifier_params": {}, "ema": False}
    cfg["evaluation"]["split_for_model_selection"] = "val"
    cfg["search"] = {"enabled": True, "kind": "random", "seed": 1, "n_trials": 2, "repeats": 1, "objective": {"split": "val", "metric": "accuracy", "direction": "maximize", "aggregate": "mean"}, "space": {"method": {"params": {"alpha": [0, 1]}}}}
    return cfg


# leaf -> accepted JSON values among PALETTE (by type); everything else must be refused
PALETTE = {"null": None, "str": "abc", "empty": "", "int": 1, "zero": 0, "neg": -1, "float": 1.5, "bool": True, "list": [], "ints": [1, 2], "dups": [1, 1], "map": {}, "strs": ["abc"]}
STR = {"str"}
OSTR = {"null", "str"}
BOOL = {"bool"}
POS = {"null", "int", "bool"}
OINT = {"null", "int", "zero", "neg", "bool"}
OMAP = {"null", "map"}
LEAVES = {
    "run.name": STR, "run.seed": OINT, "run.output_dir": OSTR, "augmentation.mode": OSTR, "method.device.device": OSTR, "method.device.dtype": OSTR, "run.fail_fast": BOOL, "run.log_level": OSTR, "run.benchmark_mode": BOOL, "run.allow_custom_factories": BOOL, "run.seeds": {"null", "ints"},
    "limits.profile": {"null"}, **{f"limits.{n}": POS for n in NAMES},
    "dataset.id": STR, "dataset.options": OMAP, "dataset.download": BOOL, "dataset.cache_dir": OSTR,
    "sampling.seed": OINT, "sampling.plan": set(), "preprocess.seed": OINT, "preprocess.fit_on": OSTR, "preprocess.cache": BOOL, "preprocess.plan": set(), "preprocess.cache_dir": OSTR,
    "views.seed": OINT, "views.plan": set(), "graph.enabled": BOOL, "graph.seed": OINT, "graph.cache": BOOL, "graph.cache_dir": OSTR, "graph.spec": OMAP,
    "augmentation.enabled": BOOL, "augmentation.seed": OINT, "augmentation.weak": OMAP, "augmentation.strong": OMAP, "augmentation.modality": OSTR,
    "method.kind": set(), "method.id": STR, "method.params": OMAP, "method.device.resolved_device": OSTR,
    "method.model.classifier_id": STR, "method.model.classifier_backend": STR, "method.model.classifier_params": OMAP, "method.model.ema": {"null", "bool"},
    "evaluation.report_splits": {"ints", "dups", "strs"}, "evaluation.metrics": {"ints", "dups", "strs"}, "evaluation.split_for_model_selection": OSTR,
    "search.enabled": BOOL, "search.kind": set(), "search.seed": {"int", "zero", "neg", "bool"}, "search.n_trials": {"int", "bool"}, "search.repeats": POS,
    "search.objective.split": set(), "search.objective.metric": set(), "search.objective.direction": set(), "search.objective.aggregate": set(), "search.space": set(),
    "run": set(), "dataset": set(), "sampling": set(), "preprocess": set(), "method": set(), "evaluation": set(), "search": set(), "views": set(), "search.objective": set(), "method.device": {"map"},
}
REQUIRED = ["run", "run.name", "dataset", "dataset.id", "sampling", "sampling.plan", "preprocess", "preprocess.plan", "method", "method.kind", "method.id", "method.model.classifier_id", "evaluation", "evaluation.report_splits", "evaluation.metrics",
            "views.plan", "search.enabled", "search.kind", "search.seed", "search.n_trials", "search.objective", "search.objective.split", "search.objective.metric", "search.objective.direction", "search.objective.aggregate", "search.space"]
MAPPINGS = ["", "run", "limits", "dataset", "sampling", "preprocess", "views", "graph", "augmentation", "method", "method.device", "method.model", "evaluation", "search", "search.objective"]


def k_schema(R):
    out = Path("/nowhere")
    good = everything(out)
    ExperimentConfig.from_dict(good)
    keys = {}
    for m in MAPPINGS:
        node = get(good, m.split(".")) if m else good
        for k in node:
            keys.setdefault(k, []).append(m)

    def refused(cfg, what, key):
        R.step(1)
        R.state(what)
        before = copy.deepcopy(cfg)
        try:
            ExperimentConfig.from_dict(cfg)
            ok = False
        except BenchConfigError as e:
            ok = str(e).startswith(e.code + ":") and e.code.startswith("E_BENCH_")
        except Exception as e:
            R.check(False, f"{what}: {type(e).__name__} instead of BenchConfigError: {e}", key=key)
            return
        R.check(ok, f"{what} is accepted", key=key)
        R.check(cfg == before, f"{what}: reading the configuration changes it", key=key)

    for m in MAPPINGS:
        node_path = m.split(".") if m else []
        known = set(get(good, node_path) if m else good)
        for extra in sorted(set(keys) | {"nope", "Seed", "seeds ", "factory_"} - known):
            if extra in known or (m == "method.model" and extra in ("factory", "params")):
                continue
            if m == "run" and extra in ("output_dir",):
                continue
            cfg = copy.deepcopy(good)
            put(cfg, [*node_path, extra], 1)
            refused(cfg, f"unknown key {m or '<root>'}.{extra}", "unknown")
    for r in REQUIRED:
        cfg = copy.deepcopy(good)
        put(cfg, r.split("."), ABSENT)
        refused(cfg, f"missing {r}", "missing")
    for leaf, ok in LEAVES.items():
        for tag, v in PALETTE.items():
            cfg = copy.deepcopy(good)
            put(cfg, leaf.split("."), copy.deepcopy(v))
            if tag in ok:
                R.step(1)
                R.state((leaf, tag))
                try:
                    got = ExperimentConfig.from_dict(cfg)
                    R.outcome("accepted")
                except Exception as e:
                    R.check(False, f"{leaf}={v!r} is refused: {e}", key="leaf")
                    continue
                R.check(echo(got, leaf, v), f"{leaf}={v!r} is read as {leaf_of(got, leaf)!r}", key="leaf")
            else:
                refused(cfg, f"{leaf}={v!r}", "leaf")
    for space, ok in (({"method": {"params": {"a": [1]}}}, True), ({"method": {"params": {"a": {"dist": "uniform", "low": 0, "high": 1}}}}, True), ({"method": {"params": {"a": {"b": [1]}}}}, True),
                      ({"method": {"params": []}}, False), ({"method": {"params": [1]}}, False), ({"method": {"id": ["x"]}}, False), ({"run": {"seed": [1]}}, False), ({"sampling": {"plan": {"a": [1]}}}, False),
                      ({"method": {"params": {}}}, False), ({"method": {"params": {"a": []}}}, False), ({"method": {"params": {"a": 1}}}, False), ({"method": {"params": {"a": [1]}}, "run": {"x": {"seed": [1]}}}, False),
                      ({"method": {"params": {"a": {"dist": "nope"}}}}, False), ({"method": {"params": {"": [1]}}}, False), ({"method": {"device": {"device": ["cpu"]}}}, False), ({"method": {"model": {"classifier_params": [1]}}}, False)):
        cfg = copy.deepcopy(good)
        cfg["search"]["space"] = space
        if ok:
            ExperimentConfig.from_dict(cfg)
        else:
            refused(cfg, f"search.space={space}", "space")
    for bm, ff in itertools.product((False, True), repeat=2):
        cfg = copy.deepcopy(good)
        cfg["run"].update(benchmark_mode=bm, fail_fast=ff)
        if bm and not ff:
            refused(cfg, "benchmark mode without fail_fast", "contract")
        else:
            ExperimentConfig.from_dict(cfg)
    for allow, keys_ in itertools.product((False, True), ((), ("factory",), ("classifier_id",), ("factory", "classifier_id"), ("factory", "ema"), ("classifier_id", "params"))):
        cfg = copy.deepcopy(good)
        cfg["run"]["allow_custom_factories"] = allow
        cfg["method"]["model"] = {k: ({} if k == "params" else True if k == "ema" else "os.getcwd") for k in keys_}
        if keys_ == ("classifier_id",) or (keys_ == ("factory",) and allow):
            m = ExperimentConfig.from_dict(cfg).method.model
            R.check((m.factory, m.classifier_id) == (("os.getcwd", None) if keys_[0] == "factory" else (None, "os.getcwd")), f"model {keys_}: read as {m}", key="model")
        else:
            refused(cfg, f"model with {keys_}, custom factories {allow}", "model")


DEFAULTS = {"search.repeats": 1, "run.seed": 0, "run.output_dir": "modssc_cache/output", "augmentation.mode": "fixed", "method.device.device": "cpu", "method.device.dtype": "float32"}


def leaf_of(cfg, leaf):
    node = cfg
    for k in leaf.split("."):
        node = getattr(node, {"id": "method_id"}.get(k, k) if node is cfg.method else k)
    return node


def echo(cfg, leaf, v):
    if "." not in leaf or leaf == "method.device":
        return True
    got = leaf_of(cfg, leaf)
    if v is None and leaf in DEFAULTS:
        return got == DEFAULTS[leaf]
    if isinstance(v, list):
        return got == (v if leaf == "run.seeds" else [str(x) for x in v])
    if v is None:
        return got in (None, {}, [])
    return got == v


# ---------------------------------------------------------------------------- benchmark contract
def strict_base(out):
    return base(out, run__benchmark_mode=True, dataset__download=False, evaluation__split_for_model_selection="val",
                graph={"enabled": True, "cache": False, "spec": {"scheme": "knn", "k": 2, "backend": "numpy"}},
                search={"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "mc_score", "direction": "maximize", "aggregate": "mean"}, "space": {"method": {"params": {"alpha": [0, 1]}}}})


AUTO = "E_BENCH_AUTO_FORBIDDEN"
BREACH = [
    ("download", [("dataset.download", True)], "E_BENCH_DOWNLOAD_FORBIDDEN"),
    ("default download", [("dataset.download", ABSENT)], "E_BENCH_DOWNLOAD_FORBIDDEN"),
    ("no cache dir", [("dataset.cache_dir", ABSENT)], "E_BENCH_CACHE_DIR_REQUIRED"),
    ("auto device", [("method.device.device", "auto")], AUTO),
    ("auto profile", [("limits.profile", "auto")], AUTO),
    ("AUTO profile", [("limits.profile", "AUTO")], AUTO),
    ("auto graph backend", [("graph.spec.backend", "auto")], AUTO),
    ("Auto graph backend", [("graph.spec.backend", "Auto")], AUTO),
    ("disabled graph with auto backend", [("graph.enabled", False), ("graph.spec.backend", "auto")], AUTO),
    ("auto classifier backend", [("method.model", {"classifier_id": "knn", "classifier_backend": "auto"})], AUTO),
    ("no selection split", [("evaluation.split_for_model_selection", ABSENT)], "E_BENCH_SPLIT_MODEL_SELECTION_REQUIRED"),
    ("selection split not reported", [("evaluation.report_splits", ["test"])], "E_BENCH_SPLIT_MODEL_SELECTION_INVALID"),
    ("search on another split", [("search.objective.split", "test")], "E_BENCH_SPLIT_MODEL_SELECTION_CONFLICT"),
    ("no method backend", [("method.params.backend", ABSENT)], "E_BENCH_BACKEND_REQUIRED"),
    ("null method backend", [("method.params.backend", None)], "E_BENCH_BACKEND_REQUIRED"),
    ("auto method backend", [("method.params.backend", "AUTO")], AUTO),
    ("auto nested backend", [("method.params.classifier_params", {"nested": [{"backend": " auto "}]})], AUTO),
    ("auto preprocess device", [("preprocess.plan.steps", [{"id": "core.ensure_2d"}, {"id": "core.to_torch", "params": {"device": "auto"}}])], AUTO),
    ("auto view device", [("views", {"plan": {"views": [{"name": "a", "preprocess": {"steps": [{"id": "core.to_torch", "params": {"device": "auto"}}]}}, {"name": "b"}]}})], AUTO),
    ("fittable step without fit_on", [("preprocess.fit_on", ABSENT), ("preprocess.plan.steps", [{"id": "core.ensure_2d"}, {"id": "tabular.standard_scaler"}])], "E_BENCH_FIT_ON_REQUIRED"),
    ("fittable view without fit_on", [("preprocess.fit_on", ABSENT), ("views", {"plan": {"views": [{"name": "a", "preprocess": {"steps": [{"id": "tabular.standard_scaler"}]}}, {"name": "b"}]}})], "E_BENCH_FIT_ON_REQUIRED"),
]


def fittable():
    from modssc.preprocess import available_steps, step_info

    return next(s for s in sorted(available_steps()) if step_info(s).get("kind") == "fittable" and not step_info(s).get("required_extra"))


def k_contract(R, first, width):
    fit = fittable()
    d = R.fresh_dir()
    stub.SCRIPT.update(score=lambda s, n: 0.5, fail=None)
    prime(d)
    rest = [r for w in range(width) for r in itertools.combinations(range(first + 1, len(BREACH)), w)]
    if first == 0:
        stub.FITS.clear()
        code, e = run(d, strict_base(d))
        R.check(code == 0 and len(stub.FITS) == 3, f"a configuration that keeps the benchmark contract fails: {e!r}", key="contract")
    for others in rest:
        chosen = [BREACH[i] for i in (first, *others)]
        cfg = strict_base(d)
        touched = [p for b in chosen for p, _ in b[1]]
        if len(set(touched)) != len(touched) or (any(t.startswith("graph.enabled") for t in touched) and sum(t.startswith("graph") for t in touched) > 2):
            continue
        for b in chosen:
            for p, v in b[1]:
                v = json.loads(json.dumps(v).replace("tabular.standard_scaler", fit)) if v is not ABSENT else v
                put(cfg, p.split("."), copy.deepcopy(v))
        R.step(1)
        names = [b[0] for b in chosen]
        R.state(tuple(names))
        before = {p: p.read_bytes() for p in (d / "cache").rglob("*") if p.is_file()}
        stub.FITS.clear()
        code, e = run(d, cfg)
        got = getattr(e, "code", None)
        R.outcome(got)
        R.check(e is not None and got in {b[2] for b in chosen}, f"benchmark mode with {names}: {code if e is None else repr(e)}", key="contract")
        R.check(not stub.FITS, f"benchmark mode with {names}: a method was trained", key="contract")
        R.check(before == {p: p.read_bytes() for p in (d / "cache").rglob("*") if p.is_file()}, f"benchmark mode with {names}: the dataset cache changed", key="contract")
        # the same configuration outside benchmark mode is not held to the contract
    import shutil

    shutil.rmtree(d / "runs", ignore_errors=True)


def prime(d):
    from modssc.data_loader import load_dataset

    c = base(d)["dataset"]
    load_dataset("toy", cache_dir=Path(c["cache_dir"]), options=dict(c["options"]))


# ---------------------------------------------------------------------------- faults at each stage
FAULTS = [  # stage, path, value
    ("preflight", "method.id", "no_such_method"),
    ("preflight", "evaluation.metrics", ["no_such_metric"]),
    ("preflight", "evaluation.report_splits", ["no_such_split"]),
    ("preflight", "augmentation.mode", "online"),
    ("dataset", "dataset.options.n_samples", "many"),
    ("sampling", "sampling.plan.split.kind", "no_such_split"),
    ("preprocess", "preprocess.fit_on", "no_such_rows"),
    ("preprocess", "preprocess.plan.steps", [{"id": "core.ensure_2d"}, {"id": "core.cast_dtype", "params": {"dtype": "no_such_dtype"}}]),
    ("views", "views.plan.views", [{"name": "a", "columns": {"mode": "indices", "indices": [99]}}, {"name": "b"}]),
    ("graph", "graph.spec.scheme", "no_such_scheme"),
    ("augmentation", "augmentation.strong.steps", [{"id": "no_such_op"}]),
    ("method", "method.params.no_such_param", 1),
    ("evaluation", "-", None),
]
STAGES = ["dataset", "preflight", "sampling", "preprocess", "views", "graph", "augmentation", "method", "evaluation"]
LEAVES_RECORD = {"dataset": "dataset", "sampling": "sampling", "preprocess": "preprocess", "views": "views", "graph": "graph", "augmentation": "augmentation"}


def k_faults(R, first):
    d = R.fresh_dir()
    for others in [()] + [(j,) for j in range(first + 1, len(FAULTS))]:
        chosen = [FAULTS[i] for i in (first, *others)]
        for fast in (False, True):
            for fail_in in ("fit", "score") if any(c[1] == "-" for c in chosen) else (None,):
                cfg = full(d)
                cfg["run"]["fail_fast"] = fast
                if len({c[1] for c in chosen}) != len(chosen):
                    continue
                for _, p, v in chosen:
                    if p != "-":
                        put(cfg, p.split("."), copy.deepcopy(v))

                def boom(*_):
                    raise RuntimeError("scripted failure in the metric")

                stub.SCRIPT.update(score=boom if fail_in == "score" else (lambda s, n: 0.25), fail=(lambda n: True) if fail_in == "fit" else None)
                stub.FITS.clear()
                R.step(1)
                names = [f"{s}:{p}" for s, p, _ in chosen] + [fail_in]
                R.state((tuple(names), fast))
                import shutil

                shutil.rmtree(d / "runs", ignore_errors=True)
                code, e = run(d, cfg)
                what = f"faults at {names}, fail_fast={fast}"
                stage = min((c[0] for c in chosen), key=STAGES.index)
                got = reports(d)
                R.check(len(got) == 1, f"{what}: {len(got)} run records (result {code}, {e!r})", key="faults")
                if len(got) != 1:
                    continue
                rep = load(got[0])
                R.check((e is not None) if fast else (e is None and code == 1), f"{what}: run_experiment gives {code}, {e!r}", key="faults")
                R.check(rep["run"]["status"] == "failed" and rep["metrics"] is None and rep["error"] and rep["run"]["error_code"].startswith("E_BENCH_"), f"{what}: recorded as {rep['run']}, metrics {rep['metrics']}, error {rep['error']}", key="faults")
                tb = got[0].parent / "error.txt"
                R.check(tb.exists() and "Traceback" in tb.read_text() and rep["error"].split(":")[0] in tb.read_text(), f"{what}: no traceback in error.txt", key="faults")
                if e is not None:
                    R.check(rep["error"] == f"{type(e).__name__}: {e}", f"{what}: raised {e!r} but recorded {rep['error']}", key="faults")
                done = {v for k, v in LEAVES_RECORD.items() if STAGES.index(k) < STAGES.index(stage)}
                if stage == "preflight":
                    done.discard("dataset")
                R.check({k for k in rep["artifacts"] if k in LEAVES_RECORD} == done, f"{what}: the first fault is in {stage} but the record has artifacts {sorted(rep['artifacts'])}", key="faults")
                reached = stage == "evaluation"
                R.check((len(stub.FITS) == 1) == reached, f"{what}: {len(stub.FITS)} fits", key="faults")
                R.check(yaml.safe_load((got[0].parent / "config.yaml").read_text())["run"] == cfg["run"], f"{what}: config.yaml differs from the configuration", key="faults")
                R.check(rep["config"]["sampling"]["plan"] == cfg["sampling"]["plan"] and rep["run"]["seed"] == 3, f"{what}: the recorded configuration differs", key="faults")
    stub.SCRIPT.update(fail=None)


# ---------------------------------------------------------------------------- search
def k_search(R, kind, direction, shape, vals, lead):
    """Every score table: the best trial is the first of those with the best mean; NaN loses to every number."""
    d = R.fresh_dir()
    trials, repeats = shape
    space = {"method": {"params": {"alpha": [0, 1], "beta": [0, 1]} if trials == 4 else {"alpha": list(range(trials))}}}
    for tail in itertools.product(vals, repeat=trials * repeats - 1):
        table = [lead, *tail]
        cfg = base(d, run__fail_fast=True, search={"enabled": True, "kind": kind, "seed": 5, "repeats": repeats, "objective": {"split": "val", "metric": "mc_score", "direction": direction, "aggregate": "mean"}, "space": space})
        if kind == "random":
            cfg["search"]["n_trials"] = trials
        n = trials * repeats
        stub.FITS.clear()
        stub.SCRIPT.update(score=lambda s, i, t=table: t[i] if i < len(t) else 0.75, fail=None)
        import shutil

        shutil.rmtree(d / "runs", ignore_errors=True)
        R.step(1)
        R.state((kind, direction, shape, tuple(map(str, table))))
        code, e = run(d, cfg)
        what = f"{kind} search, {direction}, scores {table} ({repeats} per trial)"
        R.check(e is None and code == 0 and len(stub.FITS) == n + 1, f"{what}: {len(stub.FITS)} fits, {e!r}", key="search")
        if e is not None or len(stub.FITS) != n + 1:
            continue
        (rp,) = reports(d)
        rep = load(rp)
        lines = [json.loads(s) for s in (rp.parent / rep["hpo"]["trials_path"]).read_text().splitlines()]
        R.check(len(lines) == trials and rep["hpo"]["n_trials"] == trials, f"{what}: {len(lines)} trials recorded", key="search")
        means = [sum(table[t * repeats:(t + 1) * repeats]) / repeats for t in range(trials)]
        for t, line in enumerate(lines):
            mine = stub.FITS[t * repeats:(t + 1) * repeats]
            want = {"alpha": mine[0]["spec"].alpha, "beta": mine[0]["spec"].beta}
            got = dict(line["patch"]["method"]["params"])
            R.check(line["index"] == t and all(m["spec"] == mine[0]["spec"] for m in mine) and all(want[k] == v for k, v in got.items()), f"{what}: trial {t} recorded as {line} but trained {mine}", key="search")
            R.check(eq(line["objective"]["values"], table[t * repeats:(t + 1) * repeats]) and eq([line["objective"]["value"]], [means[t]]), f"{what}: trial {t} scores recorded as {line['objective']}", key="search")
        if kind == "grid":
            R.check(len({(f["spec"].alpha, f["spec"].beta) for f in stub.FITS[:n]}) == trials, f"{what}: the grid repeats or misses settings", key="search")
        seeds = [f["seed"] for f in stub.FITS[:n]]
        R.check(len(set(seeds)) == n, f"{what}: trial seeds repeat {seeds}", key="search")
        cmp_ = [(-math.inf if math.isnan(m) else m) if direction == "maximize" else (-math.inf if math.isnan(m) else -m) for m in means]
        best = cmp_.index(max(cmp_))
        h = rep["hpo"]
        R.check(h["best_index"] == best, f"{what}: trial {h['best_index']} chosen, expected {best}", key="search")
        R.check(h["best_params"] == lines[best]["params"] and h["best_patch"] == lines[best]["patch"] and eq([h["best_score"]], [means[best]]), f"{what}: best trial recorded as {h}", key="search")
        last = stub.FITS[n]
        R.check(last["spec"] == stub.FITS[best * repeats]["spec"], f"{what}: the final model uses {last['spec']}, the best trial {stub.FITS[best * repeats]['spec']}", key="search")
        R.check(rep["metrics"] == {"val": {"mc_score": 0.75}, "test": {"mc_score": 0.75}}, f"{what}: final metrics {rep['metrics']}", key="search")
        saved = yaml.safe_load((rp.parent / "config.yaml").read_text())
        R.check(all(saved["method"]["params"][k] == v for k, v in h["best_patch"]["method"]["params"].items()) and rep["config"]["method"]["params"] == saved["method"]["params"], f"{what}: config.yaml has {saved['method']['params']}", key="search")
        R.check(rep["run"]["run_id"] in rp.parent.name and rep["hashes"]["config_hash"] != rep["hashes"]["effective_config_hash"], f"{what}: run id {rep['run']['run_id']} in {rp.parent.name}", key="search")


def eq(a, b):
    return len(a) == len(b) and all((math.isnan(x) and math.isnan(y)) or abs(x - y) < 1e-12 for x, y in zip(a, b))


def k_searchlim(R):
    """Trials and the final run obey the limits."""
    d = R.fresh_dir()
    for lim in (1, 4, 100):
        for sizes in itertools.permutations((2, 4, 8)):
            for best in range(3):
                cfg = base(d, limits={"max_method_batch_size": lim}, search={"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "mc_score", "direction": "maximize", "aggregate": "mean"}, "space": {"method": {"params": {"batch_size": list(sizes)}}}})
                stub.FITS.clear()
                stub.SCRIPT.update(score=lambda s, i, b=best: 1.0 if i == b else 0.0, fail=None)
                R.step(1)
                R.state((lim, sizes, best))
                code, e = run(d, cfg)
                got = [f["spec"].batch_size for f in stub.FITS]
                want = [min(s, lim) for s in sizes]
                R.check(e is None and got == want + [want[best]], f"limit {lim}, sizes {sizes}, best {best}: trained with batch sizes {got} ({e!r})", key="searchlim")


# ---------------------------------------------------------------------------- sweeps
def k_sweep(R, how, fast):
    d = R.fresh_dir()
    import shutil

    for fails in itertools.product((0, 1), repeat=3):
        for table in ((0.0, 0.5, 1.0), (0.5, 0.5, 0.5), (1.0, 0.25, 0.5)):
            cfg = full(d)
            for s in ("sampling", "graph"):
                cfg[s]["seed"] = 77
            cfg["run"]["fail_fast"] = fast
            seeds = [5, 2, 9]
            kw = {}
            if how == "seeds":
                cfg["run"]["seeds"] = seeds
            else:
                seeds = [3, 4, 5]
                cfg["run"]["seeds"] = [8, 9]
                kw = {"num_runs": 3}
            shutil.rmtree(d / "runs", ignore_errors=True)
            stub.FITS.clear()
            stub.SCRIPT.update(score=lambda s, i, t=table: t[i], fail=lambda i, f=fails: bool(f[i]))
            R.step(1)
            R.state((how, fast, fails, table))
            code, e = run(d, cfg, **kw)
            what = f"sweep by {how}, runs failing {fails}, scores {table}, fail_fast={fast}"
            stop = fails.index(1) + 1 if fast and any(fails) else 3
            R.check(len(stub.FITS) == stop, f"{what}: {len(stub.FITS)} runs trained, expected {stop}", key="sweep")
            R.check((e is not None) if stop < 3 or (fast and any(fails)) else (e is None and code == int(any(fails))), f"{what}: result {code}, {e!r}", key="sweep")
            runs = sorted((d / "runs").glob("*/*/run.json"), key=lambda p: load(p)["run"]["started_at"])
            reps = {load(p)["run"]["seed"]: load(p) for p in runs}
            R.check(sorted(reps) == sorted(seeds[:stop]), f"{what}: records for seeds {sorted(reps)}", key="sweep")
            agg = list((d / "runs").glob("*/aggregate.json"))
            for s in seeds[:stop]:
                rep = reps.get(s, {"artifacts": {}})
                got = {k: v["seed"] for k, v in rep["artifacts"].items() if isinstance(v, dict) and "seed" in v}
                R.check(set(got.values()) == {s} and len(got) == 5, f"{what}: the run for seed {s} used seeds {got}", key="sweep")
            if e is not None:
                continue
            R.check(len(agg) == 1, f"{what}: {len(agg)} aggregates", key="sweep")
            if len(agg) != 1:
                continue
            check_aggregate(R, load(agg[0]), seeds, [(s, "failed" if f else "success", None if f else {"val": {"mc_score": t}, "test": {"mc_score": t}}) for s, f, t in zip(seeds, fails, table)], what)
            R.check(len({r["run_dir"] for r in load(agg[0])["runs"]}) == 3, f"{what}: runs share directories", key="sweep")


def check_aggregate(R, agg, seeds, runs, what):
    sw = agg["sweep"]
    ok = [r for r in runs if r[1] == "success" and isinstance(r[2], dict)]
    R.check(sw["requested_seeds"] == seeds and sw["requested_run_count"] == len(seeds) and sw["completed_run_count"] == len(runs) and sw["successful_run_count"] == len(ok) and sw["failed_run_count"] == len(runs) - len(ok), f"{what}: counts {sw}", key="aggregate")
    want = "success" if len(ok) == len(seeds) == len(runs) else "partial_failure" if ok else "failed"
    R.check(sw["status"] == want, f"{what}: sweep status {sw['status']}, expected {want}", key="aggregate")
    R.check([(r["seed"], r["status"], r["metrics"]) for r in agg["runs"]] == [tuple(r) for r in runs], f"{what}: runs listed as {agg['runs']}", key="aggregate")
    leaves = {}
    for _, _, m in ok:
        for s, ms in m.items():
            for k, v in ms.items():
                if isinstance(v, int | float) and not isinstance(v, bool):
                    leaves.setdefault((s, k), []).append(float(v))
    got = {(s, k): v for s, ms in agg["metrics"].items() for k, v in ms.items()}
    R.check(set(got) == set(leaves), f"{what}: aggregated metrics {sorted(got)}, expected {sorted(leaves)}", key="aggregate")
    for k, vs in leaves.items():
        g = got.get(k)
        if g is None:
            continue
        mean = sum(vs) / len(vs)
        std = math.sqrt(sum((v - mean) ** 2 for v in vs) / len(vs))
        R.check(g["count"] == len(vs) and g["values"] == vs and eq([g["mean"], g["std"], g["min"], g["max"]], [mean, std, min(vs), max(vs)]), f"{what}: {k} aggregated as {g}, values {vs}", key="aggregate")


def k_aggregate(R):
    d = R.fresh_dir()
    kinds = [None, ("failed", None), ("failed", {"val": {"a": 1.0}}), ("success", {"val": {"a": 0.25, "b": 1}}), ("success", {"val": {"a": 0.75}, "test": {"a": 0.5}}), ("success", None), ("success", {"val": {"a": True}})]
    for combo in itertools.product(range(len(kinds)), repeat=3):
        R.step(1)
        R.state(combo)
        paths, runs = [], []
        for i, c in enumerate(combo):
            if kinds[c] is None:
                continue
            st, m = kinds[c]
            p = d / f"{i}" / "run.json"
            p.parent.mkdir(exist_ok=True)
            p.write_text(json.dumps({"run": {"seed": i, "name": f"n{i}", "run_id": "x", "status": st, "error_code": None}, "metrics": m, "error": None}))
            paths.append(p)
            runs.append((i, st, m))
        out = write_seed_sweep_summary(output_dir=d / "o", config_path=d / "c.yaml", base_name="b", requested_seeds=[0, 1, 2], run_json_paths=paths)
        check_aggregate(R, load(out), [0, 1, 2], runs, f"reports {[kinds[c] for c in combo]}")


def k_global(R):
    """A sweep's seed replaces every section's seed and nothing else."""
    opts = {"absent": ABSENT, "null": None, "none": {"plan": 1}, "set": {"seed": 4, "plan": 1}}
    secs = ("sampling", "preprocess", "views", "graph", "augmentation", "search")
    for combo in itertools.product(opts, repeat=len(secs)):
        raw = {"run": {"name": "n", "seed": 1, "seeds": [1, 2], "output_dir": "o"}, "method": {"params": {"seed": 9}}, "dataset": {"id": "x", "options": {"seed": 3}}}
        for s, c in zip(secs, combo):
            if opts[c] is not ABSENT:
                raw[s] = copy.deepcopy(opts[c])
        before = copy.deepcopy(raw)
        R.step(1)
        R.state(combo)
        got = apply_global_seed(raw, seed=8, run_name="z")
        want = copy.deepcopy(before)
        want["run"] = {"name": "z", "seed": 8, "output_dir": "o"}
        for s in secs:
            if isinstance(want.get(s), dict):
                want[s]["seed"] = 8
        R.check(got == want and raw == before, f"global seed on {combo}: {diff(want, got)}", key="global")


# ---------------------------------------------------------------------------- seeds and determinism
def k_seeds(R, seed):
    d = R.fresh_dir()
    secs = ("sampling", "preprocess", "views", "graph", "augmentation")
    stub.SCRIPT.update(score=lambda s, i: 0.5, fail=None)
    plain = None
    for on in itertools.product((0, 1), repeat=5):
        cfg = full(d)
        cfg["run"]["seed"] = seed
        for s, o in zip(secs, on):
            if o:
                cfg[s]["seed"] = 1000 + secs.index(s)
        R.step(1)
        R.state((seed, on))
        stub.FITS.clear()
        import shutil

        shutil.rmtree(d / "runs", ignore_errors=True)
        code, e = run(d, cfg)
        R.check(e is None, f"seeds {on}: {e!r}", key="seeds")
        if e is not None:
            continue
        rep = load(reports(d)[0])
        got = [rep["artifacts"][s]["seed"] for s in secs]
        if plain is None:
            plain = (got, stub.FITS[0]["seed"])
            R.check(len({*got, stub.FITS[0]["seed"]}) == 6, f"run seed {seed}: stages share seeds {got}, {stub.FITS[0]['seed']}", key="seeds")
        want = [1000 + i if o else plain[0][i] for i, o in enumerate(on)]
        R.check(got == want and stub.FITS[0]["seed"] == plain[1], f"run seed {seed}, explicit {on}: stages used {got}, expected {want}", key="seeds")


def k_rerun(R):
    """Same configuration, same results and identity; another seed or setting, another identity; earlier runs are left alone."""
    d = R.fresh_dir()
    stub.SCRIPT.update(score=lambda s, i: 0.5, fail=None)
    variants = {"plain": [], "again": [], "seed": [("run.seed", 4)], "name": [("run.name", "q")], "params": [("method.params.alpha", 1)], "sampling": [("sampling.plan.labeling.value", 0.25)], "augment": [("augmentation.strong.steps", [{"id": "core.identity"}])], "more": []}
    seen, ids, prints = {}, {}, {}
    for method in ("mc_score", "self_training"):
        for name, edits in variants.items():
            cfg = full(d)
            cfg["method"]["id"] = method
            if method != "mc_score":
                cfg["method"]["params"] = {"classifier_id": "knn", "classifier_backend": "numpy"}
                cfg.pop("views")
                cfg["evaluation"]["metrics"] = ["accuracy", "macro_f1"]
                edits = [e for e in edits if e[0] != "method.params.alpha"]
            for p, v in edits:
                put(cfg, p.split("."), v)
            R.step(1)
            R.state((method, name))
            code, e = run(d, cfg)
            R.check(e is None, f"{method} {name}: {e!r}", key="rerun")
            now = {p: p.read_bytes() for p in (d / "runs").rglob("*") if p.is_file()}
            R.check(all(now.get(p) == b for p, b in seen.items()), f"{method} {name}: an earlier run's files changed", key="rerun")
            new = [p for p in now if p not in seen and p.name == "run.json"]
            R.check(len(new) == 1, f"{method} {name}: {len(new)} new records", key="rerun")
            seen = now
            rep = load(new[0])
            key = json.dumps(cfg, sort_keys=True)
            ids.setdefault(key, set()).add(rep["run"]["run_id"])
            prints.setdefault(key, set()).add(json.dumps([rep["metrics"], rep["artifacts"], rep["hashes"]], sort_keys=True))
            R.check(rep["run"]["run_id"] in new[0].parent.name and new[0].parent.name.startswith(cfg["run"]["name"] + "-"), f"{method} {name}: directory {new[0].parent.name}", key="rerun")
            saved = yaml.safe_load((new[0].parent / "config.yaml").read_text())
            saved["method"]["device"] = cfg["method"]["device"]
            R.check(saved == cfg, f"{method} {name}: config.yaml: {diff(cfg, saved)}", key="rerun")
            code, e = run(d, yaml.safe_load((new[0].parent / "config.yaml").read_text()))
            seen = {p: p.read_bytes() for p in (d / "runs").rglob("*") if p.is_file()}
            rerun = [p for p in seen if p not in now and p.name == "run.json"]
            R.check(len(rerun) == 1 and load(rerun[0])["metrics"] == rep["metrics"] and load(rerun[0])["artifacts"] == rep["artifacts"], f"{method} {name}: running the saved config.yaml gives other results", key="rerun")
    R.check(all(len(v) == 1 for v in ids.values()) and all(len(v) == 1 for v in prints.values()), "the same configuration gives different run ids, metrics or artifacts", key="rerun")
    flat = [next(iter(v)) for v in ids.values()]
    R.check(len(set(flat)) == len(flat), "different configurations share a run id", key="rerun")


def k_process(R):
    """The same configuration in other processes, with other hash seeds."""
    d = R.fresh_dir()
    cfg = full(d)
    cfg.pop("views")
    cfg["method"].update(id="self_training", params={"classifier_id": "knn", "classifier_backend": "numpy"})
    cfg["evaluation"]["metrics"] = ["accuracy"]
    p = d / "exp.yaml"
    p.write_text(yaml.safe_dump(cfg))
    got = set()
    for hs in ("0", "1", "77"):
        R.step(1)
        R.state(hs)
        before = set(reports(d))
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
        c = subprocess.run([sys.executable, "-m", "bench.main", "--config", str(p)], env=env, capture_output=True, text=True, cwd=d)
        R.check(c.returncode == 0, f"bench.main exits {c.returncode}: {c.stderr[-300:]}", key="process")
        new = set(reports(d)) - before
        if len(new) == 1:
            rep = load(new.pop())
            got.add(json.dumps([rep["run"]["run_id"], rep["metrics"], rep["artifacts"], rep["hashes"]], sort_keys=True))
    R.check(len(got) == 1, f"the same configuration in three processes gives {len(got)} different results", key="process")


# ---------------------------------------------------------------------------- paths and placeholders
def k_rundir(R):
    for have in itertools.product((0, 1), repeat=4):
        for kind in ("dir", "file"):
            d = R.fresh_dir()
            names = ["x", "x__r01", "x__r02", "x__r03"]
            for h, n in zip(have, names):
                if h:
                    if kind == "dir":
                        (d / n).mkdir()
                    else:
                        (d / n).write_text("keep")
            R.step(1)
            R.state((have, kind))
            got = next_available_run_dir(d / "x")
            want = next(n for n in [*names, "x__r04"] if not (d / n).exists())
            R.check(got == d / want and not got.exists(), f"existing {have}: next run directory {got.name}, expected {want}", key="rundir")
            ctx = RunContext(name="x", seed=1, run_id="i", output_dir=d, run_dir=d / "x", started_at="t")
            ctx.ensure_dirs()
            R.check(ctx.run_dir == d / want and ctx.run_dir.is_dir(), f"existing {have}: run directory {ctx.run_dir}", key="rundir")
            ctx2 = RunContext(name="x", seed=1, run_id="i", output_dir=d, run_dir=d / "x", started_at="t")
            ctx2.ensure_dirs()
            R.check(ctx2.run_dir != ctx.run_dir, "two runs share a directory", key="rundir")


TOKENS = ["$A", "${A}", "$B", "${B}", "$", "\\", "{", "}", "x", "1"]


def expand_ref(s, env):
    """Left to right: $NAME and ${NAME} not preceded by $ or backslash. -> (text, missing)"""
    out, i, missing = "", 0, set()
    while i < len(s):
        if s[i] == "$" and not (i and s[i - 1] in "$\\"):
            j = i + 1
            brace = j < len(s) and s[j] == "{"
            if brace:
                j += 1
            k = j
            while k < len(s) and (s[k].isalpha() or s[k] == "_" or (k > j and s[k].isdigit())):
                k += 1
            if k > j and (not brace or (k < len(s) and s[k] == "}")):
                name = s[j:k]
                if name in env:
                    out += env[name]
                else:
                    missing.add(name)
                i = k + (1 if brace else 0)
                continue
        out += s[i]
        i += 1
    return out, missing


def k_placeholders(R, n, lead):
    d = R.fresh_dir()
    env = {"A": "va$lue", "Ax": "w", "A1": "q", "AA": "zz"}
    saved = {k: os.environ.get(k) for k in [*env, "B", "Bx"]}
    try:
        for k in saved:
            os.environ.pop(k, None)
        os.environ.update(env)
        p = d / "c.yaml"
        seqs = [(lead, *t) for m in range(n) for t in itertools.product(TOKENS, repeat=m)]
        good, bad = [], []
        for t in seqs:
            s = "".join(t)
            R.step(1)
            want, missing = expand_ref(s, os.environ)
            R.state((s, bool(missing)))
            (bad if missing else good).append((s, want, missing))
        p.write_text(json.dumps({"a": {"b": [g[0] for g in good]}, "$A": 1, "n": [1, None, True, 1.5]}))
        got = load_yaml(p)
        for (s, want, _), g in zip(good, got["a"]["b"], strict=True):
            R.check(g == want, f"placeholder text {s!r} becomes {g!r}, expected {want!r}", key="placeholders")
        R.check("$A" in got and got["n"] == [1, None, True, 1.5], f"keys or plain values changed: {sorted(got)}", key="placeholders")
        for s, _, missing in bad:
            p.write_text(json.dumps({"a": {"b": ["ok", s]}}))
            try:
                load_yaml(p)
                R.check(False, f"placeholder text {s!r} with unset {missing} is accepted", key="placeholders")
            except ValueError as e:
                R.check("a.b[1]" in str(e) and all(m in str(e) for m in missing), f"placeholder text {s!r}: {e}", key="placeholders")
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


def k_shipped(R, part, parts):
    """Every configuration in the repository is accepted, names known methods, and its search space is in range."""
    from modssc.inductive import registry as ri
    from modssc.sampling.plan import SamplingPlan
    from modssc.transductive import registry as rt

    root = Path(b_main.__file__).parent / "configs"
    loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
    files = sorted(root.rglob("*.yaml"))
    R.check(len(files) > 0, "no shipped configurations found", key="shipped")
    for f in files[part::parts]:
        raw = yaml.load(f.read_text(encoding="utf-8"), Loader=loader)  # noqa: S506
        R.step(1)
        R.state(str(f))
        if "manifest" in f.name:
            continue
        what = str(f.relative_to(root))
        try:
            cfg = ExperimentConfig.from_dict(raw)
            SamplingPlan.from_dict(cfg.sampling.plan)
        except Exception as e:
            R.check(False, f"shipped configuration {what}: {e}", key="shipped")
            continue
        info = (ri if cfg.method.kind == "inductive" else rt).get_method_info
        try:
            R.check(bool(info(cfg.method.method_id)), f"{what}: unknown method", key="shipped")
        except Exception as e:
            R.check(False, f"shipped configuration {what}: method {cfg.method.method_id}: {e!r}", key="shipped")


def cases(tier):
    q = tier == "quick"
    for w in (1, 2) if q else (1, 2, 3):
        for first in range(len(WHERE)):
            yield ["limits", first, w]
    yield ["detect"]
    yield ["schema"]
    for first in range(len(BREACH)):
        yield ["contract", first, 2 if q else 3]
    for first in range(len(FAULTS)):
        yield ["faults", first]
    vals = [0.0, 0.5, "nan"] if q else [0.0, 0.5, 1.0, "nan"]
    for direction in ("maximize", "minimize"):
        for lead in vals:
            for kind, shape in (("grid", [4, 1]), ("grid", [2, 2]), ("random", [3, 1])):
                yield ["search", kind, direction, shape, vals, lead]
    yield ["searchlim"]
    for how in ("seeds", "num_runs"):
        for fast in (False, True):
            yield ["sweep", how, fast]
    yield ["aggregate"]
    yield ["global"]
    for s in (0, 3, 123456):
        yield ["seeds", s]
    yield ["rerun"]
    yield ["process"]
    yield ["rundir"]
    for lead in TOKENS:
        yield ["placeholders", 4 if q else 5, lead]
    for part in range(8):
        yield ["shipped", part, 8]


def run_case(case, R):
    kind, *args = case
    if kind == "search":
        args[3] = [float(v) for v in args[3]]
        args[4] = float(args[4])
        args[2] = tuple(args[2])
    globals()["k_" + kind](R, *args)
