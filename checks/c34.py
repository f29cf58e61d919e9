"""Command line: a command does what the library call it stands for does, in the folders it was told, and says so."""
import dataclasses
import importlib
import itertools
import json
import logging
import os
import shutil
import subprocess
import sys
from pathlib import Path

import modssc.cli.app as capp
import numpy as np
import typer.testing
import yaml
from modssc import data_augmentation as aug
from modssc import evaluation as ev
from modssc import supervised as sup
from modssc.__about__ import __version__
from modssc.data_loader import api as dl
from modssc.data_loader import load_dataset
from modssc.data_loader.errors import OptionalDependencyError
from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, build_graph, graph_to_views
from modssc.graph.artifacts import NodeDataset
from modssc.graph.cache import GraphCache, ViewsCache
from modssc.inductive import registry as ind
from modssc.preprocess import available_models, available_steps, model_info, preprocess, step_info
from modssc.preprocess.plan import load_plan
from modssc.sampling.api import load_split, sample
from modssc.sampling.plan import SamplingPlan
from modssc.transductive import registry as tra
from typer.testing import CliRunner

from mc import provider
from mc.core import TREE

PID = "C34"
BOUNDS = {
    "quick": "every listing and info command over every identifier and filter; --log-level at the root, brick and command (5 values each) x 4 "
             "environments, every brick; graph build: every pair of deviations over 18 flags from 3 schemes, spec files over every field, 7 "
             "breaches x 2 formats; views build: every pair over 14 flags, every ordered choice of views; graph cache histories of length <= 4 "
             "over 6 commands; dataset cache histories of length <= 3 over 14 commands (4 over 7) against a dictionary; split histories of length <= 3 "
             "over 10 commands; preprocessing plans x 4 flags; evaluation of every pair of label arrays of length <= 3 over 2 labels and score "
             "matrices; doctor with each of the 2^9 sets of missing bricks; 12 commands run as processes",
    "thorough": "as quick with length 5 graph and length 4 dataset and split histories, triples of graph flags, label arrays over 3 labels",
}
ASSUMPTIONS = ["the library call is the oracle of each command (its own properties are C01-C33); wording of messages is not judged",
               "commands run in process through typer's runner, with the cache variables pointing at scratch folders"]
CASE_TIMEOUT = 600
RUN = CliRunner()
BRICKS = ("datasets", "sampling", "preprocess", "graph", "augmentation", "evaluation", "inductive", "transductive", "supervised")
CACHES = {"MODSSC_CACHE_DIR": "ds", "MODSSC_GRAPH_CACHE_DIR": "graph", "MODSSC_GRAPH_VIEWS_CACHE_DIR": "views",
          "MODSSC_PREPROCESS_CACHE_DIR": "prep", "MODSSC_SPLIT_CACHE_DIR": "splits", "MODSSC_CACHE_ROOT": "root"}
LEVELS = (None, "none", "basic", "FULL", "bogus")
ENVS = (None, "", "basic", "bogus")
NUM = {"none": logging.WARNING, "basic": logging.INFO, "full": logging.DEBUG, "": logging.WARNING, None: logging.WARNING}
CMD = {"datasets": ["providers"], "sampling": ["show", "@split"], "preprocess": ["steps", "list"], "graph": ["cache", "ls"],
       "augmentation": ["list"], "evaluation": ["list"], "inductive": ["methods", "list"], "transductive": ["methods", "list"],
       "supervised": ["list"]}
TOY = {}


def setup(tier):
    provider.register()
    from modssc.runtime.logging import configure_logging
    configure_logging("none")
    sink = open(os.devnull, "w")     # noqa: SIM115
    for n in ("modssc", "bench"):
        for h in logging.getLogger(n).handlers:
            h.setStream(sink)
    os.environ.pop("MODSSC_LOG_LEVEL", None)
    made, build = [], typer.testing._get_command

    def once(a):        # typer would rebuild its command tree on every call
        for k, cmd in made:
            if k is a:
                return cmd
        made.append((a, build(a)))
        return made[-1][1]

    typer.testing._get_command = once


# ------------------------------------------------------------------ helpers
def sandbox(R):
    """Point every cache at an empty scratch folder; gives the folder of each."""
    root = R.fresh_dir("env")
    where = {}
    for var, sub in CACHES.items():
        where[sub] = root / sub
        os.environ[var] = str(root / sub)
    return where


def toy(R, where):
    """The built-in toy dataset, loaded once per worker and copied into this case's cache."""
    if "dir" not in TOY:
        TOY["dir"] = Path(R.scratch_root).parent / "keep-toy"
        TOY["ds"] = load_dataset("toy", cache_dir=TOY["dir"])
    shutil.copytree(TOY["dir"], where["ds"])
    return TOY["ds"]


def cli(R, *args, env=None):
    R.step()
    r = RUN.invoke(capp.app, [str(a) for a in args], env=env or {})
    R.outcome(args[:2], r.exit_code)
    return r


def files(p):
    return sorted(str(f.relative_to(p)) for f in p.rglob("*") if f.is_file()) if p.exists() else []


def jl(o):
    return json.loads(json.dumps(o))


def ok(R, r, args, key):
    R.check(r.exit_code == 0, lambda: f"modssc {' '.join(map(str, args))}: exit {r.exit_code}, {r.exception!r}, {r.stderr[-200:]!r}", key)
    return r.stdout


def prints(R, args, want, key, parse=json.loads):
    out = ok(R, cli(R, *args), args, key)
    try:
        got = parse(out)
    except ValueError as e:
        got = f"{e} in {out!r}"
    R.check(got == want or repr(got) == repr(want), lambda: f"modssc {' '.join(map(str, args))} prints {got}, the library says {want}", key)


def refused(R, args, key, code=None):
    r = cli(R, *args)
    R.check(r.exit_code not in (0, None) and (code is None or r.exit_code == code) and not r.stdout.strip(),
            lambda: f"modssc {' '.join(map(str, args))}: exit {r.exit_code}, prints {r.stdout[:200]!r}; expected a refusal{'' if code is None else f' (exit {code})'}", key)


# ------------------------------------------------------------------ listings
def lines(s):
    return s.split()


def listings(c, R):
    sandbox(R)
    w = c["what"]
    if w == "datasets":
        prints(R, ["datasets", "providers"], dl.provider_names(), "providers", lines)
        keys = dl.available_datasets()
        mods = sorted({dl.dataset_info(k).modality for k in keys})
        prints(R, ["datasets", "list"], keys, "datasets-list", lines)
        for n in range(1, len(mods) + 1):
            for sel in itertools.combinations(mods + ["nope"], n):
                a = ["datasets", "list"] + [x for m in sel for x in ("--modalities", m)]
                prints(R, a, [k for k in keys if dl.dataset_info(k).modality in sel], "datasets-list", lines)
        for k in keys:
            d = dl.dataset_info(k)
            prints(R, ["datasets", "info", "--dataset", k], jl(d.as_dict()), "datasets-info")
            R.state("ds", k)
        for k in ("nope", "", "nope:x", "toy "):
            try:
                dl.dataset_info(k)
            except Exception:
                refused(R, ["datasets", "info", "--dataset", k], "datasets-unknown", 2)
        refused(R, ["datasets", "info"], "datasets-info-missing", 2)
    elif w == "preprocess":
        prints(R, ["preprocess", "steps", "list"], available_steps(), "steps", lines)
        prints(R, ["preprocess", "steps", "list", "--json"], available_steps(), "steps")
        for s in available_steps():
            prints(R, ["preprocess", "steps", "info", s], jl(step_info(s)), "step-info")
        for m in (None, "text", "vision", "audio", "nope"):
            f = ["--modality", m] if m else []
            prints(R, ["preprocess", "models", "list", *f], available_models(modality=m), "models", lines)
            prints(R, ["preprocess", "models", "list", "--json", *f], available_models(modality=m), "models")
        for m in available_models():
            prints(R, ["preprocess", "models", "info", m], jl(model_info(m)), "model-info")
        refused(R, ["preprocess", "steps", "info", "nope"], "step-unknown")
        refused(R, ["preprocess", "models", "info", "nope"], "model-unknown")
    elif w == "augmentation":
        for m in (None, "vision", "text", "tabular", "audio", "graph", "any", "nope"):
            f = ["--modality", m] if m else []
            try:
                want = aug.available_ops(modality=m) if m else aug.available_ops()
            except Exception:
                refused(R, ["augmentation", "list", *f], "aug-list")
                continue
            prints(R, ["augmentation", "list", *f], list(want), "aug-list", lines)
        for o in aug.available_ops():
            i = aug.op_info(o) if hasattr(aug, "op_info") else None
            if i is None:
                from modssc.data_augmentation.registry import op_info
                i = op_info(o)
            prints(R, ["augmentation", "info", o, "--as-json"], jl(i), "aug-info")
            out = ok(R, cli(R, "augmentation", "info", o), ["augmentation", "info", o], "aug-text")
            R.check(out.startswith(f"op_id: {o}\nmodality: {i['modality']}\n") and (not i.get("doc") or i["doc"] in out)
                    and json.loads(out.split("\nDefaults:\n")[1]) == jl(i.get("defaults", {})), f"augmentation info {o}: {out!r}", "aug-text")
        refused(R, ["augmentation", "info", "nope"], "aug-unknown")
    elif w == "supervised":
        for only in (False, True):
            items = sup.available_classifiers(available_only=only)
            f = ["--available-only"] if only else []
            prints(R, ["supervised", "list", "--json", *f], jl(items), "sup-list")
            out = ok(R, cli(R, "supervised", "list", *f), ["supervised", "list"], "sup-text")
            want = []
            for s in items:
                want.append(f"{s['key']}: {s['description']}")
                for b, bs in s["backends"].items():
                    want.append(f"  {b}" + (f" (extra={bs['required_extra']})" if bs.get("required_extra") else ""))
            R.check(out.splitlines() == want, f"supervised list {f}: {out!r}, expected {want}", "sup-text")
        for s in sup.available_classifiers():
            prints(R, ["supervised", "info", s["key"]], jl(sup.classifier_info(s["key"])), "sup-info")
        refused(R, ["supervised", "info", "nope"], "sup-unknown")
    elif w in ("inductive", "transductive"):
        reg = ind if w == "inductive" else tra
        for f, only in (([], False), (["--all"], False), (["--available-only"], True)):
            prints(R, [w, "methods", "list", *f], list(reg.available_methods(available_only=only)), f"{w}-list", lines)
        for m in reg.available_methods():
            try:
                info = reg.get_method_info(m)
            except Exception:
                r = cli(R, w, "methods", "info", m)
                R.check(r.exit_code == 2 and json.loads(r.stdout)["method_id"] == m and "info" not in json.loads(r.stdout),
                        f"{w} methods info {m}: exit {r.exit_code} {r.stdout!r}, the method cannot be loaded", f"{w}-broken")
                continue
            out = ok(R, cli(R, w, "methods", "info", m), [w, "methods", "info", m], f"{w}-info")
            d = json.loads(out)
            R.check(d["method_id"] == m and d["info"] == jl(dataclasses.asdict(info)) and "error" not in d, f"{w} methods info {m}: {d}", f"{w}-info")
            mod, cls = d["import_path"].split(":")
            R.check(getattr(importlib.import_module(mod), cls) is reg.get_method_class(m), f"{w} methods info {m}: {d['import_path']}", f"{w}-path")
        refused(R, [w, "methods", "info", "nope"], f"{w}-unknown", 2)
    elif w == "evaluation":
        prints(R, ["evaluation", "list"], list(ev.list_metrics()), "metrics", lines)
        prints(R, ["evaluation", "list", "--json"], {"metrics": list(ev.list_metrics())}, "metrics")
    elif w == "app":
        prints(R, ["--version"], f"modssc {__version__}", "version", str.strip)
        prints(R, ["doctor", "--json"], [(b, True) for b in BRICKS], "doctor", lambda s: [(d["name"], d["available"]) for d in json.loads(s)])
        prints(R, ["doctor"], [f"{b}: ok" for b in BRICKS], "doctor", str.splitlines)
        refused(R, ["nope"], "unknown-command", 2)
        for b in BRICKS:
            refused(R, [b, "nope"], "unknown-command", 2)
    R.state(w)


# ------------------------------------------------------------------ logging
def loglevels(c, R):
    where = sandbox(R)
    cmd = list(CMD[c["brick"]])
    if cmd[-1] == "@split":
        split_at(R, where)
        cmd[-1] = where["splits"] / "s"
    plain = None
    for env, root, brick, leaf in itertools.product(ENVS, LEVELS, LEVELS, LEVELS):
        if not c["full"] and sum(x is not None for x in (root, brick, leaf)) > 1:
            continue
        given = [x for x in (root, brick, leaf) if x is not None]
        args = (["--log-level", root] if root else []) + [c["brick"]] + (["--log", brick] if brick else []) + cmd[:1]
        if len(cmd) > 1 and c["brick"] != "sampling":
            args += cmd[1:]
        elif len(cmd) > 1:
            args += cmd[1:]
        args += ["--log-level", leaf] if leaf else []
        for n in ("modssc", "bench"):
            logging.getLogger(n).setLevel(1)
        r = cli(R, *args, env={"MODSSC_LOG_LEVEL": env} if env is not None else None)
        tag = f"MODSSC_LOG_LEVEL={env!r} modssc {' '.join(map(str, args))}"
        if "bogus" in given or (env == "bogus" and not given):
            R.check(r.exit_code == 2 and not r.stdout.strip(), f"{tag}: exit {r.exit_code} {r.stdout[:100]!r}; the level does not exist", "log-bogus")
            continue
        if env == "bogus" and r.exit_code == 2:
            continue
        R.check(r.exit_code == 0, f"{tag}: exit {r.exit_code} {r.exception!r}", "log-exit")
        want = NUM[given[-1].lower()] if given else NUM[env]
        for n in ("modssc", "bench"):
            got = logging.getLogger(n).level
            R.check(got == want, f"{tag}: logger {n} is at {logging.getLevelName(got)}, expected {logging.getLevelName(want)}", "log-level")
        plain = r.stdout if plain is None else plain
        R.check(r.stdout == plain, f"{tag}: the output depends on the log level", "log-stdout")
        R.state(c["brick"], env, root, brick, leaf)


# ------------------------------------------------------------------ graph build
GVALS = {
    "scheme": ("knn", "epsilon", "anchor", "ring"), "metric": ("euclidean", "manhattan"), "k": (1, 3, 0), "radius": (0.9, 2.0, 0.0),
    "backend": ("numpy", "sklearn", "faiss", "x"), "chunk_size": (1, 5, 0), "n_anchors": (2, 0), "anchors_k": (1, 2), "candidate_limit": (1, 7),
    "anchors_method": ("kmeans", "x"), "faiss_exact": (True,), "faiss_hnsw_m": (8, 0), "faiss_ef_search": (3,), "faiss_ef_construction": (9,),
    "seed": (1, 7), "edge_shard_size": (2, 1000), "resume": (False,), "cache": (False,), "cache_dir": ("elsewhere",),
}
NOT_SPEC = ("seed", "edge_shard_size", "resume", "cache", "cache_dir")
GBASE = ({"k": 2}, {"scheme": "epsilon", "radius": 0.4}, {"scheme": "anchor", "k": 2, "n_anchors": 5})


def flags(d):
    out = []
    for k, v in d.items():
        n = k.replace("_", "-")
        if isinstance(v, bool):
            out.append(f"--{n}" if v else f"--no-{n}")
        else:
            out += [f"--{n}", v]
    return out


def same_graph(a, b):
    def w(g):
        return None if g.edge_weight is None else np.asarray(g.edge_weight).tolist()
    return a.n_nodes == b.n_nodes and np.array_equal(a.edge_index, b.edge_index) and w(a) == w(b)


def one_graph(R, where, ds, dev, spec, extra, key):
    """Run graph build with the flags `dev` (plus `extra` arguments); `spec` is what they mean, or an exception."""
    for k in ("graph", "elsewhere"):
        shutil.rmtree(where["root"].parent / k, ignore_errors=True)
    dev = dict(dev)
    if "cache_dir" in dev:
        dev["cache_dir"] = where["root"].parent / "elsewhere"
    args = ["graph", "build", "--dataset", "toy", *flags(dev), *extra]
    try:
        if isinstance(spec, Exception):
            raise spec
        spec.validate()
        want = build_graph(ds.train.X, spec=spec, seed=dev.get("seed", 0), cache=False, edge_shard_size=dev.get("edge_shard_size"),
                           resume=dev.get("resume", True))
    except Exception as e:
        R.outcome("graph", type(e).__name__)
        refused(R, args, f"{key}-invalid")
        R.check(not GraphCache(root=where["graph"]).list(), f"{args}: refused but cached", f"{key}-invalid-cached")
        return
    prints(R, args, {"fingerprint": want.meta["fingerprint"], "n_nodes": want.n_nodes, "n_edges": int(want.edge_index.shape[1])}, key)
    used = dev.get("cache_dir", where["graph"])
    for folder in (where["graph"], where["root"].parent / "elsewhere"):
        inside = [want.meta["fingerprint"]] if folder == used and dev.get("cache", True) else []
        if not inside:
            R.check(not files(folder), f"{args} writes {files(folder)[:3]} in {folder.name}", f"{key}-where")
        else:
            store = GraphCache(root=folder)
            R.check(list(store.list()) == inside, f"{args}: the cache lists {store.list()}", f"{key}-cached")
            g = store.load(inside[0])
            g = g[0] if isinstance(g, tuple) else g
            R.check(same_graph(g, want), f"{args}: the stored graph is not the one the library builds", f"{key}-content")
            if dev.get("edge_shard_size") == 2:
                R.check(len([f for f in files(folder) if f.endswith(".npz")]) >= int(want.edge_index.shape[1]) // 2 > 0 or want.edge_index.shape[1] < 3,
                        f"{args}: edges are not stored in shards of 2: {files(folder)}", f"{key}-shards")
    R.state("graph", sorted((k, str(v)) for k, v in dev.items()), len(extra))


def graph_flags(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    base = GBASE[c["base"]]
    names = c["names"]
    for vals in itertools.product(*(GVALS[n] for n in names)):
        dev = {**base, **dict(zip(names, vals, strict=True))}
        spec = GraphBuilderSpec(**{"radius": 0.5, **{k: v for k, v in dev.items() if k not in NOT_SPEC}})
        one_graph(R, where, ds, dev, spec, [], "graph")


SVALS = {**{k: v for k, v in GVALS.items() if k not in NOT_SPEC}, "symmetrize": ("none", "or", "both"), "normalize": ("none", "sym", "x"),
         "self_loops": (False,), "feature_field": ("train.X",), "weights": ({"kind": "binary"}, {"kind": "heat", "sigma": 2.0}, {"kind": "x"}, None, [1])}


def graph_spec(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    d = R.fresh_dir("spec")
    fmt = c["fmt"]

    def put(obj):
        p = d / f"g.{fmt}"
        p.write_text(json.dumps(obj) if fmt == "json" else yaml.safe_dump(obj))
        return p

    if "breach" in c:
        base = dict(GBASE[0])
        bad = {"unknown": {**base, "kk": 1}, "weights-unknown": {**base, "weights": {"kind": "binary", "sgima": 1}}, "list": [base], "text": "knn",
               "no-k": {"scheme": "knn"}, "empty": None, "case": {**base, "K": 2}}[c["breach"]]
        refused(R, ["graph", "build", "--dataset", "toy", "--spec", put(bad)], f"spec-{c['breach']}", 2)
        p = d / f"broken.{fmt}"
        p.write_text('{"scheme": "knn", ')
        refused(R, ["graph", "build", "--dataset", "toy", "--spec", p], "spec-broken", 2)
        refused(R, ["graph", "build", "--dataset", "toy", "--spec", d / "none.yaml"], "spec-missing", 2)
        R.check(not files(where["graph"]), "a refused spec file leaves a graph", "spec-bad-cached")
        return
    base = GBASE[c["base"]]
    for vals in itertools.product(*(SVALS[n] for n in c["names"])):
        obj = {**base, **dict(zip(c["names"], vals, strict=True))}
        try:
            spec = GraphBuilderSpec.from_dict(dict(obj))
        except Exception as e:
            spec = e
        for extra in ({}, {"seed": 3, "cache_dir": "elsewhere"}):
            one_graph(R, where, ds, extra, spec, ["--spec", put(obj)], "spec")


VVALS = {"diffusion_steps": (0, 2, -1), "diffusion_alpha": (0.5, 2.0), "struct_method": ("node2vec", "x"), "struct_dim": (3, 0), "walk_length": (3, 1),
         "num_walks_per_node": (2, 0), "window_size": (1, 0), "p": (0.25, 0.0), "q": (4.0,), "seed": (1, 5), "cache": (False,), "cache_dir": ("elsewhere",),
         "scheme": ("epsilon", "ring"), "metric": ("euclidean",), "k_graph": (3, 0), "radius": (0.8,)}
VBASE = {"struct_dim": 2, "walk_length": 4, "num_walks_per_node": 1, "k_graph": 2}


def view_flags(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    for vals in itertools.product(*(VVALS[n] for n in c["names"])):
        for k in ("graph", "views", "elsewhere"):
            shutil.rmtree(where["root"].parent / k, ignore_errors=True)
        dev = {**VBASE, **dict(zip(c["names"], vals, strict=True))}
        if "cache_dir" in dev:
            dev["cache_dir"] = where["root"].parent / "elsewhere"
        args = ["graph", "views", "build", "--dataset", "toy", *[x for v in c["views"] for x in ("--views", v)], *flags(dev)]
        names = tuple(c["views"]) or ("attr",)
        cached = dev.get("cache", True)
        try:
            g = build_graph(ds.train.X, spec=GraphBuilderSpec(scheme=dev.get("scheme", "knn"), metric=dev.get("metric", "cosine"), k=dev["k_graph"],
                                                              radius=dev.get("radius", 0.5)), seed=dev.get("seed", 0), cache=False)
            spec = GraphFeaturizerSpec(views=names, cache=cached,
                                       **{k: v for k, v in dev.items() if k not in ("seed", "cache", "cache_dir", "scheme", "metric", "k_graph", "radius")})
            want = graph_to_views(NodeDataset(X=ds.train.X, y=ds.train.y, graph=g, masks={}), spec=spec, seed=dev.get("seed", 0),
                                  cache_dir=str(R.fresh_dir("ref")))
        except Exception as e:
            R.outcome("views", type(e).__name__)
            refused(R, args, "views-invalid")
            continue
        prints(R, args, {"fingerprint": want.meta["fingerprint"], "views": list(want.views)}, "views")
        used = dev.get("cache_dir", where["views"])
        for folder in (where["views"], where["root"].parent / "elsewhere"):
            if folder != used or not cached:
                R.check(not files(folder), f"{args} writes {files(folder)[:3]} in {folder.name}", "views-where")
                continue
            got = ViewsCache(root=folder)
            R.check(list(got.list()) == [want.meta["fingerprint"]], f"{args}: cached {got.list()}", "views-cached")
            v = got.load(want.meta["fingerprint"], y=ds.train.y, masks={})
            v = v[0].views
            R.check(set(v) == set(want.views) and all(np.array_equal(np.asarray(v[n]), np.asarray(want.views[n])) for n in v),
                    f"{args}: the stored views are not the ones the library computes", "views-content")
        if not cached:
            R.check(not files(where["graph"]), f"{args} writes {files(where['graph'])[:3]} in the graph cache", "views-no-cache-graph")
        R.state("views", c["views"], sorted((k, str(v)) for k, v in dev.items()))


GHIST = ("build2", "build3", "nocache", "ls", "purge", "views")


def graph_history(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    graphs, views = set(), set()
    fps = {}
    for n in (2, 3):
        fps[n] = TOY.setdefault(("fp", n), build_graph(ds.train.X, spec=GraphBuilderSpec(k=n, radius=0.5), seed=0, cache=False).meta["fingerprint"])
    for k, i in enumerate(c["h"]):
        op = GHIST[i]
        tag = f"step {k} {op} of {[GHIST[j] for j in c['h']]}"
        if op in ("build2", "build3", "nocache"):
            n = 3 if op == "build3" else 2
            a = ["graph", "build", "--dataset", "toy", "--k", n] + (["--no-cache"] if op == "nocache" else [])
            out = json.loads(ok(R, cli(R, *a), a, "graph-history"))
            R.check(out["fingerprint"] == fps[n], f"{tag}: {out}", "graph-history")
            if op != "nocache":
                graphs.add(fps[n])
        elif op == "views":
            a = ["graph", "views", "build", "--dataset", "toy", "--k-graph", 3]
            views.add(json.loads(ok(R, cli(R, *a), a, "graph-history"))["fingerprint"])
            graphs.add(fps[3])
        elif op == "purge":
            a = ["graph", "cache", "purge"]
            out = ok(R, cli(R, *a), a, "graph-purge")
            R.check(str(len(graphs)) in out, f"{tag}: {out!r} with {len(graphs)} graphs stored", "graph-purge")
            graphs = set()
        out = ok(R, cli(R, "graph", "cache", "ls"), ["graph", "cache", "ls"], "graph-ls")
        R.check(sorted(out.split()) == sorted(graphs), f"{tag}: graph cache ls gives {out!r}, stored are {graphs}", "graph-ls")
        out = ok(R, cli(R, "graph", "views", "cache-ls"), ["graph", "views", "cache-ls"], "views-ls")
        R.check(sorted(out.split()) == sorted(views), f"{tag}: views cache-ls gives {out!r}, stored are {views}", "views-ls")
        R.state("ghist", sorted(graphs), len(views), op)


# ------------------------------------------------------------------ dataset cache
DHIST = (("dl", "tab0"), ("dl", "tab1"), ("dl", "gra0"), ("force", "tab0"), ("purge", "tab0"), ("purge", "mc:nope1"), ("fp", "tab0"), ("fp", "tab1"),
         ("fpbad", ""), ("fpbad", "../processed"), ("gc", ""), ("keepall", ""), ("update", ""), ("extra", "tab0"))


def ds_history(c, R):
    where = sandbox(R)
    root = R.fresh_dir("chosen") if c["chosen"] else where["ds"]
    opt = ["--cache-dir" if c["chosen"] == 1 else "--dataset-cache-dir", root] if c["chosen"] else []
    provider.CONTENT["version"] = 0
    provider.FAIL["on"] = False
    fps, model, clock = TOY.setdefault("dsfp", {}), {}, 0
    if not fps:
        for d in ("tab0", "tab1", "gra0"):
            fps[d] = load_dataset(f"mc:{d}", cache_dir=R.fresh_dir("fp")).meta["dataset_fingerprint"]
    provider.CALLS.clear()
    calls = 0
    for k, i in enumerate(c["h"]):
        op, d = DHIST[i]
        tag = f"step {k} {op} {d} of {[DHIST[j] for j in c['h']]}"
        if op in ("dl", "force"):
            a = ["datasets", "download", "--dataset", f"mc:{d}", *(["--force"] if op == "force" else []), *opt]
            out = ok(R, cli(R, *a), a, "ds-download")
            R.check(f"mc:{d}" in out, f"{tag}: {out!r}", "ds-download")
            if op == "force" or d not in model:
                clock += 1
                calls += 1
                model[d] = (provider.CONTENT["version"], clock)
        elif op == "extra":
            provider.FAIL["on"] = "extra"
            try:
                cached = d in model
                for f in ([], ["--ignore-missing-extras"], ["--no-ignore-missing-extras"]):
                    a = ["datasets", "download", "--dataset", f"mc:{d}", *f, *opt]
                    r = cli(R, *a)
                    if cached:
                        R.check(r.exit_code == 0, f"{tag} {f}: exit {r.exit_code} though the dataset is cached", "ds-extra-cached")
                    elif f == ["--no-ignore-missing-extras"]:
                        R.check(r.exit_code == 2 and not r.stdout.strip() and "mcx" in r.stderr, f"{tag} {f}: exit {r.exit_code} {r.stdout!r} {r.stderr!r} {r.exception!r}", "ds-extra-strict")
                    else:
                        R.check(r.exit_code == 0 and "Downloaded" not in r.stdout and "mcx" in r.stdout, f"{tag} {f}: exit {r.exit_code} {r.stdout!r} {r.exception!r}", "ds-extra-skip")
                if not cached:
                    calls += 3
                    try:
                        load_dataset(f"mc:{d}", cache_dir=root)
                        R.check(False, f"{tag}: loaded", "ds-extra-api")
                    except OptionalDependencyError as e:
                        R.check(e.extra == "mcx", f"{tag}: {e!r}", "ds-extra-api")
                    calls += 1
            finally:
                provider.FAIL["on"] = False
        elif op == "purge":
            uri = d if ":" in d else "mc:tab"
            gone = [m for m in model if uri == "mc:tab" and m.startswith("tab")]
            a = ["datasets", "cache", "purge", uri, *opt]
            r = cli(R, *a)
            R.check(r.exit_code == 0 and r.stdout.split()[-1] == str(len(gone)), f"{tag}: exit {r.exit_code} {r.stdout!r}, {gone} expected", "ds-purge")
            for m in gone:
                del model[m]
        elif op == "fp":
            a = ["datasets", "cache", "purge", "--fingerprint", fps[d], *opt]
            ok(R, cli(R, *a), a, "ds-purge-fp")
            model.pop(d, None)
        elif op == "fpbad":
            before = files(root)
            r = cli(R, "datasets", "cache", "purge", "--fingerprint", d, *opt)
            lost = [f for f in before if f not in files(root)]
            R.check(not lost, f"{tag}: purging the fingerprint {d!r} removed {lost[:4]}", "ds-purge-bad")
            R.check(r.exit_code != 0, f"{tag}: purging the fingerprint {d!r} is reported as done: {r.stdout!r}", "ds-purge-bad-exit")
        elif op in ("gc", "keepall"):
            latest = {}
            for m, (_v, t) in model.items():
                if m[:-1] not in latest or model[latest[m[:-1]]][1] < t:
                    latest[m[:-1]] = m
            lose = [m for m in model if m not in latest.values()] if op == "gc" else []
            a = ["datasets", "cache", "gc", *(["--no-keep-latest"] if op == "keepall" else []), *opt]
            out = ok(R, cli(R, *a), a, "ds-gc")
            if op == "gc":
                R.check(out.split()[-1] == str(len(lose)), f"{tag}: {out!r}, {lose} expected", "ds-gc")
            for m in lose:
                del model[m]
        elif op == "update":
            provider.CONTENT["version"] += 1
        R.check(len(provider.CALLS) == calls, f"{tag}: provider contacted {len(provider.CALLS)} times so far, expected {calls}", "ds-calls")
        a = ["datasets", "cache", "ls", *opt]
        rows = [ln.split(" ") for ln in ok(R, cli(R, *a), a, "ds-ls").splitlines()]
        R.check(sorted((x[0], x[1]) for x in rows) == sorted((fps[m], f"mc:{m[:-1]}") for m in model), f"{tag}: cache ls gives {rows}, cached are {sorted(model)}", "ds-ls")
        for x in rows:
            size = sum(p.stat().st_size for p in (root / "processed" / x[0]).rglob("*") if p.is_file())
            R.check(int(x[2]) == size, f"{tag}: cache ls says {x[2]} bytes for {x[0]}, the folder has {size}", "ds-ls-size")
        for m, (v, _t) in model.items():
            got = load_dataset(f"mc:{m}", cache_dir=root, download=False)
            R.check({**provider.obs(got), "meta": 0} == {**provider.obs(provider.make(m, v)), "meta": 0}, f"{tag}: {m} holds other data than version {v}", "ds-data")
        if c["chosen"]:
            R.check(not files(where["ds"]), f"{tag}: writes in the default cache although another was given", "ds-where")
        R.state("ds", sorted(model.items()), op)


def ds_keys(c, R):
    """Curated keys: download, purge by key, bulk download; the catalogue is cut to three entries."""
    from modssc.data_loader import catalog as cat
    from modssc.data_loader.types import DatasetSpec
    saved = dict(cat.DATASET_CATALOG)
    mk = lambda k, m: DatasetSpec(key=k, provider="mc", uri=f"mc:{m}", modality="text" if m[:3] == "txt" else "tabular", task="classification",  # noqa: E731
                                  description="", required_extra=None, source_kwargs={})
    try:
        cat.DATASET_CATALOG.clear()
        cat.DATASET_CATALOG.update({"ka": mk("ka", "tab0"), "kb": mk("kb", "gra0"), "kc": mk("kc", "txt0")})
        provider.CONTENT["version"] = 0
        for fail, skip, mods, ign, pre, force in itertools.product((False, "extra", True), (False, True), ((), ("text",), ("tabular", "text"), ("nope",)),
                                                                   (None, False), ((), ("ka",), ("ka", "kc")), (False, True)):
            where = sandbox(R)
            provider.FAIL["on"] = False
            for k in pre:
                ok(R, cli(R, "datasets", "download", "--dataset", k), ["download", k], "bulk-pre")
            provider.FAIL["on"] = fail
            provider.CALLS.clear()
            a = ["datasets", "download", "--all", *[x for m in mods for x in ("--modalities", m)], *(["--skip-cached"] if skip else []),
                 *(["--no-ignore-missing-extras"] if ign is False else []), *(["--force"] if force else [])]
            r = cli(R, *a)
            keys = [k for k in ("ka", "kb", "kc") if not mods or dl.dataset_info(k).modality in mods]
            skipped = [k for k in keys if skip and k in pre]
            fetch = [k for k in keys if k not in skipped and (force or k not in pre)]
            done = [k for k in keys if k not in skipped and k not in (fetch if fail else [])]
            tag = f"{a} with {pre} cached, provider {fail}: exit {r.exit_code} {r.stdout!r} {r.exception!r}"
            provider.FAIL["on"] = False
            now = {k for k in ("ka", "kb", "kc") if dl.cache.is_cached(dl._layout(None), fp_of(k))}
            if fail == "extra" and ign is False and fetch:
                R.check(r.exit_code == 2 and "mcx" in r.stderr, tag, "bulk-strict")
            elif fail is True and fetch:
                R.check(r.exit_code == 2 and "provider unavailable" in r.stdout, tag, "bulk-failed")
                R.check(f"Failed: {len(fetch)}" in r.stdout, tag, "bulk-failed-count")
            else:
                R.check(r.exit_code == 0, tag, "bulk-exit")
                R.check(f"Downloaded: {len(done)}\n" in r.stdout and f"(already cached): {len(skipped)}\n" in r.stdout, tag, "bulk-summary")
                if fail == "extra" and fetch:
                    R.check(f"mcx: {', '.join(fetch)}" in r.stdout and f"(missing extras): {len(fetch)}\n" in r.stdout, tag, "bulk-extras")
            if not fail:
                R.check(now == set(pre) | set(keys) and sorted(provider.CALLS) == sorted(dl.dataset_info(k).uri[3:] for k in fetch), f"{tag}: cached {now}, fetched {provider.CALLS}", "bulk-cached")
            elif not force:
                R.check(now == set(pre), f"{tag}: cached {now}", "bulk-cached")
            R.state("bulk", fail, skip, mods, ign, pre, force)
            # purge by the documented key
            for k in ("ka", "kc"):
                if k in now:
                    r = cli(R, "datasets", "cache", "purge", k)
                    R.check(r.exit_code == 0 and r.stdout.split()[-1] == "1" and not dl.cache.is_cached(dl._layout(None), fp_of(k)), f"purge {k}: {r.stdout!r} {r.stderr!r}", "purge-key")
            del where
        refused(R, ["datasets", "download"], "download-nothing", 2)
        refused(R, ["datasets", "download", "--dataset", "nokey"], "download-unknown", 2)
    finally:
        provider.FAIL["on"] = False
        cat.DATASET_CATALOG.clear()
        cat.DATASET_CATALOG.update(saved)


def fp_of(k):
    d = k
    fps = TOY.setdefault("keyfp", {})
    if d not in fps:
        import tempfile
        with tempfile.TemporaryDirectory() as t:
            fail, provider.FAIL["on"] = provider.FAIL["on"], False
            n = len(provider.CALLS)
            fps[d] = load_dataset(d, cache_dir=Path(t)).meta["dataset_fingerprint"]
            del provider.CALLS[n:]
            provider.FAIL["on"] = fail
    return fps[d]


# ------------------------------------------------------------------ sampling
PLANS = {"hold": {"split": {"kind": "holdout", "test_fraction": 0.25, "val_fraction": 0.25, "stratify": False}, "labeling": {"mode": "count", "value": 1, "per_class": False}},
         "frac": {"split": {"kind": "holdout", "test_fraction": 0.2, "val_fraction": 0.2, "stratify": True}, "labeling": {"mode": "fraction", "value": 0.5},
                  "policy": {"respect_official_test": False}},
         "fold": {"split": {"kind": "kfold", "k": 3, "fold": 1, "stratify": False}, "labeling": {"mode": "fraction", "value": 0.5, "per_class": False}}}
SHIST = [("create", p, s, o) for p, s, o in (("hold", 0, False), ("hold", 0, True), ("hold", 5, True), ("frac", 1, True), ("fold", 0, False), ("bad", 0, True), ("nods", 0, True))] \
    + [("show",), ("validate", "toy"), ("validate", "mc:tab0")]


def same_split(a, b):
    def plain(r):
        return {k: (v.tolist() if isinstance(v, np.ndarray) else {n: np.asarray(x).tolist() for n, x in v.items()} if k in ("indices", "refs", "masks") and isinstance(v, dict) else v)
                for k, v in dataclasses.asdict(r).items() if k != "created_at"}
    return json.dumps(plain(a), sort_keys=True, default=str) == json.dumps(plain(b), sort_keys=True, default=str)


def split_at(R, where):
    toy(R, where)
    p = R.fresh_dir("plan") / "p.json"
    p.write_text(json.dumps(PLANS["hold"]))
    a = ["sampling", "create", "--dataset", "toy", "--plan", p, "--out", where["splits"] / "s"]
    ok(R, cli(R, *a), a, "split-create")


def split_history(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    d = R.fresh_dir("plan")
    for n, p in PLANS.items():
        (d / f"{n}.{c['fmt']}").write_text(json.dumps(p) if c["fmt"] == "json" else yaml.safe_dump(p))
    (d / f"bad.{c['fmt']}").write_text(json.dumps({"split": {"kind": "nope"}}))
    out = R.fresh_dir("out") / "s"
    held = None
    for k, i in enumerate(c["h"]):
        op = SHIST[i]
        tag = f"step {k} {op} of {[SHIST[j] for j in c['h']]}"
        if op[0] == "create":
            _, plan, seed, over = op
            a = ["sampling", "create", "--dataset", "mc:none9" if plan == "nods" else "toy", "--plan", d / f"{'hold' if plan == 'nods' else plan}.{c['fmt']}",
                 "--seed", seed, "--out", out, *(["--overwrite"] if over else [])]
            if plan in ("bad", "nods") or (held is not None and not over):
                refused(R, a, "split-refuse")
            else:
                want, _ = sample(ds, plan=SamplingPlan.from_dict(PLANS[plan]), seed=seed, save=False)
                got = json.loads(ok(R, cli(R, *a), a, "split-create"))
                R.check(got == jl({"output_dir": str(out), "dataset_fingerprint": want.dataset_fingerprint, "split_fingerprint": want.split_fingerprint, "stats": want.stats}),
                        f"{tag}: prints {got}, the library's split is {want.split_fingerprint} {want.stats}", "split-print")
                held = want
        elif held is None:
            refused(R, ["sampling", "show", out] if op[0] == "show" else ["sampling", "validate", out, "--dataset", op[1]], "split-none")
        elif op[0] == "show":
            prints(R, ["sampling", "show", out], jl({"plan": held.plan, "stats": held.stats}), "split-show")
        elif op[1] == "toy":
            prints(R, ["sampling", "validate", out, "--dataset", "toy"], "OK", "split-validate", str.strip)
        else:
            load_dataset("mc:tab0")      # 3 rows: no split of the toy dataset fits
            refused(R, ["sampling", "validate", out, "--dataset", "mc:tab0"], "split-validate-other")
        if held is not None:
            R.check(same_split(load_split(out), held), f"{tag}: the folder holds another split than the last one created", "split-held")
        else:
            R.check(not files(out), f"{tag}: files written by a refused command: {files(out)}", "split-left")
        R.state("split", op, held.split_fingerprint if held is not None else None)
    refused(R, ["sampling", "validate", out, "--dataset", "mc:gra1"], "split-validate-offline")     # not cached: must not be downloaded


# ------------------------------------------------------------------ preprocess, evaluation
STEPS = ([], [{"id": "core.ensure_2d"}], [{"id": "core.ensure_2d"}, {"id": "core.cast_dtype", "params": {"dtype": "float64"}}],
         [{"id": "tabular.standard_scaler"}], [{"id": "nope"}], [{"id": "core.cast_dtype", "params": {"dtype": "nope"}}], "x", [{"params": {}}])


def prep(c, R):
    where = sandbox(R)
    ds = toy(R, where)
    p = R.fresh_dir("plan") / "p.yaml"
    p.write_text(yaml.safe_dump({"output_key": c["key"], "steps": STEPS[c["steps"]]}))
    for no_cache, purge, seed in itertools.product((False, True), (False, True), (None, 4)):
        shutil.rmtree(where["prep"], ignore_errors=True)
        a = ["preprocess", "run", "--plan", p, *(["--no-cache"] if no_cache else []), *(["--purge-unused"] if purge else []), *(["--seed", seed] if seed is not None else [])]
        try:
            plan = load_plan(p)
            want = preprocess(ds, plan, seed=seed or 0, fit_indices=np.arange(48), cache=False, purge_unused_artifacts=purge)
        except Exception as e:
            R.outcome("prep", type(e).__name__)
            refused(R, a, "prep-refuse")
            continue
        out = json.loads(ok(R, cli(R, *a), a, "prep-run"))
        R.check({k: out[k] for k in ("dataset", "output_key", "train_X_shape", "preprocess_fingerprint")} ==
                {"dataset": "toy", "output_key": plan.output_key, "train_X_shape": jl(getattr(want.dataset.train.X, "shape", None)), "preprocess_fingerprint": want.preprocess_fingerprint},
                f"{a}: prints {out}, the library gives {want.preprocess_fingerprint}", "prep-print")
        if no_cache:
            R.check(not files(where["prep"]) and out["cache_dir"] is None, f"{a}: writes {files(where['prep'])[:3]} ({out['cache_dir']})", "prep-no-cache")
        elif plan.steps:
            R.check(files(where["prep"]) and Path(out["cache_dir"]).resolve().is_relative_to(where["prep"].resolve()), f"{a}: nothing in the cache ({out['cache_dir']})", "prep-cache")
        R.state("prep", c["steps"], c["key"], no_cache, purge, seed)


def evaluation(c, R):
    d = R.fresh_dir("npy")
    vals = range(c["labels"])
    allm = list(ev.list_metrics())
    sels = [None] + [[m] for m in allm] + [allm[::-1], [allm[0], allm[0]], ["nope"], [allm[0], "nope"]]
    n = c["n"]
    truths = [np.array(t, dtype=c["dtype"]) for t in itertools.product(vals, repeat=n)]
    preds = list(truths)
    if n:
        preds += [np.eye(c["labels"])[list(t)] * 0.5 + 0.1 for t in itertools.product(vals, repeat=n)]
    for i, (t, s) in enumerate(itertools.product(truths, preds)):
        np.save(d / "t.npy", t)
        np.save(d / "s.npy", s)
        for sel in sels if i % 3 == 0 else sels[:1]:
            for js in (False, True):
                a = ["evaluation", "compute", "--y-true", d / "t.npy", "--y-pred", d / "s.npy", *[x for m in sel or [] for x in ("-m" if js else "--metric", m)], *(["--json"] if js else [])]
                try:
                    want = ev.evaluate(t, s, sel or ["accuracy", "macro_f1", "balanced_accuracy"])
                except Exception:
                    refused(R, a, "eval-refuse")
                    continue
                if js:
                    prints(R, a, jl(want), "eval-json")
                else:
                    prints(R, a, {k: float(v) for k, v in want.items()}, "eval-text", lambda o: {x.split(": ")[0]: float(x.split(": ")[1]) for x in o.splitlines()})
        R.state("eval", t.tolist(), s.tolist())
    (d / "x.txt").write_text("1 2")
    (d / "y.npy").write_bytes(b"garbage")
    np.save(d / "o.npy", np.array([[1], None], dtype=object), allow_pickle=True)
    np.save(d / "g.npy", np.zeros(2, int))
    for bad in ("x.txt", "y.npy", "o.npy", "missing.npy"):
        refused(R, ["evaluation", "compute", "--y-true", d / "g.npy", "--y-pred", d / bad], "eval-bad-file", 2)
        refused(R, ["evaluation", "compute", "--y-true", d / bad, "--y-pred", d / "g.npy"], "eval-bad-file", 2)


# ------------------------------------------------------------------ missing bricks
def missing(c, R):
    import modssc.cli.app as mod
    real = importlib.import_module
    for r in c["sets"]:
        gone = {b for i, b in enumerate(BRICKS) if r >> i & 1}

        def fake(name, package=None, gone=gone):
            b = name.rsplit(".", 1)[-1]
            if name.startswith("modssc.cli.") and b in gone:
                raise ModuleNotFoundError("No module named 'extlib'", name="extlib")
            return real(name, package)

        importlib.import_module = fake
        try:
            a = importlib.reload(mod)
        finally:
            importlib.import_module = real
        R.step()
        res = RUN.invoke(a.app, ["doctor", "--json"])
        st = {d["name"]: d for d in json.loads(res.stdout)}
        R.check(set(st) == set(BRICKS) and {n for n, d in st.items() if not d["available"]} == gone and all(d["missing_module"] == ("extlib" if n in gone else None) for n, d in st.items()),
                f"doctor with {sorted(gone)} missing: {st}", "missing-doctor")
        R.check(res.exit_code == (2 if gone else 0), f"doctor with {sorted(gone)} missing exits {res.exit_code}", "missing-exit")
        res = RUN.invoke(a.app, ["doctor"])
        R.check([ln.split(":")[0] for ln in res.stdout.splitlines() if not ln.startswith(" ")] == list(BRICKS) and sum(ln.endswith(": ok") for ln in res.stdout.splitlines()) == 9 - len(gone),
                f"doctor with {sorted(gone)} missing: {res.stdout!r}", "missing-text")
        for b in BRICKS:
            res = RUN.invoke(a.app, [b, "--help"])
            R.check((res.exit_code == 0) == (b not in gone), f"modssc {b} --help exits {res.exit_code} with {sorted(gone)} missing", "missing-brick")
        R.state("missing", sorted(gone))
    for exc, internal in ((ModuleNotFoundError("No module named 'modssc.zz'", name="modssc.zz"), True), (ImportError("cannot import name 'x'"), True),
                          (ImportError("No module named 'torch'"), False), (ModuleNotFoundError("No module named 'torch'", name="torch"), False),
                          (ModuleNotFoundError("No module named 'torch.x'", name="torch.x"), False)):
        def fake(name, package=None, exc=exc):
            if name == "modssc.cli.graph":
                raise exc
            return real(name, package)

        importlib.import_module = fake
        try:
            importlib.reload(mod)
            hidden = True
        except ImportError:
            hidden = False
        finally:
            importlib.import_module = real
        R.check(hidden != internal, f"an import failing with {exc!r} is {'hidden' if hidden else 'raised'}", "missing-internal")
    importlib.reload(mod)


# ------------------------------------------------------------------ processes
PROCS = (["doctor"], ["graph", "build", "--dataset", "toy", "--k", "2"], ["datasets", "info", "--dataset", "toy"], ["datasets", "cache", "ls"],
         ["supervised", "list", "--json"], ["graph", "build", "--dataset", "nope"])


def process(c, R):
    where = sandbox(R)
    toy(R, where)
    outs = []
    for level in ("none", "detailed"):
        e = {**os.environ, "PYTHONPATH": f"{TREE}/src:{TREE}", "PYTHONDONTWRITEBYTECODE": "1"}
        shutil.rmtree(where["graph"], ignore_errors=True)
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "modssc", "--log-level", level, *PROCS[c["cmd"]]], capture_output=True, text=True, env=e, cwd=where["root"].parent,  # noqa: S603
                           timeout=200, check=False)
        R.step()
        outs.append((p.returncode, p.stdout))
        if level == "detailed" and PROCS[c["cmd"]][1:2] == ["build"] and p.returncode == 0:
            R.check("DEBUG" in p.stderr or "INFO" in p.stderr, f"--log-level detailed logs nothing: {p.stderr[-300:]!r}", "proc-log")
    R.check(outs[0] == outs[1], f"modssc {PROCS[c['cmd']]}: {outs[0]} at level none, {outs[1]} at level detailed", "proc-stdout")
    r = cli(R, *PROCS[c["cmd"]])
    R.check((r.exit_code, r.stdout) == outs[0], f"modssc {PROCS[c['cmd']]} as a process: {outs[0]}, in process {(r.exit_code, r.stdout)}", "proc-same")
    R.state("proc", c["cmd"])


# ------------------------------------------------------------------ cases
def pairs(names, upto):
    for n in range(0, upto + 1):
        yield from itertools.combinations(names, n)


def cases(tier):
    deep = tier == "thorough"
    for w in ("app", "datasets", "preprocess", "augmentation", "supervised", "inductive", "transductive", "evaluation"):
        yield {"part": "list", "what": w}
    for b in BRICKS:
        yield {"part": "log", "brick": b, "full": b in ("evaluation", "datasets") or deep}
    for i in range(len(PROCS)):
        yield {"part": "proc", "cmd": i}
    for b in range(3):
        for names in pairs(tuple(GVALS), 3 if deep else 2):
            yield {"part": "graph", "base": b, "names": names}
    for b in range(3):
        for names in pairs(tuple(SVALS), 2 if deep else 1):
            for fmt in ("yaml", "json"):
                yield {"part": "spec", "base": b, "names": names, "fmt": fmt}
    for br in ("unknown", "weights-unknown", "list", "text", "no-k", "empty", "case"):
        for fmt in ("yaml", "json", "yml"):
            yield {"part": "spec", "breach": br, "fmt": fmt}
    for names in pairs(tuple(VVALS), 2):
        yield {"part": "views", "views": ("attr", "diffusion", "struct"), "names": names}
    for n in range(0, 4):
        for v in itertools.product(("attr", "diffusion", "struct", "x"), repeat=n):
            if n < 3 or len(set(v)) == 3:
                yield {"part": "views", "views": v, "names": ()}
    for n in range(1, 6 if deep else 5):
        for h in itertools.product(range(len(GHIST)), repeat=n):
            if n < 4 or ("ls" not in {GHIST[i] for i in h}):
                yield {"part": "ghist", "h": h}
    for n in range(1, 5 if deep else 4):
        for h in itertools.product(range(len(DHIST)), repeat=n):
            for ch in (0, 1, 2) if n < 3 else (0,):
                yield {"part": "dshist", "h": h, "chosen": ch}
    for h in itertools.product((0, 1, 3, 4, 6, 10, 12), repeat=5 if deep else 4):
        yield {"part": "dshist", "h": h, "chosen": 0}
    yield {"part": "dskeys"}
    for n in range(1, 5 if deep else 4):
        for h in itertools.product(range(len(SHIST)), repeat=n):
            for fmt in ("yaml", "json") if n < 3 else ("yaml",):
                yield {"part": "split", "h": h, "fmt": fmt}
    for s in range(len(STEPS)):
        for key in ("features.X", "raw.X"):
            yield {"part": "prep", "steps": s, "key": key}
    for n, dt in itertools.product((0, 1, 2, 3), ("int64", "int8", "float64")):
        yield {"part": "eval", "n": n, "dtype": dt, "labels": 3 if deep else 2}
    for k in range(0, 512, 32):
        yield {"part": "missing", "sets": list(range(k, k + 32))}


PARTS = {"list": listings, "log": loglevels, "proc": process, "graph": graph_flags, "spec": graph_spec, "views": view_flags, "ghist": graph_history,
         "dshist": ds_history, "dskeys": ds_keys, "split": split_history, "prep": prep, "eval": evaluation, "missing": missing}


def run_case(c, R):
    saved = {k: os.environ.get(k) for k in CACHES}
    try:
        PARTS[c["part"]](c, R)
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)
