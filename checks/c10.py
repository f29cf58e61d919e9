"""Augmentation is a pure function of (operation, input, seed, epoch, sample id)."""
import itertools
import random

import numpy as np
import torch
from modssc.data_augmentation.api import available_ops, build_pipeline, build_strategy
from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
from modssc.data_augmentation.types import AugmentationContext, GraphSample

from mc.core import digest

PID = "C10"
BOUNDS = {
    "quick": "every registered operation x parameter menu x numpy/torch/list inputs x 12 contexts; all histories of length <=2 over "
             "{run any other operation, same op other context, reseed/draw numpy, python, torch global state} before the call; all "
             "two-step pipelines of the same modality; batch augmentation: every subset and order of 4 rows x 1 or 2 strong views",
    "thorough": "histories up to length 3 and three-step pipelines",
}
ASSUMPTIONS = []


def img(*s):
    return (np.arange(np.prod(s), dtype=np.float32).reshape(s) + 1)


def inputs():
    x = np.linspace(-1, 1, 12, dtype=np.float32).reshape(3, 4)
    ei = np.asarray([[0, 1, 2, 0], [1, 2, 0, 2]])
    g = {"x": x, "edge_index": ei, "edge_weight": np.asarray([.1, .2, .3, .4], np.float32)}
    gt = {k: torch.tensor(v) for k, v in g.items()}
    tok = np.asarray([[5, 6, 7, 0], [8, 9, 0, 0]])
    return {
        "tabular": [x, x[0].astype(np.float64), torch.tensor(x)],
        "vision": [img(6, 5), img(6, 7, 3), img(3, 6, 7), torch.tensor(img(3, 6, 7)), torch.tensor(img(6, 5))],
        "audio": [x[0], img(2, 10), torch.tensor(img(2, 10))],
        "text": ["the quick Brown fox jumps", ["A b c d", "", "e f"]],
        "token": [tok, tok[0], torch.tensor(tok)],
        "graph": [g, gt, GraphSample(x=x, edge_index=ei.T.copy(), edge_weight=None)],
        "any": [x, torch.tensor(x)],
    }


PARAMS = {
    "audio.add_noise": [{}, {"std": 1.0}], "audio.time_shift": [{"max_frac": 0.5}], "core.ensure_float32": [{}], "core.identity": [{}],
    "graph.edge_dropout": [{}, {"p": 0.5}], "graph.feature_mask": [{"p": 0.5}], "tabular.feature_dropout": [{"p": 0.5}],
    "tabular.gaussian_noise": [{}], "tabular.swap_noise": [{}, {"p": 0.7}], "text.lowercase": [{}], "text.random_swap": [{"n_swaps": 2}],
    "text.token_mask": [{"p": 0.5}], "text.token_swap": [{"n_swaps": 2}], "text.word_dropout": [{"p": 0.5}],
    "vision.cutout": [{"frac": 0.5}, {"n_holes": 2, "length": 2}], "vision.gaussian_noise": [{}],
    "vision.random_crop_pad": [{"padding": 2}], "vision.random_horizontal_flip": [{"p": 0.5}],
}
DETERMINISTIC = {"core.identity", "core.ensure_float32", "text.lowercase"}
HIST = ("ops", "ctx", "np", "py", "torch", "gen")
CTX = [AugmentationContext(seed=s, sample_id=i, epoch=e) for s in (0, 7) for i in (0, 1, 5) for e in (0, 3)]


def op_inputs(op):
    inp = inputs()
    return inp["token"] if op.startswith("text.token") else inp[op.split(".")[0]] if op.split(".")[0] in inp else inp["any"]


def as_obs(o):
    if isinstance(o, GraphSample):
        return [o.x, o.edge_index, o.edge_weight, o.meta]
    return o


def pipe(*steps):
    return build_pipeline(AugmentationPlan(steps=tuple(StepConfig(op_id=o, params=p) for o, p in steps)))


def cases(tier):
    ops = sorted(PARAMS)
    for op in ops:
        for pi in range(len(PARAMS[op])):
            for xi in range(len(op_inputs(op))):
                yield {"kind": "op", "op": op, "p": pi, "x": xi}
    for a, b in itertools.product(ops, repeat=2):
        ma, mb = [("token" if o.startswith("text.token") else o.split(".")[0]) for o in (a, b)]
        if ma == mb or "core" in (ma, mb):
            if tier == "thorough":
                for c in ops:
                    if (("token" if c.startswith("text.token") else c.split(".")[0]) in (ma, mb)):
                        yield {"kind": "pipe", "ops": [a, b, c]}
            yield {"kind": "pipe", "ops": [a, b]}
    for dt in ("numpy", "torch"):
        for rows in itertools.chain.from_iterable(itertools.permutations(range(4), r) for r in range(1, 5)):
            yield {"kind": "batch", "rows": rows, "dt": dt}
    yield {"kind": "catalog"}


def disturb(h, op, R):
    R.step()
    if h == "ops":
        for o in PARAMS:
            x = op_inputs(o)
            pipe((o, PARAMS[o][0])).apply(x[-1], ctx=CTX[3])
    elif h == "ctx":
        pipe((op, PARAMS[op][0])).apply(op_inputs(op)[0], ctx=CTX[-1])
    elif h == "np":
        np.random.seed(4)
        np.random.rand(2)
    elif h == "py":
        random.seed(9)
        random.random()
    elif h == "torch":
        torch.manual_seed(4)
        torch.rand(2)
    else:
        torch.rand(3)
        np.random.standard_normal(3)


def gstate():
    return digest([np.random.get_state()[1], np.random.get_state()[2], repr(random.getstate()), torch.get_rng_state()])


def run_case(c, R):
    if c["kind"] == "op":
        op, params = c["op"], PARAMS[c["op"]][c["p"]]
        x = op_inputs(op)[c["x"]]
        seen = {}
        depth = 2 if R.tier == "quick" else 3
        P = pipe((op, params))
        for d in range(depth + 1):
            for seq in itertools.product(HIST, repeat=d):
                for h in seq:
                    disturb(h, op, R)
                for ci, ctx in enumerate(CTX if d < 2 else CTX[::4]):
                    ci = CTX.index(ctx)
                    before, g0 = digest(as_obs(x)), gstate()
                    out = (P if d % 2 == 0 else pipe((op, params))).apply(x, ctx=ctx)
                    R.step()
                    R.check(digest(as_obs(x)) == before, f"{op} mutated its input", f"mutation:{op}")
                    R.check(gstate() == g0, f"{op} consumed global random state", f"global:{op}")
                    k = digest(as_obs(out))
                    seen.setdefault(ci, k)
                    R.check(seen[ci] == k, f"{op} {params}: result for {ctx} depends on earlier calls {seq}", f"history:{op}")
                    R.state(op, params, c["x"], ci, seq)
                    R.outcome(k)
        if op in DETERMINISTIC:
            R.check(len(set(seen.values())) == 1, f"{op} is not deterministic", f"det:{op}")
        else:
            many = lambda f: len({digest(as_obs(P.apply(x, ctx=f(i)))) for i in range(24)})  # noqa: E731
            R.check(many(lambda i: AugmentationContext(seed=i)) > 1, f"{op} ignores the seed", f"seed:{op}")
            R.check(many(lambda i: AugmentationContext(seed=0, sample_id=i)) > 1, f"{op} ignores the sample id", f"sid:{op}")
            R.check(many(lambda i: AugmentationContext(seed=0, epoch=i)) > 1, f"{op} ignores the epoch", f"epoch:{op}")
    elif c["kind"] == "pipe":
        src = [o for o in c["ops"] if not o.startswith("core")] or c["ops"]
        for x in op_inputs(src[0]):
            if any(o == "core.ensure_float32" for o in c["ops"]) and src[0].split(".")[0] in ("text", "graph"):
                continue
            P = pipe(*[(o, PARAMS[o][0]) for o in c["ops"]])
            for ctx in CTX:
                before = digest(as_obs(x))
                a = digest(as_obs(P.apply(x, ctx=ctx)))
                torch.rand(1)
                np.random.rand(1)
                b = digest(as_obs(P(x, ctx=ctx)))
                R.step(2)
                R.check(a == b, f"pipeline {c['ops']} is not reproducible", "pipe")
                R.check(digest(as_obs(x)) == before, f"pipeline {c['ops']} mutated its input", "pipe-mutation")
                R.state(c["ops"], ctx.seed, ctx.epoch, ctx.sample_id, str(type(x)))
            st = build_strategy(weak=P.plan, strong=AugmentationPlan(steps=P.plan.steps[:1]))
            for ctx in CTX[:4]:
                w, s = st.apply(x, ctx=ctx)
                R.check(digest(as_obs(w)) == digest(as_obs(P.apply(x, ctx=ctx))), "weak view differs from its pipeline", "strategy")
                R.check(digest(as_obs(s)) == digest(as_obs(pipe((c["ops"][0], PARAMS[c["ops"][0]][0])).apply(x, ctx=ctx))),
                        "strong view differs from its pipeline", "strategy")
    elif c["kind"] == "batch":
        from bench.orchestrators import augmentation as ba
        rows = list(c["rows"])
        base = np.linspace(-1, 1, 24, dtype=np.float32).reshape(4, 6)
        X = base if c["dt"] == "numpy" else torch.tensor(base)
        weak = {"steps": [{"id": "tabular.feature_dropout", "params": {"p": 0.3}}]}
        for strong in ([{"id": "tabular.gaussian_noise", "params": {"std": 0.5}}], [{"id": "tabular.swap_noise", "params": {"p": 0.5}}],
                       [{"op_id": "tabular.feature_dropout", "params": {"p": 0.6}}, {"id": "core.ensure_float32"}]):
            for sv in (1, 2):
                for seed in (0, 3):
                    before = digest(X)
                    w, s, s1 = ba.run(X[rows], weak_plan=weak, strong_plan={"steps": strong}, seed=seed, mode="fixed", modality="tabular",
                                      sample_ids=np.asarray(rows) + 10, strong_views=sv)
                    R.step()
                    R.check((s1 is None) == (sv == 1), "number of strong views", "batch")
                    R.check(digest(X) == before, "batch augmentation mutated its input", "batch-mutation")
                    Pw, Ps = [pipe(*[(q.get("id") or q["op_id"], q.get("params", {})) for q in pl]) for pl in (weak["steps"], strong)]
                    for k, r in enumerate(rows):
                        for out, P, off in ((w, Pw, 0), (s, Ps, 0), (s1, Ps, 1)):
                            if out is None:
                                continue
                            ref = P.apply(X[r], ctx=AugmentationContext(seed=seed + off, sample_id=r + 10, modality="tabular"))
                            R.check(np.array_equal(np.asarray(out[k]), np.asarray(ref)), f"row {r} of the batch differs from augmenting it alone (rows={rows})", "batch")
                    R.state(rows, c["dt"], str(strong), sv, seed)
    else:
        for op in PARAMS:
            R.step()
            R.check(op in available_ops(), f"operation {op} vanished", "catalog")
        # no two contexts share their randomness (12 continuous draws identify the stream)
        x = np.zeros(12, np.float64)
        P, seen = pipe(("tabular.gaussian_noise", {"std": 1.0})), {}
        top = 24 if R.tier == "quick" else 130
        for s, e, i in itertools.chain(itertools.product(range(4), range(top), range(top)), itertools.product((0, 10, 11, 100, 101, 110, 111), repeat=3),
                                       itertools.product((0, 1, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40), (0,), (0, 1, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 32 + 1))):
            R.step()
            k = digest(P.apply(x, ctx=AugmentationContext(seed=s, epoch=e, sample_id=i)))
            R.check(seen.setdefault(k, (s, e, i)) == (s, e, i), f"contexts {seen[k]} and {(s, e, i)} share their randomness", "collision")
            R.state("ctx", s, e, i)
