"""Augmentation semantics under every answer of the random source."""
import itertools

import numpy as np
import torch
from modssc.data_augmentation import AugmentationContext
from modssc.data_augmentation.api import get_op
from modssc.data_augmentation.types import GraphSample

from mc.choice import ChoiceRng, explore
from mc.core import digest

PID = "C11"
BOUNDS = {
    "quick": "every label-preserving operation x parameter grid x small inputs (numpy and torch, all supported layouts) x every answer of "
             "the random source (uniform draws in {0, .45, .999}, every integer/choice outcome) up to 4000 answer sequences per case, "
             "each replayed on the torch form",
    "thorough": "up to 60000 answer sequences per case and larger inputs",
}
ASSUMPTIONS = ["uniform draws are abstracted to three representatives around the thresholds used"]
CTX = AugmentationContext(seed=0)


def img(*s):
    return np.arange(1, np.prod(s) + 1, dtype=np.float32).reshape(s)


def menu(tier):
    big = tier == "thorough"
    for p in (0.0, 0.3, 0.5, 1.0):
        for x in (img(2), img(2, 2), img(3), img(2, 3)) + ((img(7),) if big else ()):
            yield ("tabular.feature_dropout", {"p": p}, x)
            yield ("tabular.swap_noise", {"p": p}, x)
        for s in ("a b", "A b C d", "", "x", " p  q ", ["a b", "c"]):
            yield ("text.word_dropout", {"p": p}, s)
        for x in (np.asarray([5, 6, 0]), np.asarray([[5, 0], [7, 8]]), np.asarray([0, 0]), np.asarray([5, 6, 7, 0, 9])):
            yield ("text.token_mask", {"p": p}, x)
            yield ("text.token_mask", {"p": p, "mask_token_id": 99, "pad_token_id": 5}, x)
        for x in (img(2, 3), img(3, 2), img(5, 6, 3), img(3, 5, 6), img(1, 5, 6), img(5, 6, 1)):
            yield ("vision.random_horizontal_flip", {"p": p}, x)
        for e in ([], [[0, 1]], [[0, 1], [1, 2], [2, 0]], [[0, 1], [0, 1], [1, 1], [2, 0]]):
            for w in (True, False):
                yield ("graph.edge_dropout", {"p": p}, (e, w))
        yield ("graph.feature_mask", {"p": p}, ([[0, 1], [1, 2], [2, 0]], True))
    for k in (0, 1, 2, 3):
        for s in ("a b", "A b C d", "", "x", ["a b", "c", "d e f"]):
            yield ("text.random_swap", {"n_swaps": k}, s)
        for x in (np.asarray([5, 6, 0]), np.asarray([[5, 0, 6], [7, 8, 9]]), np.asarray([0, 0]), np.asarray([5, 0, 7, 0, 9])):
            yield ("text.token_swap", {"n_swaps": k}, x)
            yield ("text.token_swap", {"n_swaps": k, "pad_token_id": 5}, x)
    for fr in (0.0, 0.1, 0.25, 0.5, 1.0):
        for x in (img(4), img(2, 5), img(1)):
            yield ("audio.time_shift", {"max_frac": fr}, x)
        for x in (img(4, 5), img(5, 6, 3), img(3, 5, 6), img(7, 4), img(7, 4, 3), img(3, 7, 5)):
            yield ("vision.cutout", {"frac": fr}, x)
    for n, ln in itertools.product((0, 1, 2), (0, 1, 2, 9)):
        for x in (img(4, 5), img(5, 6, 3), img(3, 5, 6), img(6, 3), img(6, 5, 3), img(3, 6, 5)):
            yield ("vision.cutout", {"n_holes": n, "length": ln, "fill": -1.0}, x)
    for pad in (0, 1, 2, 3):
        for x in (img(4, 5), img(5, 6, 3), img(3, 5, 6), img(1, 5, 6), img(6, 4), img(6, 5, 1), img(3, 7, 5)):
            yield ("vision.random_crop_pad", {"padding": pad} if pad != 4 else {}, x)
            yield ("vision.random_crop_pad", {"pad": pad}, x)
    for s in ("ABC d", ["Xy", ""]):
        yield ("text.lowercase", {}, s)
    for std in (0.0,):
        for o in ("tabular.gaussian_noise", "vision.gaussian_noise", "audio.add_noise"):
            yield (o, {"std": std}, img(2, 3))
    for o in ("tabular.gaussian_noise", "vision.gaussian_noise", "audio.add_noise"):
        yield (o, {"std": 0.5}, img(2, 3))
    for x in (img(2, 3).astype(np.float64), img(3).astype(np.int64), img(2, 2)):
        yield ("core.ensure_float32", {}, x)
        yield ("core.identity", {}, x)


def cases(tier):
    for i, _ in enumerate(menu(tier)):
        yield {"i": i}
    yield {"i": -1}


_MENU = {}


def get(tier, i):
    if tier not in _MENU:
        _MENU[tier] = list(menu(tier))
    return _MENU[tier][i]


def T(x):
    return torch.tensor(x)


def graph(e, w, kind):
    x = img(3, 2)
    ei = np.asarray(e, dtype=np.int64).reshape(-1, 2).T
    ew = np.arange(1, len(e) + 1, dtype=np.float32) if w else None
    if kind == "torch":
        return {"x": T(x), "edge_index": T(ei.copy()), **({"edge_weight": T(ew)} if w else {})}
    if kind == "sample":
        return GraphSample(x=x, edge_index=ei, edge_weight=ew, meta={"m": 1})
    return {"x": x, "edge_index": ei, **({"edge_weight": ew} if w else {}), "other": 3}


def run_case(c, R):
    if c["i"] < 0:
        return bad(R)
    op_id, params, x0 = get(R.tier, c["i"])
    op = get_op(op_id, **params)
    cap = 4000 if R.tier == "quick" else 60000
    is_graph = op_id.startswith("graph")
    results = set()

    def one(rng):
        x = graph(*x0, "dict") if is_graph else (x0.copy() if isinstance(x0, np.ndarray) else x0)
        before = digest(x)
        out = op(x, rng=rng, ctx=CTX)
        R.step()
        R.check(digest(x) == before, f"{op_id} mutated its input", f"mutation:{op_id}")
        judge(R, op_id, params, x, out)
        results.add(digest(out))
        R.state(c["i"], rng.path)
        return out

    paths, capped = explore(one, cap)
    R.count("answer_sequences", len(paths))
    if capped:
        R.count("capped_cases")
    R.outcome(len(results), op_id)
    # vacuity: every operation with a real probability must both act and not act
    if op_id in ("tabular.feature_dropout", "text.token_mask", "vision.random_horizontal_flip", "graph.edge_dropout") and params.get("p") == 0.5:
        if not (is_graph and not x0[0]) and not (isinstance(x0, np.ndarray) and (x0 == params.get("pad_token_id", 0)).all()):
            R.check(len(results) > 1, f"{op_id} p=0.5 never varies", f"vacuous:{op_id}")
    # the torch form of the same input, under the same answers, gives the same values
    if not isinstance(x0, (str, list)) and "noise" not in op_id:
        for path in paths[:: max(1, len(paths) // 300)]:
            for kind in ("torch", "sample") if is_graph else ("torch",):
                xt = graph(*x0, kind) if is_graph else T(x0)
                before = digest(obs(xt))
                out_np = op(graph(*x0, "dict") if is_graph else x0.copy(), rng=ChoiceRng(path), ctx=CTX)
                out_t = op(xt, rng=ChoiceRng(path), ctx=CTX)
                R.step()
                R.check(digest(obs(xt)) == before, f"{op_id} mutated its {kind} input", f"mutation:{op_id}")
                a, b = obs(out_np), obs(out_t)
                R.check(len(a) == len(b) and all((u is None and v is None) or (u is not None and v is not None and np.asarray(u).shape == np.asarray(v).shape
                        and np.array_equal(np.asarray(u), np.asarray(v))) for u, v in zip(a, b)),
                        f"{op_id} {params}: torch and numpy inputs disagree under the same random answers: {a} {b}", f"backend:{op_id}")


def obs(o):
    if isinstance(o, GraphSample):
        return [o.x, o.edge_index, o.edge_weight]
    if isinstance(o, dict):
        return [o["x"], o["edge_index"], o.get("edge_weight")]
    return [o]


def ax_w(x):
    """Axis of the width for the unambiguous layouts in the menu."""
    if x.ndim == 2:
        return 0, 1
    return (0, 1) if x.shape[2] in (1, 3) else (1, 2)


def judge(R, op, P, x, out):
    p = P.get("p")
    ck = lambda cond, m: R.check(cond, lambda: f"{op} {P}: {m}; in={x} out={out}", f"sem:{op}:{m}")  # noqa: E731
    if op == "core.identity":
        return ck(np.array_equal(out, x), "changed")
    if op == "core.ensure_float32":
        return ck(out.dtype == np.float32 and np.array_equal(out, x.astype(np.float32)), "not a float32 copy")
    if op == "text.lowercase":
        return ck(out == (x.lower() if isinstance(x, str) else [s.lower() for s in x]), "not lower case")
    if op in ("text.word_dropout", "text.random_swap"):
        xs, os_ = ([x], [out]) if isinstance(x, str) else (x, out)
        ck(type(out) is type(x) and len(xs) == len(os_), "container changed")
        for a, b in zip(xs, os_):
            ta, tb = a.split(), b.split()
            if op == "text.random_swap":
                ck(sorted(ta) == sorted(tb), "words lost or invented")
                if P["n_swaps"] == 0:
                    ck(ta == tb, "changed with zero swaps")
                ck(sum(u != v for u, v in zip(ta, tb)) <= 2 * P["n_swaps"], "too many moved words")
            else:
                it = iter(ta)
                ck(all(w in it for w in tb), "not a subsequence")
                ck(bool(tb) == bool(ta), "all words dropped")
                if p == 0:
                    ck(tb == ta, "changed at p=0")
                if p == 1 and ta:
                    ck(len(tb) == 1, "more than one word kept at p=1")
        return None
    if op in ("text.token_mask", "text.token_swap"):
        pad = P.get("pad_token_id", 0)
        ck(out.shape == x.shape and out.dtype == x.dtype, "shape or dtype changed")
        ck(np.array_equal(out[x == pad], x[x == pad]), "padding changed")
        if op == "text.token_mask":
            m = P.get("mask_token_id", 1)
            ck(bool(np.all((out == x) | (out == m))), "token replaced by something else than the mask")
            if p == 0:
                ck(np.array_equal(out, x), "changed at p=0")
            if p == 1:
                ck(bool(np.all(out[x != pad] == m)), "unmasked token at p=1")
        else:
            for a, b in zip(np.atleast_2d(x), np.atleast_2d(out)):
                ck(sorted(a.tolist()) == sorted(b.tolist()), "tokens lost or moved across rows")
                ck(int((a != b).sum()) <= 2 * P["n_swaps"], "too many moved tokens")
            if P["n_swaps"] == 1 and x.ndim == 1 and len(set(x[x != pad].tolist())) == (x != pad).sum() >= 2:
                ck(int((x != out).sum()) == 2, "one swap must move two distinct tokens")
        return None
    if op.startswith("graph."):
        ck(out["other"] == 3, "extra fields lost")
        xi, xo = x["edge_index"], out["edge_index"]
        if op == "graph.feature_mask":
            ck(np.array_equal(xi, xo) and np.array_equal(x["edge_weight"], out["edge_weight"]), "edges changed")
            ck(bool(np.all((out["x"] == x["x"]) | (out["x"] == 0))), "feature neither kept nor zero")
            if p == 1:
                ck(not out["x"].any(), "feature kept at p=1")
            if p == 0:
                ck(np.array_equal(out["x"], x["x"]), "changed at p=0")
            return None
        ck(np.array_equal(out["x"], x["x"]), "node features changed")
        ck(("edge_weight" in out) == ("edge_weight" in x), "weights lost or invented")
        tr = lambda g: [(*e, None if "edge_weight" not in g else float(w)) for e, w in zip(g["edge_index"].T.tolist(), g.get("edge_weight", [0] * g["edge_index"].shape[1]))]  # noqa: E731
        ck(xo.ndim == 2 and xo.shape[0] == 2 and ("edge_weight" not in out or len(out["edge_weight"]) == xo.shape[1]), "malformed edges")
        it = iter(tr(x))
        ck(all(e in it for e in tr(out)), "edges (with their weights) are not a subsequence of the input edges")
        if p == 1:
            ck(xo.shape[1] == 0, "edge kept at p=1")
        if p == 0:
            ck(tr(out) == tr(x), "changed at p=0")
        return None
    ck(out.shape == x.shape, "shape changed")
    if "gaussian_noise" in op or op == "audio.add_noise":
        ck(out.dtype == x.dtype, "dtype changed")
        if P["std"] == 0:
            ck(np.array_equal(out, x), "changed at std=0")
        else:
            ck(bool(np.all(np.isfinite(out))), "non-finite")
        return None
    if op == "tabular.feature_dropout":
        ck(bool(np.all((out == x) | (out == 0))), "value neither kept nor zero")
        if p == 1:
            ck(not out.any(), "value kept at p=1")
    if op in ("tabular.feature_dropout", "tabular.swap_noise") and p == 0:
        ck(np.array_equal(out, x), "changed at p=0")
    if op == "tabular.swap_noise":
        ck(out.dtype == x.dtype, "dtype changed")
        # ChoiceRng noise values are < 0.5 and the inputs are >= 1
        ck(bool(np.all((out == x) | (np.abs(out) < 0.5))), "value neither kept nor noise")
        if p == 1:
            ck(bool(np.all(np.abs(out) < 0.5)), "value kept at p=1")
    if op == "audio.time_shift":
        n = x.shape[-1]
        ms = int(round(P["max_frac"] * n))
        ck(any(np.array_equal(out, np.roll(x, s, axis=-1)) for s in range(-ms, ms + 1)), f"not a circular shift by at most {ms}")
    if op == "vision.random_horizontal_flip":
        fl = np.flip(x, axis=ax_w(x)[1])
        ck(np.array_equal(out, x) if p == 0 else np.array_equal(out, fl) if p == 1 else np.array_equal(out, x) or np.array_equal(out, fl),
           "not the image or its horizontal mirror")
    if op in ("vision.cutout", "vision.random_crop_pad"):
        ah, aw = ax_w(x)
        H, W = x.shape[ah], x.shape[aw]
        mv = lambda a: np.moveaxis(a, (ah, aw), (0, 1)).reshape(H, W, -1)  # noqa: E731
        X, O = mv(x), mv(out)
        if op == "vision.cutout":
            fill = P.get("fill", 0.0)
            if "frac" in P:
                n, ln = (0, 0) if P["frac"] == 0 else (1, max(1, int(round(P["frac"] * min(H, W)))))
            else:
                n, ln = P["n_holes"], P["length"]
                n = 0 if ln <= 0 else n
            D = (O != X).any(axis=2)
            ck(bool(np.all(O[D] == fill)), "erased pixel is not fill in every channel")
            if n == 0:
                return ck(not D.any(), "changed with no hole")
            holes = [(t, left) for t in range(max(1, H - ln + 1)) for left in range(max(1, W - ln + 1))]

            def cover(hs):
                m = np.zeros((H, W), bool)
                for t, left in hs:
                    m[t:t + ln, left:left + ln] = True
                return m
            ck(any(np.array_equal(cover(h), D) for h in itertools.product(holes, repeat=n)), f"erased region is not {n} square hole(s) of side {ln}")
            return None
        pad = P.get("padding", P.get("pad"))
        pd = np.pad(X, ((pad, pad), (pad, pad), (0, 0)), mode="reflect")
        ck(any(np.array_equal(O, pd[t:t + H, le:le + W]) for t in range(2 * pad + 1) for le in range(2 * pad + 1)),
           "not a window of the reflect-padded image")
    return None


def bad(R):
    for op, prm in [("tabular.feature_dropout", {"p": -0.1}), ("tabular.feature_dropout", {"p": 1.1}), ("tabular.swap_noise", {"p": 2}),
                    ("text.word_dropout", {"p": 1.5}), ("text.token_mask", {"p": -1}), ("vision.random_horizontal_flip", {"p": 1.01}),
                    ("vision.cutout", {"frac": 1.5}), ("vision.random_crop_pad", {"padding": -1}), ("vision.gaussian_noise", {"std": -1}),
                    ("tabular.gaussian_noise", {"std": -1}), ("audio.add_noise", {"std": -1}), ("audio.time_shift", {"max_frac": 1.2}), ("graph.edge_dropout", {"p": 1.2}),
                    ("graph.feature_mask", {"p": -0.2})]:
        x = "a b c" if op == "text.word_dropout" else np.asarray([3, 4]) if op.startswith("text") else graph([[0, 1]], True, "dict") if op.startswith("graph") else img(5, 6)
        R.step()
        R.state("bad", op, prm)
        try:
            get_op(op, **prm)(x, rng=np.random.default_rng(0), ctx=CTX)
            R.check(False, f"{op} accepts {prm}", f"bad:{op}")
        except ValueError:
            R.outcome("rejected", op)
