"""Evaluation metrics against their textbook definitions."""
import itertools
import json
import math
from fractions import Fraction as F

import numpy as np
from modssc.evaluation import evaluate, list_metrics

from mc import gen

PID = "C08"
BOUNDS = {
    "quick": "all pairs (truth, prediction) with n<=5, truth over <=3 classes up to renaming, prediction over those plus one "
             "unseen class; 4 integer/float/bool label alphabets; 1-D, score-matrix (all rank orders with ties for 3 columns, n<=2), "
             "one-hot truth, torch and list containers; command line on all pairs n<=3",
    "thorough": "n<=6; command line n<=4",
}
ASSUMPTIONS = ["labels are integral; macro averages run over the classes that occur in the truth (the documented convention)"]
ALPHA = {"int": (0, 1, 2, 3), "gap": (7, 3, 40, 5), "neg": (-1, 5, 0, 2), "float": (0.0, 1.0, 2.0, 3.0), "u8": (0, 200, 7, 255),
         "bool": (False, True)}
DT = {"int": np.int64, "gap": np.int64, "neg": np.int32, "float": np.float64, "u8": np.uint8, "bool": bool}


# truth and predictions stored in different types: values at the edges of the narrow ones
MIX = {"bool": (False, True), "u8": (0, 1, 255), "i8": (0, 1, -1, 127), "i64": (0, 1, -1, 2, 256, 257, 65537), "f64": (0.0, 1.0, 2.0, -1.0)}
MDT = {"bool": bool, "u8": np.uint8, "i8": np.int8, "i64": np.int64, "f64": np.float64}


def ref(t, p):
    n = len(t)
    if n == 0:
        return {"accuracy": None, "balanced_accuracy": None, "macro_f1": None}
    cl = sorted(set(t))
    rec = [F(sum(1 for a, b in zip(t, p) if a == b == c), t.count(c)) for c in cl]
    f1 = []
    for c in cl:
        tp = sum(1 for a, b in zip(t, p) if a == b == c)
        f1.append(F(2 * tp, t.count(c) + p.count(c)) if tp else F(0))
    return {"accuracy": F(sum(a == b for a, b in zip(t, p)), n), "balanced_accuracy": sum(rec) / len(cl),
            "macro_f1": sum(f1) / len(cl)}


def same(got, want):
    if set(got) != set(want):
        return False
    for k in want:
        if want[k] is None:
            if not math.isnan(got[k]):
                return False
        elif not isinstance(got[k], float) or abs(got[k] - float(want[k])) > 1e-12:
            return False
    return True


def cases(tier):
    nmax = 5 if tier == "quick" else 6
    for n in range(0, nmax + 1):
        for t in gen.rgs(n, 3):
            for ak in ALPHA:
                if ak == "bool" and max(t, default=0) > 1:
                    continue
                if ak != "int" and n > 4:
                    continue
                yield {"kind": "lab", "t": t, "ak": ak}
    for n in range(1, 4):
        for t in itertools.product(range(2), repeat=n):
            for dt, dp in itertools.product(MIX, repeat=2):
                if dt != dp:
                    yield {"kind": "mix", "t": t, "dt": dt, "dp": dp}
    for n in (1, 2):
        for t in itertools.product(range(3), repeat=n):
            yield {"kind": "score", "t": t}
    for n in range(1, 4 if tier == "quick" else 5):
        for t in gen.rgs(n, 2):
            yield {"kind": "cli", "t": t}


NAMES = ["accuracy", "balanced_accuracy", "macro_f1"]


def run_case(c, R):
    t = c["t"]
    n = len(t)
    if c["kind"] == "lab":
        al, dt = ALPHA[c["ak"]], DT[c["ak"]]
        yt = np.asarray([al[i] for i in t], dtype=dt)
        import torch
        R.check(set(NAMES) <= set(list_metrics()), "metrics missing from the catalogue", "catalog")
        kp = len(al) if c["ak"] == "bool" else min(max(t, default=0) + 2, 4)
        for p in itertools.product(range(kp), repeat=n):
            yp = np.asarray([al[i] for i in p], dtype=dt)
            b = yt.copy(), yp.copy()
            want = ref([al[i] for i in t], [al[i] for i in p])
            got = evaluate(yt, yp, NAMES)
            R.step()
            R.check(same(got, want), lambda: f"metrics {got} want { {k: str(v) for k, v in want.items()} } for truth {yt} pred {yp}", "metric")
            if n:
                R.check(all(0 <= v <= 1 for v in got.values()), "metric out of [0,1]", "metric")
            R.check(np.array_equal(b[0], yt) and np.array_equal(b[1], yp), "inputs mutated", "mutation")
            R.state(t, p, c["ak"])
            R.outcome(sorted(map(str, want.values())))
            if c["ak"] == "int":
                R.check(same(evaluate(list(map(int, yt)), list(map(int, yp)), NAMES), want), "list containers", "container")
                if n:
                    R.check(same(evaluate(torch.tensor(yt), torch.tensor(yp), NAMES), want), "torch containers", "container")
                    R.check(same(evaluate(np.eye(4, dtype=int)[yt], yp, NAMES), want), "one-hot truth", "onehot")
                    R.check(same(evaluate(yt, np.eye(4)[yp], NAMES), want), "score matrix", "scores")
                    R.check(same(evaluate(yt.reshape(-1), np.eye(4)[yp] * 5 - 7, NAMES), want), "negative scores", "scores")
                    q = np.roll(np.arange(n), 1)
                    R.check(same(evaluate(yt[q], yp[q], NAMES), want), "metric depends on sample order", "perm")
        for nm in NAMES:
            R.check(list(evaluate(yt, yt, [nm])) == [nm], "only the requested metric is returned", "names")
        try:
            evaluate(yt, yt, ["accuracy", "nope"])
            R.check(False, "unknown metric accepted", "names")
        except ValueError:
            pass
    elif c["kind"] == "mix":
        yt = np.asarray(t, dtype=MDT[c["dt"]])
        for p in itertools.product(MIX[c["dp"]], repeat=n):
            yp = np.asarray(p, dtype=MDT[c["dp"]])
            got, want = evaluate(yt, yp, NAMES), ref([int(v) for v in t], [int(v) for v in p])
            R.step()
            R.check(same(got, want), f"truth {yt!r} pred {yp!r}: {got} want {want}", "mixed")
            R.state("mix", t, p, c["dt"], c["dp"])
            R.outcome(sorted(map(str, want.values())))
    elif c["kind"] == "score":
        rows = list(itertools.product((-1.0, 0.0, 0.5), repeat=3))
        for combo in itertools.product(range(len(rows)), repeat=n):
            S = np.asarray([rows[i] for i in combo])
            got = evaluate(np.asarray(t), S, ["accuracy"])["accuracy"]
            R.step()
            top = [set(np.flatnonzero(r == r.max()).tolist()) for r in S]
            lo = sum(top[i] == {t[i]} for i in range(n)) / n
            hi = sum(t[i] in top[i] for i in range(n)) / n
            R.check(lo - 1e-12 <= got <= hi + 1e-12, f"prediction is not an argmax of the scores: {S} {t} {got}", "argmax")
            R.state(t, combo)
            R.outcome(got)
    else:
        from typer.testing import CliRunner
        from modssc.cli.app import app
        d = R.fresh_dir()
        np.save(d / "t.npy", np.asarray(t))
        for p in itertools.product(range(3), repeat=n):
            np.save(d / "p.npy", np.asarray(p))
            r = CliRunner().invoke(app, ["evaluation", "compute", "--y-true", str(d / "t.npy"), "--y-pred", str(d / "p.npy"), "--json"])
            R.step()
            R.check(r.exit_code == 0, f"cli failed: {r.output} {r.exception!r}", "cli")
            R.check(same(json.loads(r.output[r.output.index("{"):]), ref(list(t), list(p))), f"cli metrics {r.output}", "cli")
            R.state("cli", t, p)
