"""Iterative semi-supervised methods: every step of the loop is the stated algorithm's, for every behaviour of the base classifier."""
import itertools
import math
from statistics import NormalDist

import numpy as np
import torch
from mc import ssl
from mc.choice import ChoiceRng
from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

PID = "C27"
BOUNDS = {
    "quick": "base classifier = any function of (seed, training multiset, row): every class and confidence level it can answer is enumerated; pseudo_label, self_training (with groups), setred: <=3 unlabelled rows, "
             "co_training 3 rows x 2 views, tri_training 2 rows x 14 seeds, democratic_co_learning 2+2 rows x 3 learners, s4vm 3+3 rows; 2-3 classes with gaps in the labels; all spec variants listed in the check; numpy and torch",
    "thorough": "as quick with one more unlabelled row and more spec variants",
}
ASSUMPTIONS = ["confidences are distinct per row, so that which row is more confident is never a tie; cut-offs between propagated rows of equal confidence are not judged",
               "setred: points without distance ties (apart from coinciding points with complete graphs)"]
CASE_TIMEOUT = 850
torch.set_num_threads(1)
THR = 0.8
LAB = {2: (3, 7), 3: (2, 5, 9)}
CAP = 400_000


def setup(tier):
    import logging
    logging.disable(logging.CRITICAL)
    ssl.register()


def spec_of(mid, **kw):
    import importlib
    cls = get_method_class(mid)
    mod = importlib.import_module(cls.__module__)
    spec = next(v for k, v in vars(mod).items() if k.endswith("Spec") and getattr(v, "__module__", "") == mod.__name__)
    return cls, spec(classifier_id="mc_stub", **kw)


def explore(run, fixed=()):
    """All choice sequences that start with `fixed` (where those choices exist)."""
    stack = [tuple(fixed)]
    n = 0
    while stack:
        pre = stack.pop()
        rng = ChoiceRng(pre)
        try:
            run(rng)
        except RuntimeError as e:
            if "diverged" in str(e) and pre == tuple(fixed):
                return n
            raise
        n += 1
        if n > CAP:
            raise RuntimeError("more executions than the check allows for")
        for i in range(len(rng.path) - 1, max(len(pre), len(fixed)) - 1, -1):
            for alt in range(rng.width[i] - 1, 0, -1):
                stack.append(tuple(rng.path[:i]) + (alt,))
    return n


def arr(ids, be, extra=0.5):
    a = np.asarray([[i, extra] for i in ids], dtype=np.float64).reshape(len(ids), 2)
    return torch.tensor(a) if be == "torch" else a


def lab(ys, be, dt=np.int64):
    a = np.asarray(ys, dtype=dt)
    return torch.tensor(a) if be == "torch" else a


def tolist(a):
    return np.asarray(a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else a).tolist()


Q = [50, 51, 52, 53]


def drive(R, world, cls, spec, data, be, seed, query=None):
    """Fit and ask; -> (training sets of the classifiers that answer, labels, probabilities)."""
    ssl.WORLD = world
    world.fits = []
    before = [None if v is None else (v.clone() if isinstance(v, torch.Tensor) else v.copy()) for v in (data.X_l, data.y_l, data.X_u)]
    m = cls(spec)
    m.fit(data, device=DeviceSpec(device="cpu"), seed=seed)
    world.asked = set()
    q = arr(Q, be) if query is None else query
    pred = tolist(m.predict(q))
    proba = np.asarray(tolist(m.predict_proba(q)), dtype=float)
    asked, world.asked = world.asked, None
    for v, b in zip((data.X_l, data.y_l, data.X_u), before):
        R.check(v is None or bool((v == b).all()), lambda: f"{spec}: fit modified its inputs", "mutated")
    R.step()
    return asked, pred, proba, list(world.fits)


def single(R, w, cls, spec, mk, seed, want, what):
    """Methods that end with one classifier."""
    for be in ("numpy", "torch"):
        asked, pred, proba, _ = drive(R, w, cls, spec(be), mk(be), be, seed)
        L = tuple(sorted(want()))
        R.check(asked == {(seed, L)}, lambda: f"{what()} [{be}]: the final classifier was trained on {sorted(asked)}, the algorithm gives {L}", "training-set")
        exp = [w.answer(seed, L, q)[0] for q in Q]
        R.check(pred == exp, lambda: f"{what()} [{be}]: predict gives {pred}, the trained classifier says {exp}", "predict")
        ref = np.asarray([w.scores(seed, L, q) for q in Q])
        R.check(np.allclose(proba, ref / ref.sum(1, keepdims=True), atol=1e-6), lambda: f"{what()} [{be}]: predict_proba {proba.tolist()}, classifier {ref.tolist()}", "proba")
    R.outcome(what.__name__, L)
    R.state(L)


# ---------------------------------------------------------------- pseudo_label
def ref_pseudo(w, seed, L, U, max_iter, thr, max_new, min_new):
    L, U = list(L), list(U)
    for _ in range(max_iter):
        f = {u: w.answer(seed, tuple(sorted(L)), u) for u in U}
        if not U:
            break
        take = sorted((u for u in U if thr is None or f[u][1] >= thr), key=lambda u: -f[u][1])
        if max_new is not None:
            take = take[:max_new]
        if len(take) < min_new:
            break
        L += [(u, f[u][0]) for u in take]
        U = [u for u in U if u not in take]
    return L


def k_pseudo(c, R):
    L = list(zip(range(len(c["y"])), c["y"]))
    U = list(range(10, 10 + c["n"]))
    kw = dict(max_iter=c["max_iter"], confidence_threshold=c["thr"], max_new_labels=c["max_new"], min_new_labels=c["min_new"])
    cls, _ = spec_of(c["method"])

    def run(rng):
        w = ssl.World(rng)
        single(R, w, cls, lambda be: spec_of(c["method"], classifier_backend=be, **kw)[1],
               lambda be: InductiveDataset(X_l=arr([i for i, _ in L], be), y_l=lab(c["y"], be), X_u=None if c.get("nou") else arr(U, be)), 4,
               lambda: ref_pseudo(w, 4, L, [] if c.get("nou") else U, c["max_iter"], c["thr"], c["max_new"], c["min_new"]), lambda: f"{c['method']} {kw} labels {c['y']}, answers {w.table}")
    R.count("executions", explore(run))


# ---------------------------------------------------------------- self_training with groups
class Ambiguous(Exception):
    pass


def ref_group(w, seed, L, U, gl, gu, max_iter, thr, max_new, min_new, use, mc, mf, gthr):
    L, U = list(L), list(U)
    lab0 = list(L)
    g = dict(zip(U, gu)) if gu is not None else {}
    for _ in range(max_iter):
        if not U:
            break
        f = {u: w.answer(seed, tuple(sorted(L)), u) for u in U}
        cand = {u: f[u] for u in U if thr is None or f[u][1] >= thr}
        direct = set(cand)
        if use:
            gt = gthr if gthr is not None else (thr if thr is not None else -math.inf)
            for gid in sorted(set(g[u] for u in U)):
                votes = [(y, 1.0) for (i, y), k in zip(lab0, gl or []) if k == gid] if gl is not None else []
                votes += [f[u] for u in U if g[u] == gid and u in direct]
                if len(votes) < mc or not votes:
                    continue
                cnt = {}
                for y, _c in votes:
                    cnt[y] = cnt.get(y, 0) + 1
                top = max(cnt.values())
                best = [y for y in cnt if cnt[y] == top]
                if top / len(votes) < mf:
                    continue
                if len(best) > 1:
                    raise Ambiguous
                conf = [x for y, x in votes if y == best[0]]
                conf = sum(conf) / len(conf)
                if conf < gt:
                    continue
                for u in U:
                    if g[u] == gid and u not in cand:
                        cand[u] = (best[0], conf)
        take = sorted(cand, key=lambda u: -cand[u][1])
        if max_new is not None and len(take) > max_new:
            if max_new > 0 and abs(cand[take[max_new - 1]][1] - cand[take[max_new]][1]) < 1e-9:
                raise Ambiguous
            take = take[:max_new]
        if len(take) < min_new:
            break
        L += [(u, cand[u][0]) for u in take]
        U = [u for u in U if u not in take]
    return L


def k_group(c, R):
    y, n = c["y"], c["n"]
    L = list(zip(range(len(y)), y))
    U = list(range(10, 10 + n))
    kw = dict(c["kw"])
    cls, _ = spec_of("self_training")
    meta = lambda be: {c.get("ukey", "group_u"): lab(c["gu"], be), **({"group_l": lab(c["gl"], be)} if c["gl"] is not None else {})}
    use = kw.get("use_group_propagation", None)
    args = (kw.get("max_iter", 10), kw.get("confidence_threshold", 0.95), kw.get("max_new_labels"), kw.get("min_new_labels", 1), True if use is None else use,
            kw.get("group_min_count", 2), kw.get("group_min_fraction", 1.0), kw.get("group_confidence_threshold"))

    def run(rng):
        w = ssl.World(rng)
        try:
            single(R, w, cls, lambda be: spec_of("self_training", classifier_backend=be, **kw)[1],
                   lambda be: InductiveDataset(X_l=arr(range(len(y)), be), y_l=lab(y, be), X_u=arr(U, be), meta=meta(be)), 4,
                   lambda: ref_group(w, 4, L, U, c["gl"], c["gu"], *args), lambda: f"self_training {kw} labels {y} groups {c['gl']}/{c['gu']} answers {w.table}")
        except Ambiguous:
            R.count("ties_not_judged")
    R.count("executions", explore(run))


# ---------------------------------------------------------------- co_training
def ref_co(w, seed, y, U, max_iter, k, thr):
    A = [(i, v) for i, v in enumerate(y)]
    B = [(100 + i, v) for i, v in enumerate(y)]
    U = list(U)
    for _ in range(max_iter):
        if not U:
            break
        fa = {u: w.answer(seed, tuple(sorted(A)), u) for u in U}
        fb = {u: w.answer(seed, tuple(sorted(B)), 100 + u) for u in U}

        def pick(f):
            out = []
            for lb in sorted(set(v for v, _ in f.values())):
                rows = sorted((u for u in f if f[u][0] == lb and (thr is None or f[u][1] >= thr)), key=lambda u: -f[u][1])
                out += rows[:k]
            return out
        pa, pb = pick(fa), pick(fb)
        if not pa and not pb:
            break
        B += [(100 + u, fa[u][0]) for u in pa]
        A += [(u, fb[u][0]) for u in pb]
        U = [u for u in U if u not in pa and u not in pb]
    return tuple(sorted(A)), tuple(sorted(B))


def k_co(c, R):
    y, n = c["y"], c["n"]
    U = list(range(10, 10 + n))
    kw = dict(max_iter=c["max_iter"], k_per_class=c["k"], confidence_threshold=c["thr"], view_keys=c["keys"])
    cls, _ = spec_of("co_training")
    ka, kb = c["keys"] or ("a", "b")

    def run(rng):
        w = ssl.World(rng)
        for be in ("numpy", "torch"):
            _, spec = spec_of("co_training", classifier_backend=be, **kw)
            va = {"X_l": arr(range(len(y)), be), "X_u": arr(U, be)}
            vb = (arr([100 + i for i in range(len(y))], be), arr([100 + u for u in U], be))
            views = {kb: vb, ka: va, "zz": va}
            data = InductiveDataset(X_l=arr(range(len(y)), be), y_l=lab(y, be), X_u=arr(U, be), views=views)
            q = InductiveDataset(X_l=arr(Q, be), y_l=lab([0] * len(Q), be), views={ka: {"X": arr(Q, be)}, kb: arr([100 + i for i in Q], be)})
            asked, pred, proba, _ = drive(R, w, cls, spec, data, be, 4, query=q)
            A, B = ref_co(w, 4, y, U, c["max_iter"], c["k"], c["thr"])
            what = lambda: f"co_training {kw} labels {y} answers {w.table} [{be}]"
            R.check(asked == {(4, A), (4, B)}, lambda: f"{what()}: classifiers trained on {sorted(asked)}, the algorithm gives {A} and {B}", "training-set")
            ref = np.asarray([[(a + b) / 2 for a, b in zip(w.scores(4, A, i), w.scores(4, B, 100 + i))] for i in Q])
            R.check(np.allclose(proba, ref / ref.sum(1, keepdims=True), atol=1e-6), lambda: f"{what()}: predict_proba {proba.tolist()}, mean of both {ref.tolist()}", "proba")
            check_argmax(R, what, pred, ref, sorted(set(y)))
        R.state(A, B)
    R.count("executions", explore(run, c.get("fixed", ())))


def check_argmax(R, what, pred, ref, classes):
    for p, r in zip(pred, ref):
        best = [classes[i] for i in range(len(classes)) if r[i] >= max(r) - 1e-7]
        R.check(p in best, lambda: f"{what()}: predict gives {pred}, scores {ref.tolist()} over {classes}", "predict")


# ---------------------------------------------------------------- tri_training
def ref_tri(w, seeds, boots, U, max_iter, thr, max_new):
    T = [list(b) for b in boots]
    added = [dict() for _ in range(3)]
    for _ in range(max_iter):
        f = [{u: w.answer(seeds[i], tuple(sorted(T[i])), u) for u in U} for i in range(3)]
        new = 0
        for i in range(3):
            j, k = [x for x in range(3) if x != i]
            ok = [u for u in U if f[j][u][0] == f[k][u][0] and u not in added[i] and (thr is None or (f[j][u][1] >= thr and f[k][u][1] >= thr))]
            if max_new is not None:
                ok.sort(key=lambda u: -(f[j][u][1] + f[k][u][1]))
                if len(ok) > max_new > 0 and abs((f[j][ok[max_new - 1]][1] + f[k][ok[max_new - 1]][1]) - (f[j][ok[max_new]][1] + f[k][ok[max_new]][1])) < 1e-9:
                    raise Ambiguous
                ok = ok[:max_new]
            for u in ok:
                added[i][u] = f[j][u][0]
            new += len(ok)
        if not new:
            break
        T = [list(b) + list(a.items()) for b, a in zip(boots, added)]
    return [tuple(sorted(t)) for t in T]


def k_tri(c, R):
    y, n = c["y"], c["n"]
    U = list(range(10, 10 + n))
    kw = dict(max_iter=c["max_iter"], confidence_threshold=c["thr"], max_new_labels=c["max_new"], bootstrap_ratio=c["ratio"])
    cls, _ = spec_of("tri_training")
    nb = max(1, round(c["ratio"] * len(y)))

    def run(rng):
        w = ssl.World(rng, levels=1 if c["thr"] is None else 2)
        for be in (c["be"],):
            _, spec = spec_of("tri_training", classifier_backend=be, **kw)
            data = InductiveDataset(X_l=arr(range(len(y)), be), y_l=lab(y, be), X_u=arr(U, be))
            asked, pred, proba, fits = drive(R, w, cls, spec, data, be, c["seed"])
            what = lambda: f"tri_training {kw} seed {c['seed']} labels {y} answers {w.table} [{be}]"
            boots = {}
            for s, t in fits:
                boots.setdefault(s, t)
            R.check(len(boots) == 3, lambda: f"{what()}: three differently seeded classifiers expected, seeds {sorted(boots)}", "learners")
            for s, t in boots.items():
                R.check(len(t) == nb and all(p in set(enumerate(y)) for p in t), lambda: f"{what()}: bootstrap sample {t} of {list(enumerate(y))}, size {nb} expected", "bootstrap")
            seeds = sorted(boots)
            try:
                T = ref_tri(w, seeds, [boots[s] for s in seeds], U, c["max_iter"], c["thr"], c["max_new"])
            except Ambiguous:
                R.count("ties_not_judged")
                return
            R.check(asked == set(zip(seeds, T)), lambda: f"{what()}: classifiers trained on {sorted(asked)}, the algorithm gives {list(zip(seeds, T))}", "training-set")
            classes = sorted({v for t in T for _, v in t})
            ref = np.zeros((len(Q), len(classes)))
            for s, t in zip(seeds, T):
                own = sorted({v for _, v in t})
                for a, q in enumerate(Q):
                    sc = w.scores(s, t, q)
                    for v, p in zip(own, sc):
                        ref[a, classes.index(v)] += p / sum(sc) / 3
            ref /= ref.sum(1, keepdims=True)
            R.check(proba.shape == ref.shape and np.allclose(proba, ref, atol=1e-6), lambda: f"{what()}: predict_proba {proba.tolist()}, mean of the three {ref.tolist()}", "proba")
            check_argmax(R, what, pred, ref, classes)
        R.state(tuple(T))
    R.count("executions", explore(run, c.get("fixed", ())))


# ---------------------------------------------------------------- democratic co-learning
def interval(ok, n, level):
    p = ok / n
    h = NormalDist().inv_cdf(0.5 + level / 2) * math.sqrt(p * (1 - p) / n)
    return max(0.0, p - h), min(1.0, p + h)


def ref_demo(w, seeds, L, U, max_iter, level):
    k = len(seeds)
    T = [list(L) for _ in range(k)]
    e = [0.0] * k
    added = [set() for _ in range(k)]
    classes = sorted({y for _, y in L})

    def weight(i):
        lo, hi = interval(sum(w.answer(seeds[i], tuple(sorted(T[i])), r)[0] == y for r, y in L), len(L), level)
        return (lo + hi) / 2
    for _ in range(max_iter):
        wt = [weight(i) for i in range(k)]
        f = [{u: w.answer(seeds[i], tuple(sorted(T[i])), u)[0] for u in U} for i in range(k)]
        maj = {}
        for u in U:
            s = {c: sum(wt[i] for i in range(k) if f[i][u] == c) for c in classes}
            top = sorted(s.values())[::-1]
            if len(top) > 1 and 0 < abs(top[0] - top[1]) < 1e-6:
                raise Ambiguous
            if len(top) == 1 or top[0] > top[1] + 1e-9:
                maj[u] = max(s, key=s.get)
            elif top[0] > 0 and sum(1 for c in classes if s[c] > 0) > 1 and len({round(x, 12) for x in wt}) > 1:
                raise Ambiguous     # sums of different weights that meet: decided by rounding
        lows = [interval(sum(w.answer(seeds[i], tuple(sorted(T[i])), r)[0] == y for r, y in T[i]), len(T[i]), level)[0] for i in range(k)]
        avg = sum(lows) / k
        changed = False
        nT = [list(t) for t in T]
        for i in range(k):
            new = [u for u in U if u in maj and f[i][u] != maj[u] and u not in added[i]]
            if not new:
                continue
            n = len(T[i])
            q = n * (1 - 2 * e[i] / n) ** 2
            e2 = (1 - avg) * len(new)
            n2 = n + len(new)
            q2 = n2 * (1 - 2 * (e[i] + e2) / n2) ** 2
            if abs(q2 - q) < 1e-9:
                raise Ambiguous
            if q2 > q:
                nT[i] += [(u, maj[u]) for u in new]
                added[i] |= set(new)
                e[i] += e2
                changed = True
        T = nT
        if not changed:
            break
    return [tuple(sorted(t)) for t in T], [weight(i) for i in range(k)]


def k_demo(c, R):
    y, n = c["y"], c["n"]
    L = list(enumerate(y))
    U = list(range(10, 10 + n))
    kw = dict(max_iter=c["max_iter"], confidence_level=c["level"], n_learners=c["learners"], min_confidence=c["minc"])
    cls, _ = spec_of("democratic_co_learning")
    classes = sorted(set(y))

    def run(rng):
        w = ssl.World(rng, levels=1)
        for be in ("numpy", "torch"):
            _, spec = spec_of("democratic_co_learning", classifier_backend=be, **kw)
            data = InductiveDataset(X_l=arr(range(len(y)), be), y_l=lab(y, be), X_u=arr(U, be))
            asked, pred, proba, fits = drive(R, w, cls, spec, data, be, 4)
            what = lambda: f"democratic_co_learning {kw} labels {y} answers {w.table} [{be}]"
            seeds = sorted({s for s, _ in fits})
            R.check(len(seeds) == c["learners"], lambda: f"{what()}: seeds of the learners {seeds}", "learners")
            try:
                T, wt = ref_demo(w, seeds, L, U, c["max_iter"], c["level"])
            except Ambiguous:
                R.count("ties_not_judged")
                return
            R.check(asked == set(zip(seeds, T)), lambda: f"{what()}: learners trained on {sorted(asked)}, the algorithm gives {list(zip(seeds, T))}", "training-set")
            el = [i for i in range(len(T)) if wt[i] > c["minc"]] or list(range(len(T)))
            ref = np.zeros((len(Q), len(classes)))
            for a, qr in enumerate(Q):
                for b, cl in enumerate(classes):
                    mine = [wt[i] for i in el if w.answer(seeds[i], T[i], qr)[0] == cl]
                    ref[a, b] = sum(mine) / len(mine) * (len(mine) + 0.5) / (len(mine) + 1) if mine else 0.0
            s = ref.sum(1, keepdims=True)
            R.check(np.allclose(proba, ref / np.where(s == 0, 1, s), atol=1e-5), lambda: f"{what()}: predict_proba {proba.tolist()}, combination rule {ref.tolist()} weights {wt}", "proba")
            check_argmax(R, what, pred, ref, classes)
        R.state(tuple(T))
    R.count("executions", explore(run, c.get("fixed", ())))


# ---------------------------------------------------------------- s4vm
def k_s4vm(c, R):
    y, n = c["y"], c["n"]
    L = list(enumerate(y))
    U = list(range(10, 10 + n))
    kw = dict(k_candidates=c["k"], flip_rate=c["rate"])
    cls, _ = spec_of("s4vm")
    a, b = sorted(set(y))

    def run(rng):
        w = ssl.World(rng, levels=1 if c["one_level"] else 2)
        seed = 4
        for be in ("numpy", "torch"):
            _, spec = spec_of("s4vm", classifier_backend=be, **kw)
            data = InductiveDataset(X_l=arr(range(len(y)), be), y_l=lab(y, be), X_u=arr(U, be))
            asked, pred, proba, _f = drive(R, w, cls, spec, data, be, seed)
            what = lambda: f"s4vm {kw} labels {y} answers {w.table} [{be}]"
            base = tuple(sorted(L))
            acc = lambda s, t: sum(w.answer(s, t, r)[0] == v for r, v in L)
            best, best_acc = (seed, base), acc(seed, base)
            f = {u: w.answer(seed, base, u) for u in U}
            order = sorted(U, key=lambda u: f[u][1])
            for i in range(c["k"]):
                nf = int(round(min(c["rate"] * (i + 1), 0.5) * n))
                t = tuple(sorted(L + [(u, (b if f[u][0] == a else a) if u in order[:nf] else f[u][0]) for u in U]))
                s = acc(seed + i + 1, t)
                if s > best_acc:
                    best, best_acc = (seed + i + 1, t), s
            R.check(asked == {best}, lambda: f"{what()}: the chosen model is {sorted(asked)}, the first of the best on the labelled rows is {best}", "training-set")
            exp = [w.answer(*best, q)[0] for q in Q]
            R.check(pred == exp, lambda: f"{what()}: predict gives {pred}, the chosen model says {exp}", "predict")
        R.state(best)
    R.count("executions", explore(run, c.get("fixed", ())))


# ---------------------------------------------------------------- setred
def allocate(total, counts):
    raw = [total * x / sum(counts) for x in counts]
    base = [math.floor(r + 1e-12) for r in raw]
    rem = total - sum(base)
    fr = sorted(range(len(counts)), key=lambda i: -(raw[i] - base[i]))
    if 0 < rem < len(counts) and abs((raw[fr[rem - 1]] - base[fr[rem - 1]]) - (raw[fr[rem]] - base[fr[rem]])) < 1e-9:
        raise Ambiguous
    for i in fr[:rem]:
        base[i] += 1
    return base


def d2(p, q):
    return sum((a - b) ** 2 for a, b in zip(p, q))


def graph(pts, typ, k):
    n = len(pts)
    E = set()
    if typ == "rng":
        for i, j in itertools.combinations(range(n), 2):
            d = d2(pts[i], pts[j])
            if not any(d2(pts[i], pts[m]) < d and d2(pts[j], pts[m]) < d for m in range(n) if m not in (i, j)):
                E |= {(i, j), (j, i)}
        return E
    k = max(1, min(k, n - 1))
    for i in range(n):
        near = sorted((d2(pts[i], pts[j]), j) for j in range(n) if j != i)
        if len(near) > k and near[k - 1][0] == near[k][0]:
            raise Ambiguous
        E |= {(i, j) for _, j in near[:k]} | {(j, i) for _, j in near[:k]}
    return E


def ref_setred(w, seed, L, U, P, kw):
    L, U = list(L), list(U)
    for _ in range(kw["max_iter"]):
        if not U:
            break
        f = {u: w.answer(seed, tuple(sorted(L)), u) for u in U}
        cls = sorted({y for _, y in L})
        cnt = [sum(y == c for _, y in L) for c in cls]
        total = len(U) if kw["max_new_labels"] is None else min(len(U), kw["max_new_labels"])
        sel = []
        for c, k in zip(cls, allocate(total, cnt)):
            sel += sorted((u for u in U if f[u][0] == c and (kw["confidence_threshold"] is None or f[u][1] >= kw["confidence_threshold"])), key=lambda u: -f[u][1])[:k]
        if not sel:
            break
        allr = L + [(u, f[u][0]) for u in sel]
        E = graph([P[r] for r, _ in allr], kw["graph_type"], kw["knn_k"])
        keep = []
        for i in range(len(L), len(allr)):
            nb = [j for a, j in E if a == i]
            d = [math.sqrt(d2(P[allr[i][0]], P[allr[j][0]])) for j in nb]
            wt = [1.0 if kw["edge_weight"] == "uniform" else x if kw["edge_weight"] == "distance" else 1 / (x + 1e-12) for x in d]
            o = sum(v for v, j in zip(wt, nb) if allr[j][1] != allr[i][1])
            p = cnt[cls.index(allr[i][1])] / sum(cnt)
            s2 = p * (1 - p) * sum(v * v for v in wt)
            lim = (1 - p) * sum(wt) + (NormalDist().inv_cdf(kw["theta"]) * math.sqrt(s2) if s2 > 0 else 0)
            if nb and 0 < abs(o - lim) < 1e-5 * max(1, abs(lim)):
                raise Ambiguous
            if not nb or o <= lim + 1e-9:
                keep.append(allr[i])
        if len(keep) < kw["min_new_labels"]:
            break
        L += keep
        U = [u for u in U if u not in [r for r, _ in keep]]
    return L


POINTS = {   # row -> point; no two distances from one point are equal
    "spread": {0: (0.0, 0.0), 1: (4.0, 0.25), 2: (1.5, 3.0), 3: (6.0, 5.0), 10: (0.75, 0.5), 11: (3.25, 1.25), 12: (2.0, 2.0), 13: (5.0, 4.5), 50: (9.0, 9.0), 51: (8.0, 1.0), 52: (1.0, 8.0), 53: (-3.0, 2.0)},
    "cluster": {0: (0.0, 0.0), 1: (8.0, 0.0), 2: (0.5, 1.25), 3: (8.5, 1.75), 10: (0.25, 0.75), 11: (7.5, 0.5), 12: (4.25, 0.25), 13: (1.0, 0.25), 50: (9.0, 9.0), 51: (8.0, 3.0), 52: (1.0, 8.0), 53: (-3.0, 2.0)},
    "line": {0: (0.0, 0.0), 1: (1.0, 0.0), 2: (3.0, 0.0), 3: (10.0, 0.0), 10: (0.25, 0.0), 11: (0.875, 0.0), 12: (2.125, 0.0), 13: (7.0, 0.0), 50: (20.0, 0.0), 51: (21.5, 0.0), 52: (-4.0, 0.0), 53: (-9.0, 0.0)},
    "same": {0: (0.0, 0.0), 1: (2.0, 0.0), 2: (0.0, 0.0), 3: (5.0, 0.0), 10: (0.0, 0.0), 11: (2.0, 0.0), 12: (0.0, 0.0), 13: (5.0, 0.0), 50: (20.0, 0.0), 51: (21.5, 0.0), 52: (-4.0, 0.0), 53: (-9.0, 0.0)},
}


def k_setred(c, R):
    y, n = c["y"], c["n"]
    L = list(enumerate(y))
    U = list(range(10, 10 + n))
    P = POINTS[c["pts"]]
    kw = dict(max_iter=3, pool_size=None, max_new_labels=None, min_new_labels=1, confidence_threshold=None, theta=0.05, graph_type="rng", knn_k=10, edge_weight="uniform")
    kw.update(c["kw"])
    cls, _ = spec_of("setred")
    # coinciding rows are told apart by offsets far below single precision of the coordinates
    X = lambda ids, be: (torch.tensor if be == "torch" else np.asarray)(np.asarray([[P[i][0] + i * 1e-12, P[i][1]] for i in ids], dtype=np.float64))
    inv = {(round(P[i][0] + i * 1e-12, 13), P[i][1]): i for i in P}

    def run(rng):
        w = ssl.World(rng, levels=1 if kw["confidence_threshold"] is None and kw["max_new_labels"] is None else 2, rows=lambda x: inv[(round(x[0], 13), x[1])])
        for be in ("numpy", "torch"):
            _, spec = spec_of("setred", classifier_backend=be, **kw)
            data = InductiveDataset(X_l=X(range(len(y)), be), y_l=lab(y, be), X_u=X(U, be))
            asked, pred, proba, _f = drive(R, w, cls, spec, data, be, 4, query=X(Q, be))
            what = lambda: f"setred {kw} points {c['pts']} labels {y} answers {w.table} [{be}]"
            try:
                T = tuple(sorted(ref_setred(w, 4, L, U, P, kw)))
            except Ambiguous:
                R.count("ties_not_judged")
                return
            R.check(asked == {(4, T)}, lambda: f"{what()}: the final classifier was trained on {sorted(asked)}, the algorithm gives {T}", "training-set")
            R.check(pred == [w.answer(4, T, q)[0] for q in Q], lambda: f"{what()}: predict gives {pred}", "predict")
        R.state(T)
    R.count("executions", explore(run))


# ---------------------------------------------------------------- cases
def cases(tier):
    big = tier == "thorough"
    for method in ("pseudo_label", "self_training"):
        for k in (2, 3):
            y = LAB[k]
            for n in ((3,) if k == 2 else (2,)) if not big else ((3, 4) if k == 2 else (2, 3)):
                for max_iter, thr, max_new, min_new in itertools.product((0, 1, 2, 10), (THR, None) if method == "self_training" else (THR, 0.0), (None, 1, 2), (1, 2, 0)):
                    if n == 4 and (max_iter == 10 or min_new == 0):
                        continue
                    yield {"kind": "pseudo", "method": method, "y": y, "n": n, "max_iter": max_iter, "thr": thr, "max_new": max_new, "min_new": min_new}
        yield {"kind": "pseudo", "method": method, "y": LAB[2], "n": 2, "max_iter": 3, "thr": THR, "max_new": None, "min_new": 1, "nou": True}
    n = 3
    for y, gl in (((3, 7), None), ((3, 7), (1, 1)), ((3, 7), (1, 2)), ((3, 3, 7), (1, 1, 2)), ((3, 7, 7), (1, 1, 1))):
        for gu in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (5, 1, 5)):
            for kw in (dict(), dict(group_min_count=1), dict(group_min_count=3), dict(group_min_fraction=0.6), dict(max_new_labels=1), dict(max_new_labels=2), dict(use_group_propagation=False), dict(use_group_propagation=True, group_confidence_threshold=0.953),
                       dict(min_new_labels=2), dict(max_iter=1), dict(group_min_count=1, group_min_fraction=0.6, max_new_labels=2)):
                if not big and (gu == (5, 1, 5) and kw or gu == (2, 1, 1) and gl != (1, 2) or len(y) == 3 and "max_new_labels" in kw):
                    continue
                kw = {"confidence_threshold": THR, **kw}
                yield {"kind": "group", "y": y, "n": n + (big and kw.get("max_iter") == 1), "gl": gl, "gu": gu + ((2,) if big and kw.get("max_iter") == 1 else ()), "kw": kw}
    yield {"kind": "group", "y": (3, 7), "n": 3, "gl": (1, 1), "gu": (1, 1, 2), "kw": {"confidence_threshold": THR, "group_key": "mine"}, "ukey": "mine"}
    for k in (2, 3):
        for max_iter, kpc, thr, keys in itertools.product((1, 2, 20), (1, 2), (None, THR), (None, ("q", "b"))):
            if keys and (max_iter != 2 or kpc != 1):
                continue
            n = 3 if k == 2 and (thr is None or max_iter == 1) and (max_iter < 20 or kpc == 2) else 2
            if big and k == 2 and thr is None and max_iter == 1:
                n = 4
            if k == 3 and thr is not None and max_iter > 1 and not big:
                n = 1
            if keys or not big and max_iter == 2 and kpc == 1:
                n = 2
            for fixed in (((),) if n == 1 else itertools.product(range(2 * k), repeat=1 + (n > 2 and max_iter > 1))):
                yield {"kind": "co", "y": LAB[k], "n": n, "max_iter": max_iter, "k": kpc, "thr": thr, "keys": keys, "fixed": fixed}
    for seed in range(14 if not big else 64):
        for y in (LAB[2], (3, 3, 7), LAB[3]):
            for max_iter, thr, max_new, ratio in ((1, None, None, 1.0), (1, None, 1, 1.0), (2, None, None, 1.0), (20, None, 1, 1.0), (1, THR, None, 1.0), (1, THR, 1, 1.0), (2, None, None, 0.5), (2, None, None, 2.0)):
                n = 2 if thr is None and (max_iter == 1 or max_iter == 2 and y == LAB[2] and seed < 12) else 1
                if n == 1 and max_iter == 1 and y == LAB[2]:
                    n = 2
                if len(set(y)) == 3 and (max_iter == 20 or max_iter == 2 and seed > (1 if not big else 9)):
                    continue
                for be in ("numpy", "torch"):
                  yield {"kind": "tri", "be": be, "y": y, "n": n, "seed": seed, "max_iter": max_iter, "thr": thr, "max_new": max_new, "ratio": ratio}
    for y, n, it in (((3, 7), 2, 1), ((3, 7), 1, 2), ((3, 7, 7), 1, 1), ((2, 5, 9), 1, 1)) if not big else (((3, 7), 2, 1), ((3, 7), 1, 3), ((3, 7), 2, 2), ((3, 7, 7), 1, 2), ((2, 5, 9), 1, 1)):
        for level, minc, learners in ((0.95, 0.5, 3), (0.2, 0.0, 3)) + (((0.5, 0.7, 4),) if n == 1 and len(y) == 2 else ()):
            for fixed in itertools.product(range(2), repeat=4):
                yield {"kind": "demo", "y": y, "n": n, "max_iter": it, "level": level, "minc": minc, "learners": learners, "fixed": fixed}
    for y, n, k, rate, one in (((3, 7), 3, 2, 0.34, False), ((3, 7), 4, 2, 0.25, True), ((3, 3, 7), 2, 2, 0.5, True), ((3, 7), 2, 3, 0.2, True), ((3, 7, 7, 3), 1, 1, 0.5, True), ((3, 7), 2, 0, 0.2, False), ((3, 7), 4, 3, 0.3, True)):
        for fixed in itertools.product(range(2), repeat=2):
            yield {"kind": "s4vm", "y": y, "n": n, "k": k, "rate": rate, "one_level": one, "fixed": fixed}
    for pts in POINTS:
        for y in ((3, 7), (3, 3, 7), (3, 7, 3, 7), (2, 5, 9)):
            for kw in (dict(), dict(theta=0.5), dict(theta=0.2, edge_weight="distance"), dict(theta=0.3, edge_weight="inverse_distance"), dict(max_new_labels=2), dict(max_new_labels=1, theta=0.4), dict(confidence_threshold=THR, theta=0.4),
                       dict(graph_type="knn", knn_k=1, theta=0.4), dict(graph_type="knn", knn_k=2, theta=0.2), dict(graph_type="knn", theta=0.3), dict(max_iter=1, theta=0.6), dict(min_new_labels=2, theta=0.5), dict(graph_type="knn", theta=0.3, edge_weight="distance"), dict(theta=0.9)):
                if pts == "same" and (kw.get("graph_type") != "knn" or kw.get("knn_k")) or pts == "same" and kw.get("edge_weight") == "inverse_distance":
                    continue
                yield {"kind": "setred", "pts": pts, "y": y, "n": 3 + (big and len(y) < 4 and "max_new_labels" not in kw and "confidence_threshold" not in kw), "kw": kw}


def run_case(c, R):
    globals()["k_" + c["kind"]](c, R)
