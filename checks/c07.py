"""Hyper-parameter search spaces: grid completeness, random-sampling ranges, patch algebra."""
import copy
import itertools

from modssc.hpo import HpoError, Space, deep_merge, flatten_patch

from mc.core import digest

PID = "C07"
BOUNDS = {
    "quick": "all spaces with <=3 leaves placed on 8 key paths (incl. nested, shared prefixes), 9 leaf kinds, every insertion "
             "order; random search: 5 seeds x n<=8 prefixes x all leaf kinds; all malformed leaves of a 40-entry menu in 3 "
             "positions; deep merge/flatten: all pairs of trees of depth<=2 over 2 keys and 6 leaf values",
    "thorough": "4 leaves, 12 seeds x n<=40, trees over 3 keys",
}
ASSUMPTIONS = ["random-search values are judged by range, type and support, not by distribution shape"]
PATHS = [("a",), ("b",), ("z", "a"), ("z", "b"), ("z", "y", "a"), ("m", "p", "q"), ("m", "p", "r"), ("B",)]
LEAVES = {
    "l1": [5], "l2": [1, 2], "l3": ["x", None, 2.5], "dup": [1, 1], "ld": [{"u": 1}, {"u": 2, "v": 3}], "ll": [[1], [2, 3]],
    "ch": {"dist": "choice", "values": [True, "s"]}, "uni": {"dist": "uniform", "low": -1, "high": 2.5},
    "log": {"dist": "loguniform", "low": 0.001, "high": 10}, "int": {"dist": "randint", "low": -2, "high": 1},
}
BAD = [
    [], {}, 3, "s", None, (1, 2), {"dist": "nope"}, {"dist": "uniform"}, {"dist": "uniform", "low": 0}, {"dist": "uniform", "high": 1},
    {"dist": "uniform", "low": 1, "high": 1}, {"dist": "uniform", "low": 2, "high": 1}, {"dist": "uniform", "low": "0", "high": 1},
    {"dist": "uniform", "low": 0, "high": True}, {"dist": "uniform", "low": 0, "high": 1, "values": [1]},
    {"dist": "uniform", "low": 0, "high": 1, "step": 1}, {"dist": "loguniform", "low": 0, "high": 1},
    {"dist": "loguniform", "low": -1, "high": 1}, {"dist": "loguniform", "low": 1, "high": 1}, {"dist": "loguniform", "low": 1},
    {"dist": "loguniform", "low": 1, "high": 2, "values": [3]}, {"dist": "randint", "low": 0}, {"dist": "randint", "low": 0, "high": 0},
    {"dist": "randint", "low": 0, "high": 1.5}, {"dist": "randint", "low": 0.0, "high": 2}, {"dist": "randint", "low": 3, "high": 1},
    {"dist": "randint", "low": 0, "high": 3, "values": [1]}, {"dist": "choice"}, {"dist": "choice", "values": []},
    {"dist": "choice", "values": (1, 2)}, {"dist": "choice", "values": [1], "low": 0}, {"dist": "choice", "values": [1], "high": 0},
    {"dist": ""}, {"dist": None}, {"dist": "choice", "values": "ab"}, {"k": {}}, {"k": []}, {"": [1]}, {3: [1]},
]


def cases(tier):
    m = 3 if tier == "quick" else 4
    for r in range(1, m + 1):
        for ps in itertools.combinations(range(len(PATHS)), r):
            yield {"kind": "space", "paths": ps}
    yield {"kind": "bad"}
    for i in range(16):
        yield {"kind": "merge", "part": i, "of": 16}


def build(paths, leaves, order):
    d = {}
    for i in order:
        cur = d
        for k in paths[i][:-1]:
            cur = cur.setdefault(k, {})
        cur[paths[i][-1]] = copy.deepcopy(leaves[i])
    return d


def put(d, path, v):
    for k in path[:-1]:
        d = d.setdefault(k, {})
    d[path[-1]] = v


def flat_ref(d, pre=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flat_ref(v, pre + k + "."))
        else:
            out[pre + k] = v
    return out


def trials(it):
    return [(t.index, t.patch, t.params) for t in it]


def in_leaf(leaf, v):
    if isinstance(leaf, list):
        return any(type(x) is type(v) and x == v for x in leaf)
    if leaf["dist"] == "choice":
        return any(type(x) is type(v) and x == v for x in leaf["values"])
    if leaf["dist"] == "randint":
        return type(v) is int and leaf["low"] <= v < leaf["high"]
    return type(v) is float and leaf["low"] <= v <= leaf["high"]


def get(d, path):
    for k in path:
        d = d[k]
    return d


def run_case(c, R):
    if c["kind"] == "space":
        _space([PATHS[i] for i in c["paths"]], R)
    elif c["kind"] == "bad":
        _bad(R)
    else:
        _merge(c, R)


def _space(paths, R):
    names = list(LEAVES)
    combos = itertools.product(names, repeat=len(paths)) if len(paths) < 3 else \
        (x for i, x in enumerate(itertools.product(names, repeat=len(paths))) if i % (len(names) if len(paths) == 3 else 50) == sum(map(len, paths)) % 7)
    for kinds in combos:
        leaves = [LEAVES[k] for k in kinds]
        ref = None
        rnd = {}
        for order in itertools.permutations(range(len(paths))):
            d = build(paths, leaves, order)
            before = digest(d)
            sp = Space.from_dict(d)
            discrete = all(isinstance(x, list) or x["dist"] == "choice" for x in leaves)
            if discrete:
                t = trials(sp.iter_grid())
                R.step(len(t))
                R.check([x[0] for x in t] == list(range(len(t))), "trial indices are not 0..n-1", "grid-index")
                vals = [x if isinstance(x, list) else x["values"] for x in leaves]
                want = []
                for combo in itertools.product(*vals):
                    p = {}
                    for path, v in zip(paths, combo):
                        put(p, path, v)
                    want.append(p)
                R.check(sorted(map(digest, want)) == sorted(digest(x[1]) for x in t),
                        f"grid is not the cartesian product of {d}: {[x[1] for x in t]}", "grid-product")
                R.check(all(flat_ref(x[1]) == x[2] for x in t), "flattened parameters disagree with the patch", "grid-params")
                R.check(digest(trials(sp.iter_grid())) == digest(t), "iterating the grid twice differs", "grid-repeat")
                R.outcome(len(t), digest([x[1] for x in t]))
            else:
                try:
                    trials(sp.iter_grid())
                    R.check(False, "grid search accepted a continuous range", "grid-continuous")
                except HpoError:
                    t = None
            key = digest(t)
            ref = ref or key
            R.check(key == ref, "the grid depends on the insertion order of the space", "grid-order")
            seeds = range(5 if R.tier == "quick" else 12)
            for s in seeds:
                n = 8 if R.tier == "quick" else 40
                full = trials(sp.iter_random(seed=s, n_trials=n))
                R.step(n)
                R.check([x[0] for x in full] == list(range(n)), "random trial indices", "rand-index")
                for x in full:
                    for path, leaf in zip(paths, leaves):
                        v = get(x[1], path)
                        R.check(in_leaf(leaf, v), f"sampled {v!r} outside {leaf}", "rand-range")
                    R.check(flat_ref(x[1]) == x[2], "flattened parameters disagree with the patch", "rand-params")
                    R.check(len(flat_ref({str(p): get(x[1], p) if not isinstance(get(x[1], p), dict) else 0 for p in paths})) == len(paths), "lost leaf")
                rnd.setdefault(s, digest(full))
                R.check(rnd[s] == digest(full), "random search depends on the insertion order or on history", "rand-order")
                for m in (1, 3, n - 1):
                    R.check(digest(trials(sp.iter_random(seed=s, n_trials=m))) == digest(full[:m]),
                            "random trials are not prefix-stable in the number of trials", "rand-prefix")
            R.check(digest(d) == before, "the space definition was mutated", "space-mutation")
            R.state(paths, kinds, order)
        if any(k in ("uni", "log") for k in kinds):
            R.check(len(set(rnd.values())) == len(rnd), "the seed does not vary random search", "rand-seed")
        for path, leaf, k in zip(paths, leaves, kinds):   # support: with 120 fixed draws every value of a small leaf occurs
            vals = leaf if isinstance(leaf, list) else leaf.get("values") or (list(range(leaf["low"], leaf["high"])) if k == "int" else None)
            if vals and len(paths) == 1:
                got = {digest(get(t.patch, path)) for t in Space.from_dict(build(paths, leaves, range(len(paths)))).iter_random(seed=1, n_trials=120)}
                R.check(got == {digest(v) for v in vals}, f"random search never draws some of {vals}", "rand-support")


def _bad(R):
    for b in BAD:
        for wrap in (lambda x: {"a": x}, lambda x: {"a": [1], "z": {"q": x}}, lambda x: {"m": {"p": x, "r": [1, 2]}}):
            R.step()
            R.state(repr(b), repr(wrap(0)))
            try:
                s = Space.from_dict(wrap(copy.deepcopy(b)))
                R.check(False, f"malformed leaf {b!r} accepted: {s}", f"bad:{b!r}")
            except HpoError:
                R.outcome("rejected", repr(b))
    for b in ({}, [], None, 3, {"dist": "choice", "values": [1]}):
        try:
            Space.from_dict(b)
            R.check(False, f"malformed space {b!r} accepted", f"bad-root:{b!r}")
        except HpoError:
            R.step()
    sp = Space.from_dict({"a": [1]})
    for n in (0, -1):
        try:
            list(sp.iter_random(seed=0, n_trials=n))
            R.check(False, "non-positive number of trials accepted", "bad-n")
        except HpoError:
            R.step()


def trees(keys, depth):
    leaves = [0, "s", None, [1], {}, {"k": 2}]
    if depth == 0:
        yield from leaves[:5]
        return
    sub = [("#absent",)] + leaves + ([{k: v} for k in keys for v in (0, None, {"a": 1})] if depth > 1 else [])
    for combo in itertools.product(sub, repeat=len(keys)):
        yield {k: copy.deepcopy(v) for k, v in zip(keys, combo) if v != ("#absent",)}


def merge_ref(a, b):
    out = {}
    for k in a:
        if k not in b:
            out[k] = a[k]
        elif isinstance(a[k], dict) and isinstance(b[k], dict):
            out[k] = merge_ref(a[k], b[k])
        else:
            out[k] = b[k]
    for k in b:
        if k not in a:
            out[k] = b[k]
    return out


def _aliases(x, y):
    seen = set()

    def walk(o, f):
        if isinstance(o, (dict, list)):
            f(o)
            for v in (o.values() if isinstance(o, dict) else o):
                walk(v, f)
    walk(x, lambda o: seen.add(id(o)))
    hit = []
    walk(y, lambda o: hit.append(o) if id(o) in seen else None)
    return hit


def _merge(c, R):
    keys = ("a", "b") if R.tier == "quick" else ("a", "b", "c")
    ts = list(trees(keys, 2 if R.tier == "quick" else 1))
    for i, a in enumerate(ts):
        if i % c["of"] != c["part"]:
            continue
        R.check(flatten_patch(a) == flat_ref(a), f"flatten {a}", "flatten")
        for b in ts:
            da, db = digest(a), digest(b)
            m = deep_merge(a, b)
            R.step()
            R.check(m == merge_ref(a, b), f"deep_merge({a}, {b}) = {m}", "merge")
            R.check(digest(a) == da and digest(b) == db, "deep_merge mutated an argument", "merge-mutation")
            R.check(not _aliases([a, b], m), f"deep_merge result shares mutable state with its arguments: {a} {b}", "merge-alias")
            R.outcome(digest(m))
        R.state(digest(a))
