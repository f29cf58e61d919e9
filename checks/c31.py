"""All inductive methods: what a caller may rely on whatever the method - validation, fresh fits, blindness to global randomness, predictions that do not depend on batching, data helpers."""
import copy
import dataclasses
import itertools
import logging
import random
import warnings

import numpy as np
import torch
from mc import gen
from modssc.inductive.adapters import to_numpy_dataset, to_torch_dataset
from modssc.inductive.deep import TorchModelBundle, validate_torch_model_bundle
from modssc.inductive.errors import InductiveValidationError
from modssc.inductive.methods.helpers import classifier_bridge as cb
from modssc.inductive.methods.helpers import torch_support as ts
from modssc.inductive.registry import available_methods, get_method_class, get_method_info, register_builtin_methods
from modssc.inductive.seed import make_numpy_rng, seed_everything
from modssc.inductive.types import DeviceSpec, InductiveDataset
from modssc.inductive.validation import validate_inductive_dataset
from modssc.supervised.errors import SupervisedValidationError

PID = "C31"
BOUNDS = {"quick": "28 methods; every sequence of 3 operations out of {fit A, fit A other seed, fit B, predict, predict_proba, scramble the global generators}; 44 defects of a dataset and 90 bad settings per method; the product of field defects (6*8*6*5*5*4*3 datasets) per adapter; graphs of up to 3 nodes with every edge set, every index order, mask and slice; batches for n<=6, batch<=7, 8 steps",
          "thorough": "sequences of 4 operations; every batch size and every row order of the query"}
ASSUMPTIONS = ["deep models are small perceptrons without dropout, except where prediction in evaluation mode is the question (then with batch normalisation and dropout)",
               "an empty batch is not asked of classical methods: scikit-learn refuses it",
               "decision ties are not judged"]
CASE_TIMEOUT = 800
CPU = DeviceSpec("cpu")
DEEP = tuple("pi_model fixmatch comatch defixmatch daso adsh flexmatch adamatch free_match softmatch mixmatch simclr_v2 mean_teacher meta_pseudo_labels temporal_ensembling uda vat noisy_student deep_co_training trinet".split())
CLASSIC = tuple("supervised pseudo_label self_training setred co_training democratic_co_learning tri_training s4vm".split())
D = 3


def setup(tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)


# ------------------------------------------------------------------ deep worlds
class Net(torch.nn.Module):
    def __init__(self, K=2, feat=False, inp=D, drop=False, bn=False, seed=0):
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.a, self.b = torch.nn.Linear(inp, 4), torch.nn.Linear(4, K)
        with torch.no_grad():
            for p in self.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.7)
        self.bn = torch.nn.BatchNorm1d(4) if bn else None
        self.dp = torch.nn.Dropout(0.5) if drop else None
        self.feat = feat

    def forward(self, x):
        h = self.a(x["x"] if isinstance(x, dict) else x)
        h = torch.tanh(self.bn(h) if self.bn else h)
        h = self.dp(h) if self.dp else h
        return {"logits": self.b(h), "feat": h} if self.feat else self.b(h)


def bun(m):
    return TorchModelBundle(model=m, optimizer=torch.optim.SGD(m.parameters(), lr=0.3, momentum=0.5))


def dspec(mid, K=2, over=(), **kw):
    cls = get_method_class(mid)
    s = cls().spec
    n = lambda seed, **k: bun(Net(K, seed=seed, **{**kw, **k}))
    if mid in ("comatch", "daso"):
        d = dict(model_bundle=n(0, feat=True))
    elif mid == "meta_pseudo_labels":
        d = dict(teacher_bundle=n(1), student_bundle=n(0))
    elif mid == "deep_co_training":
        d = dict(model_bundle_1=n(0), model_bundle_2=n(1))
    elif mid == "simclr_v2":
        d = dict(pretrain_bundle=n(0, feat=True), finetune_bundle=n(1, feat=True), student_bundle=n(2, feat=True), pretrain_epochs=1, finetune_epochs=1, distill_epochs=1)
    elif mid == "trinet":
        d = dict(shared_bundle=bun(Net(4, seed=3, **kw)), head_bundles=tuple(bun(Net(K, inp=4, seed=i, **kw)) for i in range(3)), max_rounds=1, pool_base=2)
    elif mid == "mean_teacher":
        d = dict(model_bundle=dataclasses.replace(n(0), ema_model=Net(K, seed=5, **kw)))
    else:
        d = dict(model_bundle=n(0))
    names = {f.name for f in dataclasses.fields(s)}
    if "max_epochs" in names:
        d["max_epochs"] = 2
    d["batch_size"] = 2
    for k, v in (("p_cutoff", 0.6), ("uda_threshold", 0.6), ("unsup_warm_up", 0.0), ("pretrain_steps", 0), ("xi", 0.1)):
        if k in names:
            d[k] = v
    d.update(dict(over))
    return cls, dataclasses.replace(s, **d)


def models(spec):
    out = []
    for f in dataclasses.fields(spec):
        v = getattr(spec, f.name)
        for b in v if isinstance(v, tuple) else (v,):
            if isinstance(b, TorchModelBundle) and isinstance(b.model, torch.nn.Module):
                out += [b.model] + ([b.ema_model] if b.ema_model is not None else [])
    return out


def ddata(nl=3, nu=4, K=2, seed=0, d=D):
    g = torch.Generator().manual_seed(seed)
    r = lambda n: torch.randn(n, d, generator=g)
    return dict(X_l=r(nl), y_l=torch.arange(nl) % K, X_u=r(nu), X_u_w=r(nu), X_u_s=r(nu), views={"X_l_s": r(nl), "X_u_s_1": r(nu)}, meta={"idx_u": torch.arange(nu)})


# ------------------------------------------------------------------ classical worlds
def cdata(be, lab=(0, 1, 0), nu=4, seed=0, d=2):
    r = np.random.default_rng(seed)
    lab = np.asarray(lab)
    u = sorted(set(lab.tolist()))
    X = r.normal(size=(len(lab), d)) + 3 * np.array([u.index(v) for v in lab])[:, None]
    U = r.normal(size=(nu, d)) + 3 * (np.arange(nu) % len(u))[:, None]
    cv = (lambda a: a) if be == "numpy" else (lambda a: torch.tensor(a.copy(), dtype=torch.float32 if a.dtype.kind == "f" else torch.int64))
    return dict(X_l=cv(X), y_l=cv(lab), X_u=cv(U), views={"a": {"X_l": cv(X), "X_u": cv(U)}, "b": {"X_l": cv(X[:, ::-1].copy()), "X_u": cv(U[:, ::-1].copy())}})


def cspec(mid, be, cid="knn", params=None, bk=None, **over):
    cls = get_method_class(mid)
    s = cls().spec
    names = {f.name for f in dataclasses.fields(s)}
    d = dict(classifier_id=cid, classifier_backend=bk or be, classifier_params={"k": 1} if params is None else params)
    if "max_iter" in names:
        d["max_iter"] = 3
    d.update({k: v for k, v in over.items() if k in names})
    return cls, dataclasses.replace(s, **d)


def mkc(mid, d):
    return InductiveDataset(**(d if mid == "co_training" else {k: v for k, v in d.items() if k != "views"}))


def query(mid, be, X):
    if mid != "co_training":
        return X
    return InductiveDataset(X_l=X, y_l=None, views={"a": X, "b": X[:, ::-1].copy() if be == "numpy" else X.flip(1)})


# ------------------------------------------------------------------ generic helpers
def npy(x):
    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


def scramble(k):
    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)


def gstate():
    return (random.getstate(), np.random.get_state()[1].tobytes(), np.random.get_state()[2], torch.get_rng_state().numpy().tobytes())


def snapshot(o):
    if isinstance(o, torch.Tensor):
        return ("t", str(o.dtype), tuple(o.shape), o.detach().numpy().tobytes())
    if isinstance(o, np.ndarray):
        return ("n", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, dict):
        return tuple((k, snapshot(v)) for k, v in o.items())
    if dataclasses.is_dataclass(o):
        return tuple((f.name, snapshot(getattr(o, f.name))) for f in dataclasses.fields(o))
    return repr(o)


def raised(f):
    try:
        f()
    except Exception as e:
        return e
    return None


# ------------------------------------------------------------------ sequences of operations
class Maker:
    """Gives fresh specifications, datasets and queries of a method."""

    def __init__(self, mid, variant):
        self.mid, self.variant = mid, variant
        self.deep = mid in DEEP
        if self.deep:
            K = self.K = variant
            self.A, self.B = ddata(3, 4, K, 0), ddata(4, 3, K, 7)
            self.Q = ddata(4, 5, K, 11)["X_u"]
            self.q = self.Q
        else:
            be, cid, lab = variant
            self.be = be
            self.A, self.B = cdata(be, lab, 4, 0), cdata(be, tuple(v + 1 for v in lab) + (lab[0] + 1,), 3, 7)
            self.Q = cdata(be, lab, 5, 11)["X_u"]
            self.q = query(mid, be, self.Q)

    def spec(self):
        if self.deep:
            return dspec(self.mid, self.K)
        be, cid, lab = self.variant
        if cid == "knn":
            return cspec(self.mid, be, "knn", {"k": 1}, confidence_threshold=0.5)
        if cid == "logreg":
            return cspec(self.mid, be, "logreg", {"max_epochs": 3}, "torch", confidence_threshold=0.5)
        return cspec(self.mid, be, cid, {}, "sklearn", confidence_threshold=0.5)

    def data(self, which):
        d = copy.deepcopy(self.A if which == "A" else self.B)
        return InductiveDataset(**d) if self.deep else mkc(self.mid, d)

    def classes(self, which):
        d = self.A if which == "A" else self.B
        return sorted(set(npy(d["y_l"]).tolist()))


FITS = {"fA0": ("A", 0), "fA1": ("A", 1), "fB0": ("B", 0)}
OPS = ("fA0", "fA1", "fB0", "predict", "proba", "scramble")


def run_seq(R, mid, variant, first):
    mk = Maker(mid, variant)
    want = {}
    for name, (w, s) in FITS.items():
        scramble(5)
        cls, spec = mk.spec()
        m = cls(spec)
        e = raised(lambda: m.predict_proba(mk.q))
        R.check(isinstance(e, RuntimeError), f"{mid}: predict_proba before fit gives {type(e).__name__}", f"{mid}:unfitted")
        e = raised(lambda: m.predict(mk.q))
        R.check(isinstance(e, RuntimeError), f"{mid}: predict before fit gives {type(e).__name__}", f"{mid}:unfitted")
        data = mk.data(w)
        before = snapshot(data)
        R.check(m.fit(data, device=CPU, seed=s) is m, f"{mid}: fit does not return the method", f"{mid}:return")
        R.check(snapshot(data) == before, f"{mid}: fit changed the data it was given", f"{mid}:mutate")
        qs = snapshot(mk.q)
        pr = npy(m.predict_proba(mk.q))
        pd = npy(m.predict(mk.q))
        R.check(snapshot(mk.q) == qs, f"{mid}: prediction changed the rows it was given", f"{mid}:mutate-query")
        cl = list(range(mk.K)) if mk.deep else mk.classes(w)
        if mid == "tri_training" and pr.shape[1] < len(cl):
            cl = sorted(set(pd.tolist())) if pr.shape[1] == len(set(pd.tolist())) else None     # every bootstrap sample may miss a class
            if cl is None:
                want[name] = (pr, pd)
                continue
        R.check(pr.shape == (len(mk.Q), len(cl)), f"{mid}: predict_proba has shape {pr.shape} for {len(mk.Q)} rows, classes {cl}", f"{mid}:shape")
        R.check(bool(np.isfinite(pr).all()) and bool((pr >= 0).all()) and np.allclose(pr.sum(1), 1, atol=1e-4), f"{mid}: rows of predict_proba are not probabilities: {pr.tolist()}", f"{mid}:simplex")
        top = np.sort(pr, axis=1)
        for i in range(len(pr)):
            if top[i, -1] - top[i, -2] > 1e-6:
                R.check(pd[i] == cl[int(pr[i].argmax())], f"{mid}: predict says {pd[i]}, the most probable class of {cl} is at {pr[i].argmax()}", f"{mid}:argmax")
            else:
                R.check(pd[i] in cl, f"{mid}: predict says {pd[i]}, not a class of {cl}", f"{mid}:argmax")
        want[name] = (pr, pd)
    n = 4 if R.tier == "thorough" else 3
    # an operation sequence is decided by its fits (predictions and scrambling must not matter): all of them are run
    for rest in itertools.product(OPS, repeat=n - 1):
        seq = (first,) + rest
        if not any(o in FITS for o in seq):
            continue
        if first not in FITS and first != "scramble":
            continue            # predictions before any fit are covered above
        cls, spec = mk.spec()
        m = cls(spec)
        last = None
        scramble(91)
        for o in seq:
            if o in FITS:
                w, s = FITS[o]
                if last is not None and mk.deep:
                    m.spec = mk.spec()[1]       # fresh models: the old ones are trained
                m.fit(mk.data(w), device=CPU, seed=s)
                last = o
            elif o == "scramble":
                scramble(17)
            elif last is None:
                e = raised(lambda: (m.predict if o == "predict" else m.predict_proba)(mk.q))
                R.check(isinstance(e, RuntimeError), f"{mid}: {o} before fit gives {type(e).__name__}", f"{mid}:unfitted")
            elif o == "predict":
                R.check((npy(m.predict(mk.q)) == want[last][1]).all(), f"{mid} {variant}: after {seq} predict differs from a fresh object's", f"{mid}:fresh")
            else:
                R.check(np.allclose(npy(m.predict_proba(mk.q)), want[last][0], atol=1e-6), f"{mid} {variant}: after {seq} predict_proba differs from a fresh object's", f"{mid}:fresh")
            R.step()
        pr = npy(m.predict_proba(mk.q))
        R.check(pr.shape == want[last][0].shape and np.allclose(pr, want[last][0], atol=1e-6), f"{mid} {variant}: after {seq} predict_proba is {pr.tolist()}, a fresh object gives {want[last][0].tolist()}", f"{mid}:fresh")
        R.check((npy(m.predict(mk.q)) == want[last][1]).all(), f"{mid} {variant}: after {seq} predict differs from a fresh object's", f"{mid}:fresh")
        R.state((seq, last))
        R.count("operation sequences")


# ------------------------------------------------------------------ prediction does not depend on batching
def run_batch(R, mid, variant):
    if mid in DEEP:
        kw = dict(drop=True, bn=True)
        cls, spec = dspec(mid, variant, **kw)
        m = cls(spec)
        m.fit(InductiveDataset(**ddata(4, 4, variant)), device=CPU, seed=0)
        Q = ddata(4, 5, variant, 11)["X_u"]
        ms = models(m.spec)
        ref = None
        for bs in range(1, 7):
            m.spec = dataclasses.replace(m.spec, batch_size=bs)
            for mode in itertools.product((True, False), repeat=min(len(ms), 3)):
                for k, x in enumerate(ms):
                    x.train(mode[k % len(mode)])
                modes = [x.training for x in ms]
                before = [snapshot(dict(x.state_dict())) for x in ms]
                scramble(bs)
                pr = npy(m.predict_proba(Q))
                ref = pr if ref is None else ref
                R.check(np.allclose(pr, ref, atol=1e-5), f"{mid}: predict_proba depends on the batch size ({bs}), the training mode {mode} or chance", f"{mid}:batching")
                R.check([x.training for x in ms] == modes, f"{mid}: prediction leaves training modes changed", f"{mid}:mode")
                R.check([snapshot(dict(x.state_dict())) for x in ms] == before, f"{mid}: prediction changed a model's parameters or statistics", f"{mid}:stats")
                R.step()
                R.state((bs, mode))
        perms = list(itertools.permutations(range(5)))[:: 1 if R.tier == "thorough" else 7]
        for p in perms:
            R.check(np.allclose(npy(m.predict_proba(Q[list(p)])), ref[list(p)], atol=1e-5), f"{mid}: a row's prediction depends on the order of rows", f"{mid}:order")
            R.step()
        for i in range(5):
            for dd in (Q[i:i + 1], {"x": Q[i:i + 1]}):
                R.check(np.allclose(npy(m.predict_proba(dd)), ref[i:i + 1], atol=1e-5), f"{mid}: a row alone is predicted differently", f"{mid}:alone")
        R.check(tuple(m.predict(Q[:0]).shape) == (0,), f"{mid}: predict on no rows gives {m.predict(Q[:0])}", f"{mid}:empty")
        R.check(int(m.predict_proba(Q[:0]).shape[0]) == 0, f"{mid}: predict_proba on no rows", f"{mid}:empty")
        for bad in (Q.numpy(), Q.tolist(), None):
            for f in (m.predict_proba, m.predict):
                e = raised(lambda: f(bad))
                R.check(isinstance(e, InductiveValidationError), f"{mid}: predicting a {type(bad).__name__} gives {type(e).__name__}", f"{mid}:backend")
        return
    mk = Maker(mid, variant)
    cls, spec = mk.spec()
    m = cls(spec).fit(mk.data("A"), device=CPU, seed=0)
    ref = npy(m.predict_proba(mk.q))
    rp = npy(m.predict(mk.q))
    n = len(mk.Q)
    for p in list(itertools.permutations(range(n)))[:: 1 if R.tier == "thorough" else 7] + [(i,) for i in range(n)] + [(0, 0, 1)]:
        X = mk.Q[list(p)]
        R.check(np.allclose(npy(m.predict_proba(query(mid, mk.be, X))), ref[list(p)], atol=1e-5), f"{mid} {variant}: a row's probabilities depend on the other rows", f"{mid}:order")
        R.check((npy(m.predict(query(mid, mk.be, X))) == rp[list(p)]).all(), f"{mid} {variant}: a row's label depends on the other rows", f"{mid}:order")
        R.step()
        R.state(p)
    other = torch.tensor(np.asarray(mk.Q)) if mk.be == "numpy" else mk.Q.numpy()
    for f in (m.predict_proba, m.predict):
        got = []
        e = raised(lambda: got.append(npy(f(query(mid, "torch" if mk.be == "numpy" else "numpy", other)))))
        R.check(isinstance(e, (InductiveValidationError, SupervisedValidationError)) or (e is None and np.allclose(got[0], ref if f == m.predict_proba else rp, atol=1e-5)),
                f"{mid}: predicting with the other backend gives {got or type(e).__name__}", f"{mid}:backend")


# ------------------------------------------------------------------ dict inputs
def run_dict(R, mid):
    for K in (2, 3):
        res = []
        for wrap in (False, True):
            cls, spec = dspec(mid, K)
            d = ddata(3, 4, K)
            if wrap:
                w = lambda t: {"x": t, "s": "keep"}
                d = {k: (w(v) if k.startswith("X") else v) for k, v in d.items()}
                d["views"] = {k: w(v) for k, v in d["views"].items()}
            m = cls(spec)
            e = raised(lambda: m.fit(InductiveDataset(**d), device=CPU, seed=3))
            if wrap and isinstance(e, InductiveValidationError):
                R.count("dict inputs refused")
                R.outcome(mid, "refused")
                return
            R.check(e is None, f"{mid}: fit with {'dict' if wrap else 'tensor'} inputs raises {type(e).__name__}: {e}", f"{mid}:dict")
            Q = ddata(4, 5, K, 11)["X_u"]
            a, b = npy(m.predict_proba(Q)), npy(m.predict_proba({"x": Q}))
            R.check(np.allclose(a, b, atol=1e-6), f"{mid}: a dict of the same rows is predicted differently", f"{mid}:dict")
            res.append(a)
            R.step()
            R.state((mid, K, wrap))
        R.check(np.allclose(res[0], res[1], atol=1e-5), f"{mid}: training on dict inputs gives another model than on the same tensors", f"{mid}:dict")


# ------------------------------------------------------------------ defects
def ddefects(d):
    yield "X_l 1d", {**d, "X_l": d["X_l"][:, 0]}
    yield "X_l None", {**d, "X_l": None}
    yield "X_l list", {**d, "X_l": d["X_l"].tolist()}
    yield "X_l numpy", {**d, "X_l": d["X_l"].numpy()}
    yield "X_l int", {**d, "X_l": d["X_l"].long()}
    yield "X_l empty", {**d, "X_l": d["X_l"][:0], "y_l": d["y_l"][:0], "views": {**d["views"], "X_l_s": d["X_l"][:0]}}
    yield "X_l short", {**d, "X_l": d["X_l"][:-1]}
    yield "y 2d", {**d, "y_l": d["y_l"][:, None]}
    yield "y short", {**d, "y_l": d["y_l"][:-1]}
    yield "y float", {**d, "y_l": d["y_l"].float()}
    yield "y neg", {**d, "y_l": d["y_l"] - 1}
    yield "y big", {**d, "y_l": d["y_l"] + 5}
    yield "y numpy", {**d, "y_l": d["y_l"].numpy()}
    yield "y None", {**d, "y_l": None}
    for k in ("X_u", "X_u_w", "X_u_s"):
        yield k + " dim", {**d, k: d[k][:, :2]}
        yield k + " numpy", {**d, k: d[k].numpy()}
        yield k + " 1d", {**d, k: d[k][:, 0]}
    for k in ("X_u_w", "X_u_s"):
        yield k + " short", {**d, k: d[k][:-1]}
    yield "no unlabelled", {**d, "X_u": None, "X_u_w": None, "X_u_s": None}
    yield "empty unlabelled", {**d, "X_u": d["X_u"][:0], "X_u_w": d["X_u_w"][:0], "X_u_s": d["X_u_s"][:0]}
    yield "views key", {**d, "views": {1: d["X_u"]}}
    yield "views list", {**d, "views": [d["X_u"]]}
    yield "views numpy", {**d, "views": {"X_l_s": d["X_l"].numpy()}}


WEAK_STRONG = {m for m in DEEP if m not in ("simclr_v2", "vat", "noisy_student", "deep_co_training", "trinet")}
BAD = dict(batch_size=[0, -1], max_epochs=[0, -1], lambda_u=[-1.0], temperature=[0.0, -1.0], p_cutoff=[-0.1, 1.1], ema_p=[-0.1, 1.1], unsup_warm_up=[-0.1], ema_decay=[-0.1, 1.1], lambda_c=[-1.0],
           contrast_p_cutoff=[-0.1, 1.1], smoothing_alpha=[-0.1, 1.1], queue_size=[-1], da_len=[-1], lambda_align=[-1.0], t_proto=[0.0], t_dist=[0.0, -1.0], pretrain_steps=[-1], dist_update_period=[0],
           interp_alpha=[-1.0, 1.1], score_warmup_epochs=[-1], majority_class=[-1, 2], lambda_e=[-1.0], n_sigma=[0.0, -1.0], mixup_alpha=[-1.0], distill_temperature=[0.0], alpha=[-0.1, 1.1], pretrain_epochs=[-1],
           finetune_epochs=[-1], distill_epochs=[-1], uda_weight=[-1.0], uda_threshold=[-0.1, 1.1], uda_temperature=[0.0], label_smoothing=[-0.1, 1.1], mpl_ema=[-0.1, 1.1], mpl_weight=[-1.0], tsa_schedule=["bad"],
           xi=[0.0, -1.0], eps=[0.0, -1.0], num_iters=[0, -1], teacher_epochs=[-1], lambda_cot=[-1.0], lambda_dif=[-1.0], adv_eps=[-1.0], sigma0=[-0.1, 1.1], sigma_os=[-0.1], sigma_decay=[-0.1], output_smearing_std=[-1.0],
           pool_base=[0, -1], max_rounds=[-1], init_epochs=[0], train_epochs=[0], des_passes=[0], des_drop_fraction=[-0.1, 1.1], labeling_stability_passes=[0], min_queue_fill=[-1])
BUNDLES = ("model_bundle", "teacher_bundle", "student_bundle", "model_bundle_1", "model_bundle_2", "shared_bundle")


def refuse(R, mid, what, spec, cls, data):
    m = cls(spec)
    before = [snapshot(dict(x.state_dict())) for x in models(spec)] if mid in DEEP else None
    e = raised(lambda: m.fit(data, device=CPU, seed=0))
    R.check(isinstance(e, InductiveValidationError), f"{mid}: {what}: fit {'accepts it' if e is None else 'raises ' + type(e).__name__ + ': ' + str(e)[:80]}", f"{mid}:{what}")
    if before is not None and what[:2] != "y " and mid not in ("simclr_v2", "meta_pseudo_labels"):     # those two set up one model before they look at the next
        R.check([snapshot(dict(x.state_dict())) for x in models(spec)] == before, f"{mid}: {what}: refused, but the models were changed", f"{mid}:{what}:changed")
    R.step()
    R.state((mid, what))


def run_defects(R, mid):
    if mid in DEEP:
        for n, d in ddefects(ddata()):
            cls, spec = dspec(mid)
            refuse(R, mid, n, spec, cls, InductiveDataset(**d))
        if mid in WEAK_STRONG:
            for k in ("X_u_w", "X_u_s"):
                for n, v in (("None", None), ("empty", ddata()[k][:0]), ("int", ddata()[k].long())):
                    cls, spec = dspec(mid)
                    refuse(R, mid, f"{k} {n}", spec, cls, InductiveDataset(**{**ddata(), k: v}))
        cls, spec = dspec(mid)
        refuse(R, mid, "no data", spec, cls, None)
        for f in dataclasses.fields(spec):
            for v in BAD.get(f.name, ()):
                cls, s = dspec(mid, over={f.name: v})
                refuse(R, mid, f"{f.name}={v}", s, cls, InductiveDataset(**ddata()))
            if f.name in BUNDLES:
                other = Net(2, seed=8)
                good = getattr(spec, f.name)
                frozen = copy.deepcopy(good.model)
                for p in frozen.parameters():
                    p.requires_grad_(False)
                for n, v in (("None", None), ("no bundle", good.model), ("foreign optimizer", dataclasses.replace(good, optimizer=torch.optim.SGD(other.parameters(), lr=0.1))),
                             ("no optimizer", dataclasses.replace(good, optimizer=None)), ("no model", dataclasses.replace(good, model=lambda x: x)), ("frozen", dataclasses.replace(good, model=frozen))):
                    if mid == "simclr_v2" and n == "None":
                        continue        # a stage without its own bundle goes on with the previous one
                    cls, s = dspec(mid, over={f.name: v})
                    refuse(R, mid, f"{f.name} {n}", s, cls, InductiveDataset(**ddata()))
        # the dataset itself is good
        cls, spec = dspec(mid)
        R.check(raised(lambda: cls(spec).fit(InductiveDataset(**ddata()), device=CPU, seed=0)) is None, f"{mid}: a good dataset is refused", f"{mid}:good")
        return
    for be in ("numpy", "torch"):
        base = cdata(be)
        f32 = (lambda a: a.astype(np.float64)) if be == "numpy" else (lambda a: a.float())
        noU = mid in ("s4vm", "tri_training")
        tab = [("y 2d", {"y_l": base["y_l"][:, None]}), ("y short", {"y_l": base["y_l"][:-1]}), ("y float", {"y_l": f32(base["y_l"])}), ("y None", {"y_l": None}), ("X_l None", {"X_l": None}), ("X_l list", {"X_l": base["X_l"].tolist()}),
               ("empty", {"X_l": base["X_l"][:0], "y_l": base["y_l"][:0]}), ("y other backend", {"y_l": torch.tensor(npy(base["y_l"])) if be == "numpy" else npy(base["y_l"])})]
        if mid != "co_training":
            tab += [("X_l 1d", {"X_l": base["X_l"][:, 0]}), ("X_l short", {"X_l": base["X_l"][:-1]}), ("X_u dim", {"X_u": base["X_u"][:, :1]}), ("X_u 1d", {"X_u": base["X_u"][:, 0]}),
                    ("X_u other backend", {"X_u": torch.tensor(npy(base["X_u"])) if be == "numpy" else npy(base["X_u"])})]
        else:
            va, vb = base["views"]["a"], base["views"]["b"]
            tab += [("no views", {"views": None}), ("one view", {"views": {"a": va}}), ("view rows", {"views": {"a": va, "b": {"X_l": vb["X_l"][:-1], "X_u": vb["X_u"]}}}),
                    ("view unlabelled rows", {"views": {"a": va, "b": {"X_l": vb["X_l"], "X_u": vb["X_u"][:-1]}}}), ("view shape", {"views": {"a": va, "b": vb["X_l"]}}), ("view keys", {"views": {"a": va, "b": {"X_l": vb["X_l"]}}}),
                    ("view backend", {"views": {"a": va, "b": {"X_l": torch.tensor(npy(vb["X_l"]).copy()) if be == "numpy" else npy(vb["X_l"]), "X_u": vb["X_u"]}}})]
        if noU:
            tab.append(("no unlabelled", {"X_u": None}))
        for n, ch in tab:
            cls, spec = cspec(mid, be)
            refuse(R, mid, f"{be} {n}", spec, cls, mkc(mid, {**base, **ch}))
        cls, spec = cspec(mid, be, bk="torch" if be == "numpy" else "numpy")
        refuse(R, mid, f"{be} classifier of the other backend", spec, cls, mkc(mid, base))
        if be == "numpy":
            cls, spec = cspec(mid, be)
            e = raised(lambda: cls(spec).fit(mkc(mid, base), device=DeviceSpec("cuda"), seed=0))
            R.check(isinstance(e, InductiveValidationError), f"{mid}: numpy data on a GPU device gives {type(e).__name__}", f"{mid}:gpu")
        if mid == "s4vm":
            for lab in ((0, 0, 0), (0, 1, 2)):
                cls, spec = cspec(mid, be)
                refuse(R, mid, f"{be} classes {lab}", spec, cls, mkc(mid, cdata(be, lab)))
        cls, spec = cspec(mid, be)
        R.check(raised(lambda: cls(spec).fit(mkc(mid, base), device=CPU, seed=0)) is None, f"{mid}: a good dataset is refused", f"{mid}:good")


# ------------------------------------------------------------------ adapters: the whole product of field defects
def run_adapter(R, be, part):
    np_ = be != "torch"
    z = (lambda *s: np.zeros(s)) if np_ else (lambda *s: torch.zeros(*s))
    zi = (lambda *s: np.zeros(s, dtype=np.int64)) if np_ else (lambda *s: torch.zeros(*s, dtype=torch.int64))
    oth = torch.zeros(3, 2) if np_ else np.zeros((3, 2))
    fu = [(z(4, 2), True), (None, True), (z(0, 2), True), (z(4, 3), False), (z(4), False), (oth, "type")]
    fw = [(z(4, 2), True, 4), (None, True, None), (z(3, 2), True, 3), (z(4, 1), False, 4), (z(4), False, 4)]
    fl = [(z(3, 2), True), (z(3, 2, 2), True), (z(3), False), (oth, "type"), (z(0, 2), True), ([[0.0, 1.0]] * 3, "type")]
    fy = [(zi(3), True), (zi(3, 1), True), (zi(2), False), (zi(3, 1, 1), False), (zi(0), True), (None, False), ([0, 1, 0], "type"), (z(3), True)]
    fv = [(None, True), ({"a": z(3, 2)}, True), ({3: z(3, 2)}, False), ([z(3, 2)], False)]
    fm = [(None, True), ({"k": 1}, True), ([1], False)]
    f = {"validate": validate_inductive_dataset, "numpy": to_numpy_dataset, "torch": lambda d: to_torch_dataset(d, device=CPU)}[be]
    for (xl, okl), (y, oky) in list(itertools.product(fl, fy))[part::4]:
        nl = len(xl)
        ny = None if y is None else len(y)
        for (xu, oku), (w, okw, nw), (s, oks, ns), (v, okv), (mt, okm) in itertools.product(fu, fw, fw, fv, fm):
            ok = oky is not False and okl is not False and ny == nl and oku is not False and okw and oks and okv and (nw is None or ns is None or nw == ns)
            if be != "torch":
                ok = ok and okm           # the torch adapter leaves meta to the methods
            if be != "validate":
                ok = ok and "type" not in (okl, oky, oku)
            d = InductiveDataset(X_l=xl, y_l=y, X_u=xu, X_u_w=w, X_u_s=s, views=v, meta=mt)
            try:
                out = f(d)
                err = None
            except Exception as e:
                err = e
            R.count("datasets")
            if ok:
                R.check(err is None, lambda: f"{be}: a valid dataset is refused: {type(err).__name__}: {err}", f"{be}:refused")
                if be != "validate":
                    R.check(out.X_l is xl and out.y_l is y and out.X_u is xu and out.X_u_w is w and out.X_u_s is s, f"{be}: the adapter hands on other arrays", f"{be}:identity")
                    R.check((v is None and out.views is None) or (v is not None and out.views["a"] is v["a"]), f"{be}: the adapter changes the views", f"{be}:identity")
            else:
                R.check(isinstance(err, InductiveValidationError), lambda: f"{be}: invalid dataset (X_l {okl} y {oky} rows {nl}/{ny} X_u {oku} weak {okw} strong {oks} {nw}/{ns} views {okv} meta {okm}): {'accepted' if err is None else type(err).__name__ + ': ' + str(err)[:80]}", f"{be}:accepted")
        R.step(300)
        R.state((be, part, okl, oky, nl, ny))
    if be == "torch" and part == 0:
        for key in ("idx_u", "unlabeled_idx", "unlabeled_indices"):
            for v in ([2, 0, 1, 3], np.array([2, 0, 1, 3], dtype=np.int32), torch.tensor([2, 0, 1, 3], dtype=torch.int32), (2, 0, 1, 3)):
                meta = {key: v, "other": 1}
                out = to_torch_dataset(InductiveDataset(X_l=z(3, 2), y_l=zi(3), X_u=z(4, 2), meta=meta), device=CPU)
                R.check(out.meta[key].dtype == torch.int64 and out.meta[key].tolist() == [2, 0, 1, 3] and out.meta["other"] == 1, f"meta[{key}] becomes {out.meta[key]}", "torch:meta")
                R.check(meta[key] is v, "the caller's meta is changed", "torch:meta")
        for d in (None,):
            for g in (validate_inductive_dataset, to_numpy_dataset, to_torch_dataset):
                R.check(isinstance(raised(lambda: g(d)), InductiveValidationError), f"{g.__name__}(None) is not refused", "none")


# ------------------------------------------------------------------ graph data helpers
def run_slice(R, n, part):
    nodes = list(range(n))
    pairs = list(itertools.product(nodes, nodes))
    idxs = []
    for k in range(n + 1):
        idxs += [("i", list(p)) for p in itertools.permutations(nodes, k)]
    idxs += [("m", [bool(b >> i & 1) for i in range(n)]) for b in range(2 ** n)]
    idxs += [("s", (a, b, s)) for a in [None] + list(range(n + 1)) for b in [None, -1] + list(range(n + 2)) for s in (None, 1, 2)]
    for es in list(gen.subsets(pairs))[part::4]:
        es = list(es)
        es = es[::-1] if part % 2 else es
        ei = torch.tensor(es, dtype=torch.long).reshape(-1, 2).t().contiguous()
        x = torch.arange(n, dtype=torch.float32)[:, None] + 1
        w = torch.arange(len(es), dtype=torch.float32) + 10
        g = {"x": x, "edge_index": ei, "edge_weight": w, "node": torch.arange(n) + 100, "name": "g", "table": torch.zeros(n + 5, 2)}
        snap = snapshot(g)
        for kind, i in idxs if len(es) <= 3 or R.tier == "thorough" else idxs[::3]:
            if kind == "i":
                idx, pos = torch.tensor(i, dtype=torch.long), i
            elif kind == "m":
                idx, pos = torch.tensor(i, dtype=torch.bool), [j for j in nodes if i[j]]
            else:
                idx = slice(*i)
                pos = nodes[idx]
            what = f"{n} nodes, edges {es}, rows {kind}{i}"
            for weighted in (True, False):
                gg = g if weighted else {k: v for k, v in g.items() if k != "edge_weight"}
                out = ts.slice_data(gg, idx)
                R.check(set(out) == set(gg), f"{what}: keys {sorted(out)}", "slice:keys")
                R.check(out["x"].flatten().tolist() == [float(p + 1) for p in pos] and out["node"].tolist() == [p + 100 for p in pos], f"{what}: rows {out['x'].tolist()} {out['node'].tolist()}", "slice:rows")
                R.check(out["name"] == "g" and out["table"].shape == g["table"].shape, f"{what}: an entry that is not per row was cut", "slice:other")
                at = {p: k for k, p in enumerate(pos)}
                want = [(at[a], at[b], float(10 + k)) for k, (a, b) in enumerate(es) if a in at and b in at]
                got = [tuple(c) for c in out["edge_index"].t().tolist()]
                if weighted:
                    R.check(len(out["edge_weight"]) == len(got), f"{what}: {len(got)} edges, {len(out['edge_weight'])} weights", "slice:weights")
                    R.check(sorted((a, b, float(v)) for (a, b), v in zip(got, out["edge_weight"].tolist())) == sorted(want), f"{what}: edges {got} weights {out['edge_weight'].tolist()}, expected {want}", "slice:weights")
                else:
                    R.check(sorted(got) == sorted(c[:2] for c in want), f"{what}: edges {got}, expected {want}", "slice:edges")
                R.count("slices")
            if kind != "s" and len(es) <= 2:
                t = torch.arange(n * 2).reshape(n, 2)
                R.check(ts.slice_data(t, idx).tolist() == t[idx].tolist(), "slicing a tensor", "slice:tensor")
        R.check(snapshot(g) == snap, f"{n} nodes, edges {es}: slicing changed its input", "slice:mutate")
        R.step()
        R.state((n, tuple(es)))


def run_concat(R, part):
    gs = []
    for n in (1, 2):
        for es in gen.subsets(list(itertools.product(range(n), repeat=2))):
            gs.append((n, list(es)))
    gs.append((3, [(2, 0), (0, 1)]))
    gs.append((0, []))

    def mk(n, es, base, wt):
        d = {"x": torch.arange(n, dtype=torch.float32)[:, None] + base, "edge_index": torch.tensor(es, dtype=torch.long).reshape(-1, 2).t().contiguous(), "node": torch.arange(n) + base}
        if wt:
            d["edge_weight"] = torch.arange(len(es), dtype=torch.float32) + base + 1
        return d

    for (n1, e1), (n2, e2) in list(itertools.product(gs, gs))[part::2]:
        for w1, w2 in itertools.product((True, False), repeat=2):
            a, b = mk(n1, e1, 10, w1), mk(n2, e2, 20, w2)
            out = ts.concat_data([a, b])
            what = f"union of {e1} on {n1} and {e2} on {n2} nodes (weights {w1}/{w2})"
            R.check(out["x"].flatten().tolist() == [10.0 + i for i in range(n1)] + [20.0 + i for i in range(n2)] and out["node"].tolist() == [10 + i for i in range(n1)] + [20 + i for i in range(n2)], f"{what}: rows {out['x'].tolist()}", "concat:rows")
            we = [tuple(p) for p in e1] + [(u + n1, v + n1) for u, v in e2]
            ge = [tuple(c) for c in out["edge_index"].t().tolist()]
            R.check(sorted(ge) == sorted(we), f"{what}: edges {ge}", "concat:edges")
            if w1 or w2:
                ww = [11.0 + i if w1 else 1.0 for i in range(len(e1))] + [21.0 + i if w2 else 1.0 for i in range(len(e2))]
                R.check(sorted(zip(ge, out["edge_weight"].tolist())) == sorted(zip(we, ww)) and len(ge) == len(out["edge_weight"]), f"{what}: weights {out['edge_weight'].tolist()}", "concat:weights")
            else:
                R.check("edge_weight" not in out, f"{what}: weights appear", "concat:weights")
            for lo, hi, g in ((0, n1, a), (n1, n1 + n2, b)):
                back = ts.slice_data(out, slice(lo, hi))
                R.check(torch.equal(back["x"], g["x"]) and torch.equal(back["edge_index"], g["edge_index"]), f"{what}: cutting a block out again gives {back}", "concat:back")
            if w1 == w2 and n1 and n2:
                bt = ts.cat_data([a, b])
                R.check(torch.equal(bt["x"], out["x"]) and sorted(map(tuple, bt["edge_index"].t().tolist())) == sorted(we), f"{what}: cat_data gives {bt}", "cat:graph")
                R.check(bt["node"].tolist() == out["node"].tolist(), f"{what}: cat_data rows {bt['node'].tolist()}", "cat:graph")
                if w1:
                    R.check(bt["edge_weight"].tolist() == [11.0 + i for i in range(len(e1))] + [21.0 + i for i in range(len(e2))], f"{what}: cat_data weights", "cat:graph")
            t = ts.cat_data([{"x": a["x"], "node": a["node"], "s": 1}, {"x": b["x"], "node": b["node"], "s": 1}])
            R.check(torch.equal(t["x"], out["x"]) and t["node"].tolist() == out["node"].tolist() and t["s"] == 1, f"{what}: cat_data of plain dicts", "cat:plain")
            R.check(torch.equal(ts.cat_data([a["x"], b["x"]]), out["x"]) and torch.equal(ts.concat_data([a["x"], b["x"]]), out["x"]), f"{what}: tensors", "cat:tensor")
            R.step()
            R.state((n1, tuple(e1), n2, tuple(e2), w1, w2))


def run_batches(R):
    for n, bs, seed in itertools.product(range(1, 7), range(1, 8), range(3)):
        per = -(-n // bs)
        R.check(ts.num_batches(n, bs) == per, f"num_batches({n},{bs}) = {ts.num_batches(n, bs)}", "num-batches")
        for steps in range(0, 9):
            g = lambda: torch.Generator().manual_seed(seed)
            out = [b.tolist() for b in ts.cycle_batch_indices(n, batch_size=bs, generator=g(), device=torch.device("cpu"), steps=steps)]
            R.check(len(out) == steps, f"{steps} batches asked for, {len(out)} given", "cycle:steps")
            for p in range(0, steps, per):
                flat = [i for b in out[p:p + per] for i in b]
                whole = len(out[p:p + per]) == per
                R.check(len(set(flat)) == len(flat) and set(flat) <= set(range(n)) and (not whole or len(flat) == n), f"n={n} batch={bs}: pass {out[p:p + per]}", "cycle:pass")
                R.check(all(len(b) == bs for b in out[p:p + per][:per - 1]), f"n={n} batch={bs}: pass {out[p:p + per]} has a short batch before its last", "cycle:size")
            X, y = torch.arange(n)[:, None] * 1.0, torch.arange(n)
            for data in (X, {"x": X, "node": y}):
                got = list(ts.cycle_batches(data, y, batch_size=bs, generator=g(), steps=steps))
                R.check([b[1].tolist() for b in got] == out, f"n={n} batch={bs}: cycle_batches gives {[b[1].tolist() for b in got]}, indices {out}", "cycle:same")
                for xb, yb in got:
                    v = xb["x"] if isinstance(xb, dict) else xb
                    R.check(v.flatten().tolist() == [float(i) for i in yb.tolist()], "rows and labels of a batch do not match", "cycle:aligned")
                got2 = list(ts.cycle_batches(data, None, batch_size=bs, generator=g(), steps=steps))
                R.check(all(b[1] is None for b in got2) and len(got2) == steps, "cycle_batches without labels", "cycle:nolabels")
            R.step()
        R.state((n, bs, seed))
    e = raised(lambda: list(ts.cycle_batches(torch.zeros(0, 2), None, batch_size=1, generator=None, steps=1)))
    R.check(isinstance(e, InductiveValidationError), f"batching no rows gives {type(e).__name__}", "cycle:empty")


LEVELS = (0.05, 0.2, 0.35, 0.5, 0.65, 0.8)


def run_select(R, K, part):
    # every assignment of distinct scores to n rows x K classes, up to the values' order
    n = 3 if K == 2 else 2
    combos = list(itertools.permutations(LEVELS, n * K))[part::4]
    if R.tier != "thorough":
        combos = combos[::2]
    for vals in combos:
        S = np.array(vals).reshape(n, K)
        snap = S.copy()
        conf, pred = S.max(1), S.argmax(1)
        T = torch.tensor(S)
        for thr in (None, 0.0, 0.3, 0.35, 0.6, 0.95):
            el = [i for i in range(n) if thr is None or conf[i] >= thr]
            for mx in (None, 0, 1, 2, 5):
                want = sorted(el) if mx is None or len(el) <= mx else sorted(sorted(el, key=lambda i: -conf[i])[:mx])
                a = sorted(cb.select_confident(S, threshold=thr, max_new=mx).tolist())
                b = sorted(cb.select_confident_torch(T, threshold=thr, max_new=mx).tolist())
                R.check(a == want, f"select_confident {S.tolist()} thr {thr} max {mx}: {a}, expected {want}", "confident")
                R.check(b == want, f"select_confident_torch {S.tolist()} thr {thr} max {mx}: {b}, expected {want}", "confident-torch")
            for k in (0, 1, 2, 5):
                want = []
                for c in range(K):
                    mine = sorted((i for i in el if pred[i] == c), key=lambda i: -conf[i])
                    want += mine[:k]
                want.sort()
                a = cb.select_top_per_class(S, k_per_class=k, threshold=thr).tolist()
                b = cb.select_top_per_class_torch(T, k_per_class=k, threshold=thr).tolist()
                R.check(a == want, f"select_top_per_class {S.tolist()} thr {thr} k {k}: {a}, expected {want}", "top")
                R.check(b == want, f"select_top_per_class_torch {S.tolist()} thr {thr} k {k}: {b}, expected {want}", "top-torch")
        for shift in (0.0, -0.4, -2.0):
            V = S + shift
            V[0] *= 0 if shift == 0.0 and part == 0 else 1
            a = cb.normalize_scores(V.copy(), backend="numpy")
            b = cb.normalize_scores(torch.tensor(V), backend="torch").numpy()
            for r in range(n):
                if (V[r] < 0).any():
                    e = np.exp(V[r] - V[r].max())
                    want = e / e.sum()
                else:
                    want = V[r] / V[r].sum() if V[r].sum() else V[r]
                R.check(np.allclose(a[r], want, atol=1e-6) and np.allclose(b[r], want, atol=1e-6), f"normalize_scores {V[r].tolist()}: {a[r].tolist()} {b[r].tolist()}, expected {want.tolist()}", "normalize")
        for Tm in (0.25, 0.5, 1.0, 2.0):
            P = S / S.sum(1, keepdims=True)
            got = ts.sharpen_probs(torch.tensor(P), temperature=Tm).numpy()
            want = P ** (1 / Tm)
            want = want / want.sum(1, keepdims=True)
            R.check(np.allclose(got, want, atol=1e-9), f"sharpen_probs {P.tolist()} at {Tm}: {got.tolist()}", "sharpen")
        R.check((S == snap).all(), "selection changed the scores", "select:mutate")
        R.step()
        R.state(tuple(np.argsort(S.flatten()).tolist()))
    for t in (0.0, -1.0):
        R.check(isinstance(raised(lambda: ts.sharpen_probs(torch.ones(1, 2), temperature=t)), InductiveValidationError), f"temperature {t} is accepted", "sharpen:bad")


def run_bn(R):
    class Boom(Exception):
        pass
    for modes in itertools.product((True, False), repeat=4):
        net = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.BatchNorm1d(2), torch.nn.Dropout(0.5), torch.nn.Sequential(torch.nn.BatchNorm1d(2), torch.nn.Linear(2, 2)))
        net.train(modes[0])
        net[1].train(modes[1])
        net[2].train(modes[2])
        net[3][0].train(modes[3])
        for enabled, boom in itertools.product((True, False), repeat=2):
            before = [m.training for m in net.modules()]
            try:
                with ts.freeze_batchnorm(net, enabled=enabled):
                    R.check([net[1].training, net[3][0].training] == ([False, False] if enabled else [modes[1], modes[3]]), "batch normalisation is not frozen as asked", "bn:inside")
                    R.check(net[2].training is modes[2] and net[0].training is modes[0], "freezing batch normalisation changes other layers", "bn:other")
                    if boom:
                        raise Boom
            except Boom:
                pass
            R.check([m.training for m in net.modules()] == before, f"modes {before} not restored", "bn:restore")
            R.step()
        R.state(modes)
    for sizes in itertools.product((None, 0, 1, 2, 3), repeat=2):
        for en in (True, False):
            want = en or any(s is not None and s < 2 for s in sizes)
            for wrap in (False, True):
                xs = [None if s is None else ({"x": torch.zeros(s, 2)} if wrap else torch.zeros(s, 2)) for s in sizes]
                R.check(ts.should_freeze_batchnorm(*xs, enabled=en) is want, f"should_freeze_batchnorm{sizes} enabled={en}", "bn:should")


def run_registry(R):
    ids = available_methods()
    R.check(sorted(ids) == sorted(DEEP + CLASSIC), f"available methods {sorted(ids)}", "registry:ids")
    register_builtin_methods()
    register_builtin_methods()
    R.check(available_methods() == ids, "registering again changes the list", "registry:idempotent")
    for mid in ids:
        info, cls = get_method_info(mid), get_method_class(mid)
        R.check(info.method_id == mid and cls.info is info and get_method_class(mid) is cls, f"{mid}: registered as {info.method_id}", "registry:info")
        a, b = cls(), cls()
        R.check(a.spec == b.spec, f"{mid}: two default specifications differ", "registry:spec")
        R.state(mid)
        R.step()
    for bad in ("", "FixMatch", "fixmatch ", "nope"):
        R.check(raised(lambda: get_method_class(bad)) is not None and raised(lambda: get_method_info(bad)) is not None, f"unknown method {bad!r} is accepted", "registry:unknown")
    for seed in (0, 1, 2 ** 31):
        outs = []
        for junk in (3, 4):
            scramble(junk)
            seed_everything(seed, deterministic=False)
            outs.append((random.random(), np.random.rand(3).tolist(), torch.rand(3).tolist(), make_numpy_rng(seed).random(3).tolist()))
        R.check(outs[0] == outs[1], f"seed_everything({seed}) does not fix the generators", "seed")
        R.state(("seed", outs[0][0]))


def run_bundle(R):
    """Every combination of good and bad parts of a bundle."""
    good = Net(2, seed=1)
    other = Net(2, seed=2)
    frozen = Net(2, seed=3)
    for p in frozen.parameters():
        p.requires_grad_(False)
    half = Net(2, seed=4)
    half.a.weight.requires_grad_(False)
    sgd = lambda m: torch.optim.SGD(m.parameters(), lr=0.1)
    ms = {"good": good, "frozen": frozen, "half": half, "none": None, "func": lambda x: x, "empty": torch.nn.Identity()}
    for (mn, mod), on, en in itertools.product(ms.items(), ("own", "part", "foreign", "mixed", "none"), ("none", "good", "func")):
        own = mod if isinstance(mod, torch.nn.Module) and list(mod.parameters()) else good
        opt = {"own": lambda: sgd(own), "part": lambda: torch.optim.SGD([own.b.weight], lr=0.1), "foreign": lambda: sgd(other), "mixed": lambda: torch.optim.SGD([own.b.weight, other.b.weight], lr=0.1), "none": lambda: None}[on]()
        b = TorchModelBundle(model=mod, optimizer=opt, ema_model={"none": None, "good": Net(2, seed=9), "func": (lambda x: x)}[en])
        ok = mn in ("good", "half") and on in ("own", "part") and en != "func"
        e = raised(lambda: validate_torch_model_bundle(b))
        R.check((e is None) if ok else isinstance(e, InductiveValidationError), f"bundle with model {mn}, optimizer {on}, teacher {en}: {'accepted' if e is None else type(e).__name__}", "bundle")
        if ok:
            R.check(validate_torch_model_bundle(b) is b, "validation returns another bundle", "bundle")
        R.step()
        R.state((mn, on, en))
    for bad in (None, good, {}, (good, None)):
        R.check(isinstance(raised(lambda: validate_torch_model_bundle(bad)), InductiveValidationError), f"{type(bad).__name__} passes for a bundle", "bundle")


def cvariants(mid):
    out = []
    for be in ("numpy", "torch"):
        one = mid == "tri_training"         # its bootstrap samples may hold a single class, which the other classifiers refuse
        for cid in ("knn",) + (() if one else ("logreg",) if be == "torch" else ("ridge", "linear_svm")):
            for lab in ((0, 1, 0), (1, 3, 3), (5, 2, 9, 2)):
                if mid == "s4vm" and len(set(lab)) > 2:
                    continue
                if cid != "knn" and lab == (0, 1, 0):
                    continue
                out.append((be, cid, lab))
    return out


def cases(tier):
    out = [("registry",), ("bundle",), ("bn",), ("batches",)]
    out += [("concat", p) for p in range(2)]
    out += [("slice", n, p) for n in (1, 2, 3) for p in range(4)]
    out += [("select", K, p) for K in (2, 3) for p in range(4)]
    out += [("adapter", be, p) for be in ("validate", "numpy", "torch") for p in range(4)]
    out += [("defects", m) for m in DEEP + CLASSIC]
    out += [("dict", m) for m in DEEP]
    for m in DEEP:
        for K in (2, 3):
            out.append(("batch", m, K))
            out += [("seq", m, K, f) for f in ("fA0", "fA1", "fB0", "scramble")]
    for m in CLASSIC:
        for v in cvariants(m):
            out.append(("batch", m, v))
            out += [("seq", m, v, f) for f in ("fA0", "fA1", "fB0", "scramble")]
    return out


def run_case(case, R):
    {"registry": run_registry, "bundle": run_bundle, "bn": run_bn, "batches": run_batches, "concat": run_concat, "slice": run_slice, "select": run_select, "adapter": run_adapter,
     "defects": run_defects, "dict": run_dict, "batch": run_batch, "seq": run_seq}[case[0]](R, *case[1:])
