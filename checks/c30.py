"""Deep inductive methods: every optimiser step against an independent loss, batches cover the data, models returned are the trained ones."""
import copy
import dataclasses
import itertools
import logging
import math
import random
import warnings
from types import SimpleNamespace

import numpy as np
import torch
from mc import deep
from mc.deep import LOG, Lin, Rec, rows, segments
from modssc.inductive.deep import TorchModelBundle
from modssc.inductive.registry import get_method_class
from modssc.inductive.types import DeviceSpec, InductiveDataset

PID = "C30"
BOUNDS = {"quick": "20 deep methods; 2 and 3 classes; (labelled, unlabelled, batch, epochs) in {(2,2,64,2),(2,2,1,2),(3,2,2,1),(1,3,2,3),(2,5,2,2)}; a quarter of the confidence patterns over 4 levels; every combination of the loss settings; float64 plus one float32 run each",
          "thorough": "the same with every confidence pattern"}
ASSUMPTIONS = ["confidences within 1e-6 of their own threshold are not judged: rounding decides them (counted as unjudged)",
               "the model is a table of logits (one row per sample) trained by plain gradient descent, so a step shows the gradient of the loss for every sample; architectures are not varied",
               "random directions, mixing weights and output smearing noise are read off the run and checked for what they must satisfy, not predicted"]
CASE_TIMEOUT = 800
CPU = DeviceSpec("cpu")
LEV = {2: [[2.4, 0.0], [-0.2, 2.9], [0.3, 0.0], [0.1, 1.1]], 3: [[2.9, 0.1, 0.0], [-0.2, 3.1, 0.2], [0.5, 0.0, 0.2], [0.2, 0.0, 1.9]]}


def setup(tier):
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    torch.set_num_threads(1)


# ------------------------------------------------------------------ small maths, written independently
def lsm(z):
    return z - torch.logsumexp(z, dim=1, keepdim=True)


def sm(z):
    return lsm(z).exp()


def ce(z, y):
    return torch.stack([-lsm(z)[i, int(c)] for i, c in enumerate(y)])


def sce(z, t):
    return -(t * lsm(z)).sum(dim=1)


def sharp(p, T):
    q = p ** (1.0 / T)
    return q / q.sum(dim=1, keepdim=True)


def mmean(l, m):
    m = m.to(l.dtype)
    return (l * m).sum() / max(float(m.sum()), 1.0)


def unit(v):
    return v / v.norm(dim=1, keepdim=True)


def target_loss(S, zs, p):
    """Cross entropy of the strong rows against (sharpened) weak predictions."""
    q = sharp(p, S.temperature)
    return ce(zs, q.argmax(dim=1).tolist()) if S.hard_label else sce(zs, q)


def warm(S, i, total):
    if S.unsup_warm_up <= 0:
        return 1.0
    return min(i / max(1, round(S.unsup_warm_up * total)), 1.0)


# ------------------------------------------------------------------ reference losses: (spec, state, batch, weights) -> loss
def flow(S, p):
    return p if (S.use_cat and not S.detach_target) else p.detach()


def r_fixmatch(S, st, B, P):
    W = P["W"]
    p = flow(S, sm(W[B.UW]))
    m = p.max(dim=1).values >= S.p_cutoff
    return ce(W[B.L], B.y).mean() + S.lambda_u * mmean(target_loss(S, W[B.US], p), m)


def r_defixmatch(S, st, B, P):
    W = P["W"]
    ls = B.LS
    pu = flow(S, sm(W[B.UW]))
    pl = sm(W[B.L]) if not S.detach_target else sm(W[B.L]).detach()
    sup = 0.5 * (ce(W[B.L], B.y).mean() + ce(W[ls], B.y).mean())
    u = mmean(target_loss(S, W[B.US], pu), pu.max(dim=1).values >= S.p_cutoff)
    a = mmean(target_loss(S, W[ls], pl), pl.max(dim=1).values >= S.p_cutoff)
    return sup + S.lambda_u * (u - a)


def ema(st, key, new, m, init):
    old = st.get(key)
    old = init if old is None else old
    cur = m * old + (1.0 - m) * new
    st[key] = cur.detach()
    return cur


def r_adamatch(S, st, B, P):
    W = P["W"]
    pl, pu = sm(W[B.L]).detach(), flow(S, sm(W[B.UW]))
    K = pu.shape[1]
    uni = torch.full((K,), 1.0 / K, dtype=W.dtype)
    pm, pt = ema(st, "m", pu.mean(0), S.ema_p, uni), ema(st, "t", pl.mean(0), S.ema_p, uni)
    al = pu * (pt / pm)
    al = al / al.sum(dim=1, keepdim=True)
    m = al.max(dim=1).values >= pl.max(dim=1).values.mean() * S.p_cutoff
    return ce(W[B.L], B.y).mean() + S.lambda_u * mmean(target_loss(S, W[B.US], al), m)


def r_flexmatch(S, st, B, P):
    W = P["W"]
    p = flow(S, sm(W[B.UW]))
    K = p.shape[1]
    sel = st.setdefault("sel", {})
    top, c = p.max(dim=1)
    n = st["ulb"]
    cnt = [sum(1 for v in sel.values() if v == k) for k in range(K)]
    if any(cnt):
        den = max(cnt + ([n - sum(cnt)] if S.thresh_warmup else []))
        acc = [v / den for v in cnt]
    else:
        acc = [0.0] * K
    a = torch.tensor([acc[int(k)] for k in c], dtype=W.dtype)
    m = top >= S.p_cutoff * a / (2.0 - a)
    for i, g in enumerate(B.G):
        if float(top[i]) >= S.p_cutoff:
            sel[g] = int(c[i])
    return ce(W[B.L], B.y).mean() + S.lambda_u * mmean(target_loss(S, W[B.US], p), m)


def r_free_match(S, st, B, P):
    W = P["W"]
    p = flow(S, sm(W[B.UW]))
    K = p.shape[1]
    uni = torch.full((K,), 1.0 / K, dtype=W.dtype)
    top, c = p.max(dim=1)
    if S.use_quantile:
        s = sorted(float(v) for v in top)
        q = 0.8 * (len(s) - 1)
        lo = int(math.floor(q))
        val = s[lo] + (q - lo) * (s[min(lo + 1, len(s) - 1)] - s[lo])
    else:
        val = float(top.mean())
    t = st.get("time", 1.0 / K) * S.ema_p + (1.0 - S.ema_p) * val
    if S.clip_thresh:
        t = min(max(t, 0.0), 0.95)
    st["time"] = t
    pm = ema(st, "m", p.mean(0), S.ema_p, uni)
    h = torch.tensor([sum(1 for v in c if int(v) == k) for k in range(K)], dtype=W.dtype) / len(c)
    hist = ema(st, "h", h, S.ema_p, uni)
    thr = t * (pm / pm.max())[c]
    m = top >= thr
    if bool(((top - thr).abs() < 1e-6).any()):
        st["unsure"] = True     # a confidence that equals its own threshold: rounding decides
    zs = W[B.US]
    loss = ce(W[B.L], B.y).mean() + S.lambda_u * mmean(target_loss(S, zs, p), m)
    if bool(m.any()):
        ps = sm(zs[m])
        hs = torch.tensor([float((ps.argmax(dim=1) == k).sum()) for k in range(K)], dtype=W.dtype) / len(ps)
        inv = lambda v: torch.tensor([1.0 / float(x) if float(x) > 0 else 0.0 for x in v], dtype=W.dtype)
        a = pm * inv(hist)
        a = a / a.sum()
        b = ps.mean(0) * inv(hs)
        b = b / b.sum()
        loss = loss + S.lambda_e * (a * torch.log(b + 1e-12)).sum()
    return loss


def r_softmatch(S, st, B, P):
    W = P["W"]
    raw = flow(S, sm(W[B.UW]))
    pl = sm(W[B.L]).detach()
    K = raw.shape[1]
    uni = torch.full((K,), 1.0 / K, dtype=W.dtype)
    p = raw
    if S.dist_align:
        pm = ema(st, "m", raw.mean(0), S.ema_p, uni)
        pt = uni if S.dist_uniform else ema(st, "t", pl.mean(0), S.ema_p, uni)
        p = raw * (pt / pm)
        p = p / p.sum(dim=1, keepdim=True)
    top, c = p.max(dim=1)
    if S.per_class:
        mu, var = [], []
        for k in range(K):
            v = top[c == k]
            ok = len(v) > 1
            mu.append(v.mean() if ok else torch.zeros((), dtype=W.dtype))
            var.append(((v - v.mean()) ** 2).sum() / (len(v) - 1) if ok else torch.ones((), dtype=W.dtype))
        mu = ema(st, "mu", torch.stack(mu), S.ema_p, uni)[c]
        var = ema(st, "var", torch.stack(var), S.ema_p, torch.ones(K, dtype=W.dtype))[c]
    else:
        v = ((top - top.mean()) ** 2).sum() / (len(top) - 1) if len(top) > 1 else torch.zeros((), dtype=W.dtype)
        mu = ema(st, "mu", top.mean(), S.ema_p, torch.tensor(1.0 / K, dtype=W.dtype))
        var = ema(st, "var", v, S.ema_p, torch.tensor(1.0, dtype=W.dtype))
    if float((torch.as_tensor(var).detach()).min()) < 1e-5:
        st["unsure"] = True     # (almost) no spread: the Gaussian's width is rounding noise
    w = torch.where(top >= mu, torch.ones_like(top), torch.exp(-((top - mu) ** 2) / (2.0 * var / S.n_sigma ** 2)))
    l = target_loss(S, W[B.US], raw)
    tot = w.sum()
    return ce(W[B.L], B.y).mean() + S.lambda_u * (l * w).sum() / (tot if float(tot) > 1.0 else 1.0)


def r_pi_model(S, st, B, P):
    W = P["W"]
    pw, ps = sm(W[B.UW]), sm(W[B.US])
    if S.detach_target:
        pw = pw.detach()
    return ce(W[B.L], B.y).mean() + S.lambda_u * warm(S, B.i, B.total) * ((ps - pw) ** 2).mean()


def r_mean_teacher(S, st, B, P):
    W = P["W"]
    t = st.get("teacher")
    t = st["init"]["W"] if t is None else t
    st["teacher"] = t
    return ce(W[B.L], B.y).mean() + S.lambda_u * warm(S, B.i, B.total) * ((sm(W[B.US]) - sm(t[B.UW])) ** 2).mean()


def r_temporal(S, st, B, P):
    W = P["W"]
    p = 0.5 * (sm(W[B.UW]) + sm(W[B.US]))
    Z, cur = st.setdefault("Z", {}), st.setdefault("cur", {})
    if st.get("epoch") != B.e:
        for g, v in cur.items():
            Z[g] = S.alpha * Z.get(g, 0.0) + (1.0 - S.alpha) * v
        st["epoch"] = B.e
        cur.clear()
    # the accumulated predictions start at zero, so after e epochs they are short by 1 - alpha^e
    t = torch.stack([Z[g] / (1.0 - S.alpha ** B.e) if B.e else torch.zeros(p.shape[1], dtype=W.dtype) for g in B.U])
    for g, v in zip(B.U, p.detach()):
        cur[g] = v
    return ce(W[B.L], B.y).mean() + S.lambda_u * warm(S, B.i, B.total) * ((p - t) ** 2).mean()


def r_uda(S, st, B, P):
    W = P["W"]
    l = ce(W[B.L], B.y)
    if S.tsa_schedule != "none":
        r = B.i / B.total
        a = {"linear": r, "exp": math.exp(5 * (r - 1)), "log": 1 - math.exp(-5 * r)}[S.tsa_schedule]
        K = W.shape[1]
        thr = a * (1 - 1 / K) + 1 / K
        l = l * torch.tensor([float(torch.exp(-v.detach())) < thr for v in l], dtype=W.dtype)
    p = flow(S, sm(W[B.UW] / S.temperature))
    m = p.max(dim=1).values >= S.p_cutoff
    kl = (p * (torch.log(p + 1e-12) - lsm(W[B.US]))).sum(dim=1)
    return l.mean() + S.lambda_u * mmean(kl, m)


def r_noisy_student(S, st, B, P):
    W = P["W"]
    sup = ce(W[B.L], B.y).mean()
    if B.phase == "teacher":
        return sup
    t = st.setdefault("teacher", W.detach().clone())
    p = sm(t[B.UW] / S.temperature)
    m = p.max(dim=1).values >= S.p_cutoff
    zs = W[B.US]
    l = ce(zs, p.argmax(dim=1).tolist()) if S.hard_label else (p * (torch.log(p + 1e-12) - lsm(zs))).sum(dim=1)
    return sup + S.lambda_u * warm(S, B.i, B.total) * mmean(l, m)


def r_adsh(S, st, B, P):
    W = P["W"]
    K = W.shape[1]
    if st.get("epoch") != B.e:
        st["epoch"] = B.e
        sc = st.setdefault("score", [S.p_cutoff] * K)
        if B.e >= S.score_warmup_epochs:
            p = sm(W[B.allUW]).detach()
            maj = S.majority_class
            if maj is None:
                cnt = [B.allY.count(k) for k in range(K)]
                maj = cnt.index(max(cnt))
            by = {k: sorted((float(v.max()) for v in p if int(v.argmax()) == k), reverse=True) for k in range(K)}
            hit = sum(1 for v in by[maj] if v >= S.p_cutoff)
            rho = hit / len(by[maj]) if hit else 1.0
            for k in range(K):
                if k != maj and by[k]:
                    i = min(max(round(len(by[k]) * rho - 1.0), 0), len(by[k]) - 1)
                    sc[k] = min(by[k][i], S.p_cutoff)
            sc[maj] = S.p_cutoff
    rect = sm(W[B.UW]).detach() / torch.tensor(st["score"], dtype=W.dtype)
    top, lab = rect.max(dim=1)
    # a class threshold is one of the confidences themselves, so equality is decided with that in mind
    m = top >= 1.0 - 1e-12
    if any(abs(float(v) - 1.0) < 1e-6 and abs(float(v) - 1.0) > 0 for v in top):
        st["unsure"] = True
    return ce(W[B.L], B.y).mean() + S.lambda_u * (ce(W[B.US], lab.tolist()) * m.to(W.dtype)).mean()


def r_comatch(S, st, B, P):
    W, F = P["W"], P["F"]
    K = W.shape[1]
    T = S.temperature
    g = flow(S, sm(W[B.UW] / T))
    fu = unit(F[B.UW])
    fu = flow(S, fu)
    p = g
    if S.dist_align and S.da_len > 0:
        q = st.setdefault("da", [])
        q.append(p.mean(0))
        del q[:-S.da_len]
        pm = torch.stack(q).mean(0)
        q[-1] = q[-1].detach()
        tgt = torch.full((K,), 1.0 / K, dtype=W.dtype) if S.dist_uniform else sm(W[B.L]).detach().mean(0)
        p = p * (tgt / pm)
        p = p / p.sum(dim=1, keepdim=True)
    mem = st.setdefault("mem", {})      # slot -> (feature, distribution)
    sp = p
    if S.queue_size > 0 and mem and len(mem) >= S.min_queue_fill and S.smoothing_alpha < 1.0:
        mf = torch.stack([mem[k][0] for k in sorted(mem)])
        mp = torch.stack([mem[k][1] for k in sorted(mem)])
        a = torch.exp(fu @ mf.T / T)
        a = a / a.sum(dim=1, keepdim=True)
        sp = S.smoothing_alpha * p + (1.0 - S.smoothing_alpha) * (a @ mp)
    m = sp.max(dim=1).values >= S.p_cutoff
    if bool(((sp.max(dim=1).values - S.p_cutoff).abs() < 1e-6).any()) or (S.hard_label and K == 2 and bool(((sp[:, 0] - sp[:, 1]).abs() < 1e-6).any())):
        st["unsure"] = True
    n = len(sp)
    Q = torch.zeros(n, n, dtype=W.dtype)
    rowsq = []
    for i in range(n):
        rowsq.append(torch.stack([torch.ones((), dtype=W.dtype) if i == j else (sp[i] * sp[j]).sum() for j in range(n)]))
    Q = torch.stack(rowsq)
    if S.contrast_p_cutoff > 0:
        if bool(((Q - S.contrast_p_cutoff).abs() < 1e-6).any()):
            st["unsure"] = True
        Q = Q * (Q >= S.contrast_p_cutoff).to(W.dtype)
    Q = Q / Q.sum(dim=1, keepdim=True)
    if S.queue_size > 0:
        new = [(v.detach(), w.detach()) for v, w in zip(fu, p)]
        new += [(v.detach(), torch.eye(K, dtype=W.dtype)[int(y)]) for v, y in zip(unit(F[B.L]), B.y)]
        ptr = st.get("ptr", 0)
        for v in new[:S.queue_size]:
            mem[ptr] = v
            ptr = (ptr + 1) % S.queue_size
        st["ptr"] = ptr
    zs = W[B.US]
    l = ce(zs, sp.argmax(dim=1).tolist()) if S.hard_label else sce(zs, sp)
    sim = torch.exp(unit(F[B.US]) @ unit(F[B.US1]).T / T)
    sim = sim / sim.sum(dim=1, keepdim=True)
    con = -(torch.log(sim + 1e-7) * Q).sum(dim=1).mean()
    return ce(W[B.L], B.y).mean() + S.lambda_u * mmean(l, m) + S.lambda_c * con


def r_daso(S, st, B, P):
    W, F = P["W"], P["F"]
    K = W.shape[1]
    T = st.get("teacher")
    if T is None:
        T = st["teacher"] = {k: v.detach().clone() for k, v in P.items()}
    Fe = T["F"] if S.use_ema else F.detach()
    q = st.setdefault("q", {k: [] for k in range(K)})
    for k in range(K):
        q[k] += [Fe[i].detach() for i, y in zip(B.L, B.y) if int(y) == k]
        del q[k][:-S.queue_size]
    C = torch.stack([torch.stack(q[k]).mean(0) if q[k] else torch.zeros(F.shape[1], dtype=W.dtype) for k in range(K)])
    Cn = C / C.norm(dim=1, keepdim=True).clamp_min(1e-12)
    sim = lambda f: sm(unit(f) @ Cn.T / S.t_proto)
    ph, qh = sm(W[B.UW]), sim(F[B.UW])
    if S.detach_target:
        ph, qh = ph.detach(), qh.detach()
    pre = B.i < S.pretrain_steps
    mh = st.setdefault("mh", [1.0 / K] * K)
    if pre:
        pp = ph
    elif S.dist_aware:
        v = [max(x, 1e-12) ** (1.0 / S.t_dist) for x in mh]
        v = torch.tensor([x / max(v) for x in v], dtype=W.dtype)
        vk = v[ph.argmax(dim=1)][:, None]
        pp = (1 - vk) * ph + vk * qh
    else:
        pp = (1 - S.interp_alpha) * ph + S.interp_alpha * qh
    m = pp.max(dim=1).values >= S.p_cutoff
    zs = W[B.US]
    l = ce(zs, pp.argmax(dim=1).tolist()) if S.hard_label else sce(zs, pp)
    loss = ce(W[B.L], B.y).mean() + S.lambda_u * mmean(l, m)
    if not pre and S.lambda_align:
        loss = loss + S.lambda_align * -(qh * torch.log(sim(F[B.US]).clamp_min(1e-12))).sum(dim=1).mean()
    acc = st.setdefault("acc", [0] * K)
    for k in pp.argmax(dim=1).tolist():
        acc[k] += 1
    if (B.i + 1) % S.dist_update_period == 0:
        if sum(acc):
            st["mh"] = [a / sum(acc) for a in acc]
        st["acc"] = [0] * K
    return loss


def r_mixmatch(S, st, B, P):
    W = P["W"]
    q = sharp(0.5 * (sm(W[B.UW]) + sm(W[B.US])), S.temperature).detach()
    K = W.shape[1]
    own = {}
    for i, y in zip(B.L, B.y):
        own[i] = torch.eye(K, dtype=W.dtype)[int(y)]
    for i, v in zip(B.UW, q):
        own[i] = v
    for i, v in zip(B.US, q):
        own[i] = v
    X = B.mixed
    t = torch.stack([sum(float(r[i]) * own[i] for i in range(len(r)) if float(r[i]) != 0.0) for r in X])
    z = X @ W
    n = len(B.L)
    return sce(z[:n], t[:n]).mean() + S.lambda_u * warm(S, B.i, B.total) * ((sm(z[n:]) - t[n:]) ** 2).mean()


def r_vat(S, st, B, P):
    W = P["W"]
    p = sm(W[B.U0])
    pd = p.detach() if S.detach_target else p
    z = B.adv @ W
    kl = (pd * (torch.log(pd + 1e-12) - lsm(z))).sum(dim=1).mean()
    return ce(W[B.L], B.y).mean() + S.lambda_u * warm(S, B.i, B.total) * kl


# ------------------------------------------------------------------ spec grids
def grid(**kw):
    ks = list(kw)
    return [dict(zip(ks, vs)) for vs in itertools.product(*kw.values())]


def strongweak():
    return dict(hard_label=[True, False], use_cat=[False, True], detach_target=[True, False])


SPECS = {
    "fixmatch": grid(lambda_u=[0.7], p_cutoff=[0.6, 0.9], temperature=[0.5, 1.0], **strongweak()) + grid(lambda_u=[0.0, 2.0], p_cutoff=[0.0, 1.0], hard_label=[True, False]),
    "defixmatch": grid(lambda_u=[0.7], p_cutoff=[0.6, 0.9], temperature=[0.5], **strongweak()) + grid(lambda_u=[1.5], p_cutoff=[0.0, 0.75], temperature=[1.0]),
    "adamatch": grid(lambda_u=[0.7], p_cutoff=[0.7, 0.95], ema_p=[0.0, 0.9], **strongweak()),
    "flexmatch": grid(lambda_u=[0.7], p_cutoff=[0.6, 0.88], thresh_warmup=[True, False], **strongweak()),
    "free_match": grid(lambda_u=[0.7], lambda_e=[0.0, 0.3], ema_p=[0.0, 0.8], use_quantile=[True, False], clip_thresh=[True, False], hard_label=[True, False], use_cat=[False, True])
    + grid(lambda_u=[0.7], lambda_e=[0.3], ema_p=[0.8], use_cat=[True], detach_target=[False], hard_label=[True, False]),
    "softmatch": grid(lambda_u=[0.7], ema_p=[0.0, 0.8], per_class=[True, False], dist_align=[True, False], dist_uniform=[True, False], hard_label=[True, False])
    + grid(lambda_u=[0.7], ema_p=[0.8], n_sigma=[1.0, 2.0], use_cat=[True], detach_target=[False, True], dist_align=[True, False], hard_label=[True, False]),
    "pi_model": grid(lambda_u=[0.0, 1.5], unsup_warm_up=[0.0, 0.4, 1.0], detach_target=[True, False]),
    "mean_teacher": grid(lambda_u=[0.0, 1.5], unsup_warm_up=[0.0, 0.4], ema_decay=[0.0, 0.7, 1.0], detach_target=[True, False]),
    "temporal_ensembling": grid(lambda_u=[1.5], unsup_warm_up=[0.0, 0.4], alpha=[0.0, 0.6, 0.9], detach_target=[True, False]),
    "uda": grid(lambda_u=[0.7], p_cutoff=[0.0, 0.8], temperature=[0.4, 1.0], tsa_schedule=["none", "linear", "exp", "log"], use_cat=[False, True]) + grid(lambda_u=[0.7], use_cat=[True], detach_target=[False]),
    "noisy_student": grid(lambda_u=[0.7], p_cutoff=[0.0, 0.8], temperature=[0.5, 1.0], hard_label=[True, False], use_cat=[False, True], teacher_epochs=[0, 1, 2], unsup_warm_up=[0.0])
    + grid(lambda_u=[0.7], p_cutoff=[0.6], unsup_warm_up=[0.5], teacher_epochs=[1]),
    "adsh": grid(lambda_u=[0.7], p_cutoff=[0.6, 0.88], use_cat=[False, True], score_warmup_epochs=[0, 1], majority_class=[None, 0, 1]),
    "comatch": grid(lambda_u=[0.7], lambda_c=[0.0, 0.6], p_cutoff=[0.6], contrast_p_cutoff=[0.0, 0.5], smoothing_alpha=[0.6, 1.0], queue_size=[0, 3, 64], hard_label=[True, False])
    + grid(lambda_u=[0.7], lambda_c=[0.6], p_cutoff=[0.4, 0.6], dist_align=[True, False], dist_uniform=[True, False], da_len=[0, 1, 2, 8], use_cat=[False, True], min_queue_fill=[0, 3])
    + grid(lambda_u=[0.7], p_cutoff=[0.6], use_cat=[True], detach_target=[False], hard_label=[True, False]),
    "daso": grid(lambda_u=[0.7], lambda_align=[0.0, 0.5], p_cutoff=[0.5], t_proto=[0.3], pretrain_steps=[0, 1, 100], queue_size=[1, 64], dist_aware=[True, False], hard_label=[True, False], use_ema=[True, False], ema_decay=[0.6], dist_update_period=[2])
    + grid(lambda_u=[0.7], p_cutoff=[0.3], t_proto=[0.3], pretrain_steps=[0], dist_update_period=[1, 3], t_dist=[0.5, 1.5], use_cat=[False, True], detach_target=[True, False], ema_decay=[0.0, 0.9]),
    "mixmatch": grid(lambda_u=[0.0, 1.5], temperature=[0.5, 1.0], mixup_alpha=[0.0, 0.5, 2.0], unsup_warm_up=[0.0, 0.4], mixup_manifold=[False, True]),
    "vat": grid(lambda_u=[0.0, 1.5], xi=[0.05, 0.2], eps=[0.3], num_iters=[1, 2, 3], unsup_warm_up=[0.0, 0.4], detach_target=[True, False]),
}
REF = {"temporal_ensembling": r_temporal, "mean_teacher": r_mean_teacher, "pi_model": r_pi_model, "fixmatch": r_fixmatch, "defixmatch": r_defixmatch, "adamatch": r_adamatch, "flexmatch": r_flexmatch,
       "free_match": r_free_match, "softmatch": r_softmatch, "uda": r_uda, "noisy_student": r_noisy_student, "adsh": r_adsh, "comatch": r_comatch, "daso": r_daso, "mixmatch": r_mixmatch, "vat": r_vat}


# ------------------------------------------------------------------ one world
def world(K, nl, nu, pat, dt=torch.float64, salt=0, d=4):
    """nl labelled, nl strong labelled, nu weak, nu strong, nu second strong, nu plain rows; the weak rows' logits follow `pat`."""
    N = 2 * nl + 4 * nu
    W = torch.zeros(N, K, dtype=dt)
    for i in range(N):
        for k in range(K):
            W[i, k] = 1.3 * math.sin(1.7 * i + 2.9 * k + 0.6 + salt)
    off = SimpleNamespace(L=0, LS=nl, UW=2 * nl, US=2 * nl + nu, US1=2 * nl + 2 * nu, U0=2 * nl + 3 * nu, nl=nl, nu=nu, N=N)
    for j in range(nu):
        W[off.UW + j] = torch.tensor(LEV[K][pat[j % len(pat)]], dtype=dt) + 0.01 * j
    F = torch.tensor([[math.cos(0.9 * i + 1.1 * a + salt) for a in range(d)] for i in range(N)], dtype=dt)
    return W, F, off


def dataset(off, y, dt=torch.float64, gmap=None, plain=False):
    E = torch.eye(off.N, dtype=dt)
    cut = lambda a, n: E[a:a + n].clone()
    nl, nu = off.nl, off.nu
    meta = {"idx_u": torch.tensor(gmap if gmap else list(range(nu)))}
    if gmap:
        meta["ulb_size"] = max(gmap) + 2
    return InductiveDataset(X_l=cut(off.L, nl), y_l=torch.tensor(y), X_u=cut(off.U0, nu), X_u_w=cut(off.UW, nu), X_u_s=cut(off.US, nu),
                            views={"X_l_s": cut(off.LS, nl), "X_u_s_1": cut(off.US1, nu)}, meta=meta)


def pick(fw, a, n):
    """The rows of [a, a+n) in the first forward pass that has any."""
    for ev in fw:
        ids = rows(ev[2])
        if ids:
            got = [i for i in ids if a <= i < a + n]
            if got:
                return got
    return []


def epochs_ok(R, batches, n, bs, per, what):
    """Within each epoch: consecutive whole passes without repetition, every batch full except a pass's last."""
    for e in range(0, len(batches), per):
        seen, lastn = [], None
        for b in batches[e:e + per]:
            want = min(bs, n - len(seen))
            R.check(len(b) == want, f"{what}: a batch of {len(b)} rows where {want} were due", f"{what}:batch")
            R.check(len(set(b)) == len(b) and not set(b) & set(seen), f"{what}: a row came twice before every row had come once", f"{what}:repeat")
            seen += b
            if len(seen) == n:
                seen = []


def close(a, b, tol):
    return all(torch.allclose(a[k], b[k], rtol=tol, atol=tol) for k in a)


LR = 0.8


def run_main(R, mid, over, K, nl, nu, bs, ep, pat, y, dt=torch.float64, seed=0, gmap=None, salt=0, key=None, method=None, bundle=None):
    key = key or mid
    W, F, off = world(K, nl, nu, pat, dt, salt)
    ds = dataset(off, y, dt, gmap)
    cls = get_method_class(mid)
    feat = mid in ("comatch", "daso")
    if bundle is None:
        model = Lin(W, F if feat else None)
        if mid in ("mean_teacher",):
            em = Lin(W + 0.5, None, "t")
        elif mid == "daso" and over.get("use_ema") and salt:
            em = Lin(W + 0.5, F - 0.3, "t")
        else:
            em = None
        meta = {"forward_features": lambda x: x * 1.0, "forward_head": model} if over.get("mixup_manifold") else None
        bundle = TorchModelBundle(model=model, optimizer=Rec(model, LR), ema_model=em, meta=meta)
    spec0 = cls().spec
    S = dataclasses.replace(spec0, model_bundle=bundle, batch_size=bs, max_epochs=ep, **over)
    init = {k: v.detach().clone() for k, v in bundle.model.named_parameters()}
    LOG.clear()
    keep = [t.clone() for t in (ds.X_l, ds.X_u_w, ds.X_u_s, ds.y_l)]
    m = method or cls(S)
    m.spec = S
    out = m.fit(ds, device=CPU, seed=seed)
    log = list(LOG)
    R.check(out is m, "fit does not return the method", f"{key}:return")
    R.check(all(torch.equal(a, b) for a, b in zip(keep, (ds.X_l, ds.X_u_w, ds.X_u_s, ds.y_l))), "fit changed the data it was given", f"{key}:mutate")
    judge(R, key, mid, S, log, off, y, init, bundle, gmap, dt)
    # prediction is the softmax of the trained model, whatever the batch size, and leaves the model's mode alone
    for mode in (True, False):
        bundle.model.train(mode)
        X = torch.eye(off.N, dtype=dt)
        pr = m.predict_proba(X)
        want = sm((X @ bundle.model.W).detach())
        R.check(torch.allclose(pr, want, atol=1e-6), "predict_proba is not the softmax of the trained model", f"{key}:proba")
        R.check(torch.equal(m.predict(X), want.argmax(dim=1)), "predict is not the most probable class", f"{key}:predict")
        R.check(bundle.model.training is mode, "prediction changes the model's training mode", f"{key}:mode")
    R.step(2)
    return m, bundle


def judge(R, key, mid, S, log, off, y, init, bundle, gmap, dt):
    bs, ep, nl, nu = S.batch_size, S.max_epochs, off.nl, off.nu
    cl = lambda n: -(-n // bs)
    per = max(cl(nl), cl(nu))
    pre = 0
    if mid == "noisy_student":
        pre = S.teacher_epochs * cl(nl)
    total = per * ep
    segs, tail = segments(log)
    R.check(len(segs) == pre + total, f"{len(segs)} optimiser steps, {pre + total} expected", f"{key}:steps")
    st = {"init": init, "ulb": (max(gmap) + 2) if gmap else nu}
    tol = 1e-6 if dt == torch.float64 and mid != "softmatch" else 2e-4
    LB, UB = [], []
    for i, (name, before, after, fw) in enumerate(segs):
        if mid == "adsh":
            fw = fw[::-1]           # an epoch may begin with a pass over all weak rows: the step's own pass comes last
        B = SimpleNamespace(L=pick(fw, off.L, nl), UW=pick(fw, off.UW, nu), US=pick(fw, off.US, nu), phase="main", i=i - pre, e=(i - pre) // per, total=total)
        if i < pre:
            B.phase = "teacher"
            LB.append(B.L)
            if len(LB) == pre:
                epochs_ok(R, LB, nl, bs, cl(nl), f"{key}:teacher")
                LB = []
        else:
            if mid == "mixmatch":
                xm = [ev[2] for ev in fw if ev[4]][-1]
                B.L = [int(v) for v in xm[:len(xm) - 2 * len(B.UW)].argmax(dim=1)]
            if mid == "vat":
                B.U = [r - off.U0 for r in pick(fw, off.U0, nu)]
            else:
                B.U = [r - off.UW for r in B.UW]
                R.check([r - off.US for r in B.US] == B.U, f"weak rows {B.U} are paired with strong rows {[r - off.US for r in B.US]}", f"{key}:pairs")
            LB.append(B.L)
            UB.append(B.U)
        B.y = [y[r] for r in B.L]
        B.allUW, B.allY = list(range(off.UW, off.UW + nu)), list(y)
        if mid == "defixmatch":
            B.LS = [off.LS + r for r in B.L]
            R.check(pick(fw, off.LS, nl) == B.LS, "weak and strong labelled rows are not aligned", f"{key}:pairs")
        if mid == "comatch":
            B.US1 = [off.US1 + u for u in B.U]
            R.check(pick(fw, off.US1, nu) == B.US1, "the two strong views are not aligned", f"{key}:pairs")
        if mid == "flexmatch":
            B.G = [gmap[u] if gmap else u for u in B.U]
        if mid == "mixmatch":
            order = B.L + B.UW + B.US
            B.mixed = check_mix(R, key, S, fw, order)
        if mid == "vat":
            B.U0 = [off.U0 + u for u in B.U]
            B.adv = check_vat(R, key, S, fw, B, before["W"], off, st)
        P = {k: v.clone().requires_grad_(True) for k, v in before.items()}
        loss = REF[mid](S, st, B, P)
        gs = torch.autograd.grad(loss, list(P.values()), allow_unused=True)
        want = {k: v.detach() - LR * (g if g is not None else 0.0) for (k, v), g in zip(P.items(), gs)}
        if st.pop("unsure", False):
            R.count("unjudged")
        else:
            bad = max(float((want[k] - after[k]).abs().max()) for k in want)
            R.check(close(want, after, tol), f"step {i}: the model moved by something else than the gradient of the documented loss (off by {bad:.2e}; spec {short(S)}; K={P['W'].shape[1]} nl={nl} nu={nu} y={y})", f"{key}:step")
            R.step()
        if mid == "mean_teacher":
            st["teacher"] = S.ema_decay * st["teacher"] + (1 - S.ema_decay) * after["W"]
        if mid == "daso" and S.use_ema:
            st["teacher"] = {k: S.ema_decay * st["teacher"][k] + (1 - S.ema_decay) * after[k] for k in after}
        if mid == "noisy_student" and i == pre - 1:
            st["teacher"] = after["W"].clone()
    epochs_ok(R, LB, nl, bs, per, f"{key}:labelled")
    epochs_ok(R, UB, nu, bs, per, f"{key}:unlabelled")
    if mid == "mean_teacher":
        R.check(torch.allclose(bundle.ema_model.W.detach(), st["teacher"], atol=tol), "the teacher is not the running average of the student", f"{key}:teacher")
    if segs:
        R.state((key, tuple(round(float(v), 5) for v in segs[-1][2]["W"].flatten()[:6])))


def short(S):
    return {f.name: getattr(S, f.name) for f in dataclasses.fields(S) if "bundle" not in f.name}


def check_mix(R, key, S, fw, order):
    """The mixed batch: row i is lam * row i + (1 - lam) * its partner, lam >= 1/2, partners a permutation."""
    X = [ev[2] for ev in fw if ev[4]][-1]
    R.check(len(X) == len(order), "no mixed batch of the right size reached the model", f"{key}:mix")
    partners, unknown = [], 0
    for i, r in enumerate(X.tolist()):
        nz = {j: v for j, v in enumerate(r) if v != 0.0}
        a = nz.pop(order[i], 0.0)
        R.check(a >= 0.5 - 1e-9 and abs(a + sum(nz.values()) - 1.0) < 1e-9 and len(nz) <= 1, f"mixed row {i} is {r}", f"{key}:mix")
        if nz:
            partners.append(next(iter(nz)))
    R.check(len(set(partners)) == len(partners), "one row is the partner of two", f"{key}:mix")
    if S.mixup_alpha == 0.0:
        R.check(not partners, "rows are mixed although mixup_alpha is 0", f"{key}:mix")
    return X


def check_vat(R, key, S, fw, B, W, off, st):
    """Power iteration from the first random direction; the adversarial row lies at distance eps along it."""
    base = torch.eye(off.N, dtype=W.dtype)[B.U0]
    p = sm(W[B.U0])
    pert = [ev[2] - base for ev in fw if len(ev[2]) == len(base) and rows(ev[2]) is None]
    R.check(len(pert) == S.num_iters + 1, f"{len(pert)} perturbed passes for {S.num_iters} iterations", f"{key}:iters")
    d = unit(pert[0])
    R.check(torch.allclose(pert[0].norm(dim=1), torch.full((len(base),), S.xi, dtype=W.dtype), rtol=1e-6), "the probing step is not xi long", f"{key}:xi")
    for it in range(S.num_iters):
        x = (base + S.xi * d).requires_grad_(True)
        kl = (p * (torch.log(p + 1e-12) - lsm(x @ W))).sum(dim=1).mean()
        g = torch.autograd.grad(kl, x)[0]
        d = unit(g)
        r = S.eps if it == S.num_iters - 1 else S.xi
        R.check(torch.allclose(pert[it + 1], r * d, rtol=1e-4, atol=1e-7), f"iteration {it}: the perturbation is not along the gradient of the divergence", f"{key}:power")
    dirs = st.setdefault("dirs", [])
    dirs.append(pert[0])
    return base + pert[-1]


# ------------------------------------------------------------------ methods with several models
def sgd(R, key, loss, models, what):
    """models: [(params before, params after)]; every one must have moved by -LR * gradient."""
    ps = [v for P, _ in models for v in P.values()]
    gs = torch.autograd.grad(loss, ps, allow_unused=True)
    g = iter(gs)
    for P, after in models:
        for k, v in P.items():
            d = next(g)
            want = v.detach() - LR * (d if d is not None else 0.0)
            R.check(torch.allclose(want, after[k], rtol=1e-6, atol=1e-6), f"{what}: parameter {k} moved by something else than the gradient of the documented loss (off by {float((want - after[k]).abs().max()):.2e})", f"{key}:step")
    R.step()


def live(P):
    return {k: v.clone().requires_grad_(True) for k, v in P.items()}


def proba_is(R, key, m, X, want, models):
    for mode in (True, False):
        for x in models:
            x.train(mode)
        pr = m.predict_proba(X)
        R.check(torch.allclose(pr, want, atol=1e-6), "predict_proba is not the prediction of the trained model", f"{key}:proba")
        R.check(torch.equal(m.predict(X), want.argmax(dim=1)), "predict is not the most probable class", f"{key}:predict")
        R.check(all(x.training is mode for x in models), "prediction changes a model's training mode", f"{key}:mode")
    R.check(tuple(m.predict_proba(X[:0]).shape) == (0, want.shape[1]), "an empty input has no empty prediction", f"{key}:empty")


def run_mpl(R, over, K, nl, nu, bs, ep, pat, y, seed=0, salt=0, method=None, bundles=None):
    key = "meta_pseudo_labels"
    W, _, off = world(K, nl, nu, pat, salt=salt)
    ds = dataset(off, y)
    strong = over.get("strong", True)
    if not strong:
        ds = dataclasses.replace(ds, views=None)
    over = {k: v for k, v in over.items() if k != "strong"}
    cls = get_method_class(key)
    tea, stu = Lin(W * 0.7 + 0.1, None, "tea"), Lin(W, None, "stu")
    tb, sb = bundles or (TorchModelBundle(model=tea, optimizer=Rec(tea, LR)), TorchModelBundle(model=stu, optimizer=Rec(stu, LR)))
    tea, stu = tb.model, sb.model
    S = dataclasses.replace(cls().spec, teacher_bundle=tb, student_bundle=sb, batch_size=bs, max_epochs=ep, **over)
    t0 = stu.W.detach().clone() if S.init_teacher_from_student else tea.W.detach().clone()
    LOG.clear()
    m = (method or cls)(S) if method is None else method
    m.spec = S
    R.check(m.fit(ds, device=CPU, seed=seed) is m, "fit does not return the method", f"{key}:return")
    segs, _ = segments(list(LOG))
    cl = lambda n: -(-n // bs)
    per = max(cl(nl), cl(nu))
    R.check([s[0] for s in segs] == ["stu", "tea"] * (per * ep), f"optimiser steps {[s[0] for s in segs]}", f"{key}:steps")
    ma, LB, UB = 0.0, [], []
    for i in range(0, len(segs), 2):
        (_, sb4, saf, fw1), (_, tb4, taf, fw2) = segs[i], segs[i + 1]
        if i == 0:
            R.check(torch.equal(tb4["W"], t0), "the teacher starts from other parameters", f"{key}:init")
        ft, fs = [e for e in fw1 if e[1] == "tea"], [e for e in fw1 if e[1] == "stu"]
        L, UW, US = pick(fs, off.L, nl), pick(ft, off.UW, nu), pick(ft, off.US, nu)
        U = [r - off.UW for r in UW]
        R.check([r - off.US for r in US] == U and pick(fs, off.US, nu) == US, "weak and strong rows are not aligned", f"{key}:pairs")
        TL = [r - off.L + off.LS for r in L] if strong else L
        R.check(pick(ft, off.LS if strong else off.L, nl) == TL, "the teacher sees other labelled rows than the student", f"{key}:pairs")
        R.check(pick(fw2, off.L, nl) == L, "the student's new loss is measured on other rows than the old one", f"{key}:feedback")
        yy = [y[r] for r in L]
        LB.append(L)
        UB.append(U)
        P = live(sb4)
        sgd(R, key, sce(P["W"][US], sm(tb4["W"][US])).mean(), [(P, saf)], "student")
        dot = float(ce(saf["W"][L], yy).mean() - ce(sb4["W"][L], yy).mean())
        ma = S.mpl_ema * ma + (1 - S.mpl_ema) * dot
        T = live(tb4)
        eps = S.label_smoothing
        tgt = torch.full((len(L), K), eps / K, dtype=W.dtype)
        for r, c in enumerate(yy):
            tgt[r, c] += 1 - eps
        loss = sce(T["W"][TL], tgt).mean()
        p = sm(T["W"][UW] / S.uda_temperature)
        p = p.detach() if S.detach_target else p
        msk = p.max(dim=1).values >= S.uda_threshold
        if bool(msk.any()):
            loss = loss + S.uda_weight * sce(T["W"][US], p)[msk].mean()
        q = sm(T["W"][US])
        loss = loss + S.mpl_weight * -(q * lsm(T["W"][US])).sum(dim=1).mean() * (dot - ma)
        sgd(R, key, loss, [(T, taf)], "teacher")
    epochs_ok(R, LB, nl, bs, per, f"{key}:labelled")
    epochs_ok(R, UB, nu, bs, per, f"{key}:unlabelled")
    X = torch.eye(off.N, dtype=W.dtype)
    proba_is(R, key, m, X, sm(stu.W.detach()), [stu])
    R.state((key, tuple(round(float(v), 5) for v in stu.W.flatten()[:6])))


def run_dct(R, over, K, nl, nu, bs, ep, pat, y, seed=0, salt=0):
    key = "deep_co_training"
    W, _, off = world(K, nl, nu, pat, salt=salt)
    ds = dataset(off, y)
    cls = get_method_class(key)
    ms = [Lin(W, None, "m1"), Lin(W.flip(0) * 0.8 + 0.05, None, "m2")]
    bs_ = [TorchModelBundle(model=m, optimizer=Rec(m, LR)) for m in ms]
    S = dataclasses.replace(cls().spec, model_bundle_1=bs_[0], model_bundle_2=bs_[1], batch_size=bs, max_epochs=ep, **over)
    LOG.clear()
    m = cls(S)
    R.check(m.fit(ds, device=CPU, seed=seed) is m, "fit does not return the method", f"{key}:return")
    segs, _ = segments(list(LOG))
    cl = lambda n: -(-n // bs)
    per = max(cl(nl), cl(nu))
    R.check([s[0] for s in segs] == ["m1", "m2"] * (per * ep), f"optimiser steps {[s[0] for s in segs]}", f"{key}:steps")
    B1, B2, UB = [], [], []
    E = torch.eye(off.N, dtype=W.dtype)
    for i in range(0, len(segs), 2):
        (_, b1, a1, fw), (_, b2, a2, fw2) = segs[i], segs[i + 1]
        R.check(not fw2, "forward passes between the two updates", f"{key}:steps")
        idx = {}
        for name in ("m1", "m2"):
            clean = [rows(e[2]) for e in fw if e[1] == name and rows(e[2])]
            if not S.adv_eps:
                clean = clean[:2]       # the "adversarial" pass shows the other model's clean rows
            R.check(len(clean) >= 2 and all(c == clean[0] for c in clean), f"model {name} saw different batches within one step: {clean}", f"{key}:batch")
            idx[name] = clean[0]
        L1, L2 = ([r for r in idx[n] if r < nl] for n in ("m1", "m2"))
        U1, U2 = ([r for r in idx[n] if r >= off.U0] for n in ("m1", "m2"))
        R.check(U1 == U2, "the models see different unlabelled rows", f"{key}:pairs")
        B1.append(L1)
        B2.append(L2)
        UB.append([r - off.U0 for r in U1])
        adv = {}
        for name, L, b, other in (("m1", L1, b1, "m2"), ("m2", L2, b2, "m1")):
            x = E[L + U1].clone().requires_grad_(True)
            z = x @ b["W"]
            t = [y[r] for r in L] + [int(v) for v in z[len(L):].detach().argmax(dim=1)]
            g = torch.autograd.grad(ce(z, t).mean(), x)[0]
            a = (x + S.adv_eps * g.sign()).detach()
            if S.adv_clip_min is not None:
                a = a.clamp(min=S.adv_clip_min)
            if S.adv_clip_max is not None:
                a = a.clamp(max=S.adv_clip_max)
            got = [e[2] for e in fw if e[1] == other and rows(e[2]) is None] if S.adv_eps else [a]
            R.check(len(got) == 1 and torch.allclose(got[0], a, atol=1e-9), f"model {other} is not shown the adversarial rows made against {name}", f"{key}:adv")
            adv[name] = a
        P1, P2 = live(b1), live(b2)
        p1, p2 = sm(P1["W"][U1]), sm(P2["W"][U1])
        H = lambda p: -(p * torch.log(p)).sum(dim=1)
        loss = ce(P1["W"][L1], [y[r] for r in L1]).mean() + ce(P2["W"][L2], [y[r] for r in L2]).mean()
        loss = loss + S.lambda_cot * (H(0.5 * (p1 + p2)) - 0.5 * H(p1) - 0.5 * H(p2)).mean()
        q1, q2 = sm(P1["W"][L1 + U1]), sm(P2["W"][L2 + U1])
        if S.detach_target:
            q1, q2 = q1.detach(), q2.detach()
        loss = loss + S.lambda_dif * (sce(adv["m1"] @ P2["W"], q1).mean() + sce(adv["m2"] @ P1["W"], q2).mean())
        sgd(R, key, loss, [(P1, a1), (P2, a2)], "pair")
    for B, n, w in ((B1, nl, "first"), (B2, nl, "second"), (UB, nu, "unlabelled")):
        epochs_ok(R, B, n, bs, per, f"{key}:{w}")
    proba_is(R, key, m, E, 0.5 * (sm(ms[0].W.detach()) + sm(ms[1].W.detach())), ms)
    R.state((key, tuple(round(float(v), 5) for v in ms[0].W.flatten()[:6])))


def ntx(z, T):
    z = unit(z)
    n = len(z) // 2
    out = []
    for i in range(2 * n):
        j = (i + n) % (2 * n)
        den = torch.stack([(z[i] * z[k]).sum() / T for k in range(2 * n) if k != i])
        out.append(torch.logsumexp(den, 0) - (z[i] * z[j]).sum() / T)
    return torch.stack(out).mean()


def run_simclr(R, over, K, nl, nu, bs, pat, y, seed=0, salt=0):
    """over: epochs (pretrain, finetune, distill), which bundles are given, and the rest of the specification."""
    key = "simclr_v2"
    over = dict(over)
    e1, e2, e3 = over.pop("epochs")
    which = over.pop("which")
    W, F, off = world(K, nl, nu, pat, salt=salt)
    ds = dataset(off, y)
    cls = get_method_class(key)
    mk = {}
    for n, c in (("pre", 0.9), ("fin", 1.1), ("stu", 0.5)):
        if n[0] in which:
            mod = Lin(W * c + 0.02, F * c - 0.01, n)
            mk[n] = TorchModelBundle(model=mod, optimizer=Rec(mod, LR))
    S = dataclasses.replace(cls().spec, pretrain_bundle=mk.get("pre"), finetune_bundle=mk.get("fin"), student_bundle=mk.get("stu"), batch_size=bs,
                            pretrain_epochs=e1, finetune_epochs=e2, distill_epochs=e3, **over)
    pre = mk.get("pre") or mk.get("fin")
    fin = mk.get("fin") or pre
    stu = mk.get("stu") or fin
    for round_ in range(2):         # the second fit reuses the method and its models
        par = {n: {k: v.detach().clone() for k, v in b.model.named_parameters()} for n, b in mk.items()}
        LOG.clear()
        m = cls(S) if round_ == 0 else m
        R.check(m.fit(ds, device=CPU, seed=seed) is m, "fit does not return the method", f"{key}:return")
        segs, _ = segments(list(LOG))
        cl = lambda n: -(-n // bs)
        per3 = max(cl(nu), cl(nl) if S.use_labeled_in_distill else 0)
        names = [pre.model.name] * (e1 * cl(nu)) + [fin.model.name] * (e2 * cl(nl)) + [stu.model.name] * (e3 * per3)
        R.check([s[0] for s in segs] == names, f"steps {[s[0] for s in segs]}, expected {names}", f"{key}:steps")
        PB, FB, DU, DL = [], [], [], []
        teacher = None
        for i, (name, b4, af, fw) in enumerate(segs):
            R.check(all(torch.equal(par[name][k], b4[k]) for k in b4), f"step {i}: {name} was changed between its steps", f"{key}:between")
            P = live(b4)
            if i < e1 * cl(nu):
                UW, US = pick(fw, off.UW, nu), pick(fw, off.US, nu)
                PB.append([r - off.UW for r in UW])
                R.check([r - off.US for r in US] == PB[-1], "the two views are not aligned", f"{key}:pairs")
                loss = ntx(torch.cat([P["F"][UW], P["F"][US]]), S.temperature)
            elif i < e1 * cl(nu) + e2 * cl(nl):
                L = pick(fw, off.L, nl)
                FB.append(L)
                loss = ce(P["W"][L], [y[r] for r in L]).mean()
            else:
                if teacher is None:
                    teacher = {k: v.clone() for k, v in (par[fin.model.name]).items()}
                UW = pick([e for e in fw if not e[4]], off.UW, nu)
                US = pick([e for e in fw if e[4]], off.US, nu)
                DU.append([r - off.UW for r in UW])
                R.check([r - off.US for r in US] == DU[-1], "teacher and student see different rows", f"{key}:pairs")
                R.check(all(not e[3] for e in fw if not e[4]), "the teacher predicts in training mode", f"{key}:teachermode")
                q = sm(teacher["W"][UW] / S.distill_temperature)
                loss = sce(P["W"][US] / S.distill_temperature, q).mean()
                if S.use_labeled_in_distill:
                    L = pick(fw, off.L, nl)
                    DL.append(L)
                    loss = (1 - S.alpha) * ce(P["W"][L], [y[r] for r in L]).mean() + S.alpha * loss
                else:
                    R.check(not pick(fw, off.L, nl), "labelled rows are used although they should not be", f"{key}:labelled")
            sgd(R, key, loss, [(P, af)], f"stage of step {i}")
            par[name] = {k: v.clone() for k, v in af.items()}
            if i == e1 * cl(nu) - 1 and S.transfer_pretrain and fin is not pre and (e2 or e3):
                par[fin.model.name] = {k: v.clone() for k, v in af.items()}
        for n, b in mk.items():
            R.check(all(torch.equal(par[n][k], v.detach()) for k, v in b.model.named_parameters()), f"{n} was changed outside its steps", f"{key}:between")
            R.check(all(v.requires_grad for v in b.model.parameters()), f"{n} is left frozen", f"{key}:frozen")
        epochs_ok(R, PB, nu, bs, cl(nu), f"{key}:pretrain")
        epochs_ok(R, FB, nl, bs, cl(nl), f"{key}:finetune")
        epochs_ok(R, DU, nu, bs, per3, f"{key}:distill")
        epochs_ok(R, DL, nl, bs, per3, f"{key}:distill")
        last = stu if e3 else fin if e2 else pre
        X = torch.eye(off.N, dtype=W.dtype)
        proba_is(R, key, m, X, sm(last.model.W.detach()), [last.model])
        for b in mk.values():
            b.model.train()
        R.state((key, round_, tuple(round(float(v), 5) for v in last.model.W.flatten()[:6])))


def run_trinet(R, over, K, nl, nu, bs, pat, y, seed=0, salt=0, d=5):
    key = "trinet"
    W, _, off = world(K, nl, nu, pat, salt=salt)
    ds = dataset(off, y)
    cls = get_method_class(key)
    G = torch.tensor([[math.sin(0.7 * (i + 1) * (a + 1) + salt) for a in range(d)] for i in range(off.N)], dtype=W.dtype)
    sh = Lin(G, None, "sh")
    hd = [Lin(torch.tensor([[0.9 * math.cos(0.7 * a + 1.9 * k + 0.2 * h + salt) for k in range(K)] for a in range(d)], dtype=W.dtype), None, f"h{h}") for h in range(3)]
    mk = lambda m: TorchModelBundle(model=m, optimizer=Rec(m, LR))
    S = dataclasses.replace(cls().spec, shared_bundle=mk(sh), head_bundles=tuple(mk(h) for h in hd), batch_size=bs, **over)
    LOG.clear()
    m = cls(S)
    par = {x.name: x.W.detach().clone() for x in [sh] + hd}
    R.check(m.fit(ds, device=CPU, seed=seed) is m, "fit does not return the method", f"{key}:return")
    segs, _ = segments(list(LOG))
    pos = [0]
    cl = lambda n: -(-n // bs)
    eye = torch.eye(K, dtype=W.dtype)

    def train(v, members, epochs, both, smear):
        """One head's training: members = {row: class}."""
        seen, tg = [], {}
        for b in range(epochs * cl(len(members))):
            want = [f"h{v}"] + (["sh"] if both else [])
            R.check([s[0] for s in segs[pos[0]:pos[0] + len(want)]] == want, f"expected updates of {want}, saw {[s[0] for s in segs[pos[0]:pos[0] + len(want)]]}", f"{key}:steps")
            _, b4, af, fw = segs[pos[0]]
            sb4, saf = (segs[pos[0] + 1][1], segs[pos[0] + 1][2]) if both else ({"W": par["sh"]}, None)
            pos[0] += len(want)
            R.check(torch.equal(b4["W"], par[f"h{v}"]) and torch.equal(sb4["W"], par["sh"]), "parameters changed between steps", f"{key}:between")
            mine = [e for e in fw if e[1] == "sh"][-1]
            R.check(mine[3] is both, f"the shared part is {'not ' if both else ''}in training mode", f"{key}:mode")
            R.check([e for e in fw if e[1] == f"h{v}"][-1][3], "the head is not in training mode", f"{key}:mode")
            ids = rows(mine[2])
            if len(set(ids)) == 1:
                ids = ids[:1]
            norm = [r if r < off.U0 else r for r in ids]
            seen.append(norm)
            P, Q = live(b4), live(sb4)
            T = torch.stack([eye[members[r]] for r in norm])
            if smear:
                # recover the targets from the head's step: feats^T (p - t) / n
                f = sb4["W"][norm]
                p = sm(f @ b4["W"])
                grad = (b4["W"] - af["W"]) / LR
                T = p - len(norm) * (torch.linalg.pinv(f.T) @ grad)
                for r, t in zip(norm, T):
                    c = members[r]
                    R.check(abs(float(t.sum()) - 1) < 1e-5 and float(t.min()) > -1e-5, f"smeared target {t.tolist()} is no distribution", f"{key}:smear")
                    R.check(float(t[c]) >= float(t.max()) - 1e-5 and float(t[c]) > 0.5, f"smeared target {t.tolist()} of class {c}", f"{key}:smear")
                    R.check(r not in tg or torch.allclose(tg[r], t, atol=1e-4), "a row's smeared target changes between epochs", f"{key}:smear")
                    tg[r] = t
            loss = sce((Q["W"][norm] if both else Q["W"][norm].detach()) @ P["W"], T).mean()
            if both:
                tolstep(loss, [(P, af), (Q, saf)], 1e-4 if smear else 1e-6)
                par["sh"] = saf["W"].clone()
            else:
                tolstep(loss, [(P, af)], 1e-6)
            par[f"h{v}"] = af["W"].clone()
        for e in range(epochs):
            ids = [r for b in seen[e * cl(len(members)):(e + 1) * cl(len(members))] for r in b]
            R.check(sorted(ids) == sorted(members), f"head {v} trained on {sorted(ids)}, its set is {sorted(members)}", f"{key}:cover")
        return tg

    def tolstep(loss, models, tol):
        ps = [v for P, _ in models for v in P.values()]
        g = iter(torch.autograd.grad(loss, ps))
        for P, after in models:
            for k, v in P.items():
                want = v.detach() - LR * next(g)
                R.check(torch.allclose(want, after[k], rtol=tol, atol=tol), f"a training step is off by {float((want - after[k]).abs().max()):.2e}", f"{key}:step")
        R.step()

    lab = {r: y[r] for r in range(nl)}
    smear = S.output_smearing_std > 0
    tgs = [train(v, lab, S.init_epochs, True, smear) for v in range(3)]
    if smear:
        R.check(any(not torch.allclose(tgs[0][r], tgs[1][r]) for r in lab), "all heads get the same smeared targets", f"{key}:smear")
    sigma, os_ = S.sigma0, True
    for t in range(1, S.max_rounds + 1):
        npool = min(S.pool_base * 2 ** t, nu)
        if npool == nu and S.fine_tune_interval > 0 and t % S.fine_tune_interval == 0:
            for v in range(3):
                train(v, lab, S.init_epochs, True, smear)
            os_, sigma = True, max(0.0, sigma - S.sigma_decay)
            continue
        thr = min(1.0, max(0.0, sigma - S.sigma_os if os_ else sigma))
        os_ = False
        pool = None
        for v in range(3):
            fw = segs[pos[0]][3]
            cand = [r for e in fw if e[1] == "sh" and not e[4] and not e[3] for r in (rows(e[2]) or []) if r >= off.U0]
            k = [j for j in range(3) if j != v]
            first = list(dict.fromkeys(cand))[:npool]
            R.check(len(first) == npool and (pool is None or sorted(first) == pool), f"round {t}: candidates {first}, pool of {npool} (before: {pool})", f"{key}:pool")
            pool = sorted(first)
            members = dict(lab)
            for r in pool:
                pj, ph = (sm(par["sh"][[r]] @ par[f"h{j}"])[0] for j in k)
                c = int(pj.argmax())
                conf = 0.5 * float(pj.max() + ph.max())
                if abs(conf - thr) < 1e-9:
                    R.count("unjudged")
                    return
                stable = lambda n: n <= 1 or int((pj + ph).argmax()) == c or n <= math.floor(n * S.des_drop_fraction)
                if c == int(ph.argmax()) and conf >= thr and stable(S.labeling_stability_passes) and stable(S.des_passes):
                    members[r] = c
            train(v, members, S.train_epochs, v == 0, False)
            R.outcome(len(members) - nl)
    R.check(pos[0] == len(segs), f"{len(segs) - pos[0]} updates beyond the schedule", f"{key}:steps")
    X = torch.eye(off.N, dtype=W.dtype)
    want = sum(sm(par["sh"] @ par[f"h{v}"]) for v in range(3)) / 3
    proba_is(R, key, m, X, want, [sh] + hd)
    R.state((key, tuple(round(float(v), 5) for v in par["sh"].flatten()[:6])))


MULTI = {
    "meta_pseudo_labels": grid(uda_weight=[0.0, 0.7], uda_threshold=[0.0, 0.8], uda_temperature=[0.4, 1.0], label_smoothing=[0.0, 0.1], mpl_ema=[0.0, 0.6], mpl_weight=[0.0, 3.0], init_teacher_from_student=[True, False])
    + grid(uda_weight=[0.7], uda_threshold=[0.6], mpl_weight=[3.0], mpl_ema=[0.9], detach_target=[True, False], strong=[True, False]),
    "deep_co_training": grid(lambda_cot=[0.0, 0.8], lambda_dif=[0.0, 0.6], adv_eps=[0.0, 0.05], detach_target=[True, False], adv_clip_min=[None, 0.0], adv_clip_max=[None, 1.0]),
    "simclr_v2": [dict(epochs=e, which=w, transfer_pretrain=tr, **o) for e in itertools.product((0, 1, 2), (0, 1, 2), (0, 1, 2)) if any(e) for w in ("p", "f", "pf", "fs", "pfs", "ps") for tr in ((True, False) if w[:2] == "pf" and e[0] and max(e) < 2 else (True,))
                  for o in (dict(), dict(alpha=0.8, use_labeled_in_distill=False, distill_temperature=2.0), dict(alpha=0.2, temperature=1.0)) if not (e[0] == 0 and "f" not in w)],
    "trinet": grid(sigma0=[0.8], sigma_os=[0.1], sigma_decay=[0.2], output_smearing_std=[0.0, 0.05], pool_base=[1, 3], max_rounds=[3, 5], fine_tune_interval=[0, 2, 3], init_epochs=[1, 2], train_epochs=[1, 2], des_passes=[1], labeling_stability_passes=[1])
    + grid(sigma0=[0.4, 0.95], sigma_os=[0.0], sigma_decay=[0.3], output_smearing_std=[0.0], pool_base=[2], max_rounds=[4], fine_tune_interval=[2], des_passes=[1, 3], labeling_stability_passes=[1, 2], des_drop_fraction=[0.0, 0.4, 1.0]),
}


def run_multi(R, mid, si):
    over = MULTI[mid][si]
    for K in (2, 3):
        for ci, (nl, nu, bs, ep) in enumerate(CONF):
            if mid == "trinet" and (nl > 5 or ci == 0):
                nl, nu = 3, 4
            for pi, pat in enumerate([(0, 1, 2, 3), (3, 0), (2,)][: 3 if R.tier == "thorough" or mid != "trinet" else 2]):
                y = [(j + pi) % K for j in range(nl)]
                if mid == "meta_pseudo_labels":
                    run_mpl(R, over, K, nl, nu, bs, ep, pat, y, seed=pi, salt=pi)
                elif mid == "deep_co_training":
                    run_dct(R, over, K, nl, nu, bs, ep, pat, y, seed=pi, salt=pi)
                elif mid == "simclr_v2":
                    run_simclr(R, over, K, nl, nu, bs, pat, y, seed=pi, salt=pi)
                else:
                    run_trinet(R, over, K, nl, nu, bs, pat, y, seed=pi, salt=pi)


# ------------------------------------------------------------------ cases
CONF = [(2, 2, 64, 2), (2, 2, 1, 2), (3, 2, 2, 1), (1, 3, 2, 3), (2, 5, 2, 2)]     # nl, nu, batch, epochs


def cases(tier):
    out = []
    for mid, specs in SPECS.items():
        for si in range(len(specs)):
            out.append(("main", mid, si))
    for mid, specs in MULTI.items():
        for si in range(len(specs)):
            out.append(("multi", mid, si))
    return out


def run_case(case, R):
    kind = case[0]
    if kind == "main":
        _, mid, si = case
        over = SPECS[mid][si]
        for K in (2, 3):
            for ci, (nl, nu, bs, ep) in enumerate(CONF):
                if over.get("majority_class") is not None and over["majority_class"] >= K:
                    continue
                pats = list(itertools.product(range(4), repeat=2)) if ci < 2 else [(0, 1, 2, 3), (3, 0), (2,), (0, 0, 1), (1, 3, 3, 0)]
                if ci < 2 and R.tier == "quick":
                    pats = [p for p in pats if (p[0] + 2 * p[1] + si + ci) % 4 == 0]
                for pi, pat in enumerate(pats):
                    y = [(j + pi) % K for j in range(nl)]
                    gm = [(2 * j + 1) % (2 * nu + 1) for j in range(nu)][::-1] if (pi + si) % 3 == 0 else None
                    run_main(R, mid, over, K, nl, nu, bs, ep, pat, y, seed=pi % 2, gmap=gm, salt=pi % 3)
            if mid != "vat":
                run_main(R, mid, over, K, 2, 3, 2, 2, (0, 1, 2, 3), [0, K - 1], dt=torch.float32, seed=si, salt=5)
    elif kind == "multi":
        run_multi(R, case[1], case[2])
    else:
        raise KeyError(kind)
