"""A transparent deep model: every sample is a unit vector, so the model is a table with one row of logits per sample,
every batch can be read off the model's input, and one SGD step shows the gradient of the loss for every sample."""
from __future__ import annotations

import torch

LOG: list = []


class Lin(torch.nn.Module):
    """logits = x @ W (and feat = x @ F when F is given); logs what it was asked."""

    def __init__(self, W, F=None, name="m"):
        super().__init__()
        self.W = torch.nn.Parameter(W.clone())
        self.name = name
        if F is not None:
            self.F = torch.nn.Parameter(F.clone())
        self.has_feat = F is not None

    def forward(self, x):
        LOG.append(("f", self.name, x.detach().clone(), self.training, torch.is_grad_enabled(), id(self)))
        out = x @ self.W
        if self.has_feat:
            return {"logits": out, "feat": x @ self.F}
        return out


class Rec(torch.optim.SGD):
    """Plain gradient descent that writes down the parameters before and after each step."""

    def __init__(self, model, lr, name=None):
        super().__init__(list(model.parameters()), lr=lr)
        self._mc = (model, name or model.name)

    def step(self, closure=None):
        m, n = self._mc
        before = {k: p.detach().clone() for k, p in m.named_parameters()}
        super().step()
        after = {k: p.detach().clone() for k, p in m.named_parameters()}
        LOG.append(("s", n, before, after))


def rows(x):
    """Ids of unit-vector rows; None when some row is not a unit vector."""
    out = []
    for r in x.tolist():
        nz = [i for i, v in enumerate(r) if v != 0.0]
        if len(nz) != 1 or r[nz[0]] != 1.0:
            return None
        out.append(nz[0])
    return out


def segments(log):
    """Split a log at the optimiser steps: [(name, before, after, forwards)]."""
    out, fw = [], []
    for ev in log:
        if ev[0] == "f":
            fw.append(ev)
        else:
            out.append((ev[1], ev[2], ev[3], fw))
            fw = []
    return out, fw
