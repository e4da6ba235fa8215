"""Normalisation layers: simplified GDN and inverse, channel norm, XCA, latent wrappers."""
import copy
import math

import numpy as np
import torch
from torch import nn

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import (
    ChannelNorm2D, NormalizeLatent, ProjectLatent, SimplifiedGDN, SimplifiedInverseGDN)
from neuralcompression.layers._xca import XCA

PID = "C24"
RULE = ("case = one layer with random parameters (also parameters pushed out of range by a "
        "training step) on one input; distinct by layer, sizes and parameter regime")
REQUIRED = ["gdn-value", "igdn-value", "gdn-params", "gdn-finite", "gdn-optimiser",
            "gdn-gradient", "gdn-sign", "chan-value", "chan-local", "chan-moments",
            "chan-rejects", "chan-params", "xca-value", "xca-permutation", "xca-batch",
            "xca-dropout", "norm-unit", "norm-child", "norm-none", "proj-value", "proj-child",
            "input-unchanged", "state-dict"]
BUDGET = (20, 120)


def gdn(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    c = r.choice([1, 2, 3, 6, 12, 12, 128])
    bmin = r.choice([1e-6, 1e-6, 1e-3, 0.1])
    init = r.choice([0.1, 0.1, 0.5, 1.0])
    inv = r.random() < 0.5
    cls = SimplifiedInverseGDN if inv else SimplifiedGDN
    kw = {}
    if init != 0.1 or r.random() < 0.5:
        kw["gamma_init"] = init
    if bmin != 1e-6 or r.random() < 0.5:
        kw["beta_min"] = bmin
    name = "igdn-value" if inv else "gdn-value"
    ok, layer = m.run(name, cls, c, **kw)
    if not ok:
        return
    layer = layer.to(dtype)
    m.check(torch.equal(layer.gamma.detach().reshape(c, c), torch.eye(c, dtype=dtype) * torch.tensor(
        1.0).to(dtype) * (torch.eye(1) * init).to(dtype)), "gdn-params", "initial gamma")
    m.check(torch.equal(layer.beta.detach(), torch.ones(c, dtype=dtype)), "gdn-params",
            "initial beta")
    regime = r.choice(["init", "positive", "mixed", "mixed", "dead"])
    with torch.no_grad():
        if regime == "positive":
            layer.gamma.copy_(torch.rand_like(layer.gamma))
            layer.beta.copy_(torch.rand_like(layer.beta) + 0.5)
        elif regime == "mixed":
            layer.gamma.copy_(torch.randn_like(layer.gamma))
            layer.beta.copy_(torch.randn_like(layer.beta))
        elif regime == "dead":
            layer.gamma.copy_(-torch.rand_like(layer.gamma))
            layer.beta.copy_(-torch.rand_like(layer.beta))
    shape = (r.choice([1, 2, 2, 6]), c, r.choice([1, 2, 3, 4, 5, 6, 6, 40]), r.randint(1, 6))
    x = torch.randn(shape, dtype=dtype) * 10 ** r.uniform(-2, 2)
    if r.random() < 0.3:
        x.view(-1)[::3] = 0
    m.case((cls.__name__, c, regime, str(dtype), bmin, shape), regime != "init")
    ids = [id(p) for p in layer.parameters()]
    g = layer.gamma.detach().clone().clamp(min=0)
    b = layer.beta.detach().clone().clamp(min=bmin)
    x0 = x.clone()
    xg = x.clone().requires_grad_()
    ok, y = m.run(name, layer, xg)
    if not ok:
        return
    gn, bn = g.double().numpy().reshape(c, c), b.double().numpy()
    xn = x0.double().numpy()
    den = bn[None, :, None, None] + np.einsum("ij,njhw->nihw", gn, np.abs(xn))
    want = xn * den if inv else xn / den
    m.close(y, want, name, f"{regime} c={c}", rtol=2e-4 if dtype == torch.float32 else 1e-9,
            atol=1e-6 * (1 + np.abs(want).max()))
    m.check(bool(torch.isfinite(y).all()), "gdn-finite", f"{regime}")
    m.check(bool((torch.sign(y) == torch.sign(x0)).all()), "gdn-sign", "sign changed")
    m.check(torch.equal(x, x0), "input-unchanged", "gdn")
    m.check([id(p) for p in layer.parameters()] == ids and
            all(isinstance(p, nn.Parameter) and p.requires_grad for p in layer.parameters()) and
            set(layer.state_dict()) == {"gamma", "beta"}, "gdn-params", "parameters replaced")
    m.check(bool((layer.gamma >= 0).all()) and bool((layer.beta >= bmin * (1 - 1e-6)).all()),
            "gdn-params", f"after a forward pass gamma {layer.gamma.min()} beta {layer.beta.min()}")
    m.check(torch.equal(layer.gamma.detach(), g) and torch.equal(layer.beta.detach(), b),
            "gdn-params", "legal values changed")
    # gradients are those of the formula at the clamped values
    up = torch.randn(shape, dtype=dtype)
    gx, gg, gb = torch.autograd.grad(y, [xg, layer.gamma, layer.beta], up)
    un = up.double().numpy()
    coef = un * xn if inv else -un * xn / den ** 2
    wb = coef.sum((0, 2, 3))
    wg = np.einsum("nihw,njhw->ij", coef, np.abs(xn))
    tg = 5e-4 if dtype == torch.float32 else 1e-8
    cs = np.abs(coef).sum() + 1e-9
    m.close(gb, wb, "gdn-gradient", "beta", rtol=tg, atol=tg * cs)
    m.close(gg.reshape(c, c), wg, "gdn-gradient", "gamma", rtol=tg,
            atol=tg * cs * (1 + np.abs(xn).max()))
    if (xn != 0).all():
        wx = (un * den if inv else un / den) + np.einsum("ij,nihw->njhw", gn, coef) * np.sign(xn)
        m.close(gx, wx, "gdn-gradient", "input", rtol=tg, atol=tg * (1 + np.abs(wx).max()))
    # a history of steps: the optimiser's parameters stay the layer's
    opt = torch.optim.SGD(layer.parameters(), lr=r.choice([0.1, 1.0, 5.0]))
    for _ in range(r.randint(1, 4)):
        opt.zero_grad()
        loss = (layer(x0) ** 2).mean() * r.choice([1, -1])
        loss.backward()
        if not all(torch.isfinite(p.grad).all() for p in layer.parameters()):
            break
        nn.utils.clip_grad_norm_(layer.parameters(), 1.0)
        before = [p.detach().clone() for p in layer.parameters()]
        opt.step()
        moved = [not torch.equal(a, p.detach()) for a, p in zip(before, layer.parameters())]
        nz = [bool((p.grad.abs() > 1e-6).any()) for p in layer.parameters()]
        m.check(all(mv or not z for mv, z in zip(moved, nz)), "gdn-optimiser",
                "the optimiser no longer moves the layer's parameters")
        out = layer(x0)
        m.check(bool(torch.isfinite(out).all()) and bool((layer.gamma >= 0).all()) and
                bool((layer.beta >= bmin * (1 - 1e-6)).all()), "gdn-finite",
                "after a training step")
    other = copy.deepcopy(cls(c, **kw).to(dtype))
    other.load_state_dict(layer.state_dict())
    m.check(torch.equal(other(x0), layer(x0)), "state-dict", cls.__name__)


def chan(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    c = r.choice([2, 3, 5, 16, 16, 220])
    eps = r.choice([None, 1e-3, 1e-5, 0.5])
    affine = r.choice([None, True, False])
    kw = {k: v for k, v in (("epsilon", eps), ("affine", affine)) if v is not None}
    ok, layer = m.run("chan-value", ChannelNorm2D, c, **kw)
    if not ok:
        return
    layer = layer.to(dtype)
    aff = affine is not False
    m.check(len(list(layer.parameters())) == (2 if aff else 0), "chan-params", f"{affine}")
    if aff:
        m.check(bool((layer.gamma == 1).all() and (layer.beta == 0).all()), "chan-params",
                "initial values")
        with torch.no_grad():
            layer.gamma.copy_(torch.randn_like(layer.gamma))
            layer.beta.copy_(torch.randn_like(layer.beta))
    shape = (r.choice([1, 2, 3, 8]), c, r.choice([1, 2, 3, 4, 5, 6, 6, 70]), r.randint(1, 6))
    x = torch.randn(shape, dtype=dtype) * 10 ** r.uniform(-2, 1.5) + r.choice([0, 0, 3.0])
    if r.random() < 0.2:
        x = x[:, :1].expand(shape).clone()                     # constant over channels
    if r.random() < 0.3:
        layer.eval()
    m.case(("chan", c, eps, affine, shape, str(dtype)), True)
    x0 = x.clone()
    ok, y = m.run("chan-value", layer, x)
    if not ok:
        return
    a = x0.double().numpy()
    mean = a.mean(1, keepdims=True)
    var = ((a - mean) ** 2).sum(1, keepdims=True) / (c - 1)
    n = (a - mean) / np.sqrt(var + (1e-3 if eps is None else eps))
    want = n
    if aff:
        want = n * layer.gamma.detach().double().numpy() + layer.beta.detach().double().numpy()
    tol = 1e-9 if dtype == torch.float64 else 2e-3 if eps == 1e-5 else 3e-4
    if dtype == torch.float32:  # cancellation in x - mean
        tol += 1e-7 * c * float((abs(mean) / np.sqrt(var + (1e-3 if eps is None else eps))).max())
    m.close(y, want, "chan-value", f"c={c} eps={eps} affine={affine}", rtol=tol, atol=tol)
    m.check(torch.equal(x, x0), "input-unchanged", "channel norm")
    i = r.randrange(shape[0])
    h, w = r.randrange(shape[2]), r.randrange(shape[3])
    m.close(layer(x0[i:i + 1, :, h:h + 1, w:w + 1]), y[i:i + 1, :, h:h + 1, w:w + 1].detach(),
            "chan-local", "depends on other pixels or images", rtol=tol, atol=tol)
    if not aff:
        m.close(y.double().mean(1), np.zeros_like(mean[:, 0]), "chan-moments", "mean", rtol=0,
                atol=max(tol, 1e-3))
    else:
        m.event("chan-moments")
    m.raises("chan-rejects", ValueError, ChannelNorm2D, r.choice([1, 0, -3]))


def xca(m):
    r = m.rng
    heads = r.choice([1, 2, 4, None])
    hh = heads or 8
    c = hh * r.choice([1, 2, 3])
    bias = r.choice([True, False, None])
    kw = {k: v for k, v in (("num_heads", heads), ("qkv_bias", bias)) if v is not None}
    ok, layer = m.run("xca-value", XCA, c, **kw)
    if not ok:
        return
    layer = layer.double().eval()
    with torch.no_grad():
        layer.temperature.copy_(torch.rand_like(layer.temperature) * 3 + 0.2)
    B, N = r.choice([1, 2, 3, 7]), r.choice([1, 2, 5, 9, 200])
    x = torch.randn(B, N, c, dtype=torch.float64)
    m.case(("xca", hh, c, bias, B, N), True)
    x0 = x.clone()
    with torch.no_grad():
        ok, y = m.run("xca-value", layer, x)
    if not ok:
        return
    W = layer.qkv.weight.detach().numpy()
    b = layer.qkv.bias.detach().numpy() if layer.qkv.bias is not None else 0.0
    m.check((layer.qkv.bias is not None) == bool(bias), "xca-value", "qkv bias")
    d = c // hh
    want = np.empty((B, N, c))
    for i in range(B):
        t = x0[i].numpy() @ W.T + b                            # N x 3c
        q, k, v = t[:, :c], t[:, c:2 * c], t[:, 2 * c:]
        o = np.empty((N, c))
        for h in range(hh):
            s = slice(h * d, h * d + d)
            qh, kh, vh = q[:, s].T, k[:, s].T, v[:, s].T       # d x N
            qh = qh / np.maximum(np.linalg.norm(qh, axis=1, keepdims=True), 1e-12)
            kh = kh / np.maximum(np.linalg.norm(kh, axis=1, keepdims=True), 1e-12)
            a = qh @ kh.T * float(layer.temperature[h])
            a = np.exp(a - a.max(1, keepdims=True))
            a /= a.sum(1, keepdims=True)
            o[:, s] = (a @ vh).T
        want[i] = o @ layer.proj.weight.detach().numpy().T + layer.proj.bias.detach().numpy()
    m.close(y, want, "xca-value", f"heads {hh} c {c}", rtol=1e-8, atol=1e-9)
    m.check(torch.equal(x, x0), "input-unchanged", "xca")
    with torch.no_grad():
        p = torch.randperm(N)
        m.close(layer(x0[:, p]), y[:, p], "xca-permutation", "token order", rtol=1e-8, atol=1e-9)
        m.close(layer(x0[:1]), y[:1], "xca-batch", "", rtol=1e-8, atol=1e-9)
        drop = XCA(c, num_heads=hh, attn_drop=r.choice([0.0, 0.5]), proj_drop=0.5)
        drop = drop.double()
        drop.load_state_dict(XCA(c, num_heads=hh).double().state_dict())
        drop.train()
        xd = torch.randn(2, 9, c, dtype=torch.float64)
        z = torch.stack([drop(xd) for _ in range(8)])
        m.check(bool((z == 0).any()) and bool((z != z[:1]).any()), "xca-dropout",
                "inactive in training")
        drop.eval()
        m.check(torch.equal(drop(x0), drop(x0)), "xca-dropout", "active in eval")
    m.check(set(layer.no_weight_decay()) == {"temperature"}, "xca-value", "no_weight_decay")


class Spy(nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.seen, self.fn = [], fn

    def forward(self, out):
        self.seen.append(out.latent.detach().clone())
        out.latent = self.fn(out.latent)
        out.index = 7
        return out


def wrappers(m):
    r = m.rng
    c = r.choice([1, 2, 4, 8])
    shape = (r.choice([1, 3]), c, r.randint(1, 5), r.randint(1, 5))
    x = torch.randn(shape, dtype=torch.float64) * 10 ** r.uniform(-3, 3)
    if r.random() < 0.3:
        x[:, :, 0, 0] = 0
    scale = r.choice([2.0, -1.0, 0.5])
    kind = r.choice(["none", "spy", "nested"])
    m.case(("latent", shape, kind, scale), True)
    x0 = x.clone()
    xn = x0.numpy()
    unit = xn / np.maximum(np.linalg.norm(xn, axis=1, keepdims=True), 1e-12)
    spy = Spy(lambda t: t * scale)
    layer = NormalizeLatent(None if kind == "none" else spy if kind == "spy"
                            else NormalizeLatent(spy))
    img = torch.rand(1, 3, 4, 4)
    out = VqVaeAutoencoderOutput(image=img, latent=x)
    ok, res = m.run("norm-unit", layer, out)
    if ok:
        m.close(res.latent, unit if kind == "none" else unit * scale, "norm-unit", kind,
                rtol=1e-9, atol=1e-12)
        m.check(torch.equal(x, x0), "input-unchanged", "normalize latent")
        m.check(res.image is img, "norm-child", "image field lost")
        if kind != "none":
            m.check(len(spy.seen) == 1 and res.index == 7, "norm-child",
                    "child not run exactly once or its output dropped")
            m.close(spy.seen[0], unit, "norm-child", "the child's input", rtol=1e-9, atol=1e-12)
        else:
            m.event("norm-child")
    m.raises("norm-none", ValueError, layer, VqVaeAutoencoderOutput(image=img, latent=None))
    # projection
    d = r.choice([1, 3, 6])
    spy = Spy(lambda t: t * scale)
    proj = ProjectLatent(c, d, child=None if kind == "none" else spy).double()
    Wi, bi = proj.input_conv.weight.detach().numpy()[:, :, 0, 0], proj.input_conv.bias.detach().numpy()
    Wo, bo = proj.output_conv.weight.detach().numpy()[:, :, 0, 0], proj.output_conv.bias.detach().numpy()
    m.check(Wi.shape == (d, c) and Wo.shape == (c, d), "proj-value", f"{Wi.shape} {Wo.shape}")
    out = VqVaeAutoencoderOutput(image=img, latent=x)
    ok, res = m.run("proj-value", proj, out)
    if ok:
        mid = np.einsum("dc,nchw->ndhw", Wi, xn) + bi[None, :, None, None]
        s = 1.0 if kind == "none" else scale
        want = np.einsum("cd,ndhw->nchw", Wo, mid * s) + bo[None, :, None, None]
        m.close(res.latent, want, "proj-value", kind, rtol=1e-8, atol=1e-8 * (1 + np.abs(want).max()))
        if kind != "none":
            m.check(len(spy.seen) == 1 and res.index == 7 and res.image is img, "proj-child",
                    "child")
            m.close(spy.seen[0], mid, "proj-child", "the child's input", rtol=1e-8,
                    atol=1e-8 * (1 + np.abs(mid).max()))
        else:
            m.event("proj-child")


def run(m):
    for i in range(m.n(1300, 15000)):
        m.seed_torch(i)
        gdn(m)
        chan(m)
        xca(m)
        wrappers(m)
        if not m.time_left():
            break
