"""GAN and distortion losses and the target-rate configuration."""
import itertools
import math

import numpy as np
import torch
from torch import nn
import torch.nn.functional as F

import neuralcompression.loss_fn as L

PID = "C27"
RULE = ("case = one (logits, target) evaluation of a loss or one target-rate configuration; "
        "distinct by loss, shapes, target form and logit range")
REQUIRED = ["bce-disc", "bce-gen", "bce-gradient", "bce-rejects", "oasis-disc", "oasis-gen",
            "oasis-gradient", "oasis-direction", "oasis-rejects", "oasis-range", "mse-value", "mse-gradient",
            "abstract", "target-config", "target-rejects", "input-unchanged", "finite"]
BUDGET = (20, 90)


def softplus(x):
    return np.logaddexp(0, x)


def bce(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(4,), (2, 1), (3, 1, 4, 4), (1, 1, 7, 5), (2, 3, 2, 2), (9, 1, 3, 3),
                      (1, 1, 80, 70)])
    scale = r.choice([1.0, 5.0, 100.0])
    real = torch.randn(shape, dtype=dtype) * scale
    fake = torch.randn(shape, dtype=dtype) * scale
    form = r.choice(["scalar", "scalar", "full", "soft"])
    if form == "scalar":
        t = torch.tensor(r.choice([1.0, 1.0, 0.9, 0.0]), dtype=dtype)
    elif form == "full":
        t = torch.ones(shape, dtype=dtype)
    else:
        t = torch.rand(shape, dtype=dtype)
    m.case(("bce", str(dtype), shape, scale, form), True)
    tn = np.broadcast_to(t.double().numpy(), shape)
    rn, fn = real.double().numpy(), fake.double().numpy()
    ce = lambda z, q: softplus(z) - q * z
    want_d = 0.5 * (ce(rn, tn).mean() + softplus(fn).mean())
    want_g = ce(fn, tn).mean()
    keep = [q.clone() for q in (real, fake, t)]
    rg, fg = real.clone().requires_grad_(), fake.clone().requires_grad_()
    tol = 1e-5 if dtype == torch.float32 else 1e-10
    ok, d = m.run("bce-disc", L.BinaryCrossentropyDiscriminatorLoss(), rg, fg, t)
    ok2, g = m.run("bce-gen", L.BinaryCrossentropyGeneratorLoss(), fg, t)
    if not (ok and ok2):
        return
    m.check(d.ndim == 0 and g.ndim == 0, "bce-disc", "not scalars")
    m.close(d, np.float64(want_d), "bce-disc", f"{form} {shape}", rtol=tol, atol=tol)
    m.close(g, np.float64(want_g), "bce-gen", f"{form} {shape}", rtol=tol, atol=tol)
    m.check(bool(torch.isfinite(d) and torch.isfinite(g)), "finite", "bce")
    gr, gf = torch.autograd.grad(d, [rg, fg])
    n = rn.size
    sig = lambda z: 0.5 * (1 + np.tanh(z / 2))
    m.close(gr, 0.5 * (sig(rn) - tn) / n, "bce-gradient", "real", rtol=1e-4, atol=1e-6)
    m.close(gf, 0.5 * sig(fn) / n, "bce-gradient", "fake", rtol=1e-4, atol=1e-6)
    (gg,) = torch.autograd.grad(g, fg)
    m.close(gg, (sig(fn) - tn) / n, "bce-gradient", "generator", rtol=1e-4, atol=1e-6)
    m.check(all(torch.equal(a, b) for a, b in zip(keep, (real, fake, t))), "input-unchanged",
            "bce")
    bad = torch.ones(shape + (1,), dtype=dtype) if r.random() < 0.5 or len(shape) == 1 else \
        torch.ones(shape[:-1], dtype=dtype)
    m.raises("bce-rejects", ValueError, L.BinaryCrossentropyDiscriminatorLoss(), real, fake, bad)
    m.raises("bce-rejects", ValueError, L.BinaryCrossentropyGeneratorLoss(), fake, bad)


def oasis(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    b, k, h, w = r.choice([1, 2, 3, 9]), r.choice(
        [1, 2, 5, 32, 300]), r.randint(1, 5), r.randint(1, 5)
    shape = (b, k + 1, h, w)
    scale = r.choice([1.0, 10.0, 80.0])
    real = torch.randn(shape, dtype=dtype) * scale
    fake = torch.randn(shape, dtype=dtype) * scale
    t = torch.randint(0, k, (b, h, w))
    if r.random() < 0.2:
        t[:] = k - 1
    if r.random() < 0.3:
        t = t.reshape(r.choice([(b, h * w), (b, 1, h, w)]))
    m.case(("oasis", str(dtype), shape, scale, t.ndim), True)
    keep = [q.clone() for q in (real, fake, t)]
    tn = t.reshape(b, h, w).numpy()

    def nll(z, cls):
        z = z.double().numpy()
        mx = z.max(1, keepdims=True)
        lse = (mx + np.log(np.exp(z - mx).sum(1, keepdims=True)))[:, 0]
        return (lse - np.take_along_axis(z, cls[:, None], 1)[:, 0]).mean()
    want_d = 0.5 * (nll(real, tn + 1) + nll(fake, np.zeros_like(tn)))
    want_g = nll(fake, tn + 1)
    rg, fg = real.clone().requires_grad_(), fake.clone().requires_grad_()
    ok, d = m.run("oasis-disc", L.OASISDiscriminatorLoss(), rg, fg, t)
    ok2, g = m.run("oasis-gen", L.OASISGeneratorLoss(), fg, t)
    if not (ok and ok2):
        return
    tol = 2e-5 if dtype == torch.float32 else 1e-10
    m.close(d, np.float64(want_d), "oasis-disc", f"{shape}", rtol=tol, atol=tol)
    m.close(g, np.float64(want_g), "oasis-gen", f"{shape}", rtol=tol, atol=tol)
    m.check(bool(torch.isfinite(d) and torch.isfinite(g)), "finite", "oasis")
    gr, gf = torch.autograd.grad(d, [rg, fg])
    one = np.zeros(shape)
    np.put_along_axis(one, (tn + 1)[:, None], 1.0, 1)
    n = b * h * w
    m.close(gr, 0.5 * (torch.softmax(real.double(), 1).numpy() - one) / n, "oasis-gradient",
            "real", rtol=1e-4, atol=1e-6)
    zero = np.zeros(shape)
    zero[:, 0] = 1
    m.close(gf, 0.5 * (torch.softmax(fake.double(), 1).numpy() - zero) / n, "oasis-gradient",
            "fake", rtol=1e-4, atol=1e-6)
    (gg,) = torch.autograd.grad(g, fg)
    m.close(gg, (torch.softmax(fake.double(), 1).numpy() - one) / n, "oasis-gradient",
            "generator", rtol=1e-4, atol=1e-6)
    # perfect discriminator and perfect generator reach zero loss
    pr = torch.tensor(one * 200).to(dtype)
    pf = torch.tensor(zero * 200).to(dtype)
    m.check(float(L.OASISDiscriminatorLoss()(pr, pf, t)) < 1e-3 and
            float(L.OASISGeneratorLoss()(pr, t)) < 1e-3 and
            float(L.OASISGeneratorLoss()(pf, t)) > 100, "oasis-direction", "")
    m.check(all(torch.equal(a, c) for a, c in zip(keep, (real, fake, t))), "input-unchanged",
            "oasis")
    # a class the logits do not have
    over = t.clone()
    over.view(-1)[r.randrange(t.numel())] = k + r.choice([0, 0, 1, 5])
    m.raises("oasis-range", Exception, L.OASISDiscriminatorLoss(), real, fake, over)
    m.raises("oasis-range", Exception, L.OASISGeneratorLoss(), fake, over)
    how = r.randrange(7)
    if how == 5:
        a = (F.pad(real, (0, 1)), fake, t)
    elif how == 6:
        a = (real, F.pad(fake, (0, 0, 1, 1)), t)
    elif how == 0:
        a = (real, fake, t.float())
    elif how == 1:
        a = (real, fake, t.reshape(-1)[:-1] if t.numel() > 1 else torch.cat([t.reshape(-1)] * 2))
    elif how == 2:
        a = (real[0], fake, t)
    elif how == 3:
        a = (real, fake.reshape(b, k + 1, -1), t)
    else:
        a = (real, fake, t.to(torch.int32))
    m.raises("oasis-rejects", ValueError, L.OASISDiscriminatorLoss(), *a)
    ag = (a[1], a[2]) if how not in (2, 5) else (a[0], a[2])
    m.raises("oasis-rejects", ValueError, L.OASISGeneratorLoss(), *ag)


def mse(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(1, 3, 4, 4), (2, 3, 8, 5), (5,), (2, 2), (9, 3, 60, 50)])
    s = r.choice([None, 1.0, 255.0 ** 2, 0.0, 3.5])
    x, y = torch.rand(shape, dtype=dtype), torch.rand(shape, dtype=dtype)
    m.case(("mse", str(dtype), shape, s), True)
    fn = L.MSELoss() if s is None else L.MSELoss(s)
    x0, y0 = x.clone(), y.clone()
    xg = x.clone().requires_grad_()
    ok, v = m.run("mse-value", fn, xg, y)
    if not ok:
        return
    k = 255.0 ** 2 if s is None else s
    a, b = x.double().numpy(), y.double().numpy()
    m.close(v, np.float64(k * ((a - b) ** 2).mean()), "mse-value", f"scale {s}", rtol=1e-5,
            atol=1e-9)
    (g,) = torch.autograd.grad(v, xg)
    m.close(g, k * 2 * (a - b) / a.size, "mse-gradient", "", rtol=1e-4, atol=1e-6 * k + 1e-12)
    m.check(torch.equal(x, x0) and torch.equal(y, y0), "input-unchanged", "mse")
    for c, n in ((L.DistortionLoss, 2), (L.GeneratorLoss, 2), (L.DiscriminatorLoss, 3)):
        m.raises("abstract", NotImplementedError, c(), *([x] * n))


def config(m):
    r = m.rng
    nt, nl = r.randint(0, 3), r.randint(0, 3)
    tf, ts = [r.uniform(0.5, 2) for _ in range(nt + 1)], sorted(r.sample(range(1000), nt))
    lf, ls = [r.uniform(0.5, 2) for _ in range(nl + 1)], sorted(r.sample(range(1000), nl))
    bpp, lam = r.uniform(0.01, 2), (r.uniform(0, 1), r.uniform(1, 2))
    m.case(("config", nt, nl), True)
    ok, c = m.run("target-config", L.TargetRateConfig, bpp, list(tf), list(ts), lam, list(lf),
                  list(ls))
    if ok:
        m.check(c.target_bpp == bpp and list(c.target_factors) == tf and
                list(c.target_steps) == ts and tuple(c.lam_levels) == lam and
                list(c.lam2_factors) == lf and list(c.lam2_steps) == ls, "target-config",
                "fields differ from the arguments")
        for a in ("target_bpp", "lam_levels", "target_steps"):
            m.raises("target-config", AttributeError, setattr, c, a, 1)
    bad = r.choice([(tf + [1.0], ts, lf, ls), (tf, ts + [2000], lf, ls), (tf, ts, lf, ls + [9999]),
                    (tf, ts, lf + [1.0], ls), (tf[:-1], ts, lf, ls), (tf, ts, lf[:-1], ls),
                    (tf + [1.0], ts, lf, ls + [9])])
    m.raises("target-rejects", ValueError, L.TargetRateConfig, bpp, bad[0], bad[1], lam, bad[2],
             bad[3])


def run(m):
    for i in range(m.n(900, 12000)):
        m.seed_torch(i)
        bce(m)
        oasis(m)
        mse(m)
        config(m)
        if not m.time_left():
            break
