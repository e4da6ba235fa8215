"""Quantisation surrogates: soft rounding, its inverse and conditional mean; lower_bound."""
import math

import numpy as np
import torch

import neuralcompression.functional as ncF

PID = "C18"
RULE = ("case = one (points, alpha) evaluation of the soft-rounding family or one (x, bound, "
        "gradient rule, upstream gradient) evaluation of lower_bound; non-trivial when alpha is "
        "above the threshold / some element is below the bound; distinct by parameters")
REQUIRED = ["value", "identity", "fixed-points", "monotone", "periodic", "bounded", "limit",
            "inverse", "conditional-mean", "sr-gradient", "bound-value", "bound-gradient",
            "bound-descent", "bound-rejects", "dtype", "input-unchanged"]
BUDGET = (14, 120)


def ref_round(x, alpha):
    m = np.floor(x) + 0.5
    return m + np.tanh(alpha * (x - m)) / (2 * math.tanh(alpha / 2))


def ref_inverse(y, alpha):
    m = np.floor(y) + 0.5
    s = np.clip((y - m) * 2 * math.tanh(alpha / 2), -1, 1)
    with np.errstate(divide="ignore"):
        return m + np.clip(np.arctanh(s) / alpha, -0.5, 0.5)


def soft(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    eps = r.choice([1e-3, 1e-3, 1e-2, 0.5])
    alpha = r.choice([10 ** r.uniform(-5, 2), r.uniform(0.5, 12), eps * 0.99, eps * 1.01])
    n = r.choice([1, 9, 64, 64, 1000])
    x = torch.tensor([r.choice([r.uniform(-9, 9), r.randint(-5, 5) + 0.5, float(r.randint(-5, 5)),
                                r.randint(-5, 5) + r.choice([1e-3, -1e-3, 0.499, 0.501])])
                      for _ in range(n)], dtype=dtype)
    x = x.reshape(r.choice([(n,), (n, 1), (1, n)]))
    m.case(("soft", str(dtype), eps, n, round(math.log10(alpha), 1)), alpha >= eps)
    x0 = x.clone()
    ok, y = m.run("value", ncF.soft_round, x, alpha, eps)
    ok2, z = m.run("inverse", ncF.soft_round_inverse, x, alpha, eps)
    if not (ok and ok2):
        return
    m.check(torch.equal(x, x0), "input-unchanged", "")
    m.check(y.dtype == dtype and z.dtype == dtype and y.shape == x.shape and z.shape == x.shape,
            "dtype", f"{y.dtype} {tuple(y.shape)}")
    if alpha < eps:
        m.check(torch.equal(y, x) and torch.equal(z, x), "identity", f"alpha {alpha} eps {eps}")
        return
    x64 = x.double().numpy()
    tol = 3e-6 * (1 + min(alpha, 50)) + 1e-5 / min(1, alpha) * 0.1
    m.close(y, ref_round(x64, alpha), "value", f"soft_round alpha={alpha}", rtol=0, atol=tol)
    fl = torch.floor(x)
    m.check(bool((y >= fl - tol).all() and (y <= fl + 1 + tol).all()), "bounded",
            "leaves the unit interval of x")
    k = r.randint(-7, 7)
    base = torch.tensor([r.uniform(0.01, 0.99) for _ in range(8)], dtype=dtype)
    m.close(ncF.soft_round(base + k, alpha, eps), ncF.soft_round(base, alpha, eps) + k,
            "periodic", f"shift {k}", rtol=0, atol=tol * 2 + 2e-6 * alpha)
    ints = torch.tensor([float(k), k + 0.5], dtype=dtype)
    m.close(ncF.soft_round(ints, alpha, eps), ints, "fixed-points", f"alpha {alpha}", rtol=0,
            atol=tol)
    m.close(ncF.soft_round_inverse(ints, alpha, eps), ints, "fixed-points", "inverse", rtol=0,
            atol=tol + 0.02 / max(1, 20 - alpha) if alpha < 15 else 0.51)
    g = torch.sort(torch.rand(40, dtype=dtype) * 6 - 3)[0]
    m.check(bool((ncF.soft_round(g, alpha, eps).diff() >= -tol).all()), "monotone", "soft_round")
    m.check(bool((ncF.soft_round_inverse(g, alpha, eps).diff() >= -tol - 1e-4).all()),
            "monotone", "inverse")
    # inverse: judged where it is well conditioned
    if alpha <= 8:
        frac = x64 - np.floor(x64)
        cond = alpha / (2 * math.tanh(alpha / 2)) / np.cosh(alpha * (frac - 0.5)) ** 2
        back = ncF.soft_round_inverse(y, alpha, eps).double().numpy()
        inside = (frac > 1e-3) & (frac < 1 - 1e-3) & (cond > 1e-3)
        e = np.abs(back - x64)[inside]
        c = cond[inside]
        m.check(not e.size or bool((e <= (1e-5 + tol) / np.minimum(c, 1)).all()), "inverse",
                f"inverse(soft_round(x)) off by {e.max() if e.size else 0} alpha={alpha}")
        fz = np.abs(2 * (frac - 0.5) * math.tanh(alpha / 2))
        good = fz < 0.999
        if good.any():
            zz = z.double().numpy()
            m.check(bool((np.abs(zz - ref_inverse(x64, alpha))[good] < 5e-4 / min(alpha, 1))
                         .all()), "inverse", f"value alpha={alpha}")
    if alpha >= 40:
        far = (x - torch.floor(x) - 0.5).abs() > 0.3
        m.check(bool(((y - torch.round(x)).abs()[far & ((x - torch.round(x)).abs() > 1e-4)]
                      < 1e-3).all()), "limit", "large alpha")
    # conditional mean of Y uniform given soft_round(Y) + U = z
    if eps == 1e-3 and alpha <= 8:
        zc = torch.tensor([r.uniform(-3, 3) for _ in range(6)], dtype=dtype)
        z64 = zc.double().numpy()
        fr = (z64 - 0.5) - np.floor(z64 - 0.5)
        keep = np.abs(2 * (fr - 0.5) * math.tanh(alpha / 2)) < 0.999
        lo, hi = ref_inverse(z64 - 0.5, alpha), ref_inverse(z64 + 0.5, alpha)
        got = ncF.soft_round_conditional_mean(zc, alpha).double().numpy()
        m.check(bool((np.abs(got - (lo + hi) / 2)[keep] < 1e-3 / min(alpha, 1)).all()),
                "conditional-mean", f"alpha={alpha}")
        m.event("conditional-mean")
    # gradient
    if alpha < 20:
        xg = x.clone().requires_grad_()
        (g,) = torch.autograd.grad(ncF.soft_round(xg, alpha, eps).sum(), xg)
        mm = np.floor(x64) + 0.5
        want = alpha / np.cosh(alpha * (x64 - mm)) ** 2 / (2 * math.tanh(alpha / 2))
        m.close(g, want, "sr-gradient", f"alpha {alpha}", rtol=2e-3, atol=2e-3)


def bound(m):
    r = m.rng
    m.seed_torch()
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(5,), (3, 4), (2, 3, 4, 2), (), (9, 70, 11)])
    x = torch.randn(shape, dtype=dtype) * 2
    kind = r.choice(["float", "tensor0", "tensor", "row", "int"])
    b = {"float": lambda: r.uniform(-1, 1), "tensor0": lambda: torch.tensor(r.uniform(-1, 1),
                                                                          dtype=dtype),
         "tensor": lambda: torch.randn(shape, dtype=dtype),
         "row": lambda: torch.randn(shape[-1:] or (), dtype=dtype),
         "int": lambda: r.choice([-1, 0, 1])}[kind]()
    bt = torch.as_tensor(b, dtype=dtype).expand(shape)
    # make some elements sit exactly on the bound
    tie = torch.rand(shape) < 0.15
    x = torch.where(tie, bt, x)
    rule = r.choice(["disconnected", "identity", "identity_if_towards", None])
    m.case(("bound", str(dtype), shape, kind, rule), bool((x < bt).any()))
    x0 = x.clone()
    xg = x.clone().requires_grad_()
    args = (xg, b) if rule is None else (xg, b, rule)
    ok, y = m.run("bound-value", ncF.lower_bound, *args)
    if not ok:
        return
    m.check(y.dtype == dtype and tuple(y.shape) == tuple(shape), "dtype",
            f"{y.dtype} {tuple(y.shape)}")
    m.check(torch.equal(y.detach(), torch.maximum(x, bt)), "bound-value", "not maximum")
    up = torch.randn(shape, dtype=dtype)
    up = torch.where(torch.rand(shape) < 0.1, torch.zeros_like(up), up)
    ok, g = m.run("bound-gradient", lambda: torch.autograd.grad(y, xg, up)[0])
    if not ok:
        return
    if rule == "identity":
        want = up
    elif rule == "disconnected":
        want = up * (x > bt)
    else:
        want = up * ((x >= bt) | (up < 0))
    m.check(g.dtype == dtype, "dtype", "gradient dtype")
    bad = g != want
    if rule == "disconnected":
        # torch.maximum shares the gradient of a tie between both inputs; either is a
        # subgradient, so ties are not judged
        bad = bad & (x != bt)
    m.check(not bool(bad.any()), "bound-gradient", f"{rule}: got {g[bad][:3].tolist()} want "
            f"{want[bad][:3].tolist()}")
    # descent never gets stuck below the bound when it wants to rise, nor digs deeper
    if rule in (None, "identity_if_towards"):
        below = x < bt
        step = x - 0.1 * g
        m.check(bool((step[below] >= x[below]).all()), "bound-descent", "pushed away from bound")
        rise = below & (up < 0)
        m.check(bool((step[rise] > x[rise]).all()), "bound-descent", "stuck below bound")
    m.check(torch.equal(x, x0), "input-unchanged", "")
    m.raises("bound-rejects", ValueError, ncF.lower_bound, x, b,
             r.choice(["", "Identity", "towards", "none"]))
    with torch.no_grad():
        m.check(torch.equal(ncF.lower_bound(x, b), torch.maximum(x, bt)), "bound-value",
                "without autograd")


def run(m):
    for i in range(m.n(4000, 12000)):
        soft(m)
        bound(m)
        if not m.time_left():
            break
