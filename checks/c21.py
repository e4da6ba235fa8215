"""Multi-scale SSIM: functional against an independent reference, metric accumulation."""
import copy
import math
import pickle

import numpy as np
import torch
from scipy.ndimage import correlate1d

import neuralcompression.functional as ncF
from neuralcompression.metrics import MultiscaleStructuralSimilarity

PID = "C21"
RULE = ("case = one (image pair batch, MS-SSIM parameters) or one history of the metric object; "
        "non-trivial when the images differ; distinct by sizes, parameters and history")
REQUIRED = ["value", "identical", "symmetric", "bounded", "scale", "reduction", "batch",
            "channels", "rejects-small", "rejects-window", "rejects-reduction", "gradient",
            "input-unchanged", "accumulates", "forward", "reset", "synced", "persisted",
            "monotone"]
BUDGET = (36, 150)
WANG = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)


def blur(x, g):
    w = len(g) // 2
    y = correlate1d(correlate1d(x, g, axis=0, mode="reflect"), g, axis=1, mode="reflect")
    return y[w:x.shape[0] - w, w:x.shape[1] - w]


def halve(x):
    if x.shape[0] % 2:
        x = np.concatenate([x, x[-1:]], 0)
    if x.shape[1] % 2:
        x = np.concatenate([x, x[:, -1:]], 1)
    return (x[0::2, 0::2] + x[1::2, 0::2] + x[0::2, 1::2] + x[1::2, 1::2]) / 4


def ref(a, b, dr, win, k1, k2, std, powers):
    """scores per image, and the smallest |scale term| met (conditioning)."""
    i = np.arange(win) - win // 2
    g = np.exp(-(i ** 2) / (2.0 * std ** 2))
    g = g / g.sum()
    c1, c2 = (k1 * dr) ** 2, (k2 * dr) ** 2
    out, cond = [], 1.0
    for n in range(a.shape[0]):
        per = []
        for c in range(a.shape[1]):
            x, y = a[n, c].astype(np.float64), b[n, c].astype(np.float64)
            v = 1.0
            for s, p in enumerate(powers):
                if s:
                    x, y = halve(x), halve(y)
                mx, my = blur(x, g), blur(y, g)
                sx, sy = blur(x * x, g) - mx ** 2, blur(y * y, g) - my ** 2
                sxy = blur(x * y, g) - mx * my
                cs = (2 * sxy + c2) / (sx + sy + c2)
                t = cs.mean()
                if s == len(powers) - 1:
                    t = (cs * (2 * mx * my + c1) / (mx ** 2 + my ** 2 + c1)).mean()
                cond = min(cond, abs(t))
                v *= max(t, 0.0) ** p
            per.append(v)
        out.append(np.mean(per))
    return np.array(out), cond


def images(r, g, shape, dr, dtype):
    kind = r.choice(["noise", "noise", "smooth", "const", "shift", "edge", "negative", "dark"])
    yy, xx = np.meshgrid(np.arange(shape[2]), np.arange(shape[3]), indexing="ij")
    base = 0.5 + 0.4 * np.sin(yy * g.uniform(0.02, 0.5) + xx * g.uniform(0.02, 0.5))
    a = np.broadcast_to(base, shape) * g.uniform(0.5, 1, (shape[0], shape[1], 1, 1))
    a = a + 0.1 * g.random(shape)
    s = 10 ** g.uniform(-2.5, -0.5)
    if kind == "noise":
        b = a + s * g.standard_normal(shape)
    elif kind == "smooth":
        b = a * g.uniform(0.4, 1) + 0.1
    elif kind == "const":
        a = np.full(shape, 0.7)
        b = np.full(shape, g.uniform(0.1, 1))
    elif kind == "shift":
        b = np.roll(a, int(g.integers(1, 4)), axis=-1)
    elif kind == "edge":
        b = a.copy()
        b[..., -1] += s * 4
        b[..., -1, :] -= s * 4
    elif kind == "dark":  # where the stabilising constants decide
        a = a * g.uniform(0.01, 0.05)
        b = a * g.uniform(0.2, 0.8)
    else:
        b = 1 - a
    return (torch.tensor(a * dr).to(dtype), torch.tensor(np.clip(b, 0, 1.5) * dr).to(dtype),
            kind)


def config(r):
    k = r.random()
    if k < 0.08:
        return dict()
    kw = dict(window_size=r.choice([3, 3, 5, 5, 7, 9]), data_range=r.choice([1.0, 255.0, 2.0]))
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    kw["power_factors"] = r.choice([WANG[:n], tuple(r.uniform(0.1, 0.6) for _ in range(n)),
                                    [1.0 / n] * n])
    if r.random() < 0.4:
        kw["k1"] = r.choice([0.02, 0.005, 0.05])
        kw["k2"] = r.choice([0.01, 0.06])
    if r.random() < 0.4:
        kw["gaussian_std"] = r.choice([0.8, 1.2, 2.5])
    return kw


def full(kw):
    return (kw.get("data_range", 1.0), kw.get("window_size", 11), kw.get("k1", 0.01),
            kw.get("k2", 0.03), kw.get("gaussian_std", 1.5), kw.get("power_factors", WANG))


def smallest(win, scales):
    """sizes after (scales-1) ceil-halvings are >= win iff size > (win-1) * 2**(scales-1)"""
    return (win - 1) * 2 ** (scales - 1) + 1


def functional(m, default=False):
    r = m.rng
    g = np.random.default_rng(r.getrandbits(32))
    kw = {} if default else config(r)
    p = full(kw)
    lo = smallest(p[1], len(p[5]))
    h, w = (r.choice([lo, lo + 1, lo + r.randint(0, 30), lo + r.randint(0, 60)]) for _ in "hw")
    shape = (r.choice([1, 1, 2, 3, 7]), r.choice([1, 3, 2]), h, w)
    if r.random() < 0.02:
        shape = (1, 3, lo + r.randint(150, 400), lo + r.randint(100, 400))
    dtype = r.choice([torch.float64, torch.float64, torch.float32])
    a, b, kind = images(r, g, shape, p[0], dtype)
    m.case((shape, str(dtype), kind, tuple(sorted((k, str(v)) for k, v in kw.items()))), True,
           sample={"shape": shape, "kind": kind, "params": {k: str(v) for k, v in kw.items()}})
    want, cond = ref(a.double().numpy(), b.double().numpy(), *p)
    if cond < (0.02 if dtype == torch.float32 else 1e-6):
        m.event("skipped-ill-conditioned")
        return
    a0, b0 = a.clone(), b.clone()
    ok, v = m.run("value", ncF.multiscale_structural_similarity, a, b, reduction="none", **kw)
    if not ok:
        return
    tol = 1e-7 if dtype == torch.float64 else 4e-3
    m.check(tuple(v.shape) == (shape[0],), "value", f"shape {tuple(v.shape)}")
    m.close(v, want, "value", f"{shape} {kw}", rtol=0, atol=tol)
    m.check(bool((v >= 0).all() and (v <= 1 + tol).all()), "bounded", f"{v.tolist()}")
    m.check(torch.equal(a, a0) and torch.equal(b, b0), "input-unchanged", "")
    fn = ncF.multiscale_structural_similarity
    m.close(fn(b, a, reduction="none", **kw), v, "symmetric", "", rtol=0, atol=tol)
    m.close(fn(a, a.clone(), reduction="none", **kw), torch.ones_like(v), "identical", "",
            rtol=0, atol=tol)
    m.close(fn(a, b, reduction="sum", **kw), v.sum(), "reduction", "sum", rtol=0, atol=tol)
    m.close(fn(a, b, reduction="mean", **kw), v.mean(), "reduction", "mean", rtol=0, atol=tol)
    m.close(fn(a, b, **kw), v.mean(), "reduction", "default", rtol=0, atol=tol)
    m.close(torch.cat([fn(a[i:i + 1], b[i:i + 1], reduction="none", **kw)
                       for i in range(shape[0])]), v, "batch", "alone", rtol=0, atol=tol)
    m.close(torch.stack([fn(a[:, i:i + 1], b[:, i:i + 1], reduction="none", **kw)
                         for i in range(shape[1])]).mean(0), v, "channels", "", rtol=0, atol=tol)
    s = r.choice([0.25, 3.0, 255.0])
    kw2 = dict(kw, data_range=p[0] * s)
    m.close(fn(a * s, b * s, reduction="none", **kw2), v, "scale", f"{s}", rtol=0, atol=tol)
    if kind != "const" and dtype == torch.float64:
        d = torch.randn(shape, dtype=dtype)
        q = [float(fn(a, a + t * p[0] * d, **kw)) for t in (0.01, 0.05, 0.3)]
        m.check(q[0] > q[1] > q[2], "monotone", f"more noise scored higher: {q}")
        if cond > 0.01 and r.random() < 0.4:
            ag = a.clone().requires_grad_()
            (gr,) = torch.autograd.grad(fn(ag, b, **kw), ag)
            u = torch.randn(shape, dtype=dtype)
            e = 1e-5 * p[0]
            num = (float(fn(a + e * u, b, **kw)) - float(fn(a - e * u, b, **kw))) / (2 * e)
            m.close((gr * u).sum(), torch.tensor(num, dtype=dtype), "gradient", "", rtol=5e-3,
                    atol=1e-6 / p[0])


def rejects(m):
    r = m.rng
    kw = config(r)
    p = full(kw)
    lo = smallest(p[1], len(p[5]))
    hw = [lo + r.randint(0, 20), lo + r.randint(0, 20)]
    hw[r.randrange(2)] = lo - 1
    if lo > 1 and hw[0] > 0 and hw[1] > 0:
        x = torch.rand(1, 1, *hw)
        m.raises("rejects-small", RuntimeError, ncF.multiscale_structural_similarity, x, x, **kw)
        if r.random() < 0.3:
            mt = MultiscaleStructuralSimilarity(**kw)
            m.raises("rejects-small", RuntimeError, mt.update, x, x)
    x = torch.rand(1, 1, 70, 70)
    m.raises("rejects-window", ValueError, ncF.multiscale_structural_similarity, x, x,
             window_size=r.choice([0, 2, 4, 10, -1]))
    m.raises("rejects-reduction", ValueError, ncF.multiscale_structural_similarity, x, x,
             window_size=3, reduction=r.choice(["", "batch", "avg", None]))


def history(m):
    r = m.rng
    g = np.random.default_rng(r.getrandbits(32))
    kw = config(r)
    p = full(kw)
    lo = smallest(p[1], len(p[5]))
    mt = MultiscaleStructuralSimilarity(**kw)
    seen, ops = [], []
    for step in range(r.choice([2, 3, 4, 5, 6, 7, 20])):
        op = r.choice(["update", "update", "update", "forward", "reset", "compute", "pickle",
                       "clone", "sync"])
        ops.append(op)
        if op in ("update", "forward", "sync"):
            shape = (r.choice([1, 2, 3, 4, 9]), r.choice([1, 3]), lo + r.randint(0, 20),
                     lo + r.randint(0, 20))
            a, b, _ = images(r, g, shape, p[0], torch.float32)
            vals = [float(v) for v in ncF.multiscale_structural_similarity(
                a, b, reduction="none", **kw)]
        if op == "update":
            ok, _ = m.run("accumulates", mt.update, a, b)
            seen += vals
        elif op == "forward":
            ok, v = m.run("forward", mt, a, b)
            seen += vals
            m.check(ok and abs(float(v) - np.mean(vals)) < 1e-4, "forward",
                    f"batch value {v} want {np.mean(vals)}")
        elif op == "reset":
            mt.reset()
            seen = []
            m.event("reset")
        elif op == "compute" and seen:
            m.check(abs(float(mt.compute()) - np.mean(seen)) < 1e-4, "accumulates",
                    f"after {ops}: {float(mt.compute())} want {np.mean(seen)}")
        elif op == "pickle":
            mt = pickle.loads(pickle.dumps(mt))
            m.event("persisted")
        elif op == "clone":
            mt = r.choice([mt.clone(), copy.deepcopy(mt)])
        elif op == "sync":
            # a second worker saw (a, b); synchronised, both report the mean of everything
            other = MultiscaleStructuralSimilarity(**kw)
            other.update(a, b)
            states = [getattr(other, n).clone() for n in other._defaults]
            it = iter(states)
            mt.sync(dist_sync_fn=lambda x, group=None: [x, next(it)], should_sync=True,
                    distributed_available=lambda: True)
            allv = seen + vals
            keep = mt._to_sync, mt._should_unsync
            mt._to_sync = mt._should_unsync = False
            mt._computed = None
            got = float(mt.compute())
            mt._to_sync, mt._should_unsync = keep
            mt.unsync()
            mt._computed = None
            m.check(abs(got - np.mean(allv)) < 1e-4, "synced",
                    f"two workers: {got} want {np.mean(allv)}")
    m.case(("history", tuple(ops), len(seen)), len(seen) > 1)
    if seen:
        v = mt.compute()
        m.check(abs(float(v) - np.mean(seen)) < 1e-4, "accumulates",
                f"after {ops}: {float(v)} want {np.mean(seen)}")
        m.check(abs(float(mt.compute()) - float(v)) < 1e-7, "accumulates", "compute twice")
    else:
        m.event("empty")


def run(m):
    for i in range(m.n(150, 2500)):
        m.seed_torch(i)
        functional(m, i % 40 == 0)
        rejects(m)
        if i % 2 == 0:
            with torch.no_grad():
                history(m)
        if not m.time_left():
            break
