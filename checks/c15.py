"""Normal-CDF numerics: values, complements, extremes and gradients against SciPy."""
import math

import numpy as np
import scipy.special as sp
import scipy.stats as st
import torch
from torch.distributions import Gamma, Laplace, LogNormal, Normal, Uniform

import neuralcompression.functional as ncF

PID = "C15"
RULE = ("case = one tensor of points (grid over the whole real line, tails, near the branch "
        "points, random) for one function/distribution; non-trivial when it has >= 2 "
        "distinct finite points; distinct by (function, dtype, shape, distribution, region)")
REQUIRED = ["ndtr", "log-ndtr", "log-cdf", "survival", "log-survival", "complement",
            "monotone", "gradient", "log-expm1", "rejects", "finite", "generic", "shape"]
BUDGET = (14, 120)


def points(m, region):
    r = m.rng
    n = r.choice([1, 7, 64, 300, 300, 5000])
    t = np.array([r.random() for _ in range(n)])
    if region == "core":
        x = t * 12 - 6
    elif region == "left":
        x = -(10 ** (t * 3.2 - 0.2))
    elif region == "right":
        x = 10 ** (t * 3.2 - 0.2)
    elif region == "branch":
        b = np.array([-1.0, 1.0, 0.0, -5.0, 5.0, -20.0, -10.0, 8.0])
        x = b[(t * 1e6).astype(int) % len(b)] + np.array(
            [r.choice([0, 1e-7, -1e-7, 1e-3, -1e-3, 1e-2, -1e-2]) for _ in range(n)])
    else:
        x = np.array([r.gauss(0, 1) for _ in range(n)])
    return x


def shaped(m, x, dtype):
    x = torch.tensor(x, dtype=dtype)
    k = x.numel()
    return x.reshape(m.rng.choice([(k,), (1, k), (k, 1, 1)]))


def cdfs(m):
    r = m.rng
    region = r.choice(["core", "left", "right", "branch", "gauss"])
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    x = shaped(m, points(m, region), dtype)
    m.case(("std", region, str(dtype), tuple(x.shape)), x.numel() > 1)
    x64 = x.double().numpy()
    x0 = x.clone()
    # single precision: the argument itself is rounded, which the tail amplifies
    amp = 1 + np.abs(x64)
    ref = sp.ndtr(x64)
    got = ncF.ndtr(x)
    m.check(got.shape == x.shape, "shape", "ndtr")
    g = got.double().numpy()
    err = np.abs(g - ref)
    m.check(bool((err <= 2e-7 + 0).all()), "ndtr", f"absolute error {err.max()}")
    tail = (x64 < -1) & (x64 > -13)
    if tail.any():
        rel = (err / ref)[tail] / (amp[tail] ** 2)
        m.check(bool((rel < 4e-7).all()), "ndtr", f"left-tail relative error {rel.max()}")
    m.check(bool(((g >= 0) & (g <= 1)).all()), "ndtr", "outside [0, 1]")
    s = g + ncF.ndtr(-x).double().numpy()
    m.check(bool((np.abs(s - 1) < 4e-7).all()), "complement", "ndtr(x) + ndtr(-x)")
    lref = sp.log_ndtr(x64)
    ok, lg = m.run("log-ndtr", ncF.log_ndtr, x)
    if ok:
        m.check(lg.dtype == dtype and lg.shape == x.shape, "shape", "log_ndtr")
        l = lg.double().numpy()
        tol = 1e-10 if dtype == torch.float64 else 3e-6
        small = np.abs(lref) < 1e-30
        m.check(bool(np.isfinite(l).all()), "finite", "log_ndtr not finite")
        bad = np.abs(l - lref) > tol * np.abs(lref) + (1e-12 if dtype == torch.float64 else 1e-7)
        m.check(not bad[~small].any(), "log-ndtr",
                f"x={x64[bad & ~small][:3]} got={l[bad & ~small][:3]}"
                f" want={lref[bad & ~small][:3]}")
        # right tail: log(cdf) = -sf, which must not vanish while representable
        rt = (x64 > 2) & (x64 < (8 if dtype == torch.float32 else 30))
        if rt.any():
            rel = np.abs(l - lref)[rt] / np.abs(lref)[rt] / amp[rt] ** 2
            m.check(bool((rel < 2e-6).all()), "log-ndtr", f"right tail rel {rel.max()}")
    # gradients
    xg = x.clone().requires_grad_()
    (d,) = torch.autograd.grad(ncF.ndtr(xg).sum(), xg)
    pdf = st.norm.pdf(x64)
    m.check(bool((np.abs(d.double().numpy() - pdf) <= 1e-6 + 2e-5 * pdf * amp).all()),
            "gradient", "d ndtr")
    xg = x.clone().requires_grad_()
    (d,) = torch.autograd.grad(ncF.log_ndtr(xg).sum(), xg)
    haz = math.sqrt(2 / math.pi) / sp.erfcx(-x64 / math.sqrt(2))
    # torch differentiates as exp(-x^2/2 - result): in single precision the error grows as x^2
    tg = 1e-3 + (0 if dtype == torch.float64 else 3e-7 * x64 ** 2)
    m.check(bool((np.abs(d.double().numpy() - haz) <= 1e-6 + tg * haz).all()), "gradient",
            f"d log_ndtr at {x64.reshape(-1)[:3]}")
    srt = torch.sort(x.reshape(-1))[0]
    m.check(bool((ncF.ndtr(srt).diff() >= -1e-7).all()), "monotone", "ndtr")
    m.check(bool((ncF.log_ndtr(srt).diff() >= -1e-6).all()), "monotone", "log_ndtr")
    m.check(torch.equal(x, x0), "shape", "input modified")


def dists(m):
    r = m.rng
    m.seed_torch()
    region = r.choice(["core", "left", "right", "branch", "gauss"])
    dtype = r.choice([torch.float32, torch.float64])
    k = r.randint(1, 4)
    loc = torch.tensor([r.uniform(-30, 30) for _ in range(k)], dtype=dtype)
    sc = torch.tensor([10 ** r.uniform(-2, 2) for _ in range(k)], dtype=dtype)
    z = points(m, region)
    x = torch.tensor(z, dtype=dtype)[:, None] * sc + loc
    m.case(("normal", region, str(dtype), k, z.size), z.size > 1)
    d = Normal(loc, sc)
    std = ((x - loc) / sc).double().numpy()
    f32 = dtype == torch.float32
    amp = 1 + np.abs(std)
    lref, sref = sp.log_ndtr(std), sp.log_ndtr(-std)
    for name, fn, want in (("log-cdf", ncF.log_cdf, lref), ("log-survival",
                                                          ncF.log_survival_function, sref)):
        ok, got = m.run(name, fn, x, d)
        if ok:
            m.check(got.shape == x.shape and got.dtype == dtype, "shape", name)
            got = got.double().numpy()
            m.check(bool(np.isfinite(got).all()), "finite", name)
            tol = (5e-6 if f32 else 1e-9)
            bad = np.abs(got - want) > tol * np.abs(want) + (2e-7 if f32 else 1e-12)
            m.check(not bad.any(), name, f"z={std[bad][:3]} got {got[bad][:3]} want "
                    f"{want[bad][:3]}")
    ok, s = m.run("survival", ncF.survival_function, x, d)
    if ok:
        want = sp.ndtr(-std)
        m.check(s.shape == x.shape, "shape", "survival")
        s = s.double().numpy()
        m.check(bool((np.abs(s - want) <= 3e-7).all()), "survival", "absolute error")
        t = (std > 1) & (std < 13)
        if t.any():
            rel = (np.abs(s - want) / want)[t] / amp[t] ** 2
            m.check(bool((rel < 5e-7).all()), "survival", f"right-tail relative {rel.max()}")
        c = d.cdf(x).double().numpy()
        m.check(bool((np.abs(s + c - 1) < 1e-6).all()), "complement", "cdf + survival")
    lc, ls = ncF.log_cdf(x, d).double(), ncF.log_survival_function(x, d).double()
    tot = (torch.logaddexp(lc, ls)).abs()
    m.check(float(tot.max()) < (2e-6 if f32 else 1e-9), "complement", "log_cdf (+) log_sf != 0")
    # gradients with respect to the parameters
    lo, scl = loc.clone().requires_grad_(), sc.clone().requires_grad_()
    g = torch.autograd.grad(ncF.log_cdf(x, Normal(lo, scl)).sum(), (lo, scl))
    haz = math.sqrt(2 / math.pi) / sp.erfcx(-std / math.sqrt(2))
    want = (-haz / sc.double().numpy()).sum(0)
    mag = (haz / sc.double().numpy()).sum(0)
    m.check(bool((np.abs(g[0].double().numpy() - want) <= (1e-3 + (3e-7 * np.square(std).max() if f32 else 0)) * mag + 1e-6).all()),
            "gradient", f"d log_cdf / d loc {g[0].tolist()} want {want}")


def generic(m):
    """Distributions without a special case go through their cdf."""
    r = m.rng
    k = r.randint(1, 3)
    kind = r.choice(["uniform", "laplace", "gamma", "lognormal"])
    if kind == "uniform":
        lo = torch.tensor([r.uniform(-5, 5) for _ in range(k)])
        d = Uniform(lo, lo + torch.tensor([r.uniform(0.5, 6) for _ in range(k)]))
        x = torch.rand(20, k) * (d.high - d.low) + d.low
        q = st.uniform(d.low.numpy(), (d.high - d.low).numpy())
    elif kind == "laplace":
        d = Laplace(torch.randn(k), torch.rand(k) + 0.3)
        x = torch.randn(20, k) * 3
        q = st.laplace(d.loc.numpy(), d.scale.numpy())
    elif kind == "gamma":
        d = Gamma(torch.rand(k) * 3 + 0.5, torch.rand(k) + 0.5)
        x = torch.rand(20, k) * 6 + 0.01
        q = st.gamma(d.concentration.numpy(), scale=1 / d.rate.numpy())
    else:
        d = LogNormal(torch.randn(k), torch.rand(k) + 0.3)
        x = torch.rand(20, k) * 6 + 0.01
        q = st.lognorm(d.scale.numpy(), scale=np.exp(d.loc.numpy()))
    m.case(("generic", kind, k))
    x64 = x.double().numpy()
    cdf, sf = q.cdf(x64), q.sf(x64)
    keep = (cdf > 1e-3) & (sf > 1e-3)
    for fn, want in ((ncF.log_cdf, np.log(np.maximum(cdf, 1e-300))),
                     (ncF.log_survival_function, np.log(np.maximum(sf, 1e-300)))):
        ok, got = m.run("generic", fn, x, d)
        if ok:
            e = np.abs(got.double().numpy() - want)[keep]
            m.check(not e.size or e.max() < 5e-4, "generic", f"{kind} {fn.__name__}")
    ok, got = m.run("generic", ncF.survival_function, x, d)
    if ok:
        m.check(float(np.abs(got.double().numpy() - sf).max()) < 1e-5, "generic",
                f"{kind} survival")


def expm1(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    reg = r.choice(["small", "mid", "switch", "large"])
    x = {"small": lambda: 10 ** r.uniform(-6, 0), "mid": lambda: r.uniform(0.5, 15),
         "switch": lambda: 15 + r.uniform(-1e-3, 1e-3), "large": lambda: 10 ** r.uniform(1.2, 4)}
    x = torch.tensor([x[reg]() for _ in range(r.choice([1, 20, 100]))], dtype=dtype)
    m.case(("expm1", reg, str(dtype), x.numel()), x.numel() > 1)
    x64 = x.double().numpy()
    want = x64 + np.log(-np.expm1(-x64))
    ok, y = m.run("log-expm1", ncF.log_expm1, x)
    if not ok:
        return
    m.check(y.shape == x.shape and y.dtype == dtype, "shape", "log_expm1")
    e = np.abs(y.double().numpy() - want)
    m.check(bool((e <= 4e-7 + 1e-6 * np.abs(want)).all()), "log-expm1",
            f"error {e.max()} at {x64[e.argmax()]}")
    xg = x.clone().requires_grad_()
    (g,) = torch.autograd.grad(ncF.log_expm1(xg).sum(), xg)
    wg = 1 / -np.expm1(-x64)
    m.check(bool((np.abs(g.double().numpy() - wg) <= 1e-4 * wg).all()), "gradient",
            f"d log_expm1 {g[:3].tolist()} want {wg[:3]}")


def rejects(m):
    for dt in (torch.float16, torch.bfloat16, torch.int64, torch.int32):
        m.case(("rejects", str(dt)))
        m.raises("rejects", TypeError, ncF.log_ndtr, torch.zeros(3, dtype=dt), _msg=str(dt))
    # extreme but valid arguments
    for dt in (torch.float32, torch.float64):
        big = torch.tensor([-1e4, -3e3, -500.0, -38.0, 38.0, 500.0, 1e4], dtype=dt)
        l = ncF.log_ndtr(big)
        m.check(bool(torch.isfinite(l).all()), "finite", f"log_ndtr {l.tolist()}")
        m.close(l[:3], sp.log_ndtr(big[:3].double().numpy()), "log-ndtr", "extreme",
                rtol=1e-5)
        m.check(bool((l[4:] == 0).all() or (l[4:].abs() < 1e-30).all()), "log-ndtr", "right")
        n = ncF.ndtr(torch.tensor([-math.inf, math.inf], dtype=dt))
        m.check(n.tolist() == [0.0, 1.0], "ndtr", f"infinities {n.tolist()}")


def run(m):
    rejects(m)
    for i in range(m.n(1500, 20000)):
        cdfs(m)
        dists(m)
        generic(m)
        expm1(m)
        if not m.time_left():
            break
