"""UniformNoise / NoisyNormal: the density is the base mass of the unit box around the value."""
import math

import numpy as np
import scipy.special as sp
import torch
from torch.distributions import Laplace, Normal, Uniform

import neuralcompression.functional as ncF
from neuralcompression.distributions import NoisyNormal, UniformNoise

PID = "C16"
RULE = ("case = one (base distribution, parameters, points) evaluation or one sampling "
        "experiment; non-trivial when the parameters are not the standard ones; distinct by "
        "(base, batch shape, dtype, scale decade, region)")
REQUIRED = ["log-prob", "prob", "consistent", "normalised", "far-tail", "gradient",
            "noise-range", "noise-uniform", "noise-independent", "sample-law", "reparam",
            "expand", "passthrough", "noisy-normal", "bounded-base", "shape", "sample-shape"]
BUDGET = (16, 150)


def mass(a, b):
    """log(Phi(b) - Phi(a)) in double precision, a < b."""
    flip = a + b > 0
    a, b = np.where(flip, -b, a), np.where(flip, -a, b)
    la, lb = sp.log_ndtr(a), sp.log_ndtr(b)
    return lb + np.log(-np.expm1(np.minimum(la - lb, -1e-300)))


def params(m, k):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    dec = r.choice([-2, -1, 0, 1, 2])
    loc = torch.tensor([r.uniform(-20, 20) for _ in range(k)], dtype=dtype)
    sc = torch.tensor([10 ** (dec + r.random()) for _ in range(k)], dtype=dtype)
    return loc, sc, dtype, dec


def density(m):
    r = m.rng
    m.seed_torch()
    k = r.randint(1, 4)
    loc, sc, dtype, dec = params(m, k)
    region = r.choice(["body", "tails", "edge", "integer"])
    n = r.choice([1, 8, 40, 40, 1500])
    base = torch.randn(n, k, dtype=dtype)
    if region == "body":
        x = loc + base * torch.maximum(sc, torch.tensor(0.6, dtype=dtype))
    elif region == "tails":
        x = loc + base.sign() * (6 + 12 * torch.rand(n, k, dtype=dtype)) * (sc + 0.5)
    elif region == "edge":
        x = loc + base.sign() * 0.5 + 0.01 * base * sc
    else:
        x = torch.round(loc + base * sc)
    m.case(("density", str(dtype), dec, k, region, n))
    make = r.random() < 0.5
    d = NoisyNormal(loc, sc) if make else UniformNoise(Normal(loc, sc))
    x64, l64, s64 = x.double().numpy(), loc.double().numpy(), sc.double().numpy()
    a, b = (x64 - 0.5 - l64) / s64, (x64 + 0.5 - l64) / s64
    want = mass(a, b)
    f32 = dtype == torch.float32
    ok, lp = m.run("log-prob", d.log_prob, x)
    if ok:
        m.check(lp.shape == x.shape and lp.dtype == dtype, "shape", f"{lp.shape} {lp.dtype}")
        got = lp.double().numpy()
        # float error model: rounding of (x +- 1/2 - loc) / scale amplified by the hazard,
        # plus cancellation between the two log masses when the box is narrow
        eps = 1.5e-7 if f32 else 4e-16
        z = np.maximum(np.abs(a), np.abs(b))
        din = eps * (np.abs(x64) + 1 + np.abs(l64)) / s64 + eps * z
        gap = np.abs(mass_gap(a, b))
        tol = (4 * (1 + z) * din + 6 * eps * (1 + z * z / 2)) * (1 + 1 / np.maximum(gap, 1e-12))
        m.check(bool(np.isfinite(got)[want > -1e5].all()), "far-tail",
                f"log_prob not finite at z={z.max():.1f}")
        bad = np.abs(got - want) > tol + 1e-9
        m.check(not bad.any(), "far-tail" if region == "tails" else "log-prob",
                f"got {got[bad][:3]} want {want[bad][:3]} x={x64[bad][:3]}")
        m.event("log-prob")
        ok, p = m.run("prob", d.prob, x)
        if ok:
            m.check(p.shape == x.shape, "shape", "prob")
            p = p.double().numpy()
            slope = 1 / s64 / math.sqrt(2 * math.pi)
            tolp = 6e-7 + 3e-7 * (np.abs(x64) + np.abs(l64) + 1) * slope
            m.check(bool((np.abs(p - np.exp(want)) <= tolp).all()), "prob",
                    f"got {p.reshape(-1)[:3]} want {np.exp(want).reshape(-1)[:3]}")
            m.check(bool((p >= -1e-6).all() and (p <= 1 + 1e-6).all()), "prob", "range")
            m.check(bool((np.abs(p - np.exp(got)) <= 2 * tolp + np.exp(want) * tol + 1e-9)
                         .all()), "consistent", "prob != exp(log_prob)")
    # gradient with respect to value and parameters where the density is benign
    if region in ("body", "integer") and dec >= 0:
        xg, lg, sg = (t.clone().requires_grad_() for t in (x, loc, sc))
        g = torch.autograd.grad(UniformNoise(Normal(lg, sg)).log_prob(xg).sum(), (xg, lg, sg))
        pa, pb = (np.exp(-t * t / 2) / math.sqrt(2 * math.pi) for t in (a, b))
        P = np.exp(want)
        gx = (pb - pa) / s64 / P
        gs = -((pb * b - pa * a) / s64 / P)
        ok = np.abs(want) < 8
        tg = (2e-3 * s64 if f32 else 1e-6 * s64) + (1e-2 if f32 else 1e-6) * np.abs(gx)
        m.check(bool((np.abs(g[0].double().numpy() - gx) <= tg)[ok].all()), "gradient",
                "d log_prob / d value")
        if ok.all():
            m.check(bool((np.abs(g[1].double().numpy() + gx.sum(0)) <= n * tg.max(0)).all()),
                    "gradient", "d log_prob / d loc")
            m.check(bool((np.abs(g[2].double().numpy() - gs.sum(0)) <= n * tg.max(0)
                          + 1e-2 * np.abs(gs).sum(0)).all()), "gradient", "d log_prob / d scale")
    # unit translates tile the line
    if dec <= 1:
        off = r.uniform(-0.5, 0.5)
        lo, hi = float((loc - 9 * sc).min()) - 2, float((loc + 9 * sc).max()) + 2
        grid = torch.arange(math.floor(lo), math.ceil(hi) + 1, dtype=dtype)[:, None] + off
        tot = d.prob(grid.expand(-1, k)).double().sum(0)
        m.close(tot, torch.ones(k), "normalised", "sum of prob", rtol=0, atol=3e-4)
        tot = d.log_prob(grid.expand(-1, k)).double().exp().sum(0)
        m.close(tot, torch.ones(k), "normalised", "sum of exp(log_prob)", rtol=0, atol=2e-3)


def mass_gap(a, b):
    flip = a + b > 0
    a, b = np.where(flip, -b, a), np.where(flip, -a, b)
    return -np.expm1(sp.log_ndtr(a) - sp.log_ndtr(b))


def bounded(m):
    """Bases other than the normal: same law through their own cdf."""
    r = m.rng
    k = r.randint(1, 3)
    if r.random() < 0.5:
        lo = torch.tensor([r.uniform(-5, 5) for _ in range(k)])
        w = torch.tensor([r.uniform(1.5, 8) for _ in range(k)])
        base = Uniform(lo, lo + w, validate_args=False)
        x = lo + w * torch.rand(30, k)

        def cdf(t):
            return ((t - lo.double()) / w.double()).clamp(0, 1)
        kind = "uniform"
    else:
        lo = torch.tensor([r.uniform(-5, 5) for _ in range(k)])
        w = torch.tensor([r.uniform(0.3, 4) for _ in range(k)])
        base = Laplace(lo, w)
        x = lo + w * torch.randn(30, k) * 2

        def cdf(t):
            z = (t - lo.double()) / w.double()
            return torch.where(z < 0, 0.5 * z.exp(), 1 - 0.5 * (-z).exp())
        kind = "laplace"
    m.case(("bounded", kind, k, round(float(w[0]))))
    want = cdf(x.double() + 0.5) - cdf(x.double() - 0.5)
    d = UniformNoise(base)
    m.close(d.prob(x), want, "bounded-base", f"{kind} prob", rtol=1e-4, atol=1e-5)
    # log_prob's box may poke out of a bounded support, where cdf is exactly 0 or 1
    m.close(d.log_prob(x).exp(), want, "bounded-base", f"{kind} log_prob", rtol=2e-3, atol=1e-4)
    m.check(d.batch_shape == base.batch_shape and d.event_shape == base.event_shape, "shape",
            "batch/event shape")


def sampling(m):
    r = m.rng
    m.seed_torch()
    k = r.randint(1, 3)
    loc, sc, dtype, dec = params(m, k)
    N = m.n(3000, 12000)
    m.case(("sampling", str(dtype), dec, k))
    # a (nearly) degenerate base exposes the noise itself
    tiny = UniformNoise(Normal(torch.zeros(k, dtype=dtype), torch.full((k,), 1e-6, dtype=dtype)))
    fn = r.choice(["rsample", "sample"])
    if fn == "sample":
        try:
            z = tiny.sample(torch.Size((N,)))
        except NotImplementedError:
            fn, z = "rsample", tiny.rsample(torch.Size((N,)))
    else:
        z = tiny.rsample(torch.Size((N,)))
    m.check(tuple(z.shape) == (N, k) and z.dtype == dtype, "sample-shape",
            f"{tuple(z.shape)} {z.dtype}")
    z = z.double().numpy()
    m.check(bool((np.abs(z) <= 0.5 + 1e-4).all()), "noise-range", f"{np.abs(z).max()}")
    for j in range(k):
        q = np.sort(z[:, j]) + 0.5
        ks = np.abs(q - (np.arange(N) + 0.5) / N).max()
        m.check(ks < 3.2 / math.sqrt(N), "noise-uniform", f"KS distance {ks}")
    ac = [np.corrcoef(z[:-1, j], z[1:, j])[0, 1] for j in range(k)]
    cc = [np.corrcoef(z[:, i], z[:, j])[0, 1] for i in range(k) for j in range(i)]
    m.check(max(np.abs(ac + cc)) < 6 / math.sqrt(N), "noise-independent",
            f"correlations {ac} {cc}")
    d = UniformNoise(Normal(loc, sc))
    s = d.rsample(torch.Size((N,))).double().numpy()
    g = np.sort((s - loc.double().numpy()), axis=0)
    # cdf of normal + uniform: integral of Phi over the box
    sd = sc.double().numpy()

    def H(t):
        return t * sp.ndtr(t / sd) + sd * np.exp(-t * t / 2 / sd / sd) / math.sqrt(2 * math.pi)
    F = H(g + 0.5) - H(g - 0.5)
    ks = np.abs(F - ((np.arange(N) + 0.5) / N)[:, None]).max()
    m.check(ks < 3.2 / math.sqrt(N), "sample-law", f"KS distance {ks}")
    lg, sg = loc.clone().requires_grad_(), sc.clone().requires_grad_()
    torch.manual_seed(5)
    y = UniformNoise(Normal(lg, sg)).rsample(torch.Size((4,)))
    m.check(y.requires_grad, "reparam", "rsample detached from the parameters")
    if y.requires_grad:
        g = torch.autograd.grad(y.sum(), lg)[0]
        m.close(g, torch.full((k,), 4.0), "reparam", "d sample / d loc")


def rest(m):
    r = m.rng
    k = r.randint(1, 4)
    loc, sc, dtype, dec = params(m, k)
    m.case(("rest", str(dtype), dec, k))
    base = Normal(loc, sc)
    d = UniformNoise(base)
    nn = NoisyNormal(loc, sc)
    x = loc + torch.randn(6, k, dtype=dtype) * sc
    for a in (d, nn):
        m.close(a.cdf(x), base.cdf(x), "passthrough", "cdf", rtol=1e-6)
        m.close(a.log_cdf(x), ncF.log_cdf(x, base), "passthrough", "log_cdf")
        m.close(a.log_survival_function(x), ncF.log_survival_function(x, base), "passthrough",
                "log_survival")
        m.close(a.survival_function(x), ncF.survival_function(x, base), "passthrough",
                "survival")
        m.close(a.mean, loc, "passthrough", "mean")
        m.close(a.quantization_offset, loc - torch.round(loc), "passthrough", "offset",
                atol=1e-5)
        t = r.choice([0.5, 0.1, 2 ** -8])
        m.close(a.lower_tail(t), base.icdf(torch.tensor([t / 2], dtype=dtype)), "passthrough",
                "lower tail", rtol=1e-3, atol=1e-3 * float(sc.max()))
        m.close(a.upper_tail(t), base.icdf(torch.tensor([1 - t / 2], dtype=dtype)),
                "passthrough", "upper tail", rtol=1e-3, atol=1e-3 * float(sc.max()))
    m.close(nn.log_prob(x), d.log_prob(x), "noisy-normal", "log_prob")
    e = d.expand(torch.Size((5, k)))
    m.check(tuple(e.batch_shape) == (5, k) and isinstance(e, UniformNoise), "expand", "shape")
    xe = loc + torch.randn(5, k, dtype=dtype) * sc
    m.close(e.log_prob(xe), d.log_prob(xe), "expand", "log_prob after expand")
    m.check(tuple(e.rsample().shape) == (5, k) and
            tuple(e.rsample(torch.Size((2,))).shape) == (2, 5, k), "sample-shape", "expanded")
    # scalar parameters
    q = NoisyNormal(r.uniform(-3, 3), 1.3)
    m.check(tuple(q.rsample(torch.Size((7,))).shape) == (7,) and q.log_prob(
        torch.zeros(3)).shape == (3,), "sample-shape", "scalar parameters")


def run(m):
    for i in range(m.n(700, 3000)):
        for _ in range(6):
            density(m)
        bounded(m)
        rest(m)
        if i % 4 == 0:
            sampling(m)
        if not m.time_left():
            break
