"""Tail quantiles, the generic tail solver and quantisation offsets."""
import math

import numpy as np
import scipy.stats as st
import torch
from torch.distributions import (Cauchy, Distribution, Exponential, Gumbel, HalfCauchy,
                                 Laplace, LogNormal, Normal, Pareto, StudentT,
                                 TransformedDistribution, Uniform)
from torch.distributions.transforms import ExpTransform

import neuralcompression.functional as ncF
from neuralcompression.distributions import NoisyNormal, UniformNoise

PID = "C17"
RULE = ("case = one (distribution, parameters, tail mass) query, one solver run or one offset "
        "query; non-trivial unless standard parameters; distinct by (distribution, batch, mass "
        "decade, path)")
REQUIRED = ["lower-mass", "upper-mass", "ordered", "solver", "solver-exact", "solver-shape",
            "solver-independent", "detached", "fallback", "no-cdf", "offset", "offset-range",
            "offset-undefined", "offset-nograd", "symmetric"]
BUDGET = (20, 150)


class CdfOnly(Distribution):
    """A distribution that offers a cdf but no quantile function."""
    arg_constraints = {}

    def __init__(self, base):
        super().__init__(base.batch_shape, validate_args=False)
        self.base = base

    def cdf(self, x):
        return self.base.cdf(x)

    @property
    def mean(self):
        return self.base.mean


class Opaque(Distribution):
    arg_constraints = {}

    def __init__(self, shape):
        super().__init__(torch.Size(shape), validate_args=False)


def make(m, k):
    r = m.rng
    u = lambda lo, hi: torch.tensor([r.uniform(lo, hi) for _ in range(k)])  # noqa: E731
    kind = r.choice(["normal", "normal", "laplace", "uniform", "gumbel", "cauchy",
                     "exponential", "lognormal"])
    loc, sc = u(-40, 40), u(0.05, 20)
    if kind == "normal":
        return kind, Normal(loc, sc), st.norm(loc.numpy(), sc.numpy())
    if kind == "laplace":
        return kind, Laplace(loc, sc), st.laplace(loc.numpy(), sc.numpy())
    if kind == "uniform":
        return kind, Uniform(loc, loc + sc), st.uniform(loc.numpy(), sc.numpy())
    if kind == "gumbel":
        return kind, Gumbel(loc, sc), st.gumbel_r(loc.numpy(), sc.numpy())
    if kind == "cauchy":
        return kind, Cauchy(loc, sc), st.cauchy(loc.numpy(), sc.numpy())
    if kind == "exponential":
        return kind, Exponential(1 / sc), st.expon(scale=sc.numpy())
    s = u(0.2, 1.5)
    return kind, LogNormal(loc / 20, s), st.lognorm(s.numpy(), scale=np.exp(loc.numpy() / 20))


def tails(m):
    r = m.rng
    k = r.choice([1, 2, 3, 4, 5, 5, 40])
    kind, d, ref = make(m, k)
    mass = r.choice([2 ** -8, 0.5, 0.1, 1e-3, 1e-4, 10 ** r.uniform(-4.5, -0.1)])
    m.case(("tails", kind, k, round(math.log10(mass))))
    ok1, lo = m.run("lower-mass", ncF.lower_tail, d, mass)
    ok2, hi = m.run("upper-mass", ncF.upper_tail, d, mass)
    if not (ok1 and ok2):
        return
    m.check(tuple(lo.shape) == (k,) and tuple(hi.shape) == (k,), "shape",
            f"{tuple(lo.shape)} for batch {k}")
    tol = 0.03 * mass / 2 + 2e-7
    a, b = ref.cdf(lo.double().numpy()), ref.sf(hi.double().numpy())
    # the quantile is only as fine as the float spacing around it
    sp = np.abs(ref.cdf(lo.double().numpy() * (1 + 4e-7)) - a)
    sq = np.abs(ref.sf(hi.double().numpy() * (1 + 4e-7)) - b)
    m.check(bool((np.abs(a - mass / 2) <= tol + 2 * sp).all()), "lower-mass",
            f"{kind}: cdf(lower) = {a} for mass/2 = {mass / 2}")
    m.check(bool((np.abs(b - mass / 2) <= tol + 2 * sq).all()), "upper-mass",
            f"{kind}: sf(upper) = {b} for mass/2 = {mass / 2}")
    m.check(bool((lo <= hi + 1e-6 * hi.abs()).all()), "ordered", "lower > upper")
    m.check(not lo.requires_grad and not hi.requires_grad, "detached", "")
    if kind == "normal":
        p = Normal(d.loc.clone().requires_grad_(), d.scale.clone().requires_grad_())
        q = NoisyNormal(p.loc, p.scale)
        for dd in (p, q):
            l2, h2 = dd.icdf, None
            l2 = ncF.lower_tail(dd, mass) if dd is p else dd.lower_tail(mass)
            h2 = ncF.upper_tail(dd, mass) if dd is p else dd.upper_tail(mass)
            m.check(not l2.requires_grad and not h2.requires_grad, "detached", str(type(dd)))
            m.close(l2, lo, "lower-mass", "with gradients enabled")
            m.close(h2, hi, "upper-mass", "with gradients enabled")
        m.close(lo + hi, 2 * d.loc, "symmetric", "normal tails", rtol=1e-3,
                atol=2e-3 * float(d.scale.max()) + 1e-3)


def fallback(m):
    """Distributions with only a cdf go through the solver."""
    r = m.rng
    k = r.choice([1, 2, 3])
    loc = torch.tensor([r.uniform(-2, 2) for _ in range(k)])
    sc = torch.tensor([r.uniform(0.8, 2.0) for _ in range(k)])
    shape = r.choice([(k,), (k, 1), (1, k)])
    loc, sc = loc.reshape(shape), sc.reshape(shape)
    base, ref = ((Normal(loc, sc), st.norm) if r.random() < 0.5
                 else (Laplace(loc, sc), st.laplace))
    mass = r.choice([0.5, 0.1, 2 ** -6])
    m.case(("fallback", ref.name, shape, mass))
    d = CdfOnly(base)
    if r.random() < 0.3:
        d = UniformNoise(d)
        lo, hi = d.lower_tail(mass), d.upper_tail(mass)
    else:
        ok, lo = m.run("fallback", ncF.lower_tail, d, mass)
        ok2, hi = m.run("fallback", ncF.upper_tail, d, mass)
        if not (ok and ok2):
            return
    m.check(tuple(lo.shape) == shape and tuple(hi.shape) == shape, "shape", f"{lo.shape}")
    q = ref(loc.numpy(), sc.numpy())
    m.close(lo, q.ppf(mass / 2), "fallback", "lower", rtol=0, atol=0.03)
    m.close(hi, q.isf(mass / 2), "fallback", "upper", rtol=0, atol=0.03)
    m.check(not lo.requires_grad and not hi.requires_grad, "detached", "solver result")
    m.raises("no-cdf", NotImplementedError, ncF.lower_tail, Opaque((k,)), mass)
    m.raises("no-cdf", NotImplementedError, ncF.upper_tail, Opaque((k,)), mass)


def solver(m):
    r = m.rng
    shape = r.choice([(1,), (3,), (2, 2), (4,)])
    n = int(np.prod(shape))
    dtype = r.choice([torch.float32, torch.float64])
    c = torch.tensor([r.uniform(-3, 3) for _ in range(n)], dtype=dtype).reshape(shape)
    s = torch.tensor([r.uniform(0.5, 2) for _ in range(n)], dtype=dtype).reshape(shape)
    sign = r.choice([1, -1])
    kind = r.choice(["linear", "sigmoid", "ndtr"])
    if kind == "linear":
        f = lambda x: sign * (x - c) / s  # noqa: E731
        t = r.uniform(-1, 1)
        want = c + sign * t * s
    elif kind == "sigmoid":
        f = lambda x: torch.sigmoid(sign * (x - c) / s)  # noqa: E731
        t = r.choice([0.5, 0.9, r.uniform(0.05, 0.95)])
        want = c + sign * s * math.log(t / (1 - t))
    else:
        f = lambda x: torch.special.ndtr(sign * (x - c) / s)  # noqa: E731
        t = r.choice([0.5, 0.02, r.uniform(0.05, 0.95)])
        want = c + sign * s * st.norm.ppf(t)
    m.case(("solver", kind, sign, shape, str(dtype)))
    target = t if r.random() < 0.5 else torch.full(shape, t, dtype=dtype)
    ok, x = m.run("solver", ncF.estimate_tails, f, target, torch.Size(shape), dtype=dtype)
    if not ok:
        return
    m.check(tuple(x.shape) == shape and x.dtype == dtype, "solver-shape",
            f"{tuple(x.shape)} {x.dtype}")
    m.close(x, want, "solver", f"{kind} sign {sign} target {t}", rtol=0, atol=0.04)
    # batching must not change a solution (beyond the solver's own tolerance)
    i = r.randrange(n)
    ci, si = c.reshape(-1)[i:i + 1], s.reshape(-1)[i:i + 1]
    if kind == "linear":
        g = lambda x: sign * (x - ci) / si  # noqa: E731
    elif kind == "sigmoid":
        g = lambda x: torch.sigmoid(sign * (x - ci) / si)  # noqa: E731
    else:
        g = lambda x: torch.special.ndtr(sign * (x - ci) / si)  # noqa: E731
    y = ncF.estimate_tails(g, t, torch.Size((1,)), dtype=dtype)
    m.close(x.reshape(-1)[i:i + 1], y, "solver-independent", "alone vs batched", rtol=0,
            atol=0.06)
    # the start value may already be the solution, for some or all elements
    off = torch.zeros(3, dtype=dtype)
    off[1] = r.uniform(0.2, 1)
    tt = torch.sigmoid(off)
    m.case(("exact", str(dtype)))
    ok, z = m.run("solver-exact", ncF.estimate_tails, torch.sigmoid, tt, torch.Size((3,)),
                  dtype=dtype)
    if ok:
        m.close(z, off, "solver-exact", "target met at the start", rtol=0, atol=0.04)


def offsets(m):
    r = m.rng
    k = r.choice([1, 2, 3, 4, 5, 6, 60])
    loc = torch.tensor([r.choice([r.uniform(-50, 50), float(r.randint(-9, 9)),
                                  r.randint(-9, 9) + 0.5]) for _ in range(k)])
    sc = torch.rand(k) + 0.1
    for kind, d in (("normal", Normal(loc.clone().requires_grad_(), sc)),
                    ("laplace", Laplace(loc, sc)), ("noisy", NoisyNormal(loc, sc)),
                    ("cdfonly", CdfOnly(Normal(loc, sc)))):
        m.case(("offset", kind, k))
        ok, o = m.run("offset", ncF.quantization_offset, d)
        if not ok:
            continue
        m.check(o.shape == loc.shape, "shape", f"{o.shape}")
        m.check(bool((o.abs() <= 0.5 + 1e-6).all()), "offset-range", f"{o.tolist()}")
        j = (loc - o).double()
        m.check(bool(((j - j.round()).abs() < 1e-5).all()), "offset",
                f"mean - offset not an integer: {j.tolist()}")
        m.check(not o.requires_grad, "offset-nograd", "")
    df = torch.tensor([0.5, 3.0, 1.0])
    und = [Cauchy(torch.zeros(2) + 0.3, torch.ones(2)), HalfCauchy(torch.ones(2)),
           Pareto(torch.ones(2), torch.tensor([0.5, 0.9])), StudentT(torch.tensor([0.5, 0.7])),
           TransformedDistribution(Normal(torch.zeros(2), 1.0), [ExpTransform()]),
           Opaque((2,))]
    for d in und:
        m.case(("offset", "undefined", type(d).__name__))
        ok, o = m.run("offset-undefined", ncF.quantization_offset, d)
        if ok:
            m.check(bool((torch.as_tensor(o) == 0).all()), "offset-undefined",
                    f"{type(d).__name__}: {o}")
    o = ncF.quantization_offset(StudentT(df, loc=0.25))
    m.close(o, torch.tensor([0.0, 0.25, 0.0]), "offset-undefined", "mixed batch")


def run(m):
    for i in range(m.n(40, 500)):
        for _ in range(8):
            tails(m)
        if i % 3 == 0:
            fallback(m)
        solver(m)
        offsets(m)
        if not m.time_left():
            break
