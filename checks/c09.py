"""VCT bottleneck: location-scale entropy coding is lossless and costs what it reports."""
import math

import numpy as np
import torch

from projects.torch_vct.neural.bottlenecks import (ContinuousIndexedGaussianConditional,
                                                   GsnConditionalLocScaleShift, Scaler)

PID = "C09"
RULE = ("case = one (latents, means, scales) tensor coded and decoded, or one scaler / table "
        "sweep; latents mix near-mean, far-outlier and constant symbols; non-trivial when the "
        "symbols take >= 3 values; distinct by (shape, bottleneck config, kind)")
REQUIRED = ["lossless", "quantized", "rate", "forward-eval", "likelihood", "train-ste",
            "tables", "scaler", "softplus", "build-indexes", "rejects", "deterministic"]
BUDGET = (36, 200)


def ndtr(x):
    return torch.special.ndtr(x)


def softplus(x):
    return torch.where(x > 0, x + 1, 1 / (1 - x.clamp_max(0)))


class Prior:
    """The documented prior: means on a grid of 1/num_means, scales on a log grid."""

    def __init__(self, nm, ns, smin):
        self.nm, self.ns, self.smin = nm, ns, smin
        self.c = math.log(256.0 / smin + 1)

    def scale_idx(self, s):
        return torch.log((s + self.smin) / self.smin) / self.c * (self.ns - 1)

    def scale(self, i):
        return torch.exp(i / (self.ns - 1) * self.c + math.log(self.smin))

    def mean_idx(self, mean):
        return (mean - torch.round(mean) + 0.5) * self.nm

    def mean(self, i):
        return i / self.nm - (0.5 if self.nm != 1 else 0.0)

    def mass(self, sym, i_mean, i_scale):
        mu, s = self.mean(i_mean), self.scale(i_scale)
        v = (sym - mu).abs()
        return ndtr((0.5 - v) / s) - ndtr((-0.5 - v) / s)


def make(m, full=False):
    r = m.rng
    if full:
        nm, ns, smin, tail = 100, 256, 0.01, 2**-8
    else:
        nm, ns, smin = r.choice([(10, 64, 0.01), (20, 32, 0.05), (1, 64, 0.1), (7, 32, 0.01),
                                 (16, 48, 0.11)])
        tail = r.choice([2**-8, 2**-8, 2**-10])
    b = GsnConditionalLocScaleShift(num_scales=ns, min_scale=smin, num_means=nm,
                                    tail_mass=tail).eval()
    return b, Prior(nm, ns, smin), (nm, ns, smin, tail)


def data(m, kind=None):
    r = m.rng
    shape = r.choice([(1, 5, 7), (2, 8, 4), (1, 1, 3), (3, 2, 3, 4), (1, 40, 16), (2, 50), (9, 6),
                      (1, 300, 2), (5, 3, 4)])
    kind = kind or r.choice(["match", "match", "outlier", "wide", "tight", "const"])
    means = torch.randn(shape) * r.choice([0.3, 3.0, 30.0])
    raw = torch.randn(shape) * r.choice([0.5, 3.0])
    if kind == "wide":
        raw = raw.abs() * 40
    if kind == "tight":
        raw = -raw.abs() * 200
    s = softplus(raw)
    x = means + s * torch.randn(shape)
    if kind == "outlier":
        x = x + (torch.rand(shape) < 0.2) * torch.randn(shape) * 3000
    if kind == "const":
        x = torch.full(shape, float(r.randint(-20, 20)))
    return x, raw, means, kind


def tie(v, tol=1e-4):
    return ((v - torch.floor(v) - 0.5).abs() < tol)


def one(m, b, pr, cfg):
    x, raw, means, kind = data(m)
    # stay off rounding ties of the latent and of the mean
    x = torch.where(tie(x - torch.round(means)), x + 0.1, x)
    means = torch.where(tie(means), means + 0.01, means)
    x = torch.where(tie(x - torch.round(means)), x + 0.1, x)
    rm = torch.round(means)
    exp = torch.round(x - rm) + rm
    m.case((tuple(x.shape), cfg, kind), len(torch.unique(exp - rm)) >= 3)
    with torch.no_grad():
        ok, res = m.run("compress-runs", b.compress, x, raw, means)
        if not ok:
            return
        q, strings = res
        m.close(q, exp, "quantized", "compress() returns other values than the rounded ones",
                rtol=0, atol=1e-3)
        m.check(len(strings) == len(x) and all(isinstance(s, bytes) for s in strings),
                "strings", f"{len(strings)} strings for batch {len(x)}")
        ok, d = m.run("decompress-runs", b.decompress, strings, raw, means)
        if not ok:
            return
        m.close(d, exp, "lossless", "decoded latents differ", rtol=0, atol=1e-3)
        q2, strings2 = b.compress(x, raw, means)
        m.check(strings2 == strings, "deterministic", "coding twice gave different bytes")
        # rate: bytes vs the documented prior with floored indexes
        s = softplus(raw.double())
        im = pr.mean_idx(means).double().clamp(0, pr.nm - 1)
        isc = pr.scale_idx(s).clamp(0, pr.ns - 1)
        lo = torch.floor(im + 1e-4), torch.floor(isc + 1e-4)
        p = pr.mass(exp.double() - rm.double(), *lo)
        for i in range(len(x)):
            bits = -torch.log2(p[i].clamp_min(1e-9))
            if float(bits.max()) < 11:
                est, got = float(bits.sum()), 8.0 * len(strings[i])
                n = x[i].numel()
                m.check(est * 0.93 - 60 <= got <= est * 1.07 + 0.08 * n + 100, "rate",
                        f"estimated {est:.0f} bits, spent {got:.0f} for {n} symbols ({kind})")
        # forward in eval mode
        ok, res = m.run("forward-runs", b, x, raw, means)
        if not ok:
            return
        fq, like = res
        m.close(fq, exp, "forward-eval", "forward quantises differently from compress",
                rtol=0, atol=1e-3)
        ref = pr.mass(exp.double() - rm.double(), im, torch.round(isc))
        fuzzy = tie(isc, 1e-3)  # index rounding decided by float noise
        m.close(torch.where(fuzzy, ref, like.double()), ref.clamp_min(1e-9), "likelihood",
                "eval likelihood", rtol=3e-2, atol=3e-5)
        ok, res = m.run("forward-runs", b, x, raw, means, training=False)
        if ok:
            m.close(res[0], fq, "forward-eval", "training=False")
            m.close(res[1], like, "likelihood", "training=False")
    # training mode
    xt = x.clone().requires_grad_(True)
    rt, mt = raw.clone().requires_grad_(True), means.clone().requires_grad_(True)
    ok, res = m.run("forward-runs", b, xt, rt, mt, training=True)
    if not ok:
        return
    tq, tl = res
    m.close(tq, exp, "train-ste", "training output is not the rounded latent", rtol=0,
            atol=2e-3)
    w = torch.randn_like(tq)
    g, = torch.autograd.grad((tq * w).sum(), xt, retain_graph=True)
    m.close(g, w, "train-ste", "straight-through gradient is not the identity")
    m.check(bool(((tl > 0) & (tl <= 1 + 1e-5)).all()), "likelihood-range", "train")
    gs = torch.autograd.grad(tl.log().sum(), (rt, mt), allow_unused=True)
    m.check(gs[0] is not None and bool(torch.isfinite(gs[0]).all()), "rate-gradient",
            "no finite gradient to the scales")
    # noise is within half a step: likelihood between the reachable extremes
    s = pr.scale(pr.scale_idx(softplus(raw.double())).clamp(0, pr.ns - 1))
    mu = pr.mean(pr.mean_idx(means.double()).clamp(0, pr.nm - 1))
    v = (x.double() - rm - mu).abs()
    near = (v - 0.5).clamp_min(0)
    up = ndtr((0.5 - near) / s) - ndtr((-0.5 - near) / s)
    dn = ndtr((0.5 - v - 0.5) / s) - ndtr((-0.5 - v - 0.5) / s)
    t = tl.detach().double()
    m.check(bool((t <= up * 1.05 + 1e-4).all()) and bool((t >= dn * 0.95 - 1e-4).all()),
            "noise-bounds", "training likelihood unreachable with |noise| <= 1/2")


def tables(m, b, pr, cfg):
    """Every row of the coder's tables is the quantised pmf of its prior."""
    em = b._entropy_model
    cdf, ln, off = em._quantized_cdf, em._cdf_length, em._offset
    m.case(("tables", cfg))
    m.check(len(cdf) == pr.nm * pr.ns, "tables", f"{len(cdf)} rows")
    r = m.rng
    rows = {0, len(cdf) - 1, pr.ns - 1} | {r.randrange(len(cdf)) for _ in range(60)}
    for k in rows:
        i, j = divmod(k, pr.ns)
        n = int(ln[k])
        c = cdf[k, :n].double()
        ok = (float(c[0]) == 0 and float(c[-1]) == 2**16
              and bool((c[1:] > c[:-1]).all()))
        m.check(ok, "tables", f"row {k} is not a CDF: {c[:3].tolist()}..{c[-2:].tolist()}")
        sym = torch.arange(n - 2).double() + float(off[k])
        p = pr.mass(sym, torch.tensor(float(i)).double(), torch.tensor(float(j)).double())
        got = (c[1:-1] - c[:-2]) / 2**16
        # every symbol of the row has at least one count; large masses are accurate
        tol = (n + 4) / 2**16 + 0.03 * p + 3e-3
        m.check(bool(((got - p).abs() <= tol).all()), "tables",
                f"row {k} (mean {i}, scale {j}) differs from its prior",
                {"got": got[:10].tolist(), "expected": p[:10].tolist()})


def scaler(m):
    r = m.rng
    smin, smax, nb = r.choice([(0.01, 256.0, 256), (0.1, 10.0, 32), (0.5, 100.0, 7)])
    sc = Scaler(scales_min=smin, scales_max=smax, num_bins=nb)
    s = torch.exp(torch.linspace(math.log(1e-5), math.log(smax), 400)).double()
    i = sc.to_scale_idx(s)
    m.case(("scaler", smin, smax, nb))
    m.check(bool((i[1:] > i[:-1]).all()) and float(i[0]) >= 0
            and abs(float(i[-1]) - (nb - 1)) < 1e-3, "scaler", "index map")
    m.close(sc.from_scale_idx(i), s + smin, "scaler", "inverse", rtol=1e-4)
    e = sc.to_scale_idx(s, training=False)
    m.close(e, torch.round(i), "scaler", "eval indexes are not rounded", atol=1e-6)
    m.close(sc.from_scale_idx(torch.tensor([0.0])), torch.tensor([smin]), "scaler", "idx 0",
            rtol=1e-4)
    m.raises("rejects", AssertionError, sc.to_scale_idx, torch.tensor([1.0, -0.1]),
             _msg="negative scale")
    x = torch.cat((torch.linspace(-50, 50, 401), torch.randn(200) * 1000)).double()
    x = x.sort().values
    y = GsnConditionalLocScaleShift.verysoftplus(x)
    m.close(y, softplus(x), "softplus", "verysoftplus", rtol=1e-6)
    m.check(bool((y > 0).all()) and bool((y[1:] >= y[:-1]).all()), "softplus", "monotone")


def build_indexes(m):
    r = m.rng
    nm, ns, smin = 9, 16, 0.1
    em = ContinuousIndexedGaussianConditional((nm, ns), scale_bound=smin,
                                              scaler=Scaler(smin, 256.0, ns))
    em.update_tables()
    pr = Prior(nm, ns, smin)
    mg, sg = pr.mean(torch.arange(nm).float()), pr.scale(torch.arange(ns).float())
    mean = torch.rand(50) * 1.6 - 0.8
    sc = torch.exp(torch.rand(50) * 12 - 4)
    ok, k = m.run("runs", em.build_indexes, (mean, sc))
    if ok:
        m.case(("build", r.randrange(100)))
        def up(v, g):
            return min([i for i in range(len(g)) if v <= g[i] * (1 + 1e-6) + 1e-7]
                       or [len(g) - 1])
        exp = [up(float(a), mg.tolist()) * ns + up(float(s), sg.tolist())
               for a, s in zip(mean, sc)]
        m.check(k.tolist() == exp, "build-indexes",
                "not the smallest grid entry at or above the value (last one beyond)",
                {"got": k.tolist()[:10], "expected": exp[:10]})
    m.raises("rejects", ValueError, ContinuousIndexedGaussianConditional, (9, 17),
             scaler=Scaler(smin, 256.0, ns), _msg="scaler bins mismatch")
    m.raises("rejects", ValueError, ContinuousIndexedGaussianConditional, (9, ns),
             scale_bound=0.0, scaler=Scaler(smin, 256.0, ns), _msg="scale bound 0")
    m.check(em.update_tables(force=False) is False and em.update_tables(force=True) is True,
            "update-returns", "update_tables")


def run(m):
    torch.set_num_threads(2)
    i = 0
    while i < 3 or (m.time_left() and i < m.n(12, 150)):
        m.seed_torch()
        full = i == 2  # the shipped table size; coding with it is slow
        b, pr, cfg = make(m, full)
        m.check(b.update() is True, "update-returns", "first update")
        tables(m, b, pr, cfg)
        for k in range(2 if full else m.n(10, 40)):
            one(m, b, pr, cfg)
            if k >= 1 and not m.time_left():
                break
        scaler(m)
        build_indexes(m)
        i += 1
