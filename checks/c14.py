"""Bits-back coding with hierarchical models: lossless for every history, at the model's rate."""
import io
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn as nn
from scipy import special

from lib import bbd, stubs

PID = "C14"
RULE = ("case = one history of encode/decode/save/restore operations, one coded batch, one bin "
        "table, one diffusion model call, one step selection or one interrupted run; distinct by "
        "model, shape, precisions and operations")
REQUIRED = ["lossless", "restored", "count", "snapshot", "resume", "rejects", "stats", "track",
            "extra", "rate", "prior-bins", "quantize", "bins-mass", "bins-lossless",
            "diffusion-q", "diffusion-prior", "diffusion-posterior", "diffusion-lossless",
            "spacing", "spacing-rejects", "create", "checkpoint-choice", "run-complete",
            "run-decoded", "run-resume", "run-rates", "vlb", "trainer-resume", "setup"]
BUDGET = (28, 240)


def toy(m, mods, steps, shape):
    C = mods["bits_back_diffusion.codec"]
    rng = np.random.default_rng(m.rng.getrandbits(32))
    w = rng.normal(size=(steps + 1, 2))
    s = np.exp(rng.normal(size=(steps + 1, 3)) * 0.5 - 0.5)

    class Toy(C.BaseHLVModel):
        def __init__(self):
            super().__init__(steps)
            self.calls = []

        def infer_fn(self, data):
            self.calls.append(("infer", data.copy()))
            return C.GaussianParams(0.6 * np.tanh(data) + 0.1 * w[0, 0],
                                    np.full(data.shape, 0.5 * s[0, 0]))

        def generate_fn(self, latent, step, data=None):
            assert 0 <= step < steps
            self.calls.append(("prior" if data is None else "post", step, latent.copy()))
            if data is None:
                mean = np.tanh(latent) * (0.8 if step == 0 else 0.5) + 0.2 * w[step, 0]
                return C.GaussianParams(mean, s[step, 1] * (0.3 + 0.1 * np.abs(mean)))
            mean = 0.4 * latent + 0.4 * np.tanh(data) + 0.1 * w[step, 1]
            return C.GaussianParams(mean, np.full(latent.shape, 0.4 * s[step, 2]))
    return Toy()


def settings(m):
    r = m.rng
    lo = r.choice([-1.0, 0.0, -2.5, 10.0])
    return dict(latent_prec=r.choice([14, 16, 18]), prior_prec=r.choice([4, 7, 10]),
                obs_prec=r.choice([14, 18, 24]), data_prec=r.choice([1, 3, 5, 8]),
                data_min=lo, data_max=lo + r.choice([1.0, 2.0, 0.25, 7.0]),
                track=r.random() < 0.5)


def batch_of(m, shape, prec):
    r, n = m.rng, 1 << prec
    g = np.random.default_rng(r.getrandbits(32))
    kind = r.choice(["random", "random", "low", "high", "edges", "flat"])
    if kind == "random":
        return g.integers(0, n, shape)
    if kind == "flat":
        return np.full(shape, r.randrange(n))
    if kind == "edges":
        return np.where(g.random(shape) < 0.5, 0, n - 1)
    x = g.integers(0, max(1, n // 4), shape)
    return x if kind == "low" else n - 1 - x


def same(a, b):
    return len(a) == len(b) and bool((a == b).all())


def history(m, mods):
    r = m.rng
    Codec = mods["bits_back_diffusion.codec"].BitsBackCodec
    steps = r.choice([1, 2, 3, 5, 9])
    shape = (r.choice([1, 2, 3, 6]), r.choice([1, 3]), r.choice([1, 2, 4, 7]), r.choice([1, 3]))
    kw = settings(m)
    model = toy(m, mods, steps, shape)
    np.random.seed(r.getrandbits(32))
    start = r.choice([None, 400, 2000])
    size = int(np.prod(shape))
    if start is not None:
        start = max(start, size * steps + 8)

    def fresh():
        return Codec(model, shape, initial_len=start, **kw)
    ok, codec = m.run("lossless", fresh)
    if not ok:
        return
    n = r.choice([4, 8, 14])
    m.case(("history", steps, shape, tuple(kw.values()), n, start), True)
    init = codec.initial_bytes
    m.check(init == codec.flat_message.nbytes, "stats", f"initial bytes {init}")
    stack = []        # (data, flat message before it was pushed)
    snaps = []        # (state as saved, stack, copy of the message)
    log = []
    for _ in range(n):
        op = r.choice(["enc", "enc", "enc", "dec", "dec", "save", "restore", "bad"])
        if op == "dec" and not stack:
            op = "enc"
        if op == "restore" and not snaps:
            op = "save"
        log.append(op)
        before = codec.flat_message.copy()
        if op == "enc":
            x = batch_of(m, shape, kw["data_prec"]).astype(r.choice([np.int32, np.int64]))
            keep = x.copy()
            ok, msg = m.run("lossless", codec.encode, x)
            if not ok:
                return
            m.check((x == keep).all(), "lossless", "encode changed its argument")
            m.check(same(bbd.flatten(msg), codec.flat_message), "lossless",
                    "encode returned another message than it kept")
            stack.append((keep, before))
            stats(m, codec, len(stack), init, size, shape, kw["track"])
        elif op == "dec":
            ok, got = m.run("lossless", codec.decode)
            if not ok:
                return
            x, was = stack.pop()
            m.check(got[1].shape == shape and (got[1] == x).all(), "lossless",
                    f"decoded another batch after {log}")
            m.check(same(codec.flat_message, was), "restored",
                    f"the message before encoding was not restored after {log}")
        elif op == "save":
            sd = codec.state_dict()
            if r.random() < 0.5:
                buf = io.BytesIO()
                np.savez(buf, **sd)
                buf.seek(0)
                sd = np.load(buf)
            snaps.append((sd, list(stack), before))
        elif op == "restore":
            sd, st, was = r.choice(snaps)
            if r.random() < 0.6:
                codec = fresh()
            ok, _ = m.run("resume", codec.load_state_dict, sd)
            if not ok:
                return
            m.check(same(codec.flat_message, was), "snapshot",
                    f"a saved state has another message after {log}")
            stack = list(st)
            if stack:
                stats(m, codec, len(stack), init, size, shape, kw["track"])
        else:
            top = (1 << kw["data_prec"])
            bad = r.choice(["high", "low", "shape", "dims"])
            x = batch_of(m, shape, kw["data_prec"])
            if bad == "high":
                x.flat[r.randrange(size)] = top
            elif bad == "low":
                x.flat[r.randrange(size)] = -1
            elif bad == "shape":
                x = np.concatenate([x, x[:1]])
            else:
                x = x[0]
            m.raises("rejects", ValueError, codec.encode, x)
            m.check(same(codec.flat_message, before), "rejects", "a rejected batch was coded")
        m.check(int(codec.data_count) == len(stack), "count",
                f"{codec.data_count} batches, {len(stack)} coded, after {log}")
    # everything comes back, newest first
    while stack:
        ok, got = m.run("lossless", codec.decode)
        if not ok:
            return
        x, was = stack.pop()
        m.check((got[1] == x).all(), "lossless", f"decoded another batch at the end of {log}")
        m.check(same(codec.flat_message, was), "restored", f"message at the end of {log}")
    # states saved earlier are untouched by what happened since
    for sd, st, was in snaps:
        m.check(same(np.asarray(sd["flat_message"]), was) and int(sd["data_count"]) == len(st),
                "snapshot", "a saved state changed afterwards")
    m.event("history-ops", n)


def stats(m, codec, count, init, size, shape, track):
    ok, s = m.run("stats", codec.statistics)
    if not ok:
        return
    nbytes = codec.flat_message.nbytes
    d = count * size / 8
    m.check(int(s.samples) == count * shape[0], "stats", f"samples {s.samples}")
    m.check(np.isclose(s.rate_total, nbytes / d) and
            np.isclose(s.rate_effective, (nbytes - init) / d), "stats",
            f"rates {s} for {nbytes} bytes from {init}")
    m.check(np.isclose(s.rate_used, (nbytes - init + codec.extra_bytes) / d), "stats", f"{s}")
    if track:
        push, pop = s.rate_effective_push, s.rate_effective_pop
        m.check(push is not None and len(push) == codec.model.steps + 1 and
                np.isclose(push.sum() - pop.sum(), s.rate_effective, atol=1e-9), "track",
                f"push {push} pop {pop} effective {s.rate_effective}")
    else:
        m.check(s.rate_effective_push is None and s.rate_effective_pop is None, "track", f"{s}")


def extra(m, mods):
    """extra_bytes is exactly what the first batch takes from the initial message."""
    r = m.rng
    Codec = mods["bits_back_diffusion.codec"].BitsBackCodec
    steps, shape = r.choice([1, 2, 4]), (r.choice([1, 2]), 3, r.choice([2, 4]), 2)
    kw = settings(m)
    model = toy(m, mods, steps, shape)
    np.random.seed(r.getrandbits(32))
    codec = Codec(model, shape, **kw)
    flat, size = codec.flat_message.copy(), int(np.prod(shape))
    x = batch_of(m, shape, kw["data_prec"])
    m.case(("extra", steps, shape, tuple(kw.values())), True)
    ok, _ = m.run("extra", codec.encode, x)
    if not ok:
        return
    first = int(codec.extra_bytes)
    m.run("extra", codec.encode, batch_of(m, shape, kw["data_prec"]))
    m.check(int(codec.extra_bytes) == first, "extra", "changed by the second batch")
    words, odd = divmod(first, 4)
    m.check(odd == 0 and words >= 0, "extra", f"{first} bytes")
    if words <= len(flat) - 2 * size:
        short = Codec(model, shape, **kw)
        short.load_state_dict({"flat_message": flat[:2 * size + words]})
        m.run("extra", short.encode, x)
        if words:
            short = Codec(model, shape, **kw)
            short.load_state_dict({"flat_message": flat[:2 * size + words - 1]})
            held = short.flat_message.copy()
            m.raises("extra", Exception, short.encode, x)
            m.check(same(short.flat_message, held) and int(short.data_count) == 0, "rejects",
                    "a batch that did not fit was half coded")


def mass(lo, hi):
    """Gaussian mass of [lo, hi], accurate in both tails"""
    flip = lo > 0
    a, b = np.where(flip, -hi, lo), np.where(flip, -lo, hi)
    with np.errstate(all="ignore"):
        return special.ndtr(b) - special.ndtr(a)


def rate(m, mods):
    """The message grows by the discretised -ELBO of the latents that were used."""
    r = m.rng
    C = mods["bits_back_diffusion.codec"]
    steps, shape = r.choice([1, 2, 3]), (r.choice([1, 3]), 3, 4, r.choice([2, 5]))
    kw = settings(m)
    kw.update(latent_prec=18, obs_prec=24, prior_prec=r.choice([5, 8, 10]))
    model = toy(m, mods, steps, shape)
    np.random.seed(r.getrandbits(32))
    codec = C.BitsBackCodec(model, shape, **kw)
    x = batch_of(m, shape, kw["data_prec"])
    before = bbd.length(codec.message)
    model.calls.clear()
    m.case(("rate", steps, shape, tuple(kw.values())), True)
    ok, _ = m.run("rate", codec.encode, x)
    if not ok:
        return
    grown = bbd.length(codec.message) - before
    latent = {}
    for c in model.calls:
        if c[0] == "prior":
            latent[c[1]] = c[2]
    m.check(set(latent) == set(range(steps)), "rate", f"priors asked for steps {set(latent)}")
    if set(latent) != set(range(steps)):
        return
    levels = (1 << kw["data_prec"]) - 1
    lo, hi = kw["data_min"], kw["data_max"]
    data = lo + x * (hi - lo) / levels
    infer = [c[1] for c in model.calls if c[0] == "infer"]
    m.check(all(np.allclose(d, data, atol=1e-9) for d in infer), "rate",
            "the posterior saw other values than the quantised data")
    calls = model.calls
    model.calls = []
    want, n = 0.0, 1 << kw["prior_prec"]
    centres, edges = bbd.std_gaussian_centres(kw["prior_prec"]), bbd.std_gaussian_buckets(
        kw["prior_prec"])
    for s in range(steps - 1, -1, -1):
        # latent[s] is the variable on which step s is conditioned
        if s == steps - 1:
            prior = C.GaussianParams(np.zeros(shape), np.ones(shape))
            post = model.infer_fn(data)
        else:
            prior = model.generate_fn(latent[s + 1], s + 1)
            post = model.generate_fn(latent[s + 1], s + 1, data)
        z = (latent[s] - prior.mean) / prior.stdd
        i = np.abs(z[..., None] - centres).argmin(-1)
        m.check(np.abs(z - centres[i]).max() < 1e-6, "prior-bins",
                f"latent {s} is not a bin of its prior")
        e = prior.mean[..., None] + prior.stdd[..., None] * edges
        with np.errstate(all="ignore"):
            q = mass((np.take_along_axis(e, i[..., None], -1)[..., 0] - post.mean) / post.stdd,
                     (np.take_along_axis(e, i[..., None] + 1, -1)[..., 0] - post.mean)
                     / post.stdd)
        want += (np.log2(np.maximum(q, 2.0 ** -18)) + kw["prior_prec"]).sum()
    like = model.generate_fn(latent[0], 0)
    half = (hi - lo) / levels / 2
    a = np.where(x == 0, -np.inf, (data - half - like.mean) / like.stdd)
    b = np.where(x == levels, np.inf, (data + half - like.mean) / like.stdd)
    p = mass(a, b)
    want -= np.log2(np.maximum(p, 2.0 ** -24)).sum()
    model.calls = calls
    tol = 0.02 * x.size * (steps + 1) + 0.003 * abs(want) + 2
    m.check(abs(grown - want) <= tol, "rate", f"{grown:.1f} bits, the model says {want:.1f}")
    m.event("bits-coded", int(max(grown, 0)))
    # the same number comes back when decoding
    m.run("rate", codec.decode)
    m.check(abs(bbd.length(codec.message) - before) < 1e-6, "rate", "not returned by decoding")


def quantize(m, mods):
    r = m.rng
    Codec = mods["bits_back_diffusion.codec"].BitsBackCodec
    kw = settings(m)
    kw["data_prec"] = r.choice([1, 2, 5, 8, 12])
    codec = Codec(toy(m, mods, 1, (1, 1, 1, 1)), (1, 1, 1, 1), initial_len=50, **kw)
    n = 1 << kw["data_prec"]
    lo, hi = kw["data_min"], kw["data_max"]
    v = lo + np.arange(n) * (hi - lo) / (n - 1)
    dt = r.choice([np.float32, np.float64])
    m.case(("quantize", kw["data_prec"], lo, hi, dt.__name__), True)
    if dt is np.float32 and abs(lo) > 5 and n > 1000:
        dt = np.float64
    step = (hi - lo) / (n - 1)
    g = np.random.default_rng(r.getrandbits(32))
    off = np.clip(g.uniform(-0.45, 0.45, n) * step, lo - v, hi - v)
    for d in (0.0, off):
        ok, q = m.run("quantize", codec.quantize, (v + d).astype(dt))
        if ok:
            m.check((q == np.arange(n)).all() and np.issubdtype(q.dtype, np.integer), "quantize",
                    f"levels {q[:5]}... for {n} values in {lo}..{hi}")


def bins(m, mods):
    r = m.rng
    make = mods["bits_back_diffusion.codec"].diag_gaussian_unif_bins
    g = np.random.default_rng(r.getrandbits(32))
    shape = r.choice([(6,), (3, 2), (2, 3, 2), (1, 1)])
    prec, cp = r.choice([1, 2, 4, 7]), r.choice([16, 20, 24])
    arr = len(shape) > 1 and r.random() < 0.5
    n = 1 << prec
    if arr:
        lo = g.choice([-1.0, 0.0, -3.0, 5.0], shape[-1])
        hi = lo + g.choice([1.0, 2.0, 0.5, 8.0], shape[-1])
    else:
        lo = r.choice([-1.0, 0.0, -3.0, 5.0])
        hi = lo + r.choice([1.0, 2.0, 0.5, 8.0])
    width = (hi - lo) / (n - 1)
    mean = lo + g.random(shape) * (hi - lo) * 1.4 - 0.2 * (hi - lo)
    stdd = np.exp(g.normal(size=shape)) * r.choice([0.3, 1.0, 5.0]) * (hi - lo) / 4
    x = g.integers(0, n, shape)
    if r.random() < 0.3:
        x = np.where(g.random(shape) < 0.5, 0, n - 1)
    m.case(("bins", shape, prec, cp, arr), True)
    ok, codec = m.run("bins-mass", make, mean, stdd, lo, hi, cp, prec)
    if not ok:
        return
    head = g.integers(1 << 36, 1 << 37, shape).astype(np.uint64)
    tail = (g.integers(0, 1 << 32, 64).astype(np.uint32), ())
    ok, out = m.run("bins-lossless", codec.push, (head.copy(), tail), x)
    if not ok:
        return
    with np.errstate(all="ignore"):
        bits = np.log2(out[0][0].astype(float)) - np.log2(head.astype(float))
    v = lo + x * width
    p = mass(np.where(x == 0, -np.inf, (v - width / 2 - mean) / stdd),
             np.where(x == n - 1, np.inf, (v + width / 2 - mean) / stdd))
    f = p * (1 << cp)
    # a frequency is off by the rounding, and the largest also by the other bins' minima
    slack = (1.5 + n) / np.maximum(f, 1) + 1e-3
    sure = f > 8 * n
    bad = sure & (np.abs(2.0 ** -bits / np.where(sure, p, 1) - 1) > slack)
    m.check(not bad.any(), "bins-mass",
            f"probabilities {2.0 ** -bits[bad][:3]} want {p[bad][:3]} of [{lo}, {hi}]")
    m.check((bits <= cp + 1e-2).all(), "bins-mass", "a level cannot be coded")
    m.event("bin-masses", int(sure.sum()))
    ok, back = m.run("bins-lossless", codec.pop, out[0])
    if ok:
        m.check((back[1] == x).all() and (back[0][0] == head).all(), "bins-lossless",
                "another symbol or head")


class Net(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(torch.randn(1))
        self.b = nn.Parameter(torch.randn(1))
        self.seen = []

    def forward(self, x, t):
        self.seen.append((x.clone(), t.clone(), torch.is_grad_enabled()))
        return self.a * 2 * x + self.b * torch.cos(t.float()).reshape(-1, 1, 1, 1)


def diffusion(m, mods):
    r = m.rng
    C = mods["bits_back_diffusion.codec"]
    m.seed_torch()
    g = np.random.default_rng(r.getrandbits(32))
    steps = r.choice([2, 3, 6])
    betas = np.sort(g.uniform(0.02, 0.6, steps))
    d = bbd.GaussianDiffusion(betas)
    net = Net().eval()
    logv, clip = r.random() < 0.5, r.random() < 0.5
    shape = (r.choice([1, 2]), 3, 2, 2)
    kw = dict(use_log_variance=logv, clip_denoised=clip)
    if not logv and r.random() < 0.5:
        kw.pop("use_log_variance")
    if clip and r.random() < 0.5:
        kw.pop("clip_denoised")
    ok, dm = m.run("diffusion-q", lambda: C.DiffusionModel(net, d, **kw))
    if not ok:
        return
    m.case(("diffusion", steps, logv, clip, shape, r.random()), True)
    m.check(dm.steps == steps, "diffusion-q", f"{dm.steps} steps")
    x = g.uniform(-1, 1, shape)
    z = g.normal(size=shape) * 1.5
    keep = x.copy(), z.copy()
    ab = np.cumprod(1 - betas)
    prev = np.append(1, ab[:-1])
    ok, q = m.run("diffusion-q", dm.infer_fn, x)
    if ok:
        m.check(np.allclose(q.mean, np.sqrt(ab[-1]) * x, atol=1e-5) and
                np.allclose(q.stdd, np.sqrt(1 - ab[-1]), atol=1e-5) and q.stdd.shape == shape,
                "diffusion-q", "posterior of the top latent")
    for s in range(steps):
        c0 = betas[s] * np.sqrt(prev[s]) / (1 - ab[s])
        ct = (1 - prev[s]) * np.sqrt(1 - betas[s]) / (1 - ab[s])
        var = betas[s] * (1 - prev[s]) / (1 - ab[s])
        ok, p = m.run("diffusion-prior", dm.generate_fn, z, s)
        if ok:
            with torch.no_grad():
                x0 = float(net.a) * 2 * z + float(net.b) * np.cos(s)
            if clip:
                x0 = np.clip(x0, -1, 1)
            v = betas[s] if s else (betas[1] * (1 - prev[1]) / (1 - ab[1]))
            sd = np.sqrt(v) * (np.exp(-0.125) if logv else 1)
            m.check(np.allclose(p.mean, c0 * x0 + ct * z, atol=1e-4) and
                    np.allclose(p.stdd, sd, atol=1e-5) and not net.seen[-1][2],
                    "diffusion-prior", f"step {s} clip {clip} log {logv}")
        if s:
            ok, p = m.run("diffusion-posterior", lambda: dm.generate_fn(z, s, x))
            if ok:
                m.check(np.allclose(p.mean, c0 * x + ct * z, atol=1e-5) and
                        np.allclose(p.stdd, np.sqrt(var), atol=1e-5), "diffusion-posterior",
                        f"step {s}")
    m.check((x == keep[0]).all() and (z == keep[1]).all(), "diffusion-posterior", "arguments")
    # the whole codec on this model
    np.random.seed(r.getrandbits(32))
    codec = C.BitsBackCodec(dm, shape, prior_prec=7)
    start = codec.flat_message.copy()
    xs = [batch_of(m, shape, 8) for _ in range(r.choice([1, 2, 3, 8]))]
    for v in xs:
        ok, _ = m.run("diffusion-lossless", codec.encode, v)
        if not ok:
            return
    for v in xs[::-1]:
        ok, got = m.run("diffusion-lossless", codec.decode)
        if not ok:
            return
        m.check((got[1] == v).all(), "diffusion-lossless", f"{steps} steps")
    m.check(same(codec.flat_message, start), "diffusion-lossless", "message")


def spacing(m, mods):
    r = m.rng
    S = mods["bits_back_diffusion.script_util"]
    T = r.choice([10, 37, 100, 300, 1000, 4000, r.randrange(5, 3000)])
    kind = r.choice(["list", "str", "vlb", "ddim"])
    m.case(("spacing", T, kind, r.random()), True)
    if kind == "vlb":
        n = r.randrange(1, T + 3)
        if n > T or T // n >= n:
            m.raises("spacing-rejects", ValueError, S.space_timesteps, T, f"vlb{n}")
            return
        ok, got = m.run("spacing", S.space_timesteps, T, f"vlb{n}")
        if ok:
            k = T // n
            g = sorted(got)
            gaps = np.diff(g[k - 1:]) if len(g) > k else np.array([1])
            tail = np.diff(g[k:]) if len(g) > k + 1 else np.array([0])
            m.check(len(g) == n and set(range(k)) <= set(g) and g[-1] == T - 1 and
                    tail.max() - tail.min() <= 1 and gaps.min() >= 1, "spacing",
                    f"vlb{n} of {T}: {len(g)} steps")
        return
    if kind == "ddim":
        n = r.randrange(1, T + 1)
        fits = [i for i in range(1, T) if len(range(0, T, i)) == n]
        if not fits:
            m.raises("spacing-rejects", ValueError, S.space_timesteps, T, f"ddim{n}")
        else:
            ok, got = m.run("spacing", S.space_timesteps, T, f"ddim{n}")
            m.check(ok and got == set(range(0, T, fits[0])), "spacing", f"ddim{n} of {T}")
        return
    k = r.choice([1, 2, 3, 5])
    sizes = [T // k + (1 if i < T % k else 0) for i in range(k)]
    counts = [r.choice([1, 2, s, r.randrange(1, s + 1)]) for s in sizes]
    counts = [min(c, s) for c, s in zip(counts, sizes)]
    if r.random() < 0.2:
        counts[r.randrange(k)] = max(sizes) + 1
    arg = counts if kind == "list" else ",".join(map(str, counts))
    if any(c > s for c, s in zip(counts, sizes)):
        m.raises("spacing-rejects", ValueError, S.space_timesteps, T, arg)
        return
    ok, got = m.run("spacing", S.space_timesteps, T, arg)
    if not ok:
        return
    at = 0
    good = len(got) == sum(counts)
    for c, s in zip(counts, sizes):
        part = sorted(i for i in got if at <= i < at + s)
        good &= len(part) == c and part[0] == at and (c == 1 or part[-1] == at + s - 1)
        if c > 2:
            gap = np.diff(part)
            good &= bool(gap.max() - gap.min() <= 1)
        at += s
    m.check(good, "spacing", f"{T} steps, sections {counts}: {len(got)} kept")


def create(m, mods):
    r = m.rng
    S = mods["bits_back_diffusion.script_util"]
    b = {k: r.random() < 0.5 for k in ("learn_sigma", "sigma_small", "use_kl", "predict_xstart",
                                       "rescale_timesteps", "rescale_learned_sigmas")}
    T = r.choice([50, 1000, 300])
    sched = r.choice(["linear", "cosine"])
    resp = r.choice(["", "vlb40", [5, 5], "ddim10", None])
    m.case(("create", T, sched, str(resp), tuple(b.values())), True)
    ok, d = m.run("create", lambda: S.create_gaussian_diffusion(
        steps=T, noise_schedule=sched, timestep_respacing=resp, **b))
    if not ok:
        return
    kw = d.kw
    keep = S.space_timesteps(T, resp) if resp else set(range(T))
    loss = ("RESCALED_KL" if b["use_kl"] else
            "RESCALED_MSE" if b["rescale_learned_sigmas"] else "MSE")
    var = ("LEARNED_RANGE" if b["learn_sigma"] else
           "FIXED_SMALL" if b["sigma_small"] else "FIXED_LARGE")
    m.check(d.use_timesteps == keep and
            np.array_equal(kw["all_betas"], bbd.get_named_beta_schedule(sched, T)) and
            kw["model_mean_type"].name == ("START_X" if b["predict_xstart"] else "EPSILON") and
            kw["model_var_type"].name == var and kw["loss_type"].name == loss and
            kw["rescale_timesteps"] == b["rescale_timesteps"], "create", f"{b} {resp} {kw}")


def checkpoints(m, mods):
    r = m.rng
    S = mods["bits_back_diffusion.script_util"]
    tmp = Path(tempfile.mkdtemp(prefix="vp_c14_"))
    try:
        bbd.World.cwd = str(tmp)
        bbd.Logger.configure(str(tmp / "log"))
        pre, suf = r.choice([("model", "pt"), ("ema", "pt"), ("encode-ckpt", "npz"),
                             ("decode-ckpt", "npz")])
        where = r.choice(["log", "given-dir", "given-file", "empty", "missing"])
        d = tmp / ("log" if where in ("log", "empty") else "other")
        d.mkdir(exist_ok=True)
        sign = -1 if pre == "decode-ckpt" else 1
        nums = r.sample(range(0, 99999), r.choice([1, 2, 4]))
        if r.random() < 0.3:
            nums[0] = 0
        if r.random() < 0.4:  # longer than six digits
            nums = [q + (k + 1) * 1_000_000 * (k > 0) for k, q in enumerate(nums)]
            nums = nums if r.random() < 0.6 else [r.randrange(10 ** 6, 3 * 10 ** 6)]
        name = {n: f"{pre}{'_0.9999_' if pre == 'ema' else ''}{sign * n:06d}.{suf}" for n in nums}
        if where != "empty":
            for n in nums:
                (d / name[n]).write_bytes(b"x")
            (d / f"optother999999.{suf}").write_bytes(b"x")
            (d / f"{pre}999999.txt").write_bytes(b"x")
        key = r.choice(["ck", "part.ck"])
        given = {"log": None, "empty": None, "given-dir": "other", "missing": "nowhere",
                 "given-file": "other/" + name[nums[-1]]}[where]
        if given and where != "missing" and r.random() < 0.5:
            given = str(tmp / given)
        cfg = stubs.Cfg(ck=given, part=dict(ck=given))
        m.case(("checkpoints", pre, where, len(nums)), True)
        old = os.getcwd()
        os.chdir(tmp)
        try:
            ok, _ = m.run("checkpoint-choice", S.update_checkpoint, cfg, key, pre, suf)
        finally:
            os.chdir(old)
        if not ok:
            return
        got = cfg["part"]["ck"] if "." in key else cfg["ck"]
        best = max(nums, key=lambda n: sign * n)
        want = {"log": d / name[best], "given-dir": d / name[best],
                "given-file": d / name[nums[-1]]}.get(where)
        if want is None:
            m.check(got == given, "checkpoint-choice", f"{where}: {got}")
        else:
            m.check(got is not None and Path(got).resolve() == want.resolve(),
                    "checkpoint-choice", f"{where}: {got} want {want}")
        for n in nums:
            ok, v = m.run("checkpoint-choice", S.parse_resume_step_from_filename,
                          str(d / name[n]))
            m.check(ok and v == sign * n, "checkpoint-choice", f"{name[n]} parsed as {v}")
        bbd.World.size = r.choice([1, 2, 3])
        n = r.randrange(1, 50)
        if n % bbd.World.size:
            m.raises("setup", ValueError, S.divide_by_n_proc, n)
        else:
            m.check(S.divide_by_n_proc(n) == n // bbd.World.size, "setup", "divide_by_n_proc")
        m.check(sys_resolver() is not None, "setup", "resolver")
    finally:
        bbd.World.size = 1
        shutil.rmtree(tmp, ignore_errors=True)


def sys_resolver():
    import sys
    return sys.modules["omegaconf"].OmegaConf.resolvers.get("divide_by_n_proc")


DATA = {}


def make_model(width=1):
    DATA["models"] = DATA.get("models", 0) + 1
    return Net()


def make_data(data_dir, batch_size, **kw):
    DATA["dir"] = data_dir
    DATA["args"] = kw

    def it():
        i = 0
        while True:
            DATA["served"] = DATA.get("served", 0) + 1
            x = DATA["images"][i * batch_size:(i + 1) * batch_size]
            yield torch.from_numpy(x).float() * 2 / 255 - 1, DATA.get("extra", {})
            i = (i + 1) % (len(DATA["images"]) // batch_size)
    return it()


def make_diffusion(steps):
    d = bbd.GaussianDiffusion(np.linspace(0.05, 0.5, steps))
    DATA["diffusion"] = d
    return d


def config(m, tmp, batch, num, interval, steps, track, check):
    return stubs.Cfg(
        check=check, save_interval=interval, decode_checkpoint=None, encode_checkpoint=None,
        evaluator=dict(num_samples=num, clip_denoised=False, model_path="weights.pt"),
        model={"_target_": "checks.c14.make_model"},
        diffusion={"_target_": "checks.c14.make_diffusion", "steps": steps},
        data=dict(val={"_target_": "checks.c14.make_data", "data_dir": "valid",
                       "batch_size": batch},
                  train={"_target_": "checks.c14.make_data", "data_dir": "train",
                         "batch_size": batch, "shuffle": True}),
        codec={"_target_": "bits_back_diffusion.codec.BitsBackCodec",
               "model": {"_target_": "bits_back_diffusion.codec.DiffusionModel",
                         "use_log_variance": False},
               "data_shape": (batch, 3, 2, 2), "prior_prec": 6, "track": track})


def rates(m, log, shown, measured):
    """the rates per diffusion step that encode.py leaves behind"""
    for name in ("push", "pop"):
        rows = [getattr(s, "rate_effective_" + name) for s in measured]
        rows = np.stack([x for x in rows if x is not None])
        out = log / f"rates-{name}.npz"
        if not out.is_file():
            m.fail("run-rates", f"{out.name} was not written")
            continue
        f = np.load(out)
        for k, w in (("mean", rows.mean(0)), ("stdd", rows.std(0)), ("min", rows.min(0)),
                     ("max", rows.max(0))):
            m.check(f[k].shape == w.shape and np.allclose(f[k], w), "run-rates", f"{name} {k}")
        fig = [d[name] for d in shown if name in d]
        m.check(len(fig) == 1 and np.allclose(fig[0].data[0]["y"], rows.mean(0)), "run-rates",
                f"plot of {name}")


def runs(m, mods):
    """encode.py from start to end, interrupted anywhere and started again."""
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c14_"))
    old, err, real = os.getcwd(), np.geterr(), None
    L, W = bbd.Logger, bbd.World
    try:
        os.chdir(tmp)
        W.cwd = str(tmp)
        W.size = r.choice([1, 1, 2])
        batch, steps = r.choice([1, 2, 3]), r.choice([2, 3])
        n = r.choice([1, 3, 5, 6, 13])
        num = batch * n * W.size - (r.choice([0, 1]) if W.size * batch > 1 else 0)
        interval = r.choice([1, batch, 2 * batch + 1, 5, 100])
        track = r.random() < 0.5
        g = np.random.default_rng(r.getrandbits(32))
        DATA.clear()
        DATA["images"] = g.integers(0, 256, (batch * (n + 2), 3, 2, 2)).astype(np.uint8)
        m.seed_torch()
        torch.save(Net().state_dict(), tmp / "weights.pt")
        crashes = r.choice([0, 1, 2, 4])
        m.case(("run", batch, steps, n, num, interval, track, crashes, W.size), True)
        np.random.seed(r.getrandbits(32))
        done, tries = False, 0
        L.rows.clear()
        Codec = mods["bits_back_diffusion.codec"].BitsBackCodec
        measured, real = [], Codec.statistics

        def statistics(self, *a, **kw):
            s = real(self, *a, **kw)
            measured.append(s)
            return s
        Codec.statistics = statistics
        W.logged.clear()
        while not done:
            cfg = config(m, tmp, batch, num, interval, steps, track, True)
            L.crash = r.randrange(3, 6 + 3 * n) if tries < crashes else None
            tries += 1
            before = DATA.get("served", 0)
            have = sorted(tmp.glob("logging_rank000/encode-ckpt*.npz"))
            try:
                mods["encode"].main(cfg)
                done = True
            except KeyboardInterrupt:
                m.event("interrupted")
            except Exception as e:
                m.fail("run-complete", f"{type(e).__name__}: {e} on attempt {tries}")
                return
            L.crash = None
            if have and done:
                m.check(L.lines and any("load encode checkpoint" in s or have[-1].name in s
                                        for s in L.lines), "run-resume", "started over")
        log = tmp / "logging_rank000"
        m.check(True, "run-complete", "")
        last = log / f"encode-ckpt{n * batch:06d}.npz"
        m.check(last.is_file(), "run-complete", f"no {last.name}")
        if last.is_file():
            sd = np.load(last)
            m.check(int(sd["data_count"]) == n, "run-resume", f"{sd['data_count']} of {n}")
        files = sorted(log.glob("batch*.npz"))
        m.check([f.name for f in files] == [f"batch{i:05d}.npz" for i in range(n)],
                "run-decoded", f"{[f.name for f in files]}")
        for i, f in enumerate(files):
            m.check((np.load(f)["batch"] == DATA["images"][i * batch:(i + 1) * batch]).all(),
                    "run-decoded", f.name)
        # what was logged belongs to one growing message
        seen = [int(x["samples"]) for x in L.rows if "samples" in x]
        m.check(seen and seen[-1] == n * batch and all(s % batch == 0 for s in seen),
                "run-resume", f"samples {seen}")
        if track and crashes == 0:
            rates(m, log, W.logged, measured)
        if interval >= 1 and crashes == 0:
            kept = sorted(int(p.stem[-6:]) for p in log.glob("encode-ckpt*.npz"))
            want = [s for s in range(batch, n * batch + 1, batch)
                    if s == n * batch or s % interval < batch]
            m.check(kept == want, "run-resume", f"checkpoints {kept} want {want}")
            kept = {int(p.stem[len("decode-ckpt"):]) for p in log.glob("decode-ckpt*.npz")}
            want = {-s for s in range(0, n * batch, batch) if s % interval < batch}
            m.check(kept == want, "run-resume", f"decoding kept {kept} want {want}")
            for k in kept & want:
                sd = np.load(log / f"decode-ckpt{k:06d}.npz")
                m.check(int(sd["data_count"]) * batch == -k, "run-resume",
                        f"decode-ckpt{k:06d} holds {sd['data_count']} batches")
    finally:
        L.crash = None
        if real is not None:
            Codec.statistics = real
        np.seterr(**err)
        os.chdir(old)
        W.size = 1
        shutil.rmtree(tmp, ignore_errors=True)


def vlb(m, mods):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c14_"))
    old = os.getcwd()
    L, W = bbd.Logger, bbd.World
    try:
        os.chdir(tmp)
        W.cwd = str(tmp)
        W.size = r.choice([1, 2])
        W.others = 0.0 if W.size == 1 else 3.5
        W.rank = 0
        batch, n, steps = r.choice([1, 2, 3]), r.choice([1, 2, 4]), r.choice([2, 3, 5])
        g = np.random.default_rng(r.getrandbits(32))
        DATA.clear()
        DATA["images"] = g.integers(0, 256, (batch * (n + 1), 3, 2, 2)).astype(np.uint8)
        DATA["extra"] = {"y": torch.arange(batch)} if r.random() < 0.5 else {}
        m.seed_torch()
        src = Net()
        torch.save(src.state_dict(), tmp / "weights.pt")
        cfg = config(m, tmp, batch, batch * n * W.size, 1, steps, False, False)
        m.case(("vlb", batch, n, steps, W.size), True)
        L.rows.clear()
        W.logged.clear()
        ok, _ = m.run("vlb", mods["compute_vlb"].main, cfg)
        if not ok:
            return
        d = DATA["diffusion"]
        x = torch.from_numpy(DATA["images"][:n * batch]).float() * 2 / 255 - 1
        calls = [c for c in d.calls if c[0] == "bpd"]
        m.check(len(calls) == n and torch.allclose(torch.cat([c[3] for c in calls]), x) and
                all(c[1] is False for c in calls) and
                all(set(c[2]) == set(DATA["extra"]) for c in calls), "vlb", "batches")
        base = x.flatten(1).mean(1)
        vb = base.abs()[:, None] + torch.arange(steps)
        prior = base.square() + 7
        tot = (vb.sum(1) + prior).reshape(n, batch).mean(1) / W.size + W.others
        for i, row in enumerate(L.rows):
            m.check(np.isclose(row["total_bpd"], float(tot[:i + 1].mean()), rtol=1e-4) and
                    row["samples"] == (i + 1) * batch * W.size, "vlb", f"logged {row}")
        m.check(len(L.rows) == n, "vlb", f"{len(L.rows)} rows")
        for name, t in (("vb", torch.cat([prior[:, None], vb], 1)),
                        ("mse", base[:, None] - torch.arange(steps)),
                        ("xstart_mse", base[:, None] + 2 * torch.arange(steps))):
            if W.size == 2:
                t = torch.cat([t, t + 200.0])
            t = t.flip(1).double()
            out = tmp / "logging" / f"{name}-terms.npz"
            if not out.is_file():
                m.fail("vlb", f"{out.name} was not written")
                continue
            f = np.load(out)
            for k, w in (("mean", t.mean(0)), ("min", t.amin(0)), ("max", t.amax(0)),
                         ("stdd", t.std(0, unbiased=False))):
                m.check(np.allclose(f[k], w.numpy(), rtol=1e-3, atol=1e-3), "vlb", f"{name} {k}")
            fig = W.logged[-1][name]
            m.check(np.allclose(fig.data[0]["y"], t.mean(0).numpy(), rtol=1e-3, atol=1e-3),
                    "vlb", f"plot of {name}")
    finally:
        W.size, W.others = 1, None
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def trainer(m, mods):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c14_"))
    old = os.getcwd()
    S, W = mods["bits_back_diffusion.script_util"], bbd.World
    try:
        os.chdir(tmp)
        W.cwd = str(tmp)
        W.rank = r.choice([0, 0, 1])
        m.seed_torch()
        src, ema = Net(), Net()
        step = r.choice([0, 70, 123456])
        place = r.choice(["log", "given", "none"])
        d = tmp / ("logging" if place == "log" else "run")
        d.mkdir()
        if place != "none":
            torch.save(src.state_dict(), d / f"model{step:06d}.pt")
            if step:
                torch.save(ema.state_dict(), d / f"model{step - 1:06d}.pt")
        with_ema = r.random() < 0.5
        if with_ema:
            torch.save(ema.state_dict(), d / f"ema_0.99_{step:06d}.pt")
        cfg = config(m, tmp, 1, 1, 1, 2, False, False)
        cfg["trainer"] = {"resume_checkpoint": "run" if place == "given" else None}
        DATA.clear()
        DATA["images"] = np.zeros((1, 3, 2, 2), np.uint8)
        m.case(("trainer", place, step, with_ema, W.rank), True)
        ok, got = m.run("setup", S.setup, cfg, True)
        if not ok:
            return
        model, diff, loader = got
        m.check(model.training and diff is DATA["diffusion"] and DATA["args"] ==
                {"shuffle": True} and Path(DATA["dir"]) == tmp / "train", "setup",
                f"training data {DATA.get('args')} {DATA.get('dir')}")
        own = [p.detach().clone() for p in model.parameters()]
        W.synced.clear()
        ok, t = m.run("trainer-resume", lambda: S.TrainLoop(
            model=model, resume_checkpoint=cfg["trainer"].get("resume_checkpoint"),
            ema_rate="0.99"))
        if not ok:
            return
        loaded = place != "none"
        want = list(src.parameters()) if loaded and W.rank == 0 else own
        m.check(t.resume_step == (step if loaded else 0), "trainer-resume", f"{t.resume_step}")
        m.check(all(torch.equal(a, b) for a, b in zip(model.parameters(), want)) and
                len(W.synced) == 2 and all(torch.equal(a, b) for a, b in zip(W.synced[0], want)),
                "trainer-resume", f"{place}: weights")
        want = list(ema.parameters()) if loaded and with_ema and W.rank == 0 else want
        m.check(all(torch.equal(a, b) for a, b in zip(t.ema_params[0], want)) and
                all(torch.equal(a, b) for a, b in zip(W.synced[1], want)), "trainer-resume",
                f"{place}: averages")
        m.check(all(a is not b for a, b in zip(t.ema_params[0], model.parameters())),
                "trainer-resume", "averages alias the weights")
        # evaluation
        cfg = config(m, tmp, 1, 1, 1, 2, False, False)
        torch.save(src.state_dict(), tmp / "weights.pt")
        ok, got = m.run("setup", S.setup, cfg)
        if ok:
            m.check(not got[0].training and all(torch.equal(a, b) for a, b in zip(
                got[0].parameters(), src.parameters())) and DATA["args"] == {} and
                Path(DATA["dir"]) == tmp / "valid", "setup", "evaluation")
    finally:
        W.rank = 0
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def run(m):
    mods = bbd.load()
    import checks.c14 as me  # the module hydra's stand-in imports
    globals()["DATA"] = me.DATA
    parts = [history, rate, bins, history, extra, diffusion, runs, history, quantize, spacing,
             create, checkpoints, rate, runs, vlb, trainer, spacing, bins]
    for i in range(m.n(1440, 7200)):
        if not m.time_left():
            break
        parts[i % len(parts)](m, mods)
