"""ContinuousEntropy: integer tables match the prior, drive a range coder losslessly, persist."""
import copy
import io
import math

import numpy as np
import scipy.special as sp
import torch
from compressai import ans
from torch.distributions import Laplace, Normal, Uniform

from neuralcompression.distributions import NoisyNormal, UniformNoise
from neuralcompression.layers import ContinuousEntropy

PID = "C19"
RULE = ("case = one layer built from one prior (or one rejected / restored configuration); "
        "non-trivial when the context has >= 2 rows or the prior is not standard; distinct by "
        "(prior, context shape, precision, tail mass, region)")
REQUIRED = ["shape", "cdf", "mass", "coverage", "overflow", "offset", "size", "rows", "coder",
            "rate", "persist", "quantize", "rejects", "accessors", "restore"]
BUDGET = (20, 150)


def make(m, positive):
    r = m.rng
    shape = r.choice([(1,), (3,), (5,), (2, 3), (4, 1, 2), (1, 1), (30,)])
    n = int(np.prod(shape))
    loc = torch.tensor([r.uniform(30, 60) if positive else r.uniform(-8, 8) for _ in range(n)])
    if r.random() < 0.2:
        loc = loc.round()
    sc = torch.tensor([r.choice([0.05, 0.3, 1.0, r.uniform(0.3, 6)]) for _ in range(n)])
    loc, sc = loc.reshape(shape), sc.reshape(shape)
    kind = r.choice(["noisy", "noisy", "uniformnoise", "laplacenoise"])
    if kind == "noisy":
        p = NoisyNormal(loc, sc)
    elif kind == "uniformnoise":
        p = UniformNoise(Normal(loc, sc))
    else:
        p = UniformNoise(Laplace(loc, sc))
    return kind, shape, loc, sc, p


def true_mass(kind, loc, sc, v):
    """Mass of the unit box around v under the base (double precision)."""
    a, b = (v - 0.5 - loc) / sc, (v + 0.5 - loc) / sc
    if kind == "laplacenoise":
        F = lambda z: np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)),  # noqa: E731
                               1 - 0.5 * np.exp(-np.maximum(z, 0)))
        return F(b) - F(a)
    return sp.ndtr(b) - sp.ndtr(a)


def tables(m):
    r = m.rng
    positive = r.random() < 0.7
    kind, shape, loc, sc, p = make(m, positive)
    prec = r.choice([12, 16, 16, 14])
    tail = r.choice([2 ** -8, 2 ** -4, 1e-3, 0.2])
    kw = {} if (prec == 12 and r.random() < 0.5) else dict(range_coder_precision=prec)
    m.case(("tables", kind, shape, prec, tail, positive))
    ok, e = m.run("builds", ContinuousEntropy, compressible=True, prior=p, tail_mass=tail,
                  coding_rank=1, **kw)
    if not ok:
        return
    n = int(np.prod(shape))
    cdfs, sizes, offs = e.cdfs, e.cdf_sizes, e.cdf_offsets
    m.check(cdfs.dtype == sizes.dtype == offs.dtype == torch.int32, "shape", "dtype")
    m.check(cdfs.dim() == 2 and cdfs.shape[0] == n and tuple(sizes.shape) == (n,)
            and tuple(offs.shape) == (n,), "shape", f"{tuple(cdfs.shape)} {tuple(sizes.shape)}"
            f" {tuple(offs.shape)} for context {shape}")
    m.check(int(sizes.max()) == cdfs.shape[1], "size", "widest row")
    m.check(tuple(e.context_shape) == tuple(e.prior_shape) == shape, "accessors", "shapes")
    check = getattr(e, "_validate_range_coding_table", None)
    if check is not None:
        m.run("accessors", check)
    top = 2 ** prec
    l, s = loc.reshape(-1).double().numpy(), sc.reshape(-1).double().numpy()
    for i in range(n):
        row = cdfs[i].tolist()
        k = int(sizes[i])
        c = row[:k]
        m.check(c[0] == 0 and c[-1] == top and all(b > a for a, b in zip(c, c[1:])), "cdf",
                f"row {i}: not a strictly increasing CDF 0..{top}: {c[:4]}..{c[-3:]}")
        qo = l[i] - np.round(l[i])
        v = int(offs[i]) + qo + np.arange(k - 2)
        want = true_mass(kind, l[i], s[i], v)
        got = np.diff(c) / top
        # quantisation keeps every symbol codable, stealing from the others
        tolq = (k + 4) / top + 2e-5
        m.check(bool((np.abs(got[:-1] - want) <= tolq + 0.02 * want).all()), "mass",
                f"row {i}: {got[:4]} want {want[:4]} offset {int(offs[i])}")
        rest = max(0.0, 1 - want.sum())
        m.check(abs(got[-1] - rest) <= tolq + 0.02 * rest, "overflow",
                f"row {i}: overflow {got[-1]} want {rest}")
        key = None
        lo = float(p.lower_tail(tail).reshape(-1)[i]) - qo
        if lo < 0:
            key = "negative-lower-tail-clamped"
        m.check(rest <= tail * 1.05 + 1e-4, "coverage",
                f"row {i}: {rest:.4f} of the mass is outside the table (tail mass {tail})",
                key=key)
        if lo >= 0:
            m.check(int(offs[i]) == math.floor(lo + 1e-6) or int(offs[i]) == math.floor(lo - 1e-6),
                    "offset", f"row {i}: {int(offs[i])} for lower tail {lo}")
            hi = float(p.upper_tail(tail).reshape(-1)[i]) - qo
            want_k = math.ceil(hi) - math.floor(lo) + 1
            m.check(abs(k - 2 - want_k) <= 1, "size", f"row {i}: {k - 2} symbols want {want_k}")
        m.event("rows")
    if prec == 16:
        coder(m, e, kind, l, s, n)
    persist(m, e, shape, p, tail, kw, positive)


def coder(m, e, kind, l, s, n):
    """The tables must drive the range coder they are meant for."""
    r = m.rng
    N = 400
    idx = [r.randrange(n) for _ in range(N)]
    sym = []
    for i in idx:
        q = l[i] - round(l[i])
        b = l[i] + (r.gauss(0, s[i]) if kind != "laplacenoise"
                    else s[i] * r.choice([-1, 1]) * r.expovariate(1)) + r.uniform(-0.5, 0.5)
        b = b if r.random() > 0.01 else b + r.choice([-1, 1]) * 40
        t = torch.tensor([b])
        o = torch.tensor([q], dtype=torch.float32)
        y = ContinuousEntropy.quantize(t, torch.zeros(1, dtype=torch.int64), o)
        m.check(y.dtype == torch.int32 and int(y) == round(float(t - o)), "quantize",
                f"{b} offset {q} -> {y}")
        sym.append(int(y))
    c, z, o = e.cdfs.tolist(), e.cdf_sizes.tolist(), e.cdf_offsets.tolist()
    data = ans.RansEncoder().encode_with_indexes(sym, idx, c, z, o)
    back = ans.RansDecoder().decode_with_indexes(data, idx, c, z, o)
    m.check(list(back) == sym, "coder", "range coder does not return the symbols")
    bits = 0.0
    esc = 0
    for v, i in zip(sym, idx):
        j = v - o[i]
        if 0 <= j < z[i] - 2:
            w = float(true_mass(kind, l[i], s[i], v + (l[i] - round(l[i]))))
            bits += -math.log2(max(w, (c[i][j + 1] - c[i][j]) / 65536 / 1.5, 2 ** -16))
        else:
            esc += 1
            bits += -math.log2((c[i][z[i] - 1] - c[i][z[i] - 2]) / 65536) + 2 * 8 + 2 * abs(j)
    m.check(8 * len(data) <= 1.1 * bits + 128, "rate", f"{8 * len(data)} bits, ideal {bits:.0f}"
            f" ({esc} escapes)")


def persist(m, e, shape, p, tail, kw, positive):
    r = m.rng
    f = io.BytesIO()
    torch.save(e.state_dict(), f)
    f.seek(0)
    sd = torch.load(f)
    loc2 = torch.zeros(shape)
    # a receiver that was handed the tables
    e2 = ContinuousEntropy(compressible=True, prior_shape=shape, prior_dtype=torch.float32,
                           cdfs=torch.zeros_like(e.cdfs), cdf_sizes=torch.zeros_like(e.cdf_sizes),
                           cdf_offsets=torch.zeros_like(e.cdf_offsets), **kw)
    ok, _ = m.run("persist", e2.load_state_dict, sd)
    if ok:
        m.check(torch.equal(e2.cdfs, e.cdfs) and torch.equal(e2.cdf_sizes, e.cdf_sizes)
                and torch.equal(e2.cdf_offsets, e.cdf_offsets), "persist", "tables changed")
    e3 = copy.deepcopy(e)
    m.check(torch.equal(e3.cdfs, e.cdfs), "persist", "deepcopy")
    m.check(not loc2.any(), "persist", "")
    # building again gives the same tables
    e4 = ContinuousEntropy(compressible=True, prior=p, tail_mass=tail, **kw)
    m.check(torch.equal(e4.cdfs, e.cdfs) and torch.equal(e4.cdf_offsets, e.cdf_offsets),
            "persist", "rebuild differs")
    # the documented way to restore tables into an empty layer
    e5 = ContinuousEntropy(compressible=True, prior_shape=shape, prior_dtype=torch.float32,
                           maximum_cdf_size=int(e.cdfs.shape[1]))
    m.run("restore", e5.load_state_dict, sd, _key="restore-template-shape")


def plain(m):
    """A prior without noise: its density stands for the mass."""
    r = m.rng
    loc = torch.tensor([r.uniform(30, 40), r.uniform(30, 40)])
    sc = torch.tensor([r.uniform(2, 4), r.uniform(2, 4)])
    m.case(("plain", round(float(sc[0]), 1)))
    ok, e = m.run("builds", ContinuousEntropy, compressible=True, prior=Normal(loc, sc),
                  range_coder_precision=16)
    if ok:
        for i in range(2):
            c = e.cdfs[i][:int(e.cdf_sizes[i])].double() / 65536
            q = loc[i] - loc[i].round()
            v = int(e.cdf_offsets[i]) + q + torch.arange(len(c) - 2)
            m.close(c.diff()[:-1], Normal(loc[i], sc[i]).log_prob(v).exp(), "mass", "plain",
                    rtol=0.02, atol=2e-3)


def rejects(m):
    r = m.rng
    p = NoisyNormal(torch.tensor([40.0, 41.0]), torch.tensor([1.0, 2.0]))
    sh = dict(prior_shape=(2,), prior_dtype=torch.float32)
    i2 = torch.zeros(2, 4, dtype=torch.int32)
    i1 = torch.zeros(2, dtype=torch.int32)
    three = dict(cdfs=i2, cdf_sizes=i1, cdf_offsets=i1)
    C = ContinuousEntropy
    bad = [dict(), dict(prior_shape=(2,)), dict(prior_dtype=torch.float32),
           dict(compressible=True, **sh), dict(compressible=True, prior=p, maximum_cdf_size=8),
           dict(compressible=True, prior=p, **three),
           dict(compressible=True, maximum_cdf_size=8, **three, **sh),
           dict(compressible=True, stateless=True, maximum_cdf_size=8, **sh),
           dict(compressible=False, maximum_cdf_size=8, **sh),
           dict(compressible=False, prior=p, maximum_cdf_size=8)]
    for drop in three:
        t = {k: v for k, v in three.items() if k != drop}
        bad.append(dict(compressible=True, **t, **sh))
        bad.append(dict(compressible=True, **{drop: three[drop]}, **sh))
        bad.append(dict(compressible=False, **{drop: three[drop]}, **sh))
    for i, kw in enumerate(bad):
        m.case(("rejects", i))
        m.raises("rejects", ValueError, C, _msg=sorted(kw), **kw)
    for kw in (dict(prior=p), dict(**sh)):
        e = C(**kw)
        for a in ("cdfs", "cdf_sizes", "cdf_offsets"):
            m.raises("rejects", RuntimeError, getattr, e, a, _msg=a)
        m.raises("rejects", NotImplementedError, e.compress, _msg="compress")
        m.raises("rejects", NotImplementedError, e.decompress, _msg="decompress")
    e = C(prior=p, coding_rank=r.choice([1, 2, None]), compressible=r.random() < 0.5)
    m.check(e.prior is p, "accessors", "prior")
    del e.prior
    m.raises("rejects", RuntimeError, lambda: e.prior, _msg="prior after del")
    m.raises("rejects", RuntimeError, lambda: C(**sh).prior, _msg="no prior")
    e = C(compressible=True, **three, **sh)
    m.check(e.cdfs is i2 or torch.equal(e.cdfs, i2), "accessors", "given tables")
    x = torch.randn(40) * 5
    q = C.quantize(x, torch.zeros(40, dtype=torch.int64))
    m.check(torch.equal(q, torch.round(x).int()), "quantize", "no offset")


def run(m):
    rejects(m)
    for i in range(m.n(450, 900)):
        tables(m)
        if i % 4 == 0:
            plain(m)
        if not m.time_left():
            break
