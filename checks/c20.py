"""Rate and distortion scalars: information_content, calc_psnr(_numpy), pickle_size_of."""
import collections
import math
import os
import pickle
import tempfile

import numpy as np
import torch

import neuralcompression.functional as ncF
from neuralcompression.metrics import calc_psnr, calc_psnr_numpy, pickle_size_of

PID = "C20"
RULE = ("case = one (probability tensor, reduction, base), one (image pair, data range, number "
        "type) or one pickled object; distinct by shape, type and parameters")
REQUIRED = ["bits-value", "bits-additive", "bits-gradient", "bits-rejects", "psnr-torch",
            "psnr-numpy", "psnr-agree", "psnr-symmetric", "psnr-scale", "psnr-gradient",
            "psnr-perfect", "input-unchanged", "pickle-size", "pickle-repeat"]
BUDGET = (16, 90)

Point = collections.namedtuple("Point", "x y")


def bits(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(300, 4), (7, 3, 40, 41), (7,), (1,), (3, 4), (2, 3, 4, 5), (1, 2, 3, 3), (4, 2, 1, 6, 2), (5, 1),
                      (0, 3), (2, 320, 4, 4)])
    n = int(np.prod(shape))
    g = np.random.default_rng(r.getrandbits(32))
    kind = r.choice(["uniform", "tiny", "one", "mixed", "nearone"])
    p = {"uniform": g.uniform(1e-3, 1, n), "tiny": 10.0 ** g.uniform(-30, -9, n),
         "one": np.ones(n), "nearone": 1 - 10.0 ** g.uniform(-6, -2, n),
         "mixed": 10.0 ** g.uniform(-20, 0, n)}[kind]
    p = torch.tensor(p.reshape(shape)).to(dtype)
    if n and r.random() < 0.2 and len(shape) > 1:
        p = p.transpose(0, -1).contiguous().transpose(0, -1)       # not contiguous
    base = r.choice([2.0, 2.0, 10.0, math.e, 256.0, 2, 4])
    red = r.choice(["sum", "batch_el", "none", None])
    if red == "batch_el" and n == 0:
        red = "sum"
    m.case(("bits", str(dtype), shape, kind, base, red), kind != "one" and n > 0)
    p0 = p.clone()
    pg = p.clone().requires_grad_()
    kw = {} if red is None else {"reduction": red}
    if base != 2.0 or r.random() < 0.5:
        kw["base"] = base
    ok, v = m.run("bits-value", ncF.information_content, pg, **kw)
    if not ok:
        return
    p64 = p.double().numpy()
    el = -np.log(p64) / math.log(base) + 0.0
    want = {"sum": el.sum(), None: el.sum(), "none": el,
            "batch_el": el.reshape(shape[0], -1).sum(1) if n else None}[red]
    tol = 2e-6 if dtype == torch.float32 else 1e-12
    scale = 1 + np.abs(el).max() if n else 1
    m.check(tuple(v.shape) == np.shape(want), "bits-value", f"shape {tuple(v.shape)}")
    m.close(v, want, "bits-value", f"{red} base {base}", rtol=tol * 5,
            atol=tol * scale * math.sqrt(1 + n))
    m.check(torch.equal(p, p0), "input-unchanged", "probabilities")
    if n:
        m.check(bool((v >= 0).all()), "bits-value", "negative information")
        k = r.randint(0, shape[0])
        if 0 < k < shape[0]:
            parts = [ncF.information_content(q, "sum", base) for q in (p[:k], p[k:])]
            m.close(parts[0] + parts[1], np.float64(el.sum()), "bits-additive", "split",
                    rtol=tol * 5, atol=tol * scale * math.sqrt(1 + n))
        (gr,) = torch.autograd.grad(v.sum(), pg)
        m.close(gr.double() * p.double(), np.full(shape, -1 / math.log(base)), "bits-gradient",
                "d bits / d p", rtol=1e-4, atol=0)
    z = torch.tensor([[1.0, 0.0]], dtype=dtype)
    m.check(math.isinf(float(ncF.information_content(z, "sum", base))) and
            float(ncF.information_content(z, "sum", base)) > 0, "bits-value",
            "an impossible symbol costs infinitely many bits")
    m.raises("bits-rejects", ValueError, ncF.information_content, p,
             r.choice(["mean", "", "Sum", "batch", "batch_mean"]))


def psnr(m):
    r = m.rng
    g = np.random.default_rng(r.getrandbits(32))
    shape = r.choice([(9, 3, 8, 8), (1, 3, 200, 301), (1, 3, 8, 8), (2, 3, 16, 12), (1, 1, 5, 7), (4, 3, 1, 1), (3, 2, 33, 9),
                      (3, 16, 16), (6, 6), (1, 3, 96, 64)])
    dr = r.choice([255.0, 1.0, 255, 2.0, 65535.0, 1])
    kind = r.choice(["float32", "float32", "float64", "uint8", "int16", "int32", "uint16"])
    noise = 10 ** r.uniform(-4, 0)
    if kind.startswith("float"):
        a = (g.random(shape) * dr).astype(kind)
        b = (a + g.standard_normal(shape) * noise * dr).astype(kind)
    else:
        hi = {"uint8": 256, "int16": 32768, "int32": 65536, "uint16": 65536}[kind]
        a = g.integers(0, hi, shape).astype(kind)
        if r.random() < 0.4:
            b = g.integers(0, hi, shape).astype(kind)
        else:
            b = np.clip(a.astype(np.int64) + g.integers(-3, 4, shape), 0, hi - 1).astype(kind)
        if np.array_equal(a, b):
            b.flat[0] = b.flat[0] ^ 1
    mse = np.mean((a.astype(np.float64) - b.astype(np.float64)) ** 2)
    if mse == 0:
        return
    want = 10 * math.log10(float(dr) ** 2 / mse)
    m.case(("psnr", shape, dr, kind, round(math.log10(noise))), True)
    kw = {} if dr == 255.0 and r.random() < 0.5 else {"data_range": dr}
    a0, b0 = a.copy(), b.copy()
    tol = 1e-6 if kind == "float64" else 5e-3
    ok, v = m.run("psnr-numpy", calc_psnr_numpy, a, b, **kw)
    if ok:
        m.check(np.ndim(v) == 0 and abs(float(v) - want) < tol, "psnr-numpy",
                f"{kind} {shape}: {v} want {want}")
        m.check(abs(float(calc_psnr_numpy(b, a, **kw)) - float(v)) < 1e-4, "psnr-symmetric",
                "numpy")
    if kind.startswith("float"):
        ta, tb = torch.tensor(a), torch.tensor(b)
        tg = ta.clone().requires_grad_()
        ok, t = m.run("psnr-torch", calc_psnr, tg, tb, **kw)
        if ok:
            m.check(t.ndim == 0 and t.dtype == ta.dtype and abs(float(t) - want) < tol,
                    "psnr-torch", f"{float(t)} want {want}")
            m.check(abs(float(t) - float(v)) < 2 * tol, "psnr-agree", f"{float(t)} {float(v)}")
            m.check(abs(float(calc_psnr(tb, ta, **kw)) - float(t)) < 1e-4, "psnr-symmetric",
                    "torch")
            (gr,) = torch.autograd.grad(t, tg)
            wg = -10 / math.log(10) * 2 * (a.astype(np.float64) - b) / (mse * a.size)
            m.close(gr, wg, "psnr-gradient", "", rtol=2e-2, atol=1e-3 * np.abs(wg).max())
            s = r.choice([0.5, 4.0, 1 / 255])
            m.check(abs(float(calc_psnr(ta * s, tb * s, dr * s)) - want) < 2e-2, "psnr-scale",
                    f"scaling by {s}")
            m.check(torch.equal(ta, torch.tensor(a0)), "input-unchanged", "torch image")
            p = float(calc_psnr(ta, ta.clone(), **kw))
            m.check(math.isinf(p) and p > 0, "psnr-perfect", f"{p}")
    m.check(np.array_equal(a, a0) and np.array_equal(b, b0), "input-unchanged", "numpy images")
    with np.errstate(divide="ignore"):
        p = float(calc_psnr_numpy(a, a.copy(), **kw))
    m.check(math.isinf(p) and p > 0, "psnr-perfect", f"{p}")


def make(r, depth=0):
    k = r.randrange(11 if depth < 3 else 7)
    if k == 0:
        return r.randint(-10 ** 9, 10 ** 12)
    if k == 1:
        return bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 7, 255, 256, 3000])))
    if k == 2:
        return "é" * r.randint(0, 40)
    if k == 3:
        return torch.arange(r.choice([0, 1, 5, 1000]), dtype=torch.float32)
    if k == 4:
        return np.zeros((r.randint(0, 5), 3), dtype=np.uint8)
    if k == 5:
        return None
    if k == 6:
        return Point(r.random(), (1, 2))
    if k == 7:
        return [make(r, depth + 1) for _ in range(r.randint(0, 5))]
    if k == 8:
        return {str(i): make(r, depth + 1) for i in range(r.randint(0, 5))}
    if k == 9:
        x = [1, 2, 3]
        return [x, x, x]
    return tuple(make(r, depth + 1) for _ in range(r.randint(0, 4)))


def size(m, tmp):
    r = m.rng
    o = make(r)
    path = os.path.join(tmp, "o.pkl")
    with open(path, "wb") as f:
        pickle.dump(o, f)
    want = os.path.getsize(path)
    m.case(("pickle", type(o).__name__, want), want > 30)
    ok, v = m.run("pickle-size", pickle_size_of, o)
    if ok:
        m.check(isinstance(v, int) and v == want, "pickle-size",
                f"{type(o).__name__}: {v}, the file has {want}")
        m.check(pickle_size_of(o) == v, "pickle-repeat", "")


def run(m):
    with tempfile.TemporaryDirectory() as tmp:
        for i in range(m.n(3000, 40000)):
            m.seed_torch(i)
            bits(m)
            psnr(m)
            size(m, tmp)
            if not m.time_left():
                break
