"""Image utilities: padding to a factor, 255 scaling, HSV and optical-flow colouring."""
import colorsys
import math

import numpy as np
import torch

import neuralcompression.functional as ncF

PID = "C23"
RULE = ("case = one image/flow/colour tensor through one utility; distinct by utility, shape, "
        "type and content family")
REQUIRED = ["pad-size", "pad-content", "pad-border", "pad-returned-size", "pad-inverse",
            "pad-idempotent", "scale-value", "scale-roundtrip", "scale-dtype", "scale-rejects",
            "hsv-value", "hsv-range", "hsv-rejects", "flow-hue", "flow-value", "flow-range",
            "flow-rotation", "flow-zero", "input-unchanged"]
BUDGET = (18, 90)


def idx(n, total, mode):
    i = np.arange(total)
    if mode == "reflect":
        return np.where(i < n, i, 2 * (n - 1) - i)
    if mode == "replicate":
        return np.minimum(i, n - 1)
    if mode == "circular":
        return i % n
    return i


def pad(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float32, torch.float64])
    f = r.choice([1, 2, 3, 7, 8, 16, 16, 32, 64])
    mode = r.choice(["reflect", "reflect", "constant", "replicate", "circular", None])

    def side():
        n = r.choice([f, 2 * f, r.randint(1, 3 * f), f + 1, 2 * f - 1, f - 1])
        n = max(n, 1)
        p = -n % f
        if mode in ("reflect", None) and p >= n or mode == "circular" and p > n:
            n = f * r.choice([1, 2]) - r.randint(0, (f - 1) // 2)
        return n
    shape = (r.choice([1, 2, 2, 6]), r.choice([1, 3]), side(), side())
    if r.random() < 0.01:
        shape = (1, 3, r.randint(300, 700), r.randint(300, 700))
    x = torch.rand(shape, dtype=dtype)
    if r.random() < 0.3:
        x = x.transpose(2, 3)
        shape = tuple(x.shape)
    m.case(("pad", shape, f, mode, str(dtype)), shape[2] % f != 0 or shape[3] % f != 0)
    x0 = x.clone()
    args = (x, f) if mode is None else (x, f, mode)
    ok, res = m.run("pad-size", ncF.pad_image_to_factor, *args)
    if not ok:
        return
    y, (h, w) = res
    eff = mode or "reflect"
    H, W = (-(-shape[2] // f) * f, -(-shape[3] // f) * f)
    m.check((int(h), int(w)) == shape[2:], "pad-returned-size", f"{(h, w)} for {shape}")
    m.check(tuple(y.shape) == shape[:2] + (H, W), "pad-size", f"{shape} by {f}: {tuple(y.shape)}")
    m.check(y.dtype == dtype, "pad-size", "dtype")
    if tuple(y.shape) == shape[:2] + (H, W):
        m.check(torch.equal(y[:, :, :shape[2], :shape[3]], x0), "pad-content", f"{shape} by {f}")
        if eff == "constant":
            want = torch.zeros(shape[:2] + (H, W), dtype=dtype)
            want[:, :, :shape[2], :shape[3]] = x0
        else:
            want = x0[:, :, torch.tensor(idx(shape[2], H, eff))][
                :, :, :, torch.tensor(idx(shape[3], W, eff))]
        m.check(torch.equal(y, want), "pad-border", f"{eff} border of {shape} by {f}")
        m.check(torch.equal(y[:, :, :h, :w], x0), "pad-inverse", "crop to the returned size")
        z, (hh, ww) = ncF.pad_image_to_factor(y, f)
        m.check(torch.equal(z, y) and (hh, ww) == (H, W), "pad-idempotent", f"{shape} by {f}")
    m.check(torch.equal(x, x0), "input-unchanged", "pad")


def scale(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(1, 3, 5, 6), (2, 1, 16, 16), (3, 4), (256,), (1, 1, 1, 1), (7, 3, 5, 5), (1, 3, 70, 300)])
    kind = r.choice(["levels", "uniform", "ends", "halves"])
    if kind == "levels":
        x = torch.randint(0, 256, shape).to(dtype) / 255
    elif kind == "uniform":
        x = torch.rand(shape, dtype=dtype)
    elif kind == "ends":
        x = torch.randint(0, 2, shape).to(dtype)
    else:
        x = (torch.randint(0, 255, shape).to(dtype) + r.choice([0.49, 0.51])) / 255
    out = r.choice([None, torch.uint8, torch.int32, torch.float64, torch.float32, torch.int16])
    m.case(("scale", shape, str(dtype), kind, str(out)), True)
    x0 = x.clone()
    ok, y = m.run("scale-value", ncF.image_to_255_scale, x, *([] if out is None else [out]))
    if ok:
        m.check(y.dtype == (out or dtype) and y.shape == x.shape, "scale-dtype", f"{y.dtype}")
        v = x0.double().numpy() * 255
        d = np.abs(y.double().numpy() - v)
        m.check(bool((d <= 0.5 + 2e-4).all()) and
                bool((y.double() == y.double().round()).all()), "scale-value",
                f"off by {d.max()}")
        m.check(bool((y.double() >= 0).all() and (y.double() <= 255).all()), "scale-value",
                "outside [0, 255]")
        if kind == "levels":
            m.check(np.array_equal(y.double().numpy(), np.round(v)), "scale-roundtrip",
                    "an 8-bit image does not survive /255 and back")
    m.check(torch.equal(x, x0), "input-unchanged", "scale")
    bad = torch.rand(shape, dtype=dtype)
    flat = bad.view(-1)
    flat[r.randrange(flat.numel())] = r.choice([1.001, 255.0, -0.001, -1.0, 1.0000002 if
                                                dtype == torch.float32 else 1 + 1e-12])
    m.raises("scale-rejects", ValueError, ncF.image_to_255_scale, bad)


def hsv(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = r.choice([(1, 3, 4, 5), (2, 3, 3, 7), (3, 3, 1, 1), (1, 3, 12, 2),
                      (8, 3, 9, 9), (1, 3, 150, 40)])
    x = torch.rand(shape, dtype=dtype)
    x[:, 0] *= 360
    k = r.choice(["any", "sector", "grey", "sat"])
    if k == "sector":
        x[:, 0] = torch.randint(0, 7, x[:, 0].shape).to(dtype) * 60
    elif k == "grey":
        x[:, 1] = 0
    elif k == "sat":
        x[:, 1:] = torch.randint(0, 2, x[:, 1:].shape).to(dtype)
    m.case(("hsv", shape, str(dtype), k), True)
    x0 = x.clone()
    ok, y = m.run("hsv-value", ncF.hsv_to_rgb, x)
    if ok:
        a = x0.double().numpy()
        want = np.empty(shape)
        for n in np.ndindex(shape[0], shape[2], shape[3]):
            p = a[n[0], :, n[1], n[2]]
            want[n[0], :, n[1], n[2]] = colorsys.hsv_to_rgb((p[0] / 360) % 1.0, p[1], p[2])
        m.close(y, want, "hsv-value", f"{k}", rtol=0, atol=2e-5 if dtype == torch.float32
                else 1e-9)
        m.check(y.dtype == dtype and bool((y >= -1e-6).all() and (y <= 1 + 1e-6).all()),
                "hsv-range", "")
    m.check(torch.equal(x, x0), "input-unchanged", "hsv")
    bad = x0.clone()
    how = r.randrange(6)
    if how == 0:
        bad[0, 0, 0, 0] = r.choice([360.5, -0.5])
    elif how == 1:
        bad[-1, 1, 0, 0] = r.choice([1.01, -0.01])
    elif how == 2:
        bad[-1, 2, -1, -1] = r.choice([1.01, -0.01, 255.0])
    elif how == 3:
        bad = bad[0]
    elif how == 4:
        bad = torch.cat([bad, bad[:, :1]], 1)
    else:
        bad = bad[:, :2]
    m.raises("hsv-rejects", ValueError, ncF.hsv_to_rgb, bad)


def flow(m):
    r = m.rng
    dtype = r.choice([torch.float32, torch.float64])
    shape = (r.choice([1, 2, 3]), 2, r.randint(1, 9), r.randint(2, 9))
    mag = 10 ** r.uniform(-2, 3)
    f = torch.randn(shape, dtype=dtype) * mag
    k = r.choice(["any", "axis", "tiny-negative", "outlier"])
    if k == "axis":
        f[:, r.randrange(2)] = 0
    elif k == "tiny-negative":
        f[:, 0] = -torch.rand(f[:, 0].shape, dtype=dtype) * 10 ** r.uniform(-12, -6)
        f[:, 1] = f[:, 1].abs() + 0.01 * mag
    elif k == "outlier":
        f.view(-1)[0] *= 50
    eps = r.choice([None, 1e-5, 1e-3])
    m.case(("flow", shape, str(dtype), k, round(math.log10(mag)), eps), True)
    f0 = f.clone()
    ok, y = m.run("flow-value", ncF.optical_flow_to_color, f, *([] if eps is None else [eps]))
    m.check(torch.equal(f, f0), "input-unchanged", "flow")
    if ok:
        a = f0.double().numpy()
        size = np.hypot(a[:, 0], a[:, 1])
        v = size - size.min()
        v = v / (v.max() + (eps or 1e-5))
        hue = np.arctan2(a[:, 0], a[:, 1]) / (2 * math.pi) % 1.0
        tol = 2e-4 if dtype == torch.float32 else 1e-8
        if v.max() < 0.05:
            tol = 1.0       # a field of nearly constant length: normalisation amplifies rounding
        yn = y.double().numpy()
        m.check(y.dtype == dtype and tuple(y.shape) == (shape[0], 3) + shape[2:], "flow-value",
                f"{tuple(y.shape)}")
        m.check(bool((yn >= -1e-6).all() and (yn <= 1 + 1e-6).all()), "flow-range", "")
        m.check(bool((np.abs(yn.max(1) - v) < tol).all()), "flow-value",
                f"{k}: brightness is not the normalised length")
        h2 = np.array([colorsys.rgb_to_hsv(*p)[0] for p in
                       np.moveaxis(yn, 1, -1).reshape(-1, 3)]).reshape(hue.shape)
        d = np.abs(h2 - hue)
        d = np.minimum(d, 1 - d)
        lit = yn.max(1) > 0.05
        m.check(bool((d[lit] < 2e-3).all()) if tol < 1 else True, "flow-hue",
                f"{k}: hue is not the direction")
        # reversing every vector turns every hue by half a turn and keeps the brightness
        z = ncF.optical_flow_to_color(-f0).double().numpy()
        m.check(bool((np.abs(z.max(1) - ncF.optical_flow_to_color(f0).double().numpy().max(1))
                      < tol).all()), "flow-rotation", "brightness")
    zero = torch.zeros(shape, dtype=dtype)
    ok, y = m.run("flow-zero", ncF.optical_flow_to_color, zero)
    m.check(ok and torch.equal(y, torch.zeros_like(y)), "flow-zero", "")
    m.raises("hsv-rejects", ValueError, ncF.optical_flow_to_color, f0[0])


def run(m):
    for i in range(m.n(2500, 30000)):
        m.seed_torch(i)
        pad(m)
        scale(m)
        hsv(m)
        flow(m)
        if not m.time_left():
            break
