"""dense_image_warp: every output pixel is the documented resampling of the image."""
import numpy as np
import torch

from neuralcompression.functional import dense_image_warp

PID = "C06"
RULE = ("case = one (image, flow, mode, padding, align) call judged pixel by pixel by an "
        "independent numpy resampler; non-trivial when the flow is not identically zero; "
        "distinct by (shapes, mode, padding, align, flow kind)")
REQUIRED = ["pixels", "identity", "shift", "border-range", "rejects", "gradient",
            "batch-independent", "input-unchanged"]
BUDGET = (18, 150)


def unnorm(c, size, align):
    return (c + 1) / 2 * (size - 1) if align else ((c + 1) * size - 1) / 2


def reflect(x, lo, hi):
    """Reflect coordinate x into [lo, hi] (both inclusive edges, lo/hi may be half ints)."""
    span = hi - lo
    if span == 0:
        return np.zeros_like(x)
    x = np.abs(x - lo)
    f = np.floor(x / span)
    e = x - f * span
    return np.where(f % 2 == 0, e + lo, span - e + lo)


def ref(img, flow, mode, pad, align):
    """img (B,C,H,W), flow (B,h,w,2) float64 numpy."""
    B, C, H, W = img.shape
    h, w = flow.shape[1:3]
    out = np.zeros((B, C, h, w))
    gx = np.linspace(-1, 1, w) if w > 1 else np.array([-1.0])
    gy = np.linspace(-1, 1, h) if h > 1 else np.array([-1.0])
    risky = np.zeros((B, h, w), bool)

    def fix(c, size):
        if pad == "border":
            return np.clip(c, 0, size - 1)
        if pad == "reflection":
            if align:
                c = reflect(c, 0.0, float(size - 1))
            else:
                c = reflect(c, -0.5, size - 0.5)
            return np.clip(c, 0, size - 1)
        return c

    def fetch(b, iy, ix):
        ok = (iy >= 0) & (iy < H) & (ix >= 0) & (ix < W)
        v = img[b][:, np.clip(iy, 0, H - 1), np.clip(ix, 0, W - 1)]
        return np.where(ok, v, 0.0)

    for b in range(B):
        x0 = unnorm(gx[None, :] + flow[b, :, :, 0], W, align)
        y0 = unnorm(gy[:, None] + flow[b, :, :, 1], H, align)
        x, y = fix(x0, W), fix(y0, H)
        if mode == "nearest":
            # nearbyint ties and rounding noise: mark risky pixels
            fx, fy = np.abs(x - np.floor(x) - 0.5), np.abs(y - np.floor(y) - 0.5)
            risky[b] = (fx < 1e-3) | (fy < 1e-3)
            out[b] = fetch(b, np.rint(y).astype(int), np.rint(x).astype(int))
        elif mode == "bilinear":
            ix, iy = np.floor(x).astype(int), np.floor(y).astype(int)
            ax, ay = x - ix, y - iy
            out[b] = (fetch(b, iy, ix) * (1 - ax) * (1 - ay)
                      + fetch(b, iy, ix + 1) * ax * (1 - ay)
                      + fetch(b, iy + 1, ix) * (1 - ax) * ay
                      + fetch(b, iy + 1, ix + 1) * ax * ay)
    return out, risky


def make_flow(r, g, B, h, w, kind):
    if kind == "zero":
        return torch.zeros(B, h, w, 2, dtype=torch.float64)
    if kind == "small":
        return (torch.rand(B, h, w, 2, generator=g, dtype=torch.float64) - 0.5) * 0.2
    if kind == "large":
        return (torch.rand(B, h, w, 2, generator=g, dtype=torch.float64) - 0.5) * 8
    if kind == "x-only":
        f = torch.zeros(B, h, w, 2, dtype=torch.float64)
        f[..., 0] = torch.rand(B, h, w, generator=g, dtype=torch.float64) - 0.5
        return f
    f = torch.zeros(B, h, w, 2, dtype=torch.float64)
    f[..., 1] = torch.rand(B, 1, 1, generator=g, dtype=torch.float64) * 2 - 1
    return f


def one(m):
    r = m.rng
    g = torch.Generator().manual_seed(r.randrange(2**31))
    B, C = r.choice([1, 2, 3]), r.choice([1, 2, 3, 4])
    H, W = r.randint(1, 17), r.randint(1, 17)
    h, w = (H, W) if r.random() < 0.6 else (r.randint(1, 15), r.randint(1, 15))
    big = r.random()
    if big < 0.01:
        B, C = r.randint(5, 12), r.choice([1, 8, 33])
    elif big < 0.02:
        H, W = r.randint(40, 300), r.randint(40, 300)
        h, w = (H, W) if r.random() < 0.5 else (r.randint(20, 90), r.randint(20, 90))
        B, C = 1, r.choice([1, 3])
    mode = r.choice(["bilinear", "bilinear", "nearest"])
    pad = r.choice(["border", "border", "zeros", "reflection"])
    align = r.random() < 0.5
    kind = r.choice(["zero", "small", "large", "x-only", "y-const"])
    if pad == "reflection" and (H == 1 or W == 1):
        H, W = H + 1, W + 1
        h, w = min(h, H), min(w, W)
    dt = r.choice([torch.float32, torch.float64])
    img = torch.rand(B, C, H, W, generator=g, dtype=torch.float64)
    flow = make_flow(r, g, B, h, w, kind)
    img, flow = img.to(dt), flow.to(dt)
    m.case(((B, C, H, W), (h, w), mode, pad, align, kind), kind != "zero")
    i0, f0 = img.clone(), flow.clone()
    kw = dict(mode=mode, padding_mode=pad, align_corners=align)
    if r.random() < 0.25:  # the documented defaults
        kw, mode, pad, align = {}, "bilinear", "border", False
    if r.random() < 0.2:  # non-contiguous flow, as the callers pass it
        flow = flow.permute(0, 3, 1, 2).contiguous().permute(0, 2, 3, 1)
    ok, out = m.run("runs", dense_image_warp, img, flow, **kw)
    if not ok:
        return
    m.check(torch.equal(img, i0) and torch.equal(flow, f0), "input-unchanged", "inputs")
    if not m.check(tuple(out.shape) == (B, C, h, w) and out.dtype == dt, "shape",
                   f"{tuple(out.shape)} {out.dtype}"):
        return
    exp, risky = ref(img.double().numpy(), flow.double().numpy(), mode, pad, align)
    keep = torch.from_numpy(~risky)[:, None].expand(B, C, h, w)
    exp = torch.from_numpy(exp)
    m.close(torch.where(keep, out.double(), exp), exp, "pixels", f"{kw}",
            rtol=1e-4, atol=2e-4)
    if pad == "border" and mode == "bilinear":
        lo = img.amin((2, 3))[:, :, None, None] - 1e-5
        hi = img.amax((2, 3))[:, :, None, None] + 1e-5
        m.check(bool(((out >= lo) & (out <= hi)).all()), "border-range",
                "warped values leave the image's range")
    if kind == "zero" and align and (h, w) == (H, W):
        m.close(out, img, "identity", "zero flow is not the identity",
                atol=1e-5 + (1e-6 * max(H, W) if dt == torch.float32 else 0))
    if B > 1:
        b = r.randrange(B)
        alone = dense_image_warp(img[b:b + 1], flow[b:b + 1], **kw)
        m.close(alone, out[b:b + 1], "batch-independent", "depends on batch", atol=1e-5)


def structured(m):
    r = m.rng
    m.seed_torch()
    H, W = r.randint(3, 12), r.randint(3, 12)
    img = torch.rand(2, 3, H, W, dtype=torch.float64)
    m.case(("identity", H, W))
    z = torch.zeros(2, H, W, 2, dtype=torch.float64)
    m.close(dense_image_warp(img, z, align_corners=True), img, "identity", "zero flow")
    # an integer pixel shift
    dx, dy = r.randint(-2, 2), r.randint(-2, 2)
    f = z.clone()
    f[..., 0] = 2.0 * dx / (W - 1)
    f[..., 1] = 2.0 * dy / (H - 1)
    out = dense_image_warp(img, f, align_corners=True)
    yy = (torch.arange(H) + dy).clamp(0, H - 1)
    xx = (torch.arange(W) + dx).clamp(0, W - 1)
    m.case(("shift", H, W, dx, dy))
    m.close(out, img[:, :, yy][:, :, :, xx], "shift", f"shift by ({dx},{dy})", atol=1e-7)
    # bicubic: the framework's resampler on the documented grid
    fl = (torch.rand(2, 4, 6, 2, dtype=torch.float64) - 0.5) * r.choice([0.2, 3.0])
    gy, gx = torch.linspace(-1, 1, 4).double(), torch.linspace(-1, 1, 6).double()
    grid = torch.stack((gx[None, :].expand(4, 6), gy[:, None].expand(4, 6)), -1)[None] + fl
    al, pm = r.random() < 0.5, r.choice(["border", "zeros", "reflection"])
    m.case(("bicubic", H, W, al, pm))
    m.close(dense_image_warp(img, fl, mode="bicubic", padding_mode=pm, align_corners=al),
            torch.nn.functional.grid_sample(img, grid, mode="bicubic", padding_mode=pm,
                                            align_corners=al),
            "pixels", "bicubic", atol=1e-4)
    m.raises("rejects", ValueError, dense_image_warp, img.float(), f, _msg="dtype mismatch")
    m.raises("rejects", ValueError, dense_image_warp, img, f[..., :1], _msg="1 channel flow")
    m.raises("rejects", ValueError, dense_image_warp, img,
             torch.cat((f, f), -1), _msg="4 channel flow")
    m.raises("rejects", ValueError, dense_image_warp, img, f.to("meta"), _msg="device")
    # gradients flow to both the image and the flow, matching finite differences
    img1 = torch.rand(1, 1, 5, 6, dtype=torch.float64, requires_grad=True)
    fl = ((torch.rand(1, 4, 5, 2, dtype=torch.float64) - 0.5) * 0.3).requires_grad_(True)
    wgt = torch.rand(1, 1, 4, 5, dtype=torch.float64)
    gi, gf = torch.autograd.grad((dense_image_warp(img1, fl) * wgt).sum(), (img1, fl))
    with torch.no_grad():
        eps = 1e-6
        k = r.randrange(30)
        a = img1.detach().clone()
        a.view(-1)[k] += eps
        num = ((dense_image_warp(a, fl) - dense_image_warp(img1, fl)) * wgt).sum() / eps
        m.close(gi.view(-1)[k], num, "gradient", "d/d image", rtol=1e-3, atol=1e-6)
        k = r.randrange(40)
        a, b = fl.detach().clone(), fl.detach().clone()
        a.view(-1)[k] += eps
        b.view(-1)[k] -= eps
        fwd = ((dense_image_warp(img1, a) - dense_image_warp(img1, fl)) * wgt).sum() / eps
        bwd = ((dense_image_warp(img1, fl) - dense_image_warp(img1, b)) * wgt).sum() / eps
        if abs(float(fwd - bwd)) < 1e-4:  # not at a kink
            m.close(gf.view(-1)[k], fwd, "gradient", "d/d flow", rtol=1e-2, atol=1e-4)


def run(m):
    torch.set_num_threads(1)
    for i in range(m.n(10000, 20000)):
        if i > 200 and not m.time_left():
            break
        one(m)
        if i % 10 == 0:
            structured(m)
