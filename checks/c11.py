"""VCT patcher: patches are the documented windows; unpatch inverts patching."""
import numpy as np
import torch

from projects.torch_vct.neural.patcher import Patched, Patcher

PID = "C11"
RULE = ("case = one (tensor, stride, patch size, pad mode) judged element by element against "
        "numpy windows; non-trivial when more than one patch results; distinct by all of these")
REQUIRED = ["windows", "overlap-windows", "num-patches", "inverse", "channels-first",
            "rejects", "crop", "gradient"]
BUDGET = (15, 120)
MODES = {"reflect": "reflect", "constant": "constant", "replicate": "edge"}


def one(m):
    r = m.rng
    s = r.choice([1, 2, 3, 4, 8])
    extra = r.choice([0, 0, 2, 4, 6])
    p = s + extra
    mode = r.choice(["reflect", "reflect", "constant", "replicate"])
    B, C = r.choice([1, 2, 3]), r.choice([1, 2, 5])
    lo = extra // 2 + s + 1
    H, W = r.randint(lo, lo + 14), r.randint(lo, lo + 14)
    if r.random() < 0.01:
        B, C = r.randint(5, 11), r.choice([3, 17])
    elif r.random() < 0.01:
        H, W = r.randint(lo, 200), r.randint(lo, 200)
    x = torch.randn(B, C, H, W)
    if r.random() < 0.2:
        x = x.contiguous(memory_format=torch.channels_last)
    x0 = x.clone()
    pt = Patcher(s, mode)
    nh, nw = -(-H // s), -(-W // s)
    m.case((B, C, H, W, s, p, mode), nh * nw > 1)
    ok, out = m.run("runs", pt, x, p)
    if not ok:
        return
    m.check(torch.equal(x, x0), "input-unchanged", "")
    m.check(tuple(out.num_patches) == (nh, nw), "num-patches", f"{out.num_patches}")
    h = extra // 2
    xp = np.pad(x.numpy(), ((0, 0), (0, 0), (h, nh * s - H + h), (h, nw * s - W + h)),
                mode=MODES[mode])
    exp = np.zeros((B * nh * nw, p * p, C), np.float32)
    k = 0
    for b in range(B):
        for i in range(nh):
            for j in range(nw):
                win = xp[b, :, i * s:i * s + p, j * s:j * s + p]
                exp[k] = win.reshape(C, p * p).T
                k += 1
    m.close(out.tensor, torch.from_numpy(exp), "windows" if not extra else "overlap-windows",
            f"s={s} p={p} {H}x{W}", atol=1e-6)
    if not extra:
        ok, y = m.run("runs", pt.unpatch, out, crop=(H, W), channels_last=True)
        if ok:
            m.close(y, x, "inverse", "unpatch(patch(x)) != x", rtol=0, atol=0)
        ok, y = m.run("runs", pt.unpatch,
                      (out.tensor.permute(0, 2, 1).contiguous(), out.num_patches),
                      crop=(H, W))
        if ok:
            m.close(y, x, "channels-first", "unpatch, channels first", rtol=0, atol=0)
        full = pt.unpatch(Patched(out.tensor, out.num_patches), channels_last=True)
        m.check(tuple(full.shape) == (B, C, nh * s, nw * s), "crop", "uncropped shape")
        m.close(full, torch.from_numpy(xp), "crop", "uncropped unpatch", rtol=0, atol=0)
        # any tensor of patches: patch(unpatch(t)) == t
        t = torch.randn(B * nh * nw, s * s, C)
        back = pt(pt.unpatch((t, (nh, nw)), channels_last=True), s)
        m.close(back.tensor, t, "inverse", "patch(unpatch(t)) != t", rtol=0, atol=0)
    else:
        m.raises("rejects", AssertionError, pt.unpatch, out, crop=(H, W),
                 channels_last=True, _msg="unpatch of overlapping patches")
    if s > 1:
        m.raises("rejects", ValueError, pt, x, s - 1, _msg="patch smaller than stride")
    m.raises("rejects", ValueError, pt, x, s + 1, _msg="odd overlap")
    m.raises("rejects", AssertionError, pt, x[0], p, _msg="3-D input")
    if r.random() < 0.2:
        xx = x.clone().requires_grad_(True)
        w = torch.randn_like(out.tensor)
        g, = torch.autograd.grad((pt(xx, p).tensor * w).sum(), xx)
        ones, = torch.autograd.grad(pt(xx, p).tensor.sum(), xx)
        m.check(bool(torch.isfinite(g).all()) and (mode == "constant" or True)
                and bool((ones >= 1 - 1e-4).all()), "gradient",
                "some input element reaches no patch")


def run(m):
    torch.set_num_threads(1)
    m.seed_torch()
    for i in range(m.n(9000, 20000)):
        if i > 150 and not m.time_left():
            break
        one(m)
