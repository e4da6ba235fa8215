"""ILLM folder evaluation: what it prints are the averages over the images of the folder."""
import contextlib
import importlib
import io
import math
import os
import pickle
import re
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn as nn
from PIL import Image

from checks import c36
from lib import illm, stubs

PID = "C40"
RULE = ("case = one folder (images of given sizes and modes, other files) with one codec; "
        "distinct by sizes, modes and codec")
REQUIRED = ["runs", "rate", "psnr", "ms-ssim", "lpips", "fid", "images", "model", "order",
            "no-side-effects"]
BUDGET = (25, 150)
MODES = ["RGB", "RGB", "L", "RGBA", "P", "LA"]


class Codec(nn.Module):
    """stands in for the published model"""

    def __init__(self, gain, noise):
        super().__init__()
        self.w = nn.Parameter(torch.tensor(gain))
        self.noise = noise
        self.calls = []
        self.seen = []

    def update(self, *a, **kw):
        self.calls.append("update")
        return True

    def update_tensor_devices(self, op):
        self.calls.append("devices-" + op)

    def compress(self, image, force_cpu=True):
        self.calls.append("compress" + ("-training" if self.training else "") +
                          ("-grad" if torch.is_grad_enabled() else ""))
        self.seen.append(image.clone())
        return {"s": bytes(int(x) for x in (image.flatten()[::97] * 200)),
                "size": tuple(image.shape[-2:]), "image": pickle.dumps(image.numpy())[:40]}

    def decompress(self, data, force_cpu=True):
        self.calls.append("decompress" + ("-grad" if torch.is_grad_enabled() else ""))
        x = self.seen[-1]
        return x * self.w + self.noise * torch.sin(x * 37)


@contextlib.contextmanager
def elsewhere(ev, model, asked):
    """a machine whose "cuda" is the CPU and whose hub serves the stand-in"""
    def load(*a, **kw):
        asked.append((a, kw))
        return model

    def cpu(v):
        return "cpu" if isinstance(v, (str, torch.device)) and "cuda" in str(v) else v

    def to(real):
        return lambda self, *a, **kw: real(self, *map(cpu, a), **{
            k: cpu(v) for k, v in kw.items()})
    old = [(torch.hub, "load", torch.hub.load)]
    old += [(ev, k, v) for k, v in list(vars(ev).items()) if v is torch.hub.load]
    new = [load] * len(old)
    for c in (nn.Module, torch.Tensor):
        old += [(c, "to", c.to), (c, "cuda", c.cuda)]
        new += [to(c.to), lambda self, *a, **kw: self]
    for (o, k, _), f in zip(old, new):
        setattr(o, k, f)
    try:
        yield
    finally:
        for o, k, v in old:
            setattr(o, k, v)


def folder(m, tmp):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    n = r.choice([2, 2, 3, 2, 3, 8])
    out, key = {}, []
    for i in range(n):
        h, w = r.choice([(256, 256), (256, 400), (300, 256), (270, 260), (384, 390),
                         (256, 520)])
        mode = r.choice(MODES)
        a = rng.integers(0, 256, (h, w, 3), dtype=np.uint8)
        if r.random() < 0.2:
            a[:] = r.choice([0, 255])
            a[::7] = 128
        im = Image.fromarray(a).convert(mode)
        name = "%s_%d.png" % (r.choice(["a", "B", "x y"]), i)
        im.save(tmp / name)
        out[name] = torch.from_numpy(np.asarray(Image.open(tmp / name).convert("RGB")).copy()
                                     ).permute(2, 0, 1)[None] / 255.0
        key.append((h, w, mode))
    (tmp / "notes.txt").write_text("x")
    (tmp / "broken.jpg").write_bytes(b"not an image")
    (tmp / "sub").mkdir()
    Image.fromarray(np.zeros((256, 256, 3), np.uint8)).save(tmp / "sub" / "z.png")
    return out, key


def one(m, ev):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c40_"))
    argv = sys.argv
    try:
        imgs, key = folder(m, tmp)
        gain, noise = r.choice([0.9, 1.0, 1.25]), r.choice([0.03, 0.2])
        model = Codec(gain, noise)
        m.case(("folder", tuple(key), gain, noise), True)
        asked = []
        before = sorted((p.name, p.stat().st_size) for p in tmp.rglob("*"))
        sys.argv = ["eval_folder_example.py", str(tmp)]
        text = io.StringIO()
        with elsewhere(ev, model, asked), contextlib.redirect_stdout(text), \
                contextlib.redirect_stderr(io.StringIO()):
            ok, _ = m.run("runs", ev.main)
        if not ok:
            return
        m.check(sorted((p.name, p.stat().st_size) for p in tmp.rglob("*")) == before,
                "no-side-effects", "files")
        got = {k.strip(): float(v) for k, v in re.findall(
            r"^([\w-]+): ([-\w.+]+)\s*$", text.getvalue(), re.M)}
        names = [a for c in asked for a in c[0]] + [str(v) for c in asked for v in c[1].values()]
        m.check(len(asked) == 1 and "msillm_quality_3" in names, "model", f"{asked}")
        # every image of the folder once
        left = list(imgs)
        for x in model.seen:
            hit = [k for k in left if x.shape == imgs[k].shape and
                   torch.allclose(x, imgs[k], atol=1e-6)]
            if not hit:
                m.fail("images", f"compressed something else: {tuple(x.shape)}")
                continue
            left.remove(hit[0])
        m.check(not left, "images", f"not evaluated: {left}")
        calls = model.calls
        first = calls.index("compress") if "compress" in calls else 0
        m.check("update" in calls[:first] and "devices-compress" in calls[:first] and
                calls[first:] == ["compress", "decompress"] * len(imgs), "order", f"{calls}")
        e = c36.Expect(False)
        bpp, psnr = [], []
        with torch.no_grad():
            for x in model.seen:
                y = (x * gain + noise * torch.sin(x * 37)).clamp(0, 1)
                data = {"s": bytes(int(v) for v in (x.flatten()[::97] * 200)),
                        "size": tuple(x.shape[-2:]), "image": pickle.dumps(x.numpy())[:40]}
                bpp.append(len(pickle.dumps(data)) * 8 / (x.shape[-2] * x.shape[-1]))
                psnr.append(e.add(y, x, cut)["psnr"])
        want = {"Rate": (np.mean(bpp), "rate"), "PSNR": (np.mean(psnr), "psnr"),
                "MS-SSIM": (float(e.pairs["ms_ssim"].compute()), "ms-ssim"),
                "LPIPS": (float(e.pairs["lpips"].compute()), "lpips"),
                "FID": (float(e.fids["fid"].compute()), "fid")}
        for k, (w, oracle) in want.items():
            m.check(k in got and math.isclose(got[k], w, rel_tol=2e-4, abs_tol=2e-4), oracle,
                    f"{k}: printed {got.get(k)}, want {w}")
    finally:
        sys.argv = argv
        shutil.rmtree(tmp, ignore_errors=True)


def cut(x, pred, fids):
    """whole patches of 256 pixels, and again shifted by half a patch where two sides allow it"""
    h, w = x.shape[-2:]
    for real, im in ((True, x), (False, pred)):
        u = torch.round(im.double() * 255).to(torch.uint8)
        for off in (0, 128) if h >= 384 and w >= 384 else (0,):
            for i in range(off, h - 255, 256):
                for j in range(off, w - 255, 256):
                    fids["fid"].update(u[..., i:i + 256, j:j + 256], real=real)


def run(m):
    stubs.install()
    illm.load()
    ev = importlib.import_module("eval_folder_example")
    for i in range(m.n(90, 400)):
        if not m.time_left():
            break
        one(m, ev)
