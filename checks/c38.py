"""VCT training and evaluation module, data modules, checkpoint loader and launcher."""
import copy
import math
import os
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn as nn
import torch.utils.data
import yaml
from PIL import Image

from lib import stubs
import lib.vct  # noqa: F401  (sys.path)
from checks.c37 import Log, near, vimeo

PID = "C38"
RULE = ("case = one training, validation or test step, one data module, one checkpoint or one "
        "launcher run; distinct by frames, shape, lambda, error size and configuration")
REQUIRED = ["train-loss", "train-grad", "train-log", "psnr", "psnr-int", "val-log", "test-values",
            "test-log", "test-rate", "test-once", "rejects", "no-side-effects", "optimizers",
            "checkpoint-weights", "checkpoint-ready", "checkpoint-rejects", "vimeo-train",
            "vimeo-val", "uvg", "uvg-mixed", "kinetics-source", "kinetics-items",
            "kinetics-augment", "launch-guard", "launch-resume", "launch-config", "launch-test",
            "image-log", "rate", "vimeo-order"]
BUDGET = (28, 240)


def load():
    stubs.install()
    from lib import dvc
    stubs.module("wandb", Image=dvc.Image)
    if "torchvision.transforms.functional_tensor" not in sys.modules:
        import torchvision.transforms._functional_tensor as ft  # renamed in torchvision 0.17
        sys.modules["torchvision.transforms.functional_tensor"] = ft
    import importlib
    return {n: importlib.import_module(n) for n in (
        "model_lightning", "model_train", "datamodules.video_data_api", "datamodules.vimeo",
        "datamodules.uvg", "datamodules.kinetics", "utils.checkpoint_loaders")}


class Pipe(nn.Module):
    """A pipeline whose outputs are known: what the module makes of them is judged."""

    def __init__(self, err=0.02, ch=2):
        super().__init__()
        self.gain = nn.Parameter(torch.tensor(1.0))
        self.shift = nn.Parameter(torch.tensor(err))
        self.spread = nn.Parameter(torch.full((ch,), 1.3))
        self.bottleneck = nn.Module()
        self.bottleneck.quantiles = nn.Parameter(torch.ones(3))
        self.bottleneck.update = lambda *a, **kw: self.calls.append("update")
        self.calls = []
        self._code_to_strings = None

    def likelihoods(self, v):
        # [T, B, C, N]
        x = v.mean(2).flatten(2)[:, :, None, ::3] - 0.5
        p = torch.sigmoid(x * self.spread[None, None, :, None] + 0.2)
        t = torch.arange(1, v.shape[1] + 1).view(1, -1, 1, 1)
        return (p ** (1 / t)).clamp(1e-6, 1).transpose(0, 1)

    def recon(self, v):
        w = torch.linspace(-1, 1, v.shape[-1])
        return v * self.gain + self.shift * w

    def forward(self, video):
        self.calls.append("forward")
        v = video.video_tensor
        return self.recon(v), [self.likelihoods(v)]

    def compute_rate(self, p, per_frame=False):
        b = p.log() / -math.log(2.0)
        return b.sum(dim=(1, 2, 3)) if per_frame else b.sum()

    def compress_video(self, video, force_cpu=False):
        self.calls.append("compress")
        v = video.video_tensor
        return v * 0.5, [17.0 + 5 * t + float(v[0, t].mean()) for t in range(v.shape[1])]

    def decompress_video(self, shape, bottleneck_args=None, force_cpu=False):
        self.calls.append("decompress")
        assert tuple(bottleneck_args[0].shape) == tuple(shape)
        return self.recon(bottleneck_args[0] * 2) * 1.1


def db(mse, peak=1.0):
    return 10 * math.log10(peak ** 2 / mse)


def frame_psnr(a, b, q):
    a, b = a.detach().double(), b.detach().double()
    if q:
        a, b = lv(a), lv(b)
    mse = (a - b).square().flatten(2).mean(2)
    if float(mse.min()) <= 0:
        return None
    return float((10 * torch.log10((255.0 if q else 1.0) ** 2 / mse)).mean())


def lv(x):
    return torch.floor(x.clamp(0, 1) * 255 + 0.5)


def on_edge(*xs):
    """values so near to a rounding boundary that float32 decides"""
    return any(float(((x.double().clamp(0, 1) * 255 + 0.5) % 1.0).min()) < 1e-4 or
               float(((x.double().clamp(0, 1) * 255 + 0.5) % 1.0).max()) > 1 - 1e-4 for x in xs)


def clip_of(m, b, t, h, w):
    # pixels of 8-bit images, as the data modules deliver them
    g = torch.Generator().manual_seed(m.rng.getrandbits(40))
    return torch.randint(0, 256, (b, t, 3, h, w), generator=g).float() / 255


def steps(m, mods):
    r = m.rng
    VD = mods["datamodules.video_data_api"].VideoDataset
    b, t = r.choice([1, 2, 3, 6]), r.choice([1, 2, 3, 5, 11])
    h, w = r.choice([(8, 8), (6, 10), (16, 12), (70, 50)])
    lam = r.choice([0.0067, 0.1, 1.0])
    err = r.choice([0.004, 0.02, 0.1, 0.4, -0.7])
    m.seed_torch()
    pipe = Pipe(err)
    cfg = stubs.Cfg(training_loop=dict(distortion_lambda=lam, lr_annealing_frequency=7),
                    optim={"_target_": "torch.optim.SGD", "lr": 0.25},
                    scheduler={"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 1})
    mod = mods["model_lightning"].VCTModule(pipe, cfg)
    ok, opt = m.run("optimizers", mod.configure_optimizers)
    if ok:
        o = opt["optimizer"]
        ids = {id(p) for g in o.param_groups for p in g["params"]}
        want = {id(p) for n, p in pipe.named_parameters() if not n.endswith(".quantiles")}
        s = opt["lr_scheduler"]
        m.check(ids == want and o.param_groups[0]["lr"] == 0.25 and
                s["scheduler"].optimizer is o and s["interval"] == "step" and
                s["frequency"] == 7, "optimizers", f"{opt}")
    v = clip_of(m, b, t, h, w)
    keep = v.clone()
    batch = VD(video_tensor=v)
    m.case(("train", b, t, h, w, lam, err), True)
    ref = copy.deepcopy(pipe)
    rec = ref.recon(keep)
    bits = (-torch.log2(ref.likelihoods(keep))).sum(dim=(1, 2, 3)) / (b * h * w)
    mse = (rec - keep).square().mean(dim=(0, 2, 3, 4))
    comb = lam * 255 ** 2 * mse + bits
    weights = torch.tensor([1.0] + [10.0] * (t - 1))
    loss = (comb * weights).mean()
    loss.backward()
    mod.train()
    ok, got = m.run("train-loss", mod.training_step, batch, 0)
    if not ok:
        return
    m.check(near(got, loss), "train-loss", f"{float(got)} want {float(loss)}")
    got.backward()
    for (n, p), q in zip(pipe.named_parameters(), ref.parameters()):
        if q.grad is not None:
            m.check(p.grad is not None and torch.allclose(p.grad, q.grad, rtol=1e-3, atol=1e-5),
                    "train-grad", f"{n}: {p.grad} want {q.grad}")
        else:
            m.check(p.grad is None, "train-grad", f"{n} has a gradient")
    m.check(torch.equal(v, keep), "no-side-effects", "batch")
    values(m, "train-log", dict(mod.drain()), "", mse, bits, comb, loss, rec, keep)
    with torch.no_grad():
        args = pipe(batch)[1]
        ok, got = m.run("rate", mod.rate_loss, batch, args, per_frame=False)
        m.check(ok and near(got, bits.mean()), "rate", f"{got} want {bits.mean()} bits per pixel")
        ok, got = m.run("rate", mod.rate_loss, batch, args)
        m.check(ok and torch.allclose(got, bits, rtol=1e-4), "rate", f"{got} want {bits}")
    mod.eval()
    with torch.no_grad():
        m.case(("val", b, t, h, w, lam, err), True)
        ok, _ = m.run("val-log", mod.validation_step, batch, 0)
        if ok:
            values(m, "val-log", dict(mod.drain()), "val_", mse, bits, comb, loss, rec, keep)
    m.check(torch.equal(v, keep), "no-side-effects", "batch")


def values(m, oracle, got, pre, mse, bits, comb, loss, rec, ref):
    want = {"distortion_loss": mse.mean(), "rate_loss": bits.mean(), "combined_loss": comb.mean(),
            "combined_loss_weighted": loss}
    for k, w in want.items():
        g = got.get(pre + k)
        m.check(g is not None and near(g, w), oracle, f"{pre + k} {g} want {float(w)}")
    for k, q in (("PSNR", False), ("PSNR_int", True)):
        if q and on_edge(rec.detach(), ref):
            continue
        w = frame_psnr(rec, ref, q)
        g = got.get(pre + k)
        if w is not None:
            m.check(g is not None and near(g, w, 1e-3), "psnr-int" if q else "psnr",
                    f"{pre + k} {g} want {w}")


def test(m, mods):
    r = m.rng
    VD = mods["datamodules.video_data_api"].VideoDataset
    t = r.choice([2, 3, 5, 12])
    h, w = r.choice([(8, 8), (6, 10)])
    err = r.choice([0.003, 0.05, 0.3])
    pipe = Pipe(err)
    mod = mods["model_lightning"].VCTModule(pipe, stubs.Cfg())
    mod.eval()
    pipe.calls.clear()
    v = clip_of(m, 1, t, h, w)
    keep = v.clone()
    fwd = r.random() < 0.7
    m.case(("test", t, h, w, err, fwd), True)
    kw = {} if fwd else dict(run_fwd=False)
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        ok, got = m.run("test-values", lambda: mod.test_step(VD(v), 0, **kw))
    finally:
        sys.stdout.close()
        sys.stdout = so
    if not ok:
        return
    m.check(torch.equal(v, keep), "no-side-effects", "batch")
    m.check(pipe.calls == (["forward"] if fwd else []) + ["compress", "decompress"], "test-once",
            f"{pipe.calls}")
    log = dict(mod.drain())
    with torch.no_grad():
        bits = pipe.compress_video(VD(keep))[1]
        dec = pipe.decompress_video(keep.shape, [keep * 0.5])
        p = -torch.log2(pipe.likelihoods(keep)).flatten(1).sum(1)
        rec = pipe.recon(keep)
    bpp, x1 = sum(bits) / (h * w * t), sum(bits[1:]) / (h * w * (t - 1))
    m.check(near(got[1], bpp) and near(got[2], x1), "test-values", f"{got} want {(bpp, x1)}")
    m.check(near(log.get("bpp", -1), bpp) and near(log.get("bpp_xfirst", -1), x1), "test-log",
            f"{log}")
    if not on_edge(dec, keep):
        want = db(float((lv(dec) - lv(keep)).double().square().mean()), 255)
        m.check(near(got[0], want, 1e-3) and near(log.get("psnt_int", -1), want, 1e-3),
                "test-values", f"psnr {got[0]} want {want}")
    if fwd:
        m.check(near(log.get("cts_rate", -1), float(p.sum()) / (h * w * t)) and
                near(log.get("cts_rate_x1", -1), float(p[1:].sum()) / (h * w * (t - 1))),
                "test-rate", f"{log}")
        if not on_edge(rec, keep):
            mse = float((lv(rec) - lv(keep)).double().square().mean())
            if mse > 0:
                m.check(near(log.get("cts_psnr", -1), db(mse, 255), 1e-3), "test-rate",
                        f"cts_psnr {log.get('cts_psnr')} want {db(mse, 255)}")
    two = VD(clip_of(m, 2, 2, 8, 8))
    m.raises("rejects", AssertionError, mod.test_step, two, 0)
    mod.train()
    m.raises("rejects", AssertionError, mod.test_step, VD(v), 0)
    mod.drain()


def checkpoint(m, mods):
    r = m.rng
    load_ck = mods["utils.checkpoint_loaders"].load_model_checkpoint_from_config
    tmp = Path(tempfile.mkdtemp(prefix="vp_c38_"))
    try:
        m.seed_torch()
        ent = r.random() < 0.5
        made = []

        class Net(nn.Module):
            def __init__(self, width=2):
                super().__init__()
                self.width = width
                self.model = nn.Linear(width, 3)
                self.register_buffer("n", torch.zeros(2))
                self.updates = []
                part = nn.BatchNorm1d(2)
                part.update = lambda *a, **kw: self.updates.append(
                    {k: v.clone() for k, v in self.state_dict().items()})
                setattr(self, "entropy_model" if ent else "bottleneck", part)
                made.append(self)
        import types
        sys.modules["vp_nets"] = types.SimpleNamespace(Net=Net)
        width = r.choice([2, 5])
        (tmp / "config.yaml").write_text(yaml.safe_dump(
            {"model": {"value": {"_target_": "vp_nets.Net", "width": width}},
             "optim": {"value": {"lr": 1}}}))
        src = Net(width)
        with torch.no_grad():
            for p in src.parameters():
                p.normal_()
            src.n.normal_()
        want = {k: v.clone() for k, v in src.state_dict().items()}
        sd = {"model." + k: v for k, v in want.items()}
        sd["other.weight"] = torch.ones(3)
        sd["model"] = torch.ones(1)
        bare = r.random() < 0.5
        copy_ = r.random() < 0.3
        torch.save(sd if bare else {"state_dict": sd, "epoch": 1}, tmp / "a.ckpt")
        m.case(("checkpoint", ent, width, bare, copy_), True)
        ok, net = m.run("checkpoint-weights", load_ck, str(tmp), "a.ckpt",
                        str(tmp / "config.yaml"), **({"save_copy_of_ckpt": True} if copy_ else {}))
        if not ok:
            return
        m.check(net.width == width and set(net.state_dict()) == set(want) and
                all(torch.equal(net.state_dict()[k], v) for k, v in want.items()),
                "checkpoint-weights", "weights")
        m.check(not any(x.training for x in net.modules()) and len(net.updates) >= 1 and
                all(torch.equal(net.updates[-1][k], v) for k, v in want.items()),
                "checkpoint-ready", "not in evaluation mode with the coder updated afterwards")
        kept = list(tmp.glob("eval_last_*"))
        m.check(len(kept) == int(copy_), "checkpoint-weights", f"copies: {kept}")
        bad = dict(sd)
        how = r.choice(["missing", "extra", "shape"])
        if how == "missing":
            bad.pop("model.n")
        elif how == "extra":
            bad["model.zz"] = torch.ones(1)
        else:
            bad["model.n"] = torch.zeros(9)
        torch.save({"state_dict": bad}, tmp / "bad.ckpt")
        m.raises("checkpoint-rejects", Exception, load_ck, str(tmp), "bad.ckpt",
                 str(tmp / "config.yaml"))
        m.raises("checkpoint-rejects", Exception, load_ck, str(tmp), "none.ckpt",
                 str(tmp / "config.yaml"))
        m.raises("checkpoint-rejects", FileNotFoundError, load_ck, str(tmp), "a.ckpt",
                 str(tmp / "none.yaml"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def vimeo_data(m, mods):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c38_"))
    try:
        n = {"train": r.choice([1, 3]), "test": r.choice([2, 4])}
        size = 20
        px = vimeo(m, tmp, n, size)
        crop = r.choice([8, 16, (8, 12)])
        ch, cw = (crop, crop) if isinstance(crop, int) else crop
        bs, vbs = r.choice([1, 2]), r.choice([1, 3])
        m.case(("vimeo", tuple(n.values()), crop, bs, vbs), True)
        dm = mods["datamodules.vimeo"].VimeoDataModule(str(tmp), bs, vbs, crop, num_workers=0)
        ok, _ = m.run("vimeo-train", dm.setup)
        if not ok:
            return
        full = {s: [torch.stack([torch.from_numpy(px[s, i, f]).permute(2, 0, 1) / 255.0
                                 for f in range(1, 8)]) for i in range(n[s])] for s in n}
        ok, got = m.run("vimeo-val", lambda: list(dm.val_dataloader()))
        if ok:
            y0, x0 = round((size - ch) / 2), round((size + 8 - cw) / 2)
            items = [x for b in got for x in b.video_tensor]
            m.check(len(items) == n["test"] and [len(b.video_tensor) for b in got][:-1] ==
                    [vbs] * (len(got) - 1) and
                    all(x.shape == (7, 3, ch, cw) and torch.allclose(
                        x, w[..., y0:y0 + ch, x0:x0 + cw], atol=1e-6)
                        for x, w in zip(items, full["test"])), "vimeo-val", f"{len(items)}")
        ok, dl = m.run("vimeo-order", dm.train_dataloader)
        if ok and n["train"] > 2:
            seen = {tuple(dl.sampler) for _ in range(14)}
            m.check(len(seen) > 1 and all(sorted(o) == list(range(n["train"])) for o in seen),
                    "vimeo-order", f"training clips come in the orders {seen}")
            m.check(list(dm.val_dataloader().sampler) == list(range(n["test"])), "vimeo-order",
                    "validation clips are shuffled")
        ok, got = m.run("vimeo-train", lambda: list(dm.train_dataloader()))
        if ok:
            items = [x for b in got for x in b.video_tensor]
            m.check(len(items) == n["train"] and all(
                x.shape == (7, 3, ch, cw) and float(x.min()) >= -0.5 and float(x.max()) <= 1.5
                for x in items), "vimeo-train", f"{len(items)}")
            m.check([len(b.video_tensor) for b in got][:-1] == [bs] * (len(got) - 1),
                    "vimeo-train", "batch size")
            # clips smaller than the crop are extended, not refused
            big = mods["datamodules.vimeo"].VimeoDataModule(str(tmp), bs, vbs, 34, num_workers=0)
            big.setup()
            ok, b = m.run("vimeo-train", lambda: [next(iter(big.train_dataloader()))
                                                  for _ in range(6)])
            m.check(ok and all(x.video_tensor.shape[1:] == (7, 3, 34, 34) for x in b),
                    "vimeo-train", "crop larger than the clip")
            # plain crops can be found again: the same window of every frame
            for x in items:
                hit = [window(x, f) for f in full["train"]]
                hit = [h for h in hit if h is not None]
                m.event("exact-crop" if hit else "resized-crop")
                m.check(all(len(set(h)) == 1 for h in hit), "vimeo-train",
                        "frames of one clip were cut differently")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def window(x, full):
    """(position, flipped) of every frame of x in full, if x is a plain crop of it"""
    out = []
    h, w = x.shape[-2:]
    for t in range(len(x)):
        best = None
        for flip in (False, True):
            y = x[t].flip(-1) if flip else x[t]
            win = full[t].unfold(1, h, 1).unfold(2, w, 1)  # C, Y, X, h, w
            d = (win - y[:, None, None]).abs().amax(dim=(0, 3, 4))
            i = int(d.argmin())
            if float(d.flatten()[i]) < 1e-5:
                best = (i, flip)
        if best is None:
            return None
        out.append(best)
    return out


def uvg(m, mods):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c38_"))
    rng = np.random.default_rng(r.getrandbits(32))
    try:
        t = r.choice([2, 3, 5, 6])
        vids = {f"v{c}": t * r.choice([1, 2, 3, 7]) for c in "abcdef"[:r.choice([1, 2, 6])]}
        order, px = [], {}
        for v, n in vids.items():
            (tmp / v).mkdir()
            for i in range(n):
                a = rng.integers(0, 256, (5, 6, 3), dtype=np.uint8)
                Image.fromarray(a).save(tmp / v / f"f{i:03d}.png")
                order.append((v, a))
        norm = r.random() < 0.5
        m.case(("uvg", t, tuple(vids.values()), norm), True)
        D = mods["datamodules.uvg"].UVGDataModule
        dm = D(str(tmp), t, normalize=norm, num_workers=0, pin_memory=False)
        ok, got = m.run("uvg", lambda: list(dm.test_dataloader()))
        if ok:
            m.check(len(got) == len(order) // t, "uvg", f"{len(got)} batches")
            for i, b in enumerate(got):
                w = torch.stack([torch.from_numpy(a).permute(2, 0, 1) / 255.0
                                 for _, a in order[i * t:(i + 1) * t]])[None]
                w = (w - 0.45) / 0.225 if norm else w
                m.check(b.video_tensor.shape == w.shape and
                        torch.allclose(b.video_tensor, w, atol=1e-5), "uvg", f"batch {i}")
        # a sample never mixes videos
        if len(vids) == 2 and t > 1:
            Image.fromarray(order[0][1]).save(tmp / "va" / "zzz.png")
            m.raises("uvg-mixed", AssertionError, lambda: list(dm.test_dataloader()))
        for bad in (7, 299, 301):
            m.raises("rejects", AssertionError, D, str(tmp), bad)
        ok, d = m.run("uvg", D, str(tmp))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def kinetics(m, mods):
    """The decoder is replaced: clips with known pixels, recorded arguments."""
    r = m.rng
    K = mods["datamodules.kinetics"]
    made = []

    class Source(torch.utils.data.IterableDataset):
        def __init__(self, data_path, clip_sampler, transform=None, decode_audio=True, **kw):
            self.path, self.sampler, self.transform = data_path, clip_sampler, transform
            self.audio = decode_audio
            made.append(self)

        def __iter__(self):
            for c in clips[os.path.basename(self.path)]:
                out = self.transform({"video": c.clone(), "audio": None, "label": 1})
                yield out
    frames = r.choice([4, 8])
    size = r.choice([(256, 256), (260, 300), (288, 256)])
    g = torch.Generator().manual_seed(r.getrandbits(40))

    def clip(n):
        base = torch.randint(0, 256, (3, 1, *size), generator=g).float()
        return (base + torch.arange(n).view(1, n, 1, 1)).clamp(0, 255)
    clips = {k: [clip(frames) for _ in range(c)] for k, c in (("train", 2), ("val", 3), ("test", 1))}
    sub = r.choice([None, 2, 3, [2, 4]])
    norm = r.random() < 0.4
    dur = r.choice([1, 2])
    samp = r.choice(["uniform", "random"])
    tb, vb = r.choice([(1, 2), (1, 1)])
    m.case(("kinetics", frames, size, str(sub), norm, samp, dur, tb, vb), True)
    real = K.pytorchvideo.data.Kinetics
    K.pytorchvideo.data.Kinetics = Source
    try:
        dm = K.KineticsDataModule("/data/k", tb, vb, dur, sub, norm, samp, num_workers=0,
                                  pin_memory=False)
        ok, _ = m.run("kinetics-source", dm.setup)
        if not ok:
            return
        paths = sorted(x.path for x in made)
        m.check(paths == ["/data/k/train", "/data/k/val"] and not any(x.audio for x in made),
                "kinetics-source", f"{paths}")
        by = {os.path.basename(x.path): x for x in made}
        m.check(type(by["train"].sampler).__name__.lower().startswith(samp) and
                type(by["val"].sampler).__name__.lower().startswith("uniform") and
                all(float(x.sampler._clip_duration) == dur for x in made), "kinetics-source",
                "clip sampler")

        def pick(c, n):
            if n is None:
                return c
            i = torch.linspace(0, c.shape[1] - 1, n).long()
            return c[:, i]

        def scaled(c):
            c = c / 255.0
            return (c - 0.45) / 0.225 if norm else c
        top = max(sub) if isinstance(sub, list) else sub
        ok, got = m.run("kinetics-items", lambda: list(dm.val_dataloader()))
        if ok:
            items = [x for b in got for x in b.video_tensor]
            y0, x0 = round((size[0] - 256) / 2), round((size[1] - 256) / 2)
            want = [scaled(pick(c, top))[..., y0:y0 + 256, x0:x0 + 256].transpose(0, 1)
                    for c in clips["val"]]
            m.check(len(items) == 3 and len(got[0].video_tensor) == vb and all(
                a.shape == b.shape and torch.allclose(a, b, atol=1e-5)
                for a, b in zip(items, want)), "kinetics-items", "validation")
        ok, ld = m.run("kinetics-items", dm.test_dataloader)
        if ok:
            ok, got = m.run("kinetics-items", list, ld)
            want = scaled(pick(clips["test"][0], top)).transpose(0, 1)[None]
            m.check(ok and len(got) == 1 and got[0].video_tensor.shape == want.shape and
                    torch.allclose(got[0].video_tensor, want, atol=1e-5), "kinetics-items", "test")
        ok, got = m.run("kinetics-augment", lambda: list(dm.train_dataloader()))
        if ok:
            items = [x for b in got for x in b.video_tensor]
            lens = {frames} if sub is None else set(sub if isinstance(sub, list) else [sub])
            m.check(len(items) == 2 and len(got[0].video_tensor) == tb, "kinetics-augment", "items")
            for x, c in zip(items, clips["train"]):
                m.check(x.shape[0] in lens and x.shape[1:] == (3, 256, 256), "kinetics-augment",
                        f"{tuple(x.shape)}")
                # frames differ by a constant brightness: cut alike, they still do
                y = x * 0.225 + 0.45 if norm else x
                idx = pick(torch.arange(frames)[None], x.shape[0] if sub is not None else None)[0]
                for j in range(1, x.shape[0]):
                    d = (y[j] - y[0]) * 255
                    k = float(idx[j] - idx[0])
                    inside = y[j] < (254.5 - frames) / 255
                    e = (d - k).abs()[inside]
                    m.check(not len(e) or float((e > 0.2).float().mean()) < 0.1,
                            "kinetics-augment", "frames of one clip were cut differently")
    finally:
        K.pytorchvideo.data.Kinetics = real


class Data:
    def __init__(self, **kw):
        self.kw = kw
        self.setups = 0

    def setup(self, stage=None):
        self.setups += 1

    def batch(self, x):
        from datamodules.video_data_api import VideoDataset
        return [VideoDataset(torch.full((2, 2, 3, 8, 8), x)), VideoDataset(torch.zeros(1))]

    def train_dataloader(self):
        return self.batch(0.25)

    def val_dataloader(self):
        return self.batch(0.75)


def launcher(m, mods):
    r = m.rng
    T = mods["model_train"]
    tmp = Path(tempfile.mkdtemp(prefix="vp_c38_"))
    here = os.getcwd()
    os.chdir(tmp)
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    real = stubs.Trainer.fit, stubs.Trainer.test
    try:
        over, res, files = CASES[0]
        CASES.append(CASES.pop(0))
        if files:
            (tmp / "checkpoints").mkdir()
        for f in files:
            (tmp / "checkpoints" / f).write_bytes(b"x")
        tested = r.random() < 0.5
        lam = r.choice([0.01, 0.5])
        ngpu = r.choice([0, 1])
        cfg = stubs.Cfg(
            seed=r.choice([None, 5]), ngpu=ngpu, optim={"_target_": "torch.optim.SGD", "lr": 0.1},
            scheduler={"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 1},
            training_loop=dict(distortion_lambda=lam, lr_annealing_frequency=3),
            checkpoint=dict(overwrite=over, resume_training=res, callback=dict(dirpath="c")),
            logger=dict(group="g"), trainer=dict(max_steps=12), tester=dict(devices=1),
            datamodule={"_target_": Data, "data_dir": "x"}, model={"_target_": lambda: Pipe()})
        if tested:
            cfg["test_datamodule"] = {"_target_": Data, "data_dir": "test"}
        m.case(("launch", over, res, tuple(files), tested, ngpu), True)
        seen = []
        stubs.Trainer.fit = lambda self, *a, **kw: seen.append(("fit", self, a, kw))
        stubs.Trainer.test = lambda self, *a, **kw: seen.append(("test", self, a, kw))
        stubs.Trainer.global_rank = 0
        if files and not over and not res:
            m.raises("launch-guard", RuntimeError, T.main, cfg)
            m.check(not seen, "launch-guard", "trained all the same")
        else:
            ok, _ = m.run("launch-resume", T.main, cfg)
            if not ok:
                return
            kind, tr, _, kw = seen[0]
            mod = kw["model"]
            path = kw.get("ckpt_path")
            want = str(tmp / "checkpoints" / "last.ckpt") if "last.ckpt" in files and res else None
            m.check(kind == "fit" and (path and os.path.realpath(path)) ==
                    (want and os.path.realpath(want)), "launch-resume", f"{path} want {want}")
            dm = kw["datamodule"]
            m.check(tr.kw["max_steps"] == 12 and near(
                    getattr(mod, "_distortion_loss_scaling", lam * 255 ** 2),
                    lam * 255 ** 2, 1e-9) and mod.lr_annealing_frequency == 3 and
                    dm.kw == {"data_dir": "x", "pin_memory": ngpu != 0}, "launch-config",
                    f"{dm.kw}")
            m.check(len(seen) == 1 + tested, "launch-test", f"{[s[0] for s in seen]}")
            if tested and len(seen) == 2:
                kind, tr2, a, kw2 = seen[1]
                got = a[0] if a else kw2.get("model")
                m.check(kind == "test" and tr2 is not tr and tr2.kw == {"devices": 1} and
                        got is mod and not mod.training and
                        kw2["datamodule"].kw["data_dir"] == "test", "launch-test", f"{tr2.kw}")
            cb = [c for c in tr.kw["callbacks"] if isinstance(c, T.WandbImageCallback)]
            if not cb:
                m.fail("image-log", "no image callback")
                return
            log, t2 = Log(), stubs.Trainer()
            t2.logger = log
            mod.trainer = t2
            mod.eval()
            with torch.no_grad():
                mod.model.gain.fill_(1.5)
                ok, _ = m.run("image-log", cb[0].on_validation_end, t2, mod)
            if ok:
                out = {k: v.image for d in log.logged for k, v in d.items() if hasattr(v, "image")}
                m.check(set(out) == {f"{a}_images/{b}" for a in ("train", "eval")
                                     for b in ("image", "image_compressed")} and
                        float(out["train_images/image"].max()) == 0.25 and
                        float(out["eval_images/image"].max()) == 0.75 and
                        float(out["eval_images/image_compressed"].max()) <= 1.0, "image-log",
                        f"{sorted(out)}")
        m.check(not files or sorted(p.name for p in (tmp / "checkpoints").glob("*")) ==
                sorted(files), "launch-guard", "files of the checkpoint directory")
    finally:
        stubs.Trainer.fit, stubs.Trainer.test = real
        sys.stdout.close()
        sys.stdout = so
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


CASES = [(False, False, ["last.ckpt"]), (False, True, ["last.ckpt", "a.ckpt"]),
         (True, False, ["last.ckpt"]), (False, False, []), (False, True, []),
         (False, True, ["a.ckpt"]), (False, False, ["b.ckpt"]), (True, False, [])]


def run(m):
    mods = load()
    for i in range(m.n(700, 1400)):
        if not m.time_left():
            break
        [steps, test, launcher, steps, checkpoint, uvg, vimeo_data, kinetics][i % 8](m, mods)
