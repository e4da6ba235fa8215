"""ILLM evaluation reports and launcher: what is logged is what was measured."""
import copy
import math
import os
import pickle
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn as nn
import torchmetrics
from PIL import Image

from checks import c35
from lib import illm, stubs

PID = "C36"
RULE = ("case = one history of train/validation/test epochs of one module, one checkpoint "
        "directory layout, or one data module; distinct by history, data-set names and sizes")
REQUIRED = ["val-workers", "val-epoch", "val-step", "val-fid", "val-few", "test-epoch", "test-step", "test-bpp",
            "test-patches", "test-kodak", "test-order", "train-metrics", "rejects",
            "no-side-effects", "checkpoint-pick", "checkpoint-guard", "weights-prefix",
            "weights-mismatch", "build", "steps-scaled", "launch", "transforms", "loader-train",
            "loader-val", "image-log"]
BUDGET = (30, 200)


def r255(x):
    return torch.round(x.double() * 255.0)


class Expect:
    """Running sums over the images of one epoch."""

    def __init__(self, nc):
        self.pairs = {"ms_ssim": illm.Ssim(data_range=255.0), "lpips": illm.Pair(normalize=True),
                      "dists": illm.Dists()}
        self.fids = {"fid": illm.FidNc() if nc else illm.Fid(), "fid_swav": illm.FidSwav(),
                     "kid": illm.Kid()}
        self.se = self.n = 0.0
        self.images = 0

    def add(self, pred, x, patches=None):
        pred = pred.clamp(0, 1)
        a, b = r255(pred), r255(x)
        se = (a - b).square()
        self.se += float(se.sum())
        self.n += se.numel()
        self.images += len(x)
        self.pairs["ms_ssim"].update(a, b)
        last = illm.Pair()
        last.update(pred, x)
        self.pairs["lpips"].update(pred, x)
        self.pairs["dists"].update(pred, x)
        if patches is not None:
            patches(x, pred, self.fids)
        else:
            for f in self.fids.values():
                f.update(b.to(torch.uint8), real=True)
                f.update(a.to(torch.uint8), real=False)
        mse = float(se.mean())
        return dict(mse=mse, psnr=10 * math.log10(255 ** 2 / mse),
                    hific_distortion=0.075 * 2 ** -5 * mse + float(last.compute()))

    def mse(self):
        return self.se / self.n

    def psnr(self):
        return 10 * math.log10(255 ** 2 / self.mse())


def cut(x, pred, fids):
    """Mentzer et al.: full patches, and again shifted by half a patch."""
    from neuralcompression.metrics import update_patch_fid
    update_patch_fid(input_images=x, pred=pred, fid_metric=fids["fid"],
                     fid_swav_metric=fids["fid_swav"], kid_metric=fids["kid"], patch_size=256)


def value(v):
    return float(v.compute()) if isinstance(v, torchmetrics.Metric) else float(v)


def finish(log):
    """What lightning does at the end of an epoch: report and reset the logged metrics."""
    out, seen = {}, []
    for k, v in log:
        if isinstance(v, torchmetrics.Metric):
            if k not in out:
                out[k] = value(v)
                seen.append(v)
    for v in seen:
        v.reset()
    return out


def near(a, b, tol=2e-4):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def build(m, mods, gan):
    from neuralcompression import loss_fn
    m.seed_torch()
    Toy = illm.toy_class()
    model = Toy(spread=m.rng.choice([0.7, 2.0]))
    cfg = c35.config(m, loss_fn.TargetRateConfig)
    ocfg = c35.opt_config(m, gan)
    dist = c35.Distortion()
    if not gan:
        mod = mods["target_compression_module"].TargetRateCompressionModule(
            model, cfg, ocfg, distortion_lam=2.0, distortion_loss=dist)
    else:
        mod = mods["gan_compression_module"].GANCompressionModule(
            model, cfg, illm.Disc(m.rng.random() < 0.5),
            loss_fn.BinaryCrossentropyDiscriminatorLoss(),
            loss_fn.BinaryCrossentropyGeneratorLoss(), ocfg, distortion_lam=2.0,
            distortion_loss=dist, generator_weight=0.3)
    c35.wire(m, mod, m.rng.choice([0, 4, 999]))
    return mod, cfg, dist


def history(m, mods, first=None):
    r = m.rng
    gan = r.random() < 0.5
    mod, cfg, dist = build(m, mods, gan)
    ops = [r.choice(["val", "val", "test", "train", "stray", "load"]) for _ in range(r.choice([3, 4, 5, 6, 6, 14]))]
    ops = (first or []) + ops
    m.case(("history", gan, tuple(ops)), True)
    for op in ops:
        if op == "train":
            mod.train()
            if r.random() < 0.3:  # an epoch that was interrupted
                mod.on_train_epoch_start()
                mod.training_step(c35.batch_of(m, 4), 0)
                mod.drain()
            ok, _ = m.run("train-metrics", mod.on_train_epoch_start)
            e = Expect(False)
            for i in range(r.choice([1, 2, 1, 2, 7])):
                x = c35.batch_of(m, 4)
                mine = x[:2] if gan else x
                with torch.no_grad():
                    pred = copy.deepcopy(mod.model)(mine).image
                e.add(pred, mine)
                ok, _ = m.run("train-metrics", mod.training_step, x, i)
                if not ok:
                    return
            got = finish(mod.drain())
            for k, w in (("psnr", e.psnr()), ("mse", e.mse()),
                         ("ms_ssim", float(e.pairs["ms_ssim"].compute()))):
                m.check("train/" + k in got and near(got["train/" + k], w), "train-metrics",
                        f"{k} {got.get('train/' + k)} want {w}")
            mod.trainer.global_step += 3
        elif op == "stray":
            # results of an interrupted epoch (sanity check, crash) must not leak into the next
            mod.eval()
            with torch.no_grad():
                mod.on_validation_epoch_start()
                mod.validation_step(c35.batch_of(m, 2), 0)
            mod.drain()
        elif op == "load":
            ok, _ = m.run("val-epoch", mod.on_load_checkpoint, {})
        elif op == "val":
            validation(m, mod, cfg, dist, gan)
        else:
            test(m, mod, dist, "kodak" if first else None)


def frozen_state(mod):
    return {k: v.detach().clone() for k, v in mod.model.state_dict().items()}


def validation(m, mod, cfg, dist, gan):
    r = m.rng
    mod.eval()
    before = frozen_state(mod)
    with torch.no_grad():
        ok, _ = m.run("val-epoch", mod.on_validation_epoch_start)
        e = Expect(False)
        steps = r.choice([1, 1, 2, 3, 8])
        size = r.choice([1, 2, 3, 8])
        log = []
        for i in range(steps):
            x = c35.batch_of(m, size)
            keep = x.clone()
            out = mod.model(x)
            ok, _ = m.run("val-step", mod.validation_step, x, i)
            if not ok:
                return
            m.check(torch.equal(x, keep), "no-side-effects", "batch")
            part = mod.drain()
            log += part
            got = dict(part)
            step = e.add(out.image, x)
            ref, margin = c35.rate_of(cfg, mod.trainer.global_step, x, out)
            d = dist(out.image, x)
            total = 2.0 * d + ref["rate_loss"]
            want = {"distortion_loss": d, "hific_distortion": step["hific_distortion"]}
            for k in ("total_bpp", "quantized_total_bpp", "hyper_bpp", "quantized_hyper_bpp",
                      "latent_bpp", "quantized_latent_bpp", "target", "lam2"):
                want[k] = ref[k]
            if margin > 1e-4:
                want["rate_loss"] = ref["rate_loss"]
                if gan:
                    logits = mod.discriminator(*([out.image] + (
                        [out.latent] if mod.discriminator.is_conditional else [])))
                    g = mod.generator_loss(logits, torch.tensor(1))
                    want["generator_loss"] = g
                    want["total_model_loss"] = total + 0.3 * g
                else:
                    want["total_loss"] = total
            for k, w in want.items():
                if "val/" + k not in got:
                    m.fail("val-step", f"val/{k} is not logged")
                    continue
                m.check(near(got["val/" + k], w), "val-step", f"{k} {got['val/' + k]} want {w}")
        ok, _ = m.run("val-fid", mod.on_validation_epoch_end)
        end = dict(mod.drain())
        m.check(not mod._local, "val-workers", f"not averaged over workers: {mod._local}")
        mod._local.clear()
        if e.images < 2:
            m.check("val/fid" not in end, "val-few", "FID of a single image")
        else:
            m.check("val/fid" in end and near(end["val/fid"], e.fids["fid"].compute()), "val-fid",
                    f"{end.get('val/fid')} want {e.fids['fid'].compute()}")
        got = finish(log)
        for k, w in (("psnr", e.psnr()), ("mse", e.mse()),
                     ("ms_ssim", float(e.pairs["ms_ssim"].compute())),
                     ("lpips", float(e.pairs["lpips"].compute()))):
            m.check("val/" + k in got and near(got["val/" + k], w), "val-epoch",
                    f"{k} {got.get('val/' + k)} want {w}")
    after = mod.model.state_dict()
    m.check(all(torch.equal(before[k], after[k]) for k in before), "no-side-effects", "weights")


def test(m, mod, dist, also=None):
    r = m.rng
    mod.eval()
    if getattr(mod, "test_dataset_name", None) is None:
        with torch.no_grad():
            m.raises("rejects", ValueError, mod.test_step, c35.batch_of(m, 1), 0)
        mod.drain()
    for name in ([also] if also else []) + r.sample(
            ["kodak", "clic2020_test", "div2k_val", "openimages", "my_clic"], r.choice([1, 2])):
        patches = "clic" in name or "div2k" in name
        ok, _ = m.run("test-epoch", mod.update_test_dataset_name, name)
        if not ok:
            return
        with torch.no_grad():
            if r.random() < 0.4:  # an epoch that was interrupted
                mod.on_test_epoch_start()
                mod.test_step(c35.batch_of(m, 2, 256, 256), 0)
                mod.drain()
            mod.model.calls.clear()
            u = mod.model.updated
            ok, _ = m.run("test-epoch", mod.on_test_epoch_start)
            m.check(mod.model.updated > u, "test-order", "the coder was not updated")
            e = Expect(True)
            log = []
            for i in range(r.choice([2, 3])):
                h, w = (r.choice([256, 384, 300]), r.choice([256, 400])) if patches else (16, 24)
                b = r.choice([1, 2])
                x = c35.batch_of(m, b, h, w)
                keep = x.clone()
                batch = x if r.random() < 0.5 else (x, torch.zeros(b))
                mod.model.calls.clear()
                ok, ret = m.run("test-step", mod.test_step, batch, i)
                if not ok:
                    return
                m.check(torch.equal(x, keep), "no-side-effects", "batch")
                kinds = [c[0] for c in mod.model.calls]
                m.check("devices" in kinds and kinds.index("devices") < kinds.index("compress") and
                        kinds.count("compress") == 1 and kinds.count("decompress") == 1,
                        "test-order", f"{kinds}")
                twin = copy.deepcopy(mod.model)
                comp = twin.compress(x)
                pred = twin.decompress(comp)
                want = e.add(pred, x, cut if patches else None)
                d = dist(pred, x)
                part = mod.drain()
                log += part
                got = dict(part)
                bpp = len(pickle.dumps(comp)) * 8 / (b * h * w)
                m.check(near(got.get(f"test/{name}_bpp", -1), bpp, 1e-6), "test-bpp",
                        f"{got.get(f'test/{name}_bpp')} want {bpp}")
                for k, v in (("test_distortion", d), ("psnr", want["psnr"]),
                             ("hific_distortion", want["hific_distortion"])):
                    m.check(f"test/{name}_{k}" in got and near(got[f"test/{name}_{k}"], v),
                            "test-step", f"{k} {got.get(f'test/{name}_{k}')} want {v}")
                m.check(near(ret, d), "test-step", "returned loss")
            ok, _ = m.run("test-epoch", mod.on_test_epoch_end)
            if not ok:
                return
            end = dict(mod.drain())
            for k in ("fid", "fid_swav", "kid"):
                v = e.fids[k].compute()
                v = v[0] if k == "kid" else v
                w = 0.0 if name == "kodak" else v
                m.check(f"test/{name}_{k}" in end and near(end[f"test/{name}_{k}"], w),
                        "test-kodak" if name == "kodak" else "test-patches" if patches else
                        "test-epoch", f"{name} {k}: {end.get(f'test/{name}_{k}')} want {w}")
            got = finish(log)
            for k, v in (("mse", e.mse()), ("ms_ssim", e.pairs["ms_ssim"].compute()),
                         ("lpips", e.pairs["lpips"].compute()),
                         ("dists", e.pairs["dists"].compute())):
                m.check(f"test/{name}_{k}" in got and near(got[f"test/{name}_{k}"], v),
                        "test-epoch", f"{name} {k}: {got.get(f'test/{name}_{k}')} want {v}")
    x = c35.batch_of(m, 1)
    m.raises("rejects", ValueError, mod.log_quality_metrics, x, x, "validation")
    m.raises("rejects", ValueError, mod.log_quality_metrics, x, x, "test")
    mod.drain()


class Shot:
    def __init__(self, data, caption=None):
        self.data, self.caption = data.clone(), caption


def images(m, mods):
    """the pictures shown next to the metrics"""
    from torchvision.utils import make_grid
    import types
    r = m.rng
    train = mods["train"]
    a, b = torch.rand(3, 3, 6, 5), torch.rand(2, 3, 6, 5)
    cb = train.WandbImageCallback(a, b)
    gain = nn.Parameter(torch.tensor(r.choice([0.5, 1.7, -1.0])))
    mod = nn.Module()
    mod.forward = lambda x: types.SimpleNamespace(image=x * gain + 0.1)
    mod.device, mod.dtype = torch.device("cpu"), torch.float32
    shown = []
    tr = types.SimpleNamespace(global_step=r.randrange(1000), logger=types.SimpleNamespace(
        experiment=types.SimpleNamespace(log=shown.append)))
    had = train.__dict__.get("wandb")
    train.wandb = types.SimpleNamespace(Image=Shot)
    try:
        for hook, pre in ((cb.on_validation_end, ""),
                          (cb.on_train_epoch_end, "model.training_")):
            m.case(("images", pre))
            shown.clear()
            ok, _ = m.run("image-log", hook, tr, mod)
            if not ok:
                continue
            got = {k: v for d in shown for k, v in d.items() if k != "global_step"}
            want = {}
            for part, x in (("train", a), ("eval", b)):
                y = (x * gain.detach() + 0.1).clamp(0, 1)
                want[f"{pre}{part}_images/image"] = make_grid(x)
                want[f"{pre}{part}_images/image_compressed"] = make_grid(y)
            m.check(set(got) == set(want) and
                    all(d.get("global_step") == tr.global_step for d in shown), "image-log",
                    f"{sorted(got)}")
            for k in set(got) & set(want):
                m.check(got[k].data.shape == want[k].shape and torch.allclose(
                    got[k].data, want[k], atol=1e-6) and not got[k].data.requires_grad,
                    "image-log", k)
    finally:
        if had is None:
            del train.wandb
        else:
            train.wandb = had


def launcher(m, mods):
    from neuralcompression import loss_fn
    r = m.rng
    train = mods["train"]
    tmp = Path(tempfile.mkdtemp(prefix="vp_c36_"))
    here = os.getcwd()
    os.chdir(tmp)
    try:
        # which checkpoint is resumed
        for _ in range(4):
            d = tmp / ("ck%d" % r.getrandbits(30))
            files = r.choice([None, [], ["last.ckpt"], ["best.ckpt"], ["best.ckpt", "last.ckpt"],
                              ["notes.txt"]])
            over, res = r.random() < 0.5, r.random() < 0.5
            if files is not None:
                d.mkdir()
                for f in files:
                    (d / f).write_bytes(b"x")
            cfg = stubs.Cfg(checkpoint=dict(overwrite=over, resume_training=res,
                                            callback=dict(dirpath=str(d))))
            m.case(("checkpoint", None if files is None else tuple(files), over, res), True)
            some = any(f.endswith(".ckpt") for f in files or [])
            if some and not over and not res:
                m.raises("checkpoint-guard", RuntimeError, train.fetch_checkpoint, cfg)
            else:
                ok, got = m.run("checkpoint-pick", train.fetch_checkpoint, cfg)
                want = str((d / "last.ckpt").absolute()) if "last.ckpt" in (files or []) and \
                    not over else None
                m.check(ok and got == want, "checkpoint-pick", f"{files} {over} {res}: {got}")
                m.check(d.is_dir(), "checkpoint-pick", "directory")
            m.check(sorted(p.name for p in d.glob("*")) == sorted(files or []), "checkpoint-guard",
                    "files of the checkpoint directory")
        # weights out of a training checkpoint
        Toy = illm.toy_class()
        m.seed_torch()
        src, dst = Toy(), Toy()
        sd = {"model." + k: v for k, v in src.state_dict().items()}
        sd.update({"discriminator.model." + k: v + 1 for k, v in src.state_dict().items()})
        sd.update({"modelx": torch.zeros(1), "mode": torch.zeros(1)})
        path = tmp / "train.ckpt"
        torch.save({"state_dict": sd, "epoch": 3}, path)
        ok, got = m.run("weights-prefix", train.pretrained_state_dict, str(path))
        m.check(ok and set(got) == set(src.state_dict()) and all(
            torch.equal(got[k], v) for k, v in src.state_dict().items()), "weights-prefix", "keys")
        ok, out = m.run("weights-prefix", train.configure_and_load_state_dict, dst,
                        stubs.Cfg(path=str(path)))
        m.check(ok and all(torch.equal(out.state_dict()[k], v)
                           for k, v in src.state_dict().items()), "weights-prefix", "loaded")
        bad = dict(sd)
        bad.pop("model.enc.bias") if r.random() < 0.5 else bad.update({"model.zz": torch.ones(1)})
        torch.save({"state_dict": bad}, path)
        m.raises("weights-mismatch", Exception, train.configure_and_load_state_dict, Toy(),
                 stubs.Cfg(path=str(path)))
        launch(m, mods, tmp, src, sd)
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


class Projector(nn.Module):
    def __init__(self, inner):
        super().__init__()
        self.inner = inner

    def forward(self, x):
        return self.inner(x)


def launch(m, mods, tmp, src, sd):
    r = m.rng
    train = mods["train"]
    Toy = illm.toy_class()
    gan, proj, pre = r.random() < 0.6, r.random() < 0.5, r.random() < 0.5
    mode = r.choice(["train", "test"])
    torch.save({"state_dict": sd}, tmp / "pre.ckpt")
    ck = tmp / "out"
    ck.mkdir()
    resumed = mode == "test" or r.random() < 0.5
    if resumed:
        other = {k: v + 0.5 if v.is_floating_point() else v for k, v in sd.items()}
        torch.save({"state_dict": other}, ck / "last.ckpt")
    steps = r.choice([10, 1001])
    lam = r.choice([1.0, 0.5])
    log = []
    one = {"_target_": "torch.optim.SGD", "lr": 0.1}
    ids = {"_target_": "neuralcompression.optim.IdentitySchedule"}
    cfg = stubs.Cfg(
        seed=3, ngpu=1, training_mode=mode, model={"_target_": lambda: Toy()},
        distortion_loss={"_target_": "neuralcompression.loss_fn.MSELoss"},
        rate_target=dict(_target_="neuralcompression.loss_fn.TargetRateConfig", target_bpp=0.14,
                         target_factors=[1.4, 1.0], target_steps=[5], lam_levels=(0.1, 2.0),
                         lam2_factors=[1.0], lam2_steps=[]),
        optimizer=dict(model_opt=one, model_opt_schedule=ids, aux_opt=one, aux_opt_schedule=ids,
                       discriminator_opt=one, discriminator_opt_schedule=ids),
        lightning_module=dict(distortion_lam=lam, gradient_clip_val=1.0),
        checkpoint=dict(overwrite=False, resume_training=True, callback=dict(dirpath=str(ck))),
        logger=dict(group="dev"), trainer=dict(max_steps=steps, accelerator="cpu"),
        data={"_target_": lambda **kw: log.append(kw) or "data"},
        test_dataloaders={k: dict(name=n, class_params={"_target_": lambda n=n: "loader-" + n})
                          for k, n in (("b", "kodak"), ("a", "clic2020_test"))})
    if pre:
        cfg["pretrained_autoencoder"] = dict(path=str(tmp / "pre.ckpt"))
    if gan:
        cfg["discriminator"] = dict(
            model={"_target_": lambda: illm.Disc(True)},
            discriminator_loss={
                "_target_": "neuralcompression.loss_fn.BinaryCrossentropyDiscriminatorLoss"},
            generator_loss={"_target_": "neuralcompression.loss_fn.BinaryCrossentropyGeneratorLoss"})
        if proj:
            cfg["latent_projector"] = dict(autoencoder={"_target_": lambda: nn.Linear(2, 2)},
                                           projector={"_target_": Projector})
    m.case(("launch", gan, proj, pre, mode, resumed), True)
    ok, mod = m.run("build", train.build_module, cfg)
    if not ok:
        return
    m.check(type(mod).__name__ == ("GANCompressionModule" if gan else
                                   "TargetRateCompressionModule"), "build", type(mod).__name__)
    if pre:
        m.check(all(torch.equal(mod.model.state_dict()[k], v)
                    for k, v in src.state_dict().items()), "build", "pretrained weights")
    m.check(mod.distortion_lam == lam and mod.gradient_clip_val == 1.0, "build", "options")
    if gan and proj:
        p = mod.latent_projector
        m.check(not p.training and all(not q.requires_grad for q in p.parameters()), "build",
                "the projector is not frozen")
    elif gan:
        m.check(mod.latent_projector is None, "build", "projector")
    stubs.Trainer.made.clear()
    seen = []
    stubs.Trainer.test = lambda self, *a, **kw: seen.append(
        (kw["model"].test_dataset_name, kw["dataloaders"], kw["model"].training,
         {k: v.clone() for k, v in kw["model"].model.state_dict().items()}))
    ok, _ = m.run("launch", train.main, cfg)
    if not ok:
        return
    tr = stubs.Trainer.made[-1]
    m.check(tr.kw["max_steps"] == steps * (3 if gan else 2), "steps-scaled",
            f"{tr.kw['max_steps']} for {steps} steps, gan={gan}")
    if mode == "train":
        m.check([c[0] for c in tr.calls] == ["fit"] and not seen, "launch", f"{tr.calls}")
        if tr.calls:
            kw = tr.calls[0][2]
            want = str((ck / "last.ckpt").absolute()) if resumed else None
            m.check(kw.get("ckpt_path") == want, "launch", f"resumed from {kw.get('ckpt_path')}")
    else:
        m.check([s[0] for s in seen] == ["kodak", "clic2020_test"] and
                [s[1] for s in seen] == [["loader-kodak"], ["loader-clic2020_test"]] and
                not any(s[2] for s in seen), "launch", f"{[s[:3] for s in seen]}")
        for s in seen:
            m.check(all(torch.equal(s[3][k], other["model." + k]) for k in s[3]), "launch",
                    "tested weights are not those of the checkpoint")


def data(m, mods):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    tmp = Path(tempfile.mkdtemp(prefix="vp_c36_"))
    T = mods["default_transforms"]
    try:
        size = r.choice([8, 16, 31])
        for _ in range(6):
            h, w = r.choice([(8, 8), (9, 40), (50, 12), (33, 33), (5, 6), (64, 17)])
            im = Image.fromarray(rng.integers(0, 256, (h, w, 3), dtype=np.uint8))
            m.case(("transform", size, h, w), True)
            for fn in (T.default_train_transform, T.default_val_transform):
                ok, y = m.run("transforms", fn(size), im)
                m.check(ok and tuple(y.shape) == (3, size, size) and 0 <= float(y.min()) and
                        float(y.max()) <= 1, "transforms", f"{fn.__name__} {(h, w)}: "
                        f"{tuple(y.shape) if ok else None}")
            a, b = T.default_val_transform(size)(im), T.default_val_transform(size)(im)
            m.check(torch.equal(a, b), "transforms", "validation is not deterministic")
        n = {"train": r.choice([3, 7]), "validation": r.choice([2, 5])}
        for k, c in n.items():
            (tmp / k).mkdir()
            names = ["%03d" % i for i in range(c)]
            for i, nm in enumerate(names):
                Image.fromarray(np.full((12, 12, 3), 10 + 20 * i, np.uint8)).save(
                    tmp / k / (nm + ".jpg"), quality=100)
            (tmp / f"list-{k}-files.txt").write_text("".join(x + ".jpg\n" for x in names))
        D = mods["open_images_datamodule"].OpenImagesDataModule
        bs, vbs = r.choice([1, 2, 4]), r.choice([None, None, 1, 3])
        kw = {} if vbs is None and r.random() < 0.5 else dict(val_batch_size=vbs)
        m.case(("datamodule", tuple(n.values()), bs, vbs), True)
        dm = D(str(tmp), bs, image_size=8, pin_memory=False, **kw)
        dm.setup()
        for kind, want in (("train", n["train"]), ("val", n["validation"])):
            for ep in range(2):
                ok, got = m.run("loader-" + kind, lambda: list(getattr(dm, kind + "_dataloader")()))
                if not ok:
                    break
                per = bs if kind == "train" or vbs is None else vbs
                sizes = [len(b) for b in got]
                m.check(sizes == [per] * (want // per) + ([want % per] if want % per else []),
                        "loader-" + kind, f"{sizes} of {want}, batch size {per}")
                vals = [round((float(x.mean()) * 255 - 10) / 20) for b in got for x in b]
                order = sorted(vals) if kind == "train" else vals
                m.check(order == list(range(want)), "loader-" + kind, f"{vals}")
        if n["train"] == 7:  # all in one order five times by chance: 1e-14
            seen = {tuple(dm.train_dataloader().sampler) for _ in range(5)}
            m.check(len(seen) > 1, "loader-train", f"training order is always {seen}")
        m.raises("rejects", ValueError, D, str(tmp), 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(m):
    mods = illm.load()
    images(m, mods)
    history(m, mods, ["train", "test", "val"])
    for i in range(m.n(110, 700)):
        if not m.time_left():
            break
        [history, history, launcher, data][i % 4](m, mods)
