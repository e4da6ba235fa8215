"""DVC training: every stage trains its own parts on the documented loss, the launcher chains
the stages, and what is logged is what was measured."""
import copy
import math
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
import torch.nn.functional as F
from PIL import Image

from lib import dvc, stubs

PID = "C37"
RULE = ("case = one training or validation batch of one stage, one launcher configuration or one "
        "data module; distinct by stage, frames, clip value, schedule, shape and configuration")
REQUIRED = ["step", "frozen", "schedule", "log", "psnr", "iframe", "iframe-frozen", "val-log",
            "no-side-effects", "recompose", "optimizers", "rejects", "launch-order", "launch-chain",
            "launch-config", "launch-checkpoint", "launch-guard", "image-log", "loader-train",
            "loader-val", "quantiles"]
BUDGET = (28, 240)

STAGES = ["1_motion_estimation", "2_motion_compression", "3_motion_compensation",
          "4_total_2frame", "5_total"]
COMBOS = [(False, False), (False, True), (True, True), (False, True), (True, False)]
PARTS = {1: ["motion_estimator"],
         2: ["motion_estimator", "motion_encoder", "motion_entropy_bottleneck", "motion_decoder"]}
PARTS[3] = PARTS[2] + ["motion_compensation"]
PARTS[4] = PARTS[5] = PARTS[3] + ["residual_encoder", "residual_entropy_bottleneck",
                                  "residual_decoder"]


def small(m):
    from neuralcompression.models import DVC
    from neuralcompression.models.deep_video_compression import (
        DVCMotionCompensationModel, DVCPyramidFlowEstimator)
    m.seed_torch()
    d = DVC(coder_channels=3,
            motion_estimator=DVCPyramidFlowEstimator(filter_counts=[4, 2], kernel_size=3,
                                                     levels=m.rng.choice([1, 2, 3])),
            motion_compensation=DVCMotionCompensationModel(model_channels=4, num_levels=2))
    with torch.no_grad():
        for eb in (d.motion_entropy_bottleneck, d.residual_entropy_bottleneck):
            eb.quantiles[:, 0, 1] = torch.randn(3)
    return d


def module(m, mods, model, stage, **kw):
    args = dict(pretrained_model_name="toy", pretrained_model_quality_level=2)
    args.update(kw)
    mod = mods["dvc_module"].DvcModule(model, STAGES[stage - 1], **args)
    ok, conf = m.run("optimizers", mod.configure_optimizers)
    if not ok:
        return None
    conf = conf if isinstance(conf, (list, tuple)) else [conf]
    mod._opts = [c["optimizer"] for c in conf]
    mod._scheds = [c["lr_scheduler"] for c in conf if "lr_scheduler" in c]
    mod.trainer = stubs.Trainer()
    return mod


def bits(p):
    return -torch.log2(p.clamp_min(1e-300)).sum()


def warp(image, flow):
    from neuralcompression.functional import dense_image_warp
    return dense_image_warp(image, flow.permute(0, 2, 3, 1))


def frame_loss(stage, d, lam, a, b):
    """distortion, flow bpp, residual bpp, reconstruction"""
    px = a.shape[0] * a.shape[-2] * a.shape[-1]
    if stage == 1:
        flow, pairs = d.motion_estimator.calculate_flow_with_image_pairs(a, b)
        dist = torch.stack([lam * F.mse_loss(x, y) for x, y in pairs]).mean()
        return dist, None, None, warp(a, flow).detach()
    if stage in (2, 3):
        flow = d.motion_estimator(a, b)
        lat, sizes = d.motion_encoder(flow)
        lat, p = d.motion_entropy_bottleneck(lat)
        flow = d.motion_decoder(lat, sizes)
        est = warp(a, flow)
        if stage == 3:
            est = d.motion_compensation(a, est, flow)
        return lam * F.mse_loss(est, b), bits(p) / px, None, est.detach()
    out = d(a, b)
    return (lam * F.mse_loss(out.image2_est, b), bits(out.flow_probabilities) / px,
            bits(out.resid_probabilities) / px, out.image2_est.detach())


def named(d, stage, quant):
    return {f"{part}.{n}": p for part in PARTS[stage] for n, p in
            getattr(d, part).named_parameters()
            if (n.split(".")[-1] == "quantiles") == quant}


def near(a, b, tol=3e-4):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1.0, abs(b))


def iframe_bpp(out, batch):
    px = batch.shape[0] * batch.shape[-2] * batch.shape[-1]
    return sum(float(bits(p)) for p in out["likelihoods"].values()) / px


def expect_log(m, oracle, got, stage, key, n, tot, dist, bpp, flow, res, pairs):
    pre = f"{STAGES[stage - 1]}/{key}_"
    want = {"gop_loss": tot, "gop_distortion_loss": dist, "gop_bpp": bpp}
    if stage > 1:
        want["gop_flow_bpp"] = flow
    if stage > 3:
        want["gop_residual_bpp"] = res
    for k, w in want.items():
        g = got.get(pre + k)
        m.check(g is not None and near(g, w / (n + 1)), oracle, f"{pre}{k} {g} want {w / (n + 1)}")
    for k in ("gop_flow_bpp", "gop_residual_bpp"):
        if k not in want:
            m.check(pre + k not in got, oracle, f"{k} logged in stage {stage}")
    mse = float(torch.cat([(a - b).double().square().flatten() for a, b in pairs]).mean())
    g = got.get(pre + "psnr")
    m.check(g is not None and near(g, 10 * math.log10(1 / mse), 1e-3), "psnr",
            f"{g} want {10 * math.log10(1 / mse)}")


def logs(mod):
    out = {}
    for k, v in mod.drain():
        if hasattr(v, "compute"):
            out[k] = float(v.compute())
            v.reset()
        else:
            out[k] = float(v)
    return out


def steps(m, mods):
    r = m.rng
    stage = r.choice([1, 2, 3, 4, 5, 5])
    n = r.choice([1, 2, 3, 3, 6])
    clip = r.choice([1.0, 0.05, 100.0])
    lam = r.choice([1.0, 16.0, 256.0])
    sched = r.choice([None, dict(step_size=1, gamma=0.5), dict(step_size=2, gamma=0.1)])
    shape = r.choice([(1, 32, 32), (2, 32, 48), (2, 64, 32), (5, 32, 32)])
    model = small(m)
    mod = module(m, mods, model, stage, num_pframes=n, distortion_lambda=lam, learning_rate=1e-2,
                 aux_learning_rate=3e-2, lr_scheduler_params=sched, grad_clip_value=clip)
    if mod is None:
        return
    ref = copy.deepcopy(model)
    # who is trained by what
    main, quant = named(model, stage, False), named(model, stage, True)
    ids = [{id(p) for g in o.param_groups for p in g["params"]} for o in mod._opts]
    m.check(ids[0] == {id(p) for p in main.values()} and
            (len(ids) == (2 if quant else 1)) and
            (not quant or ids[1] == {id(p) for p in quant.values()}), "optimizers",
            f"stage {stage}: {[len(i) for i in ids]}")
    rp, rq = named(ref, stage, False), named(ref, stage, True)
    opt = torch.optim.Adam(rp.values(), lr=1e-2)
    aux = torch.optim.Adam(rq.values(), lr=3e-2) if rq else None
    lr = 1e-2
    extra = r.choice([0, 1])  # more frames than used
    mod.train()
    ref.train()
    for step in range(r.choice([1, 2, 3])):
        b, h, w = shape
        m.seed_torch(step)
        batch = torch.rand(b, n + 1 + extra, 3, h, w)
        keep = batch.clone()
        m.case(("train", stage, n, clip, lam, sched and sched["step_size"], shape, step), True)
        net = mod.iframe_model
        before_i = {k: v.clone() for k, v in net.state_dict().items()}
        net.seen.clear()
        if r.random() < 0.3:
            net.train()  # lightning puts every submodule in training mode before an epoch
        ok, _ = m.run("step", run_seeded, 7 + step, mod.training_step, batch, step)
        if not ok:
            return
        got = logs(mod)
        m.check(torch.equal(batch, keep), "no-side-effects", "the batch was changed")
        m.check(len(net.seen) >= 1 and not any(s[0] for s in net.seen) and
                all(torch.equal(s[2], keep[:, 0]) for s in net.seen), "iframe",
                "the I-frame codec ran on something else, or in training mode")
        m.check(all(torch.equal(before_i[k], v) for k, v in net.state_dict().items()),
                "iframe-frozen", "weights of the I-frame codec")
        net.eval()
        with torch.no_grad():
            first = net(keep[:, 0])
        # the same step by hand
        torch.manual_seed(7 + step)
        tot = dist = flow = res = 0.0
        bpp = iframe_bpp(first, keep)
        a, pairs = first["x_hat"], []
        for i in range(n):
            opt.zero_grad()
            d, f, q, est = frame_loss(stage, ref, lam, a, keep[:, i + 1])
            loss = d + (0 if f is None else f) + (0 if q is None else q)
            loss.backward()
            torch.nn.utils.clip_grad_norm_(list(rp.values()), clip)
            opt.step()
            pairs.append((keep[:, i + 1], est))
            a = est
            tot += float(loss)
            dist += float(d)
            flow += 0 if f is None else float(f)
            res += 0 if q is None else float(q)
        bpp += flow + res
        if aux is not None:
            aux.zero_grad()
            ql = sum(getattr(ref, x).loss() for x in PARTS[stage] if x.endswith("bottleneck"))
            ql.backward()
            aux.step()
            g = got.get(f"{STAGES[stage - 1]}/train_quantile_loss")
            m.check(g is not None and near(g, ql), "quantiles", f"{g} want {float(ql)}")
        expect_log(m, "log", got, stage, "train", n, tot, dist, bpp, flow, res, pairs)
        compare(m, model, ref, stage, step)
        if sched:
            lr = 1e-2 * sched["gamma"] ** ((step + 1) // sched["step_size"])
        for g in opt.param_groups:
            g["lr"] = lr
        have = [g["lr"] for g in mod._opts[0].param_groups]
        m.check(all(near(x, lr, 1e-9) for x in have), "schedule", f"{have} want {lr}")
        # what the model looked like before: keep both on the same path
        with torch.no_grad():
            for p, q in zip(ref.parameters(), model.parameters()):
                p.copy_(q)
        sync_opt(opt, mod._opts[0], rp, main)
        if aux is not None:
            sync_opt(aux, mod._opts[1], rq, quant)
    if r.random() < 0.5:
        validation(m, mod, model, stage, n, lam, shape)
    # back into a whole model
    fresh = small(m)
    other = {k: v.clone() for k, v in fresh.state_dict().items()}
    ok, out = m.run("recompose", mod.recompose_model, fresh)
    if not ok:
        return
    sd, trained = out.state_dict(), model.state_dict()
    for k, v in sd.items():
        part = k.split(".")[0]
        src = trained if part in PARTS[stage] else other
        m.check(torch.equal(v, src[k]), "recompose", f"stage {stage}: {k}")


def sync_opt(ref, real, rp, mp):
    for k in rp:
        s = real.state.get(mp[k])
        if s:
            ref.state[rp[k]] = {a: b.clone() if torch.is_tensor(b) else b for a, b in s.items()}


def run_seeded(seed, fn, *a):
    torch.manual_seed(seed)
    return fn(*a)


def compare(m, model, ref, stage, step):
    """Adam normalises gradients: where one is rounding noise, its step is too."""
    a, b = dict(model.named_parameters()), dict(ref.named_parameters())
    for k in a:
        part = k.split(".")[0]
        diff = (a[k] - b[k]).detach().abs()
        if part not in PARTS[stage]:
            m.check(float(diff.max()) == 0, "frozen", f"stage {stage} changed {k}")
            continue
        bad = float((~(diff <= 2e-3)).float().mean())
        m.check(bad <= 0.02, "step", f"stage {stage} step {step} {k}: {bad:.1%} differ, "
                f"max {float(diff.max()):.3g}")


def validation(m, mod, model, stage, n, lam, shape):
    b, h, w = shape
    mod.eval()
    batch = torch.rand(b, n + 1, 3, h, w)
    with torch.no_grad():  # the GDN layers clip their own weights whenever they run
        model(batch[:, 0], batch[:, 1])
    before = {k: v.clone() for k, v in model.state_dict().items()}
    keep = batch.clone()
    m.case(("val", stage, n, shape), True)
    with torch.no_grad():
        ok, _ = m.run("val-log", mod.validation_step, batch, 0)
        if not ok:
            return
        got = logs(mod)
        m.check(torch.equal(batch, keep), "no-side-effects", "the validation batch was changed")
        ref = copy.deepcopy(model).eval()
        first = mod.iframe_model.eval()(keep[:, 0])
        a, pairs = first["x_hat"], []
        tot = dist = flow = res = 0.0
        for i in range(n):
            d, f, q, est = frame_loss(stage, ref, lam, a, keep[:, i + 1])
            pairs.append((keep[:, i + 1], est))
            a = est
            tot += float(d + (0 if f is None else f) + (0 if q is None else q))
            dist += float(d)
            flow += 0 if f is None else float(f)
            res += 0 if q is None else float(q)
        bpp = iframe_bpp(first, keep) + flow + res
    expect_log(m, "val-log", got, stage, "val", n, tot, dist, bpp, flow, res, pairs)
    m.check("val_loss" in got and math.isfinite(got["val_loss"]), "val-log", "val_loss")
    after = model.state_dict()
    bad = [k for k in before if not torch.equal(before[k], after[k])]
    m.check(not bad, "no-side-effects", f"weights {bad[:3]}")


class Log:
    def __init__(self):
        self.experiment = self
        self.logged = []

    def log(self, d):
        self.logged.append(d)


def launcher(m, mods):
    r = m.rng
    train = mods["train"]
    tmp = Path(tempfile.mkdtemp(prefix="vp_c37_"))
    real = stubs.Trainer.fit
    try:
        stages = sorted(r.sample(range(1, 6), r.choice([2, 3, 5])))
        keys = {s: f"s{s}_{STAGES[s - 1][2:]}" for s in stages}
        over, res = COMBOS[0]
        COMBOS.append(COMBOS.pop(0))
        place, conf = {}, {}
        order = list(stages)
        r.shuffle(order)
        for s in order:
            own = r.random() < 0.4
            place[s] = tmp / "elsewhere" / str(s) if own else tmp / "root" / keys[s]
            must = s == stages[-1] and not over and not res
            files = ["last.ckpt"] if must else r.choice(
                [[], [], ["last.ckpt"], ["epoch=1.ckpt"], ["last.ckpt", "a.ckpt"]])
            if files or r.random() < 0.5:
                place[s].mkdir(parents=True)
            for f in files:
                (place[s] / f).write_bytes(b"x")
            conf[s] = dict(files=files, n=r.choice([1, 2]), lam=r.choice([None, 3.0]),
                           lr=r.choice([1e-4, 2e-5]), steps=r.choice([5, 9]))
            conf[s]["dir"] = str(place[s]) if own else None
        cfg = stubs.Cfg(
            training_stages={keys[s]: dict(
                save_dir=conf[s]["dir"],
                module=dict(training_stage=STAGES[s - 1], num_pframes=conf[s]["n"],
                            learning_rate=conf[s]["lr"],
                            **({} if conf[s]["lam"] is None else
                               dict(distortion_lambda=conf[s]["lam"]))),
                trainer=dict(max_steps=conf[s]["steps"])) for s in order},
            trainer=dict(gpus=0, max_steps=1), module=dict(
                pretrained_model_name="toy", pretrained_model_quality_level=4,
                distortion_lambda=256.0, learning_rate=0.5),
            checkpoint=dict(overwrite=over, resume_training=res,
                            model_checkpoint=dict(save_last=True)))
        m.case(("launch", tuple(stages), over, res,
                tuple(tuple(conf[s]["files"]) for s in stages)), True)
        model = small(m)
        seen = []

        def fit(self, mod, *a, datamodule=None, **kw):
            # "training": every parameter of the stage moves by 1
            main, quant = mod.model.collect_parameters()
            with torch.no_grad():
                for p in list(main.values()) + list((quant or {}).values()):
                    p.add_(1.0)
            seen.append((mod, self.kw, datamodule))
        stubs.Trainer.fit = fit
        start = {k: v.detach().clone() for k, v in model.named_parameters()}
        moved = dict.fromkeys(start, 0)
        cur = model
        for s in stages:
            block = conf[s]["files"] and not over and not res
            args = (keys[s], tmp / "root", cur, "data", None, stubs.Empty(), cfg)
            if block:
                m.raises("launch-guard", RuntimeError, train.run_training_stage, *args)
                m.check(not seen, "launch-guard", "trained all the same")
                continue
            ok, cur = m.run("launch-chain", train.run_training_stage, *args)
            if not ok or not seen:
                m.check(ok, "launch-chain", "no training took place")
                return
            mod, kw, data = seen.pop()
            m.check(mod.training_stage == STAGES[s - 1] and mod.num_pframes == conf[s]["n"] and
                    mod.learning_rate == conf[s]["lr"] and
                    mod.distortion_lambda == (conf[s]["lam"] or 256.0) and
                    kw["max_steps"] == conf[s]["steps"] and kw["gpus"] == 0 and data == "data",
                    "launch-config", f"stage {s}")
            want = place[s] / "last.ckpt" if "last.ckpt" in conf[s]["files"] and not over else None
            got = kw.get("resume_from_checkpoint", kw.get("ckpt_path"))
            m.check((got is None) == (want is None) and (want is None or Path(got) == want),
                    "launch-checkpoint", f"{got} want {want}")
            cbs = [c for c in kw["callbacks"] if "dirpath" in getattr(c, "kw", {})]
            m.check(len(cbs) == 1 and Path(cbs[0].kw["dirpath"]) == place[s] and
                    place[s].is_dir(), "launch-checkpoint", "checkpoint directory")
            for k in moved:
                moved[k] += k.split(".")[0] in PARTS[s]
            now = dict(cur.named_parameters())
            for k in start:
                m.check(torch.allclose(now[k], start[k] + moved[k], atol=1e-5), "launch-chain",
                        f"after stage {s}: {k}")
        m.check(cfg.module["learning_rate"] == 0.5 and cfg.trainer["max_steps"] == 1,
                "launch-config", "the shared configuration was changed")
        whole(m, mods, tmp, cfg, place)
    finally:
        stubs.Trainer.fit = real
        shutil.rmtree(tmp, ignore_errors=True)


def whole(m, mods, tmp, cfg, place):
    """main(): every stage, in order, with the data and the image log."""
    r = m.rng
    train = mods["train"]
    vimeo(m, tmp / "vimeo", {"train": 2, "test": 3}, 32)
    for p in place.values():
        shutil.rmtree(p, ignore_errors=True)
    calls = []
    cfg["checkpoint"]["resume_training"] = True
    cfg["logging"] = stubs.Cfg(save_root=str(tmp / "root"), image_seed=r.randrange(99),
                               num_log_images=2)
    cfg["ngpu"] = 0
    cfg["data"] = stubs.Cfg(data_dir=str(tmp / "vimeo"), image_size=32)
    cfg["model"] = stubs.Cfg(coder_channels=3)
    real_dvc = train.DVC
    train.DVC = lambda **kw: small(m)
    try:
        def fit(self, mod, *a, datamodule=None, **kw):
            calls.append((mod, self.kw, datamodule))
        stubs.Trainer.fit = fit
        ok, _ = m.run("launch-order", train.main, cfg)
    finally:
        train.DVC = real_dvc
    if not ok:
        return
    names = [c[0].training_stage for c in calls]
    m.check(names == [STAGES[s - 1] for s in sorted(place)], "launch-order", f"{names}")
    data = calls[0][2]
    m.check(data is not None and data.frames_per_group == 7, "launch-config", "frames per group")
    # the image log of the last stage
    mod, kw, _ = calls[-1]
    cb = [c for c in kw["callbacks"] if isinstance(c, train.WandbImageCallback)]
    if not cb:
        m.fail("image-log", "no image callback")
        return
    keep = cb[0].batch.clone()
    mod.eval()
    mod.trainer = stubs.Trainer()
    log = Log()
    out = []
    for _ in range(2):
        tr = stubs.Trainer()
        tr.logger = log
        log.logged.clear()
        with torch.no_grad():
            ok, _ = m.run("image-log", cb[0].on_validation_end, tr, mod)
        if not ok:
            return
        out.append({k: v.image.clone() for d in log.logged for k, v in d.items()
                    if hasattr(v, "image")})
    m.check(torch.equal(cb[0].batch, keep), "image-log", "the logged batch was changed")
    pre = f"log_images_stage_{mod.training_stage}/"
    n = mod.num_pframes
    m.check(set(out[0]) == {pre + k for k in ("flow", "image1", "image2", "image2_est")} and
            all(torch.equal(out[0][k], out[1][k]) for k in out[0]), "image-log",
            "the same images logged twice differ")
    want = torch.cat(list(torch.cat([keep[:, i + 1] for i in range(n)], -1)), -2)
    m.check(torch.equal(out[0].get(pre + "image2", torch.zeros(1)), want), "image-log", "mosaic")


def vimeo(m, root, counts, size):
    rng = np.random.default_rng(m.rng.getrandbits(32))
    px = {}
    for split, k in counts.items():
        names = []
        for i in range(k):
            d = root / "sequences" / f"{split}{i:02d}" / "0001"
            d.mkdir(parents=True)
            names.append(f"{split}{i:02d}/0001")
            for f in range(1, 8):
                a = rng.integers(0, 256, (size, size + 8, 3), dtype=np.uint8)
                Image.fromarray(a).save(d / f"im{f}.png")
                px[split, i, f] = a
        (root / f"sep_{split}list.txt").write_text("".join(n + "\n" for n in names))
    return px


def data(m, mods):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c37_"))
    try:
        n = {"train": r.choice([1, 3, 6]), "test": r.choice([2, 5])}
        size = 20
        px = vimeo(m, tmp, n, size)
        crop = r.choice([8, 16, (8, 12), [10, 6]])
        ch, cw = (crop, crop) if isinstance(crop, int) else crop
        frames = r.choice([1, 2, 7])
        bs, vbs = r.choice([1, 2, 8]), r.choice([1, 3])
        D = mods["data_module"].Vimeo90kSeptupletLightning
        m.case(("data", tuple(n.values()), crop if isinstance(crop, int) else tuple(crop), frames,
                bs, vbs), True)
        dm = D(str(tmp), frames, bs, vbs, crop)
        ok, _ = m.run("loader-train", dm.setup)
        if not ok:
            return
        y0, x0 = round((size - ch) / 2), round((size + 8 - cw) / 2)
        for kind, split, per in (("train", "train", bs), ("val", "test", vbs)):
            ok, got = m.run("loader-" + kind, lambda: list(getattr(dm, kind + "_dataloader")()))
            if not ok:
                continue
            total = n[split]
            sizes = [len(b) for b in got]
            m.check(sizes == [per] * (total // per) + ([total % per] if total % per else []),
                    "loader-" + kind, f"{sizes}")
            want = [torch.stack([torch.from_numpy(
                px[split, i, f][y0:y0 + ch, x0:x0 + cw].copy()).permute(2, 0, 1) / 255.0
                for f in range(1, frames + 1)]) for i in range(total)]
            items = [x for b in got for x in b]
            if any(x.shape != want[0].shape for x in items) or len(items) != total:
                m.fail("loader-" + kind, f"{len(items)} items of {tuple(items[0].shape)}")
                continue
            idx = [int(torch.stack([(x - w).abs().max() for w in want]).argmin()) for x in items]
            m.check((idx if kind == "val" else sorted(idx)) == list(range(total)) and
                    all(torch.allclose(x, want[i], atol=1e-6) for x, i in zip(items, idx)),
                    "loader-" + kind, f"{idx}")
        if n["train"] == 6:  # all in one order five times by chance: 1e-11
            seen = {tuple(dm.train_dataloader().sampler) for _ in range(5)}
            m.check(len(seen) > 1, "loader-train", f"training order is always {seen}")
        for bad in (0, 8, -1):
            m.raises("rejects", ValueError, D, str(tmp), bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rejects(m, mods):
    model = small(m)
    D = mods["dvc_module"].DvcModule
    for kw in (dict(training_stage="6_total"), dict(training_stage=""),
               dict(training_stage=STAGES[1], distortion_type="L1")):
        m.raises("rejects", ValueError, D, model, pretrained_model_name="toy",
                 pretrained_model_quality_level=1, **kw)
    U = mods["_utils"]
    for c in (U.DvcStage2, U.DvcStage3, U.DvcStage4and5):
        m.raises("rejects", ValueError, c, model, 1, U.LossFunctions(lambda a, b: a, None))
    dvc.IFrame.made.clear()
    D(model, STAGES[0], "toy", 6)
    m.check(dvc.IFrame.made and dvc.IFrame.made[-1].quality == 6 and
            dvc.IFrame.made[-1].pretrained, "iframe", "I-frame codec")


def run(m):
    mods = dvc.load()
    rejects(m, mods)
    for i in range(m.n(120, 600)):
        if not m.time_left():
            break
        [steps, steps, launcher, steps, data][i % 5](m, mods)
