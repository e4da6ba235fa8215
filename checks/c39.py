"""The configurations shipped with the projects, composed and built by their launchers."""
import inspect
import os
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torch
from PIL import Image

from lib import conf, stubs
from lib.mon import REPO

PID = "C39"
RULE = ("case = one composition of a project's configuration files (one option per group, plus "
        "submission modes) built the way its launcher builds it; distinct by files used")
REQUIRED = ["compose", "launcher", "files-used", "illm-build", "illm-values", "illm-optimisers", "illm-gan",
            "illm-tests", "illm-data", "illm-hub", "illm-launch", "vct-model", "vct-optim",
            "vct-schedule", "vct-data", "vct-channels", "vct-launch", "dvc-stages", "dvc-values",
            "dvc-iframe", "bbd-setup", "bbd-values", "bbd-codec", "bbd-train"]
BUDGET = (40, 200)
P = os.path.join(REPO, "projects")
OWN = ("train", "utils", "encode", "compute_vlb", "data_module", "dvc_module", "_utils",
       "datamodules", "neural", "model_", "bits_back_diffusion", "image_module", "gan_",
       "target_compression", "open_images", "default_transforms")


def forget():
    """the projects use the same module names: start each from a clean slate"""
    for n in [n for n in sys.modules if n.startswith(OWN)]:
        del sys.modules[n]
    sys.path[:] = [p for p in sys.path if not p.startswith(P)]


def compose(m, root, name, choices=None, extra=(), seen=None):
    try:
        c = conf.Compose(root, name, choices, extra)
        cfg = c.resolve()
        for k, v in (c.cfg.get("hydra") or {}).items():
            try:
                c.value({k: v})
            except conf.Bad as e:
                if "hydra." not in str(e):
                    raise
    except (conf.Bad, Exception) as e:
        m.fail("compose", f"{name} {choices} {list(extra)}: {type(e).__name__}: {e}")
        return None
    m.check(True, "compose", "")
    if seen is not None:
        seen.update(c.used)
    return cfg


def launched(m, root, fn, name):
    """the launcher starts from this project's configuration"""
    path, cfg = getattr(fn, "hydra_main", (None, None))
    here = os.path.join(os.path.dirname(inspect.getfile(fn)), path or "")
    file = os.path.join(here, (cfg or "").removesuffix(".yaml") + ".yaml")
    want = os.path.join(root, name + ".yaml")
    m.check(os.path.isfile(file) and os.path.samefile(file, want), "launcher",
            f"{fn.__module__} starts from {path}/{cfg}, not {os.path.relpath(want, P)}")


def all_used(m, root, seen):
    have = {os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root)
            for f in fs if f.endswith(".yaml")}
    m.check(have <= seen, "files-used", f"never part of a composition: {sorted(have - seen)}")


def img(path, rng, size=(20, 24)):
    path.parent.mkdir(parents=True, exist_ok=True)
    Image.fromarray(rng.integers(0, 256, (*size, 3), dtype=np.uint8)).save(path)


# ---- illm -------------------------------------------------------------------------------------

def illm_project(m, tmp, rng):
    from lib import illm
    mods = illm.load()
    train = mods["train"]
    root = os.path.join(P, "illm", "conf")
    launched(m, root, train.main, "config")
    seen = set()
    groups = {g: conf.options(root, g) for g in (
        "distortion_loss", "optimizer", "rate_target", "data", "model", "trainer", "image_logs",
        "test_dataloaders", "discriminator", "latent_projector", "pretrained_autoencoder",
        "pretrained_latent_autoencoder")}
    plain = ("distortion_loss", "optimizer", "rate_target", "data", "model", "trainer",
             "image_logs", "test_dataloaders")
    added = ("discriminator", "latent_projector", "pretrained_latent_autoencoder",
             "pretrained_autoencoder")
    # one option of every group at a time, and all of the GAN's together
    runs = [({}, [])]
    for g in plain:
        runs += [({g: o}, []) for o in groups[g]]
    gan = [o for o in groups["optimizer"] if "disc" in o]
    for d in groups["discriminator"]:
        for lp in groups["latent_projector"]:
            for pl in groups["pretrained_latent_autoencoder"]:
                for pa in groups["pretrained_autoencoder"]:
                    for o in gan:
                        rt = m.rng.choice(groups["rate_target"])
                        runs.append(({"optimizer": o, "rate_target": rt,
                                      "distortion_loss": m.rng.choice(groups["distortion_loss"])},
                                     [("discriminator", d), ("latent_projector", lp),
                                      ("pretrained_latent_autoencoder", pl),
                                      ("pretrained_autoencoder", pa)]))
    import hubconf
    import neuralcompression.loss_fn as LF
    hubbed = []

    def hub_load(github, model, *a, **kw):
        hubbed.append((github, model))
        return Stand(model)

    class Stand(torch.nn.Module):
        def __init__(self, name):
            super().__init__()
            self.name = name
            self.w = torch.nn.Parameter(torch.zeros(1))
            self.encoder, self.bottleneck_op = torch.nn.Linear(1, 1), torch.nn.Linear(1, 1)
    real_hub, real_pre = torch.hub.load, train.pretrained_state_dict
    real_lpips = LF.MSELPIPSLoss
    torch.hub.load = hub_load

    def no_weights(cls):
        """constructor arguments are checked, the backbone is not downloaded"""
        sig = inspect.signature(cls.__init__)

        def make(*a, **kw):
            b = sig.bind(None, *a, **kw)
            s = Stand(cls.__name__)
            s.args = dict(b.arguments)
            return s
        return make
    LF.MSELPIPSLoss = no_weights(real_lpips)
    for extra in groups_of_modes(root):
        compose(m, root, "config", {}, [extra], seen)
    try:
        for choices, extra in runs:
            cfg = compose(m, root, "config", choices, extra, seen)
            if cfg is None:
                continue
            m.case(("illm", str(sorted(choices.items())), str(extra)))
            for k in ("pretrained_autoencoder", "pretrained_latent_autoencoder"):
                if cfg.get(k) is not None and "path" in cfg[k]:
                    m.check(cfg[k]["path"] is None, "compose", f"{k}: a path of somebody's")
                    del cfg[k]  # a path is the user's to fill in
            hubbed.clear()
            with torch.device("meta"):
                ok, mod = m.run("illm-build", train.build_module, cfg)
            if not ok:
                continue
            for gh, name in hubbed:
                m.check(gh == "facebookresearch/NeuralCompression" and
                        callable(getattr(hubconf, name, None)), "illm-hub", f"{gh} {name}")
            illm_values(m, cfg, mod, choices, dict(extra), hubbed, Stand)
        data = compose(m, root, "config", {})
        if data:
            illm_data(m, train, data, tmp, rng)
            illm_launch(m, train, data, tmp, 2)
        gan_cfg = compose(m, root, "config", {"optimizer": gan[0]}, [
            (g, groups[g][0]) for g in ("discriminator", "latent_projector")])
        if gan_cfg:
            m.case(("illm", "gan launch"))
            gan_cfg.data["open_images_root"] = str(tmp / "oi")
            illm_launch(m, train, gan_cfg, tmp, 3)
    finally:
        torch.hub.load, train.pretrained_state_dict = real_hub, real_pre
        LF.MSELPIPSLoss = real_lpips
    all_used(m, root, seen)


def groups_of_modes(root):
    return [("mode", o) for o in conf.options(root, "mode")]


def illm_values(m, cfg, mod, choices, extra, hubbed, Stand):
    t = mod.target_rate_config
    for f in ("target_bpp", "target_factors", "target_steps", "lam_levels", "lam2_factors",
              "lam2_steps"):
        v = getattr(t, f)
        m.check((list(v) if isinstance(v, (list, tuple)) else v) == cfg.rate_target[f],
                "illm-values", f"{f}: {v}, configured {cfg.rate_target[f]}")
    name = choices.get("rate_target", "")
    if name.startswith("target-"):
        m.check(t.target_bpp == float(name[7:]), "illm-values", f"{name}: {t.target_bpp}")
    m.check(mod.distortion_lam == cfg.lightning_module.distortion_lam and
            mod.gradient_clip_val == cfg.lightning_module.gradient_clip_val and
            mod.gradient_clip_algorithm == cfg.lightning_module.gradient_clip_algorithm,
            "illm-values", "module options")
    d = mod.distortion_loss
    if isinstance(d, Stand):
        m.check(d.args.get("mse_param") == 255.0 ** 2 and d.args.get("lpips_param") == 1.0 and
                d.args.get("backbone") == "alex" and d.args.get("normalize") is True,
                "illm-values", f"{d.args}")
    else:
        ok, got = m.run("illm-values", d, torch.zeros(1, 3, 2, 2), torch.full((1, 3, 2, 2), 0.5))
        m.check(ok and abs(float(got) - 0.25 * 255 ** 2) < 1e-2, "illm-values",
                "distortion is not on the 255 scale")
    if not isinstance(mod.model, Stand):
        a = mod.model
        m.check(type(a).__name__ == "HiFiCAutoencoder" and
                a.encoder.blocks[-1].weight.shape[0] == cfg.model.latent_features and
                a.hyper_analysis[0].weight.shape[0] == cfg.model.hyper_features and
                len(a.decoder.resid_blocks) == cfg.model.num_residual_blocks,
                "illm-values", "model sizes")
    else:
        m.check(mod.model.name == cfg.pretrained_autoencoder.torchhub.model, "illm-hub",
                f"{mod.model.name}")
        return
    n = 3 if "discriminator" in extra else 2
    ok, opts = m.run("illm-optimisers", mod.configure_optimizers)
    if not ok:
        return
    keys = ("model_opt", "discriminator_opt", "aux_opt") if n == 3 else ("model_opt", "aux_opt")
    lrs = sorted(o.defaults["lr"] for o in opts[0])
    want = {k: cfg.optimizer[k] for k in keys}
    m.check(len(opts[0]) == n and lrs == sorted(w.lr for w in want.values()), "illm-optimisers",
            f"learning rates {lrs}")
    for o in opts[0]:
        k = [k for k, w in want.items() if w.lr == o.defaults["lr"]]
        for f in ("weight_decay", "betas"):
            if k and f in want[k[0]]:
                v = o.defaults[f]
                m.check((list(v) if isinstance(v, tuple) else v) == want[k[0]][f],
                        "illm-optimisers", f"{k[0]} {f} {v}")
    if n == 3:
        D = mod.discriminator
        lp = cfg.latent_projector.autoencoder
        book = lp.bottleneck_op.child.child
        m.check(D.unet.conv_out.weight.shape[0] == book.codebook_size + 1
                if hasattr(D, "unet") and hasattr(D.unet, "conv_out") else
                cfg.discriminator.model.output_channels == book.codebook_size + 1, "illm-gan",
                "one class per code and one for fakes")
        m.check(cfg.discriminator.model.context_in == cfg.model.latent_features and
                cfg.discriminator.model.output_downsampling_factor == 2 ** (
                    len(lp.ch_mult) - 1) and book.vector_length ==
                lp.bottleneck_op.output_dim and lp.embed_dim == lp.bottleneck_op.input_dim,
                "illm-gan", "sizes do not fit each other")
        with torch.device("meta"):
            x, ctx = torch.zeros(1, 3, 256, 256), torch.zeros(
                1, cfg.model.latent_features, 16, 16)
            ok, out = m.run("illm-gan", D, x, ctx)
        if ok:
            m.check(tuple(out.shape) == (1, book.codebook_size + 1, 32, 32), "illm-gan",
                    f"{tuple(out.shape)}")
        proj = mod.latent_projector
        m.check(proj is not None and not proj.training and
                not any(p.requires_grad for p in proj.parameters()), "illm-gan", "projector")
        names = {h[1] for h in hubbed}
        if cfg.get("pretrained_latent_autoencoder"):
            m.check(cfg.pretrained_latent_autoencoder.torchhub.model in names, "illm-hub",
                    f"{names}")
        else:
            inner = [q for q in proj.children()][0] if list(proj.children()) else None
            m.check(inner is not None and sum(p.numel() for p in inner.parameters()) > 1e6,
                    "illm-gan", "projector holds no autoencoder")


def illm_data(m, train, cfg, tmp, rng):
    roots = {}
    for i in range(1, 25):
        img(tmp / "kodak" / f"kodim{i:02d}.png", rng)
    roots["kodak"] = tmp / "kodak"
    for s in ("train", "valid", "val", "test"):
        img(tmp / "clic" / "clic2020" / s / "a.png", rng, (8, 8) if s != "test" else (12, 14))
    roots["clic2020_test"] = tmp / "clic"
    for s in ("train", "valid"):
        img(tmp / "div2k" / f"DIV2K_{s}_HR" / "0801.png", rng, (9, 9) if s == "train" else (10, 16))
    roots["div2k_val"] = tmp / "div2k"
    td = cfg.test_dataloaders
    for v in td.values():
        m.check(v.name in roots and v.class_params.dataset.root is None, "illm-tests",
                f"data set {v.name}")
        v.class_params.dataset["root"] = str(roots.get(v.name, tmp))
        v.class_params["num_workers"] = 0
        if v.name == "kodak":
            v.class_params.dataset["check_hash"] = False  # not the published pictures
    m.case(("illm", "tests"))
    for k, v in td.items():
        d = v.class_params.dataset
        for f, wrong, right, key in (
                ("split", "test_fid", "test", "illm-test-split"),
                ("_target_", "neuralcompression.data.DiV2KDataset",
                 "neuralcompression.data.DIV2KDataset", "illm-test-div2k")):
            if d[f] == wrong if f in d else False:
                try:
                    train.build_test_dataloaders(stubs.Cfg(test_dataloaders={k: v}))
                except (ValueError, AttributeError) as e:
                    m.fail("illm-tests", f"{v.name}: {e}", key=key)
                    d[f] = right  # the rest of the entry is still judged
        ok, out = m.run("illm-tests", train.build_test_dataloaders, stubs.Cfg(
            test_dataloaders={k: v}))
        if not ok:
            continue
        names, loaders = out
        ok, b = m.run("illm-tests", lambda: list(loaders[0])[0])
        if not ok:
            continue
        want = {"kodak": (1, 3, 20, 24), "clic2020_test": (1, 3, 12, 14),
                "div2k_val": (1, 3, 10, 16)}.get(v.name)
        m.check(names == [v.name] and tuple(b.shape) == want and float(b.max()) <= 1.0 and
                len(loaders[0]) == (24 if v.name == "kodak" else 1), "illm-tests",
                f"{v.name}: {tuple(b.shape)} x {len(loaders[0])}")
    d = cfg.data
    m.check(d.open_images_root is None, "illm-data", "root")
    d["open_images_root"] = str(tmp / "oi")
    for s in ("train", "validation"):
        (tmp / "oi" / s).mkdir(parents=True)
        for i in range(3):
            img(tmp / "oi" / s / f"{i}.jpg", rng, (300, 280))
        (tmp / "oi" / f"list-{s}-files.txt").write_text("0.jpg\n1.jpg\n2.jpg\n")
    d["workers"] = 0
    ok, dm = m.run("illm-data", stubs.instantiate, d, val_batch_size=None)
    if ok:
        dm.pin_memory = False
        dm.setup()
        ok, b = m.run("illm-data", lambda: list(dm.train_dataloader())[0])
        m.check(ok and tuple(b.shape) == (3, 3, 256, 256), "illm-data", f"{tuple(b.shape)}")


def illm_launch(m, train, cfg, tmp, opts):
    """main() with the shipped defaults, up to the trainer, which counts every optimizer's steps"""
    here = os.getcwd()
    os.chdir(tmp)
    stubs.Trainer.made.clear()
    real = train.HAS_WANDB
    train.HAS_WANDB = False
    try:
        with torch.device("meta"):
            ok, _ = m.run("illm-launch", train.main, cfg)
        if ok:
            t = stubs.Trainer.made[-1]
            cb = [c.kw for c in t.kw["callbacks"] if "monitor" in getattr(c, "kw", {})]
            m.check(t.kw["max_steps"] == opts * cfg.max_steps and t.kw["devices"] == cfg.ngpu and
                    cb == [dict(cfg.checkpoint.callback)], "illm-launch", f"{t.kw}")
            m.check(getattr(t.kw["strategy"], "kw", {}).get("find_unused_parameters") is True,
                    "illm-launch", f"strategy {t.kw['strategy']}")
            m.check([c[0] for c in t.calls] == ["fit"] and
                    t.calls[0][2].get("ckpt_path") is None, "illm-launch", f"{t.calls}")
    finally:
        train.HAS_WANDB = real
        os.chdir(here)


# ---- torch_vct --------------------------------------------------------------------------------

class Lion(torch.optim.Optimizer):
    """the published optimiser's constructor"""

    def __init__(self, params, lr=1e-4, betas=(0.9, 0.99), weight_decay=0.0, use_triton=False):
        super().__init__(params, dict(lr=lr, betas=betas, weight_decay=weight_decay))

    def step(self, closure=None):
        pass


def vct_project(m, tmp, rng):
    sys.path.insert(0, os.path.join(P, "torch_vct"))
    from checks import c38
    mods = c38.load()
    stubs.module("lion_pytorch", Lion=Lion)
    root = os.path.join(P, "torch_vct", "config")
    seen = set()
    T = mods["model_train"]
    launched(m, root, T.main, "train_config")
    L = mods["model_lightning"]
    g = {k: conf.options(root, k) for k in ("analysis_transform", "synthesis_transform",
                                            "datamodule", "optim", "scheduler",
                                            "test_datamodule")}
    for extra in groups_of_modes(root):
        compose(m, root, "train_config", {}, [extra], seen)
    for a, s in zip(g["analysis_transform"], g["synthesis_transform"]):
        cfg = compose(m, root, "train_config", {"analysis_transform": a,
                                                "synthesis_transform": s}, (), seen)
        if cfg is None:
            continue
        m.case(("vct", a, s))
        ok, model = m.run("vct-model", stubs.instantiate, cfg.model)
        if not ok:
            continue
        m.check(type(model).__name__ == "VCTPipeline" and
                model.analysis_transform.compression_channels ==
                model.synthesis_transform.compression_channels ==
                cfg.model.compression_channels, "vct-channels", f"{a} {s}")
        x = torch.rand(1, 1, 3, 32, 32)
        with torch.no_grad():
            ok, y = m.run("vct-channels", model.analysis_transform, x)
            if ok:
                ok, z = m.run("vct-channels", model.synthesis_transform, y, x.shape)
                m.check(ok and z.shape == x.shape and tuple(y.shape) == (
                    1, 1, cfg.model.compression_channels, 2, 2), "vct-channels", "shapes")
    small = c38.Pipe()
    for o in g["optim"]:
        for s in g["scheduler"]:
            cfg = compose(m, root, "train_config", {"optim": o, "scheduler": s}, (), seen)
            if cfg is None:
                continue
            m.case(("vct", o, s))
            ok, mod = m.run("vct-optim", L.VCTModule, small, cfg=cfg)
            if not ok:
                continue
            ok, out = m.run("vct-optim", mod.configure_optimizers)
            if ok:
                vct_schedule(m, cfg, out, o, s)
    frames = {"vimeo": "datamodules.vimeo", "kinetics": "datamodules.kinetics"}
    for d in g["datamodule"]:
        for t in g["test_datamodule"] + [None]:
            cfg = compose(m, root, "train_config", {"datamodule": d, "test_datamodule": t}, (),
                          seen)
            if cfg is None:
                continue
            m.case(("vct", d, t))
            todo = conf.missing(cfg)
            m.check(set(todo) <= {"datamodule.data_dir", "test_datamodule.data_dir"}, "compose",
                    f"{todo}")
            for k in ("datamodule", "test_datamodule"):
                if cfg.get(k):
                    cfg[k]["data_dir"] = str(tmp)
                    ok, dm = m.run("vct-data", stubs.instantiate, cfg[k], pin_memory=False)
                    if ok:
                        for f in ("train_batch_size", "val_batch_size", "num_workers",
                                  "num_frames", "clip_duration", "video_num_subsampled"):
                            v = next((vars(dm)[q] for q in (f, "_" + f) if q in vars(dm)), None)
                            if v is not None and f in cfg[k]:
                                m.check(v == cfg[k][f], "vct-data", f"{d} {f}: {v}")
    vct_launch(m, T, root, tmp, c38)
    all_used(m, root, seen)
    return frames


def vct_schedule(m, cfg, out, o, s):
    opts, scheds = (out["optimizer"], out.get("lr_scheduler")) if isinstance(out, dict) else out
    opt = (opts[0] if isinstance(opts, (list, tuple)) else opts)
    sch = scheds[0] if isinstance(scheds, (list, tuple)) else scheds
    sch = sch["scheduler"] if isinstance(sch, dict) else sch
    top = cfg.training_loop.learning_rate
    m.check(isinstance(top, float) and opt.defaults["lr"] == top, "vct-optim",
            f"{o}: {opt.defaults['lr']}")
    if "weight_decay" in cfg.optim:
        m.check(opt.defaults["weight_decay"] == cfg.optim.weight_decay, "vct-optim", o)
    n = cfg.training_loop.pseudo_epochs
    m.check(n == 1_000_000 // 2000, "vct-schedule", f"{n} pseudo epochs")
    lrs = []
    for _ in range(n):
        lrs.append(opt.param_groups[0]["lr"])
        opt.step()
        sch.step()
    m.check(all(np.isfinite(lrs)) and 0 <= min(lrs) and max(lrs) <= top * (1 + 1e-9) and
            max(lrs) > 0.9 * top, "vct-schedule", f"{s}: rates within {min(lrs)}..{max(lrs)}")
    # the plain cosine's period is counted in steps, not in annealing events, and the ramp
    # alone ends at its top
    if s not in ("cosine", "linearramplinear"):
        m.check(lrs[-1] < 0.1 * top, "vct-schedule", f"{s}: ends at {lrs[-1]}")


def vct_launch(m, T, root, tmp, c38):
    cfg = compose(m, root, "train_config", {"test_datamodule": None})
    if cfg is None:
        return
    cfg["model"] = {"_target_": lambda: c38.Pipe()}
    cfg["datamodule"] = {"_target_": c38.Data}
    here = os.getcwd()
    work = tmp / "vct"
    work.mkdir()
    os.chdir(work)
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    seen = []
    real = stubs.Trainer.fit
    stubs.Trainer.fit = lambda self, *a, **kw: seen.append((self, kw))
    try:
        ok, _ = m.run("vct-launch", T.main, cfg)
        if ok:
            t, kw = seen[0]
            m.check({k: t.kw[k] for k in cfg.trainer} == dict(cfg.trainer) and
                    t.kw["max_steps"] == 1_000_000 and t.kw["val_check_interval"] == 2000 and
                    kw["ckpt_path"] is None and len(seen) == 1, "vct-launch", f"{t.kw}")
            mod = kw["model"]
            scale = getattr(mod, "_distortion_loss_scaling", 0.0067 * 255 ** 2)
            m.check(abs(scale - 0.0067 * 255 ** 2) < 1e-6 and
                    mod.lr_annealing_frequency == 2000, "vct-launch", "module options")
    finally:
        stubs.Trainer.fit = real
        sys.stdout.close()
        sys.stdout = so
        os.chdir(here)


# ---- deep video compression -------------------------------------------------------------------

def dvc_project(m, tmp, rng):
    from lib import dvc
    from checks import c37
    mods = dvc.load()
    import compressai.zoo
    zoo = {}

    def stand(name):
        def make(quality, pretrained=False, **kw):
            zoo[name] = (quality, pretrained)
            return dvc.IFrame(quality, pretrained, **kw)
        return make
    mods["dvc_module"].models = {k: stand(k) for k in compressai.zoo.models}
    root = os.path.join(P, "deep_video_compression", "config")
    launched(m, root, mods["train"].main, "base")
    seen = set()
    for extra in groups_of_modes(root):
        compose(m, root, "base", {}, [extra], seen)
    cfg = compose(m, root, "base", {}, (), seen)
    all_used(m, root, seen)
    if cfg is None:
        return
    m.case(("dvc", "base"))
    m.check(conf.missing(cfg) == ["data.data_dir"], "compose", f"{conf.missing(cfg)}")
    c37.vimeo(m, tmp / "vimeo", {"train": 2, "test": 2}, 256)
    cfg.data["data_dir"] = str(tmp / "vimeo")
    cfg.data["num_workers"] = 0
    cfg.logging["save_root"] = str(tmp / "dvc")
    calls = []
    real = stubs.Trainer.fit

    def fit(self, mod, *a, datamodule=None, **kw):
        calls.append((mod, self.kw, datamodule))
        ok, out = m.run("dvc-stages", mod.configure_optimizers)
        if ok:
            calls[-1] += (out,)
    stubs.Trainer.fit = fit
    here = os.getcwd()
    os.chdir(tmp)
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        ok, _ = m.run("dvc-stages", mods["train"].main, cfg)
    finally:
        sys.stdout.close()
        sys.stdout = so
        os.chdir(here)
        stubs.Trainer.fit = real
    if not ok:
        return
    names = [c[0].training_stage for c in calls]
    m.check(names == ["1_motion_estimation", "2_motion_compression", "3_motion_compensation",
                      "4_total_2frame", "5_total"], "dvc-stages", f"{names}")
    m.check(list(zoo) == [cfg.module.pretrained_model_name] and zoo[
        cfg.module.pretrained_model_name] == (cfg.module.pretrained_model_quality_level, True),
        "dvc-iframe", f"{zoo}")
    for (mod, kw, data, *opt), (key, st) in zip(calls, sorted(cfg.training_stages.items())):
        lam = st.module.get("distortion_lambda", cfg.module.distortion_lambda)
        m.check(mod.num_pframes == st.module.num_pframes and isinstance(
            mod.learning_rate, float) and mod.learning_rate == st.module.learning_rate == 1e-4 and
            mod.distortion_lambda == lam and mod.aux_learning_rate == 1e-3 and
            mod.training_stage == st.module.training_stage == key[1:], "dvc-values", f"{key}")
        m.check(kw["max_steps"] == st.trainer.max_steps and kw["gpus"] == cfg.ngpu,
                "dvc-values", f"{key}: {kw.get('max_steps')}")
        m.check(data.image_size == [256, 256] or tuple(data.image_size) == (256, 256),
                "dvc-values", "image size")
    m.check(calls[-1][0].num_pframes <= 6, "dvc-values", "more P-frames than a septuplet has")


# ---- bits-back diffusion ----------------------------------------------------------------------

def create_model(image_size, num_channels, num_res_blocks, learn_sigma, class_cond,
                 use_checkpoint, attention_resolutions, num_heads, num_heads_upsample,
                 use_scale_shift_norm, dropout):
    MADE["model"] = dict(locals())
    from checks import c14
    return c14.Net()


def load_data(*, data_dir, batch_size, image_size, class_cond=False, deterministic=False):
    MADE["data"] = dict(locals())
    MADE["data"]["out"] = iter(())
    return MADE["data"]["out"]


def create_named_schedule_sampler(name, diffusion):
    MADE["sampler"] = (name, diffusion)
    return "sampler"


MADE = {}


def bbd_project(m, tmp, rng):
    from lib import bbd
    mods = bbd.load()
    stubs.module("improved_diffusion.script_util", create_model=create_model)
    stubs.module("improved_diffusion.image_datasets", load_data=load_data)
    stubs.module("improved_diffusion.resample",
                 create_named_schedule_sampler=create_named_schedule_sampler)
    root = os.path.join(P, "bits_back_diffusion", "config")
    seen = set()
    su = mods["bits_back_diffusion.script_util"]
    here = os.getcwd()
    os.chdir(tmp)
    bbd.World.cwd = str(tmp)
    err = np.geterr()
    try:
        import sys as _s
        om = _s.modules["omegaconf"].OmegaConf
        m.check("divide_by_n_proc" in om.resolvers, "compose", "resolver not registered")
        for name in ("encode", "compute_vlb", "train"):
            launched(m, root, mods[name].main, name)
            for extra in groups_of_modes(root):
                compose(m, root, name, {}, [extra], seen)
            for d in conf.options(root, "data"):
                bbd.World.size = m.rng.choice([1, 2, 4])
                cfg = compose(m, root, name, {"data": d}, (), seen)
                if cfg is None:
                    continue
                m.case(("bbd", name, d))
                bbd_one(m, mods, su, cfg, name, d, tmp, bbd)
    finally:
        np.seterr(**err)
        os.chdir(here)
        bbd.World.size = 1
    all_used(m, root, seen)


def bbd_one(m, mods, su, cfg, name, d, tmp, bbd):
    from checks import c14
    MADE.clear()
    train = name == "train"
    if not train:
        f = tmp / cfg.evaluator.model_path
        f.parent.mkdir(parents=True, exist_ok=True)
        torch.save(c14.Net().state_dict(), f)
        m.check(cfg.evaluator.num_samples == {"cifar": 10000, "imagenet": 50000}[d] and
                d in cfg.evaluator.model_path and cfg.evaluator.clip_denoised is True,
                "bbd-values", f"{dict(cfg.evaluator)}")
    ok, out = m.run("bbd-setup", su.setup, cfg, train=train)
    if not ok:
        return
    net, diffusion, data = out
    size = {"cifar": 32, "imagenet": 64}[d]
    got = MADE["data"]
    kind = "train" if train else "valid"
    m.check(got["image_size"] == size and got["class_cond"] is False and
            got["deterministic"] is (not train) and f"{kind}_{size}x{size}" in got["data_dir"] and
            os.path.isabs(got["data_dir"]) and
            got["batch_size"] == (128 // bbd.World.size if train else 250), "bbd-values",
            f"{name} {d}: {got}")
    mod = MADE["model"]
    m.check(mod["image_size"] == size and mod["learn_sigma"] is True and
            mod["dropout"] == {"cifar": 0.3, "imagenet": 0.0}[d] and mod["num_channels"] == 128 and
            mod["num_res_blocks"] == 3 and mod["attention_resolutions"] == "16,8" and
            mod["num_heads"] == 4, "bbd-values", f"{mod}")
    m.check(diffusion.num_timesteps == (4000 if train else 100), "bbd-values",
            f"{diffusion.num_timesteps} steps")
    if name == "encode":
        ok, codec = m.run("bbd-codec", sys.modules["hydra.utils"].instantiate, cfg.codec,
                          model=dict(model=net, diffusion=diffusion, clip_denoised=cfg.evaluator
                                     .clip_denoised))
        if ok:
            m.check(tuple(cfg.codec.data_shape) == (250, 3, size, size) and
                    isinstance(cfg.codec.clip_stdd, float) and codec.latent_prec == 18 and
                    codec.obs_prec == 24 and codec.prior_prec == 10 and codec.data_prec == 8,
                    "bbd-codec", f"{cfg.codec.data_shape}")
        m.check(cfg.encode_checkpoint is None and cfg.decode_checkpoint is None and
                cfg.check is True and cfg.save_interval == 5000, "bbd-values", "encode options")
    if train:
        calls = []
        su.TrainLoop.run_loop = lambda self: calls.append(self)
        ok, _ = m.run("bbd-train", mods["train"].main, cfg)
        m.check(ok and len(calls) == 1 and MADE["sampler"][0] == "loss-second-moment",
                "bbd-train", f"{MADE.get('sampler')}")
        if ok and calls:
            kw = calls[0].kw
            last = MADE["data"]["out"]
            m.check(isinstance(calls[0].model, c14.Net) and kw.get("data") is last and
                    kw.get("diffusion") is MADE["sampler"][1] and
                    kw["diffusion"].num_timesteps == 4000, "bbd-train",
                    "the loop got another model, diffusion or loader than setup made")
            m.check(isinstance(kw["lr"], float) and kw["lr"] == 1e-4 and
                    kw["batch_size"] == 128 // bbd.World.size and kw["microbatch"] == -1 and
                    kw["schedule_sampler"] == "sampler" and calls[0].ema_rate == [0.9999],
                    "bbd-train", f"{kw}")


def run(m):
    m.seed_torch(0)
    import torch._dynamo  # noqa: F401  (imported before the stand-ins)
    sys.path.insert(0, REPO)
    for rep in range(m.n(1, 4)):
        for project in (illm_project, vct_project, dvc_project, bbd_project):
            tmp = Path(tempfile.mkdtemp(prefix="vp_c39_"))
            rng = np.random.default_rng(m.rng.getrandbits(32))
            forget()
            try:
                project(m, tmp, rng)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        if not m.time_left():
            break
