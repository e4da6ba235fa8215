"""ILLM training steps against an independent re-computation on twins."""
import copy
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

from lib import illm, stubs

PID = "C35"
RULE = ("case = one rate-loss evaluation or one training run of several steps of one "
        "configuration (module, clipping, schedules, discriminator, Monte-Carlo split, "
        "projector); distinct by configuration and sizes")
REQUIRED = ["rate-value", "rate-fields", "rate-schedule", "rate-per-image", "rate-gradient",
            "rate-detached", "train-params", "train-logs", "train-own-params", "gan-params",
            "gan-logs", "gan-own-params", "gan-split", "gan-context", "gan-frozen",
            "schedulers", "optimizers", "batch-untouched", "real-model"]
BUDGET = (30, 200)


def pick(base, factors, steps, step):
    """First interval whose end lies after the step; the last factor afterwards."""
    for f, s in zip(factors, steps):
        if step < s:
            return base * f
    return base * factors[-1]


def bits(p):
    return -torch.log2(p.double()).flatten(1).sum(1)


def rate_ref(cfg, step, shape, lat, qlat, hyp, qhyp):
    n = shape[-2] * shape[-1]
    t = pick(cfg.target_bpp, cfg.target_factors, cfg.target_steps, step)
    l2 = pick(cfg.lam_levels[1], cfg.lam2_factors, cfg.lam2_steps, step)
    total = (bits(lat) + bits(hyp)) / n
    q = (bits(qlat) + bits(qhyp)) / n
    lam = torch.where(q > t, torch.tensor(l2, dtype=torch.float64),
                      torch.tensor(cfg.lam_levels[0], dtype=torch.float64))
    return dict(rate_loss=(lam * total).mean(), total_bpp=total.mean(),
                quantized_total_bpp=q.mean(), latent_bpp=(bits(lat) / n).mean(),
                quantized_latent_bpp=(bits(qlat) / n).mean(), hyper_bpp=(bits(hyp) / n).mean(),
                quantized_hyper_bpp=(bits(qhyp) / n).mean(), target=t, lam2=l2), (q - t).abs().min()


class Distortion(nn.Module):
    """Not symmetric, so that exchanged arguments show."""

    def forward(self, a, b):
        return (a - b).square().mean() + 0.3 * (a * b).mean() + 0.05 * a.mean()


class Tap(nn.Module):
    """Stands for the latent projector: integer classes of a coarse grid."""

    def __init__(self, k):
        super().__init__()
        self.k = k
        self.w = nn.Parameter(torch.ones(1))
        self.calls = []

    def forward(self, x):
        self.calls.append((x.detach().clone(), torch.is_grad_enabled()))
        return (F.avg_pool2d(x, 4).mean(1, keepdim=True) * 0.999 * self.k * self.w).long()


def near(a, b, rtol=2e-4, atol=2e-6):
    a, b = torch.as_tensor(a).double(), torch.as_tensor(b).double()
    return a.shape == b.shape and bool(torch.allclose(a, b, rtol=rtol, atol=atol))


def config(m, TargetRateConfig):
    r = m.rng
    n1, n2 = r.choice([0, 1, 3]), r.choice([0, 1, 2])
    pool = r.sample([2, 3, 5, 8, 20, 1000], 3)
    return TargetRateConfig(
        target_bpp=r.choice([0.05, 0.25, 0.6, 2.0]),
        target_factors=[r.choice([1.0, 1.4, 0.5, 3.0]) for _ in range(n1 + 1)],
        target_steps=sorted(pool)[:n1],
        lam_levels=(r.choice([0.05, 2.0 ** -3]), r.choice([1.0, 8.0])),
        lam2_factors=[r.choice([1.0, 0.5, 2.5]) for _ in range(n2 + 1)],
        lam2_steps=sorted(r.sample([1, 4, 6, 500], 2))[:n2])


def opt_config(m, disc):
    r = m.rng

    def one():
        kind = r.choice(["sgd", "adam"])
        return ({"_target_": "torch.optim.SGD", "lr": r.choice([0.05, 0.2]),
                 "momentum": r.choice([0.0, 0.9])} if kind == "sgd" else
                {"_target_": "torch.optim.Adam", "lr": 0.01, "eps": 0.01})

    def sched():
        return r.choice([
            {"_target_": "neuralcompression.optim.IdentitySchedule"},
            {"_target_": "neuralcompression.optim.RampCosineLRSchedule", "num_ramp_steps": 2,
             "num_max_steps": 12},
            {"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 1, "gamma": 0.7}])
    c = dict(model_opt=one(), model_opt_schedule=sched(), aux_opt=one(), aux_opt_schedule=sched())
    if disc:
        c.update(discriminator_opt=one(), discriminator_opt_schedule=sched())
    return stubs.Cfg(c)


def wire(m, mod, step):
    ok, out = m.run("optimizers", mod.configure_optimizers)
    if not ok:
        return False
    opts, scheds = out
    mod._opts, mod._scheds = list(opts), list(scheds)
    mod.trainer = stubs.Trainer()
    mod.trainer.global_step = step
    return True


def params_of(opt):
    return [p for g in opt.param_groups for p in g["params"]]


def check_groups(m, mod, disc):
    """Optimisers share nothing and together hold every trainable parameter."""
    quant = [p for n, p in mod.model.named_parameters() if n.endswith("quantiles")]
    rest = [p for n, p in mod.model.named_parameters() if not n.endswith("quantiles")]
    want = [rest] + ([list(disc.parameters())] if disc is not None else []) + \
        ([quant] if quant or disc is None else [])
    got = [params_of(o) for o in mod._opts]
    same = len(got) == len(want) and all({id(p) for p in a} == {id(p) for p in b} and
                                         len(a) == len(b) for a, b in zip(got, want))
    m.check(same, "optimizers", f"{[len(g) for g in got]} want {[len(w) for w in want]}")
    m.check(len(mod._scheds) == len(mod._opts) and all(
        s.optimizer is o for s, o in zip(mod._scheds, mod._opts)), "optimizers", "schedules")
    return same


def twin_optim(mod, cfg, model, disc):
    groups = [[p for n, p in model.named_parameters() if not n.endswith("quantiles")]]
    names = ["model"]
    if disc is not None:
        groups.append(list(disc.parameters()))
        names.append("discriminator")
    groups.append([p for n, p in model.named_parameters() if n.endswith("quantiles")])
    names.append("aux")
    out = {}
    for n, g in zip(names, groups):
        if not g:
            continue
        o = stubs.instantiate(cfg[n + "_opt"], params=g)
        out[n] = (o, stubs.instantiate(cfg[n + "_opt_schedule"], optimizer=o), g)
    return out


def clip(params, val, alg):
    params = [p for p in params if p.grad is not None]
    if val is None:
        return
    if alg == "norm":
        total = torch.stack([p.grad.norm() for p in params]).norm()
        f = min(1.0, float(val / (total + 1e-6)))
        for p in params:
            p.grad.mul_(f)
    else:
        for p in params:
            p.grad.clamp_(-val, val)


def apply(t, name, loss, clipping):
    o, s, g = t[name]
    grads = torch.autograd.grad(loss, g, allow_unused=True)
    for p, q in zip(g, grads):
        p.grad = None if q is None else q.clone()
    clip(g, *clipping)
    o.step()
    s.step()


def rate_of(cfg, step, images, out):
    ref, margin = rate_ref(cfg, step, images.shape, out.latent_likelihoods,
                           out.quantized_latent_likelihoods, out.hyper_latent_likelihoods,
                           out.quantized_hyper_latent_likelihoods)
    return ref, margin


def compare(m, oracle, mod, model, disc, what):
    pairs = [("model", mod.model, model)] + ([("disc", mod.discriminator, disc)] if disc else [])
    for nm, a, b in pairs:
        bad = [n for (n, p), q in zip(a.named_parameters(), b.parameters())
               if not near(p, q, 1e-3, 2e-5)]
        m.check(not bad, oracle, f"{what}: {nm} {bad}")


def logged(m, oracle, mod, want, what):
    got = {}
    for k, v in mod.drain():
        got[k] = v
    for k, v in want.items():
        if k not in got:
            m.fail(oracle, f"{what}: {k} is not logged")
            continue
        m.check(near(got[k], v, 1e-3, 1e-5), oracle, f"{what}: {k} {got[k]} want {float(v)}")


def batch_of(m, n, h=16, w=24):
    g = torch.Generator().manual_seed(m.rng.randrange(2**31))
    x = torch.rand(n, 3, h, w, generator=g)
    return x * torch.linspace(0.2, 1.0, n).view(-1, 1, 1, 1)


def rates(m, mods):
    from neuralcompression.loss_fn import MSELoss, TargetRateConfig
    r = m.rng
    T = mods["target_compression_module"].TargetRateCompressionModule
    Toy = illm.toy_class()
    m.seed_torch()
    mod = T(Toy(), config(m, TargetRateConfig), stubs.Cfg())
    mod.trainer = stubs.Trainer()
    for _ in range(6):
        mod.target_rate_config = cfg = config(m, TargetRateConfig)
        edges = cfg.target_steps + cfg.lam2_steps
        step = r.choice(edges) + r.choice([-1, 0, 1]) if edges and r.random() < 0.7 else \
            r.choice([0, 7, 10 ** 6])
        mod.trainer.global_step = step
        b = r.choice([1, 2, 5, 12])
        h, w = r.choice([(16, 16), (7, 13), (64, 32), (130, 260)])
        g = torch.Generator().manual_seed(r.randrange(2**31))

        def lik(c, s):
            k = r.choice([1.0, 6.0, 0.2])
            return (torch.rand(b, c, s, s + 1, generator=g) ** k).clamp_min(1e-9).requires_grad_()
        ls = [lik(3, 4), lik(3, 4), lik(2, 2), lik(2, 2)]
        # spread the images on both sides of the target
        with torch.no_grad():
            ls[1] *= 0
            ls[1] += torch.linspace(0.05, 1, b).view(-1, 1, 1, 1)
        image = torch.zeros(b, 3, h, w)
        ref, margin = rate_ref(cfg, step, image.shape, *ls)
        m.case(("rate", b, h, w, len(cfg.target_steps), len(cfg.lam2_steps), step), True)
        if margin < 1e-5:
            m.event("rate-tie-skipped")
            continue
        ok, out = m.run("rate-value", mod.rate_loss, original=image, latent_likelihoods=ls[0],
                        quantized_latent_likelihoods=ls[1], hyper_latent_likelihoods=ls[2],
                        quantized_hyper_latent_likelihoods=ls[3])
        if not ok:
            return
        for k, v in ref.items():
            oracle = {"rate_loss": "rate-value", "target": "rate-schedule",
                      "lam2": "rate-schedule"}.get(k, "rate-fields")
            m.check(near(getattr(out, k), v, 1e-4), oracle,
                    f"step {step}: {k} {getattr(out, k)} want {float(v)}")
        m.check(all(not getattr(out, k).requires_grad for k in ref
                    if k not in ("rate_loss", "target", "lam2")), "rate-detached", "bpp fields")
        grads = torch.autograd.grad(out.rate_loss, ls, allow_unused=True)
        want = torch.autograd.grad(ref["rate_loss"], ls, allow_unused=True)
        for i, (a, q) in enumerate(zip(grads, want)):
            zero = a is None or not bool(a.abs().sum())
            m.check(zero if i in (1, 3) or q is None else a is not None and near(a, q, 1e-3),
                    "rate-gradient", f"likelihood {i}")
    # exactly on the target: the lower weight
    for total in (7, 8, 9):
        h = w = 4
        cfg = TargetRateConfig(0.5, [1.0], [], (0.25, 4.0), [1.0], [])
        mod.target_rate_config = cfg
        q = torch.full((1, 1, 1, total), 0.5)
        p = torch.full((1, 1, 1, 16), 0.5)
        one = torch.ones(1, 1, 1, 1)
        m.case(("rate-edge", total), True)
        ok, out = m.run("rate-per-image", mod.rate_loss, torch.zeros(1, 3, h, w), p, q, one, one)
        if ok:
            m.check(near(out.rate_loss, (4.0 if total > 8 else 0.25)), "rate-per-image",
                    f"{total / 16} bpp against 0.5: {out.rate_loss}")
    # two images on different sides are weighted separately
    cfg = TargetRateConfig(0.5, [1.0], [], (0.25, 4.0), [1.0], [])
    mod.target_rate_config = cfg
    q = torch.ones(2, 1, 1, 16)
    q[1] = 0.5
    p = torch.full((2, 1, 1, 16), 0.5)
    ok, out = m.run("rate-per-image", mod.rate_loss, torch.zeros(2, 3, 4, 4), p, q,
                    torch.ones(2, 1), torch.ones(2, 1))
    if ok:
        m.check(near(out.rate_loss, (0.25 + 4.0) / 2), "rate-per-image", f"{out.rate_loss}")


def plain(m, mods):
    from neuralcompression.loss_fn import MSELoss, TargetRateConfig
    r = m.rng
    T = mods["target_compression_module"].TargetRateCompressionModule
    Toy = illm.toy_class()
    m.seed_torch()
    model = Toy(spread=r.choice([0.7, 2.0]))
    twin = copy.deepcopy(model)
    cfg, ocfg = config(m, TargetRateConfig), opt_config(m, False)
    val, alg = r.choice([(None, "norm"), (0.02, "norm"), (0.001, "value"), (100.0, "norm")])
    lam = r.choice([1.0, 3.0])
    dist = Distortion() if r.random() < 0.8 else None
    kw = dict(distortion_loss=dist) if dist else {}
    mod = T(model, cfg, ocfg, distortion_lam=lam, gradient_clip_val=val,
            gradient_clip_algorithm=alg, **kw)
    step = r.choice([0, 3, 999])
    if not wire(m, mod, step) or not check_groups(m, mod, None):
        return
    t = twin_optim(mod, ocfg, twin, None)
    n = r.choice([1, 2, 3, 3, 9])
    m.case(("train", val, alg, lam, n, dist is None, ocfg.model_opt._target_), True)
    for k in range(4):
        x = batch_of(m, n)
        keep = x.clone()
        mod.trainer.global_step = step + k
        before = {i: p.detach().clone() for i, p in mod.model.named_parameters()}
        was = twin.enc.weight.detach().clone()
        ok, _ = m.run("train-params", mod.training_step, x, k)
        if not ok:
            return
        m.check(torch.equal(x, keep), "batch-untouched", "batch")
        out = twin(x)
        d = (dist or MSELoss())(out.image, x)
        ref, margin = rate_of(cfg, step + k, x, out)
        if margin < 1e-4:
            m.event("train-tie-skipped")
            return
        loss = lam * d + ref["rate_loss"].float()
        apply(t, "model", loss, (val, alg))
        ql = twin.hyper_bottleneck.loss()
        apply(t, "aux", ql, (None, None))
        compare(m, "train-params", mod, twin, None, f"step {k}")
        logged(m, "train-logs", mod, {
            "train/total_loss": loss, "train/distortion_loss": d,
            "train/rate_loss": ref["rate_loss"], "train/noisy_total_bpp": ref["total_bpp"],
            "train/quantized_total_bpp": ref["quantized_total_bpp"],
            "train/noisy_hyper_bpp": ref["hyper_bpp"],
            "train/quantized_hyper_bpp": ref["quantized_hyper_bpp"],
            "train/noisy_latent_bpp": ref["latent_bpp"],
            "train/quantized_latent_bpp": ref["quantized_latent_bpp"],
            "train/target": ref["target"], "train/lam2": ref["lam2"],
            "train/quantile_loss": ql}, f"step {k}")
        for a, (b, s, _) in zip(mod._opts, t.values()):
            m.check(near([g["lr"] for g in a.param_groups], [g["lr"] for g in b.param_groups]),
                    "schedulers", f"step {k}")
        moved = {i for i, p in mod.model.named_parameters() if not torch.equal(p, before[i])}
        if float((twin.enc.weight - was).detach().abs().max()) > 1e-6:
            m.check("enc.weight" in moved, "train-own-params", f"{moved}")


def gan(m, mods):
    from neuralcompression import loss_fn
    r = m.rng
    G = mods["gan_compression_module"].GANCompressionModule
    Toy = illm.toy_class()
    m.seed_torch()
    cond, mc, proj = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
    has_q = r.random() < 0.7
    model = Toy(spread=r.choice([0.7, 2.0]), quantiles=has_q)
    k = r.choice([1, 3])
    disc = illm.Disc(cond, out=k + 1 if proj else 1)
    tap = Tap(k) if proj else None
    dl, gl = (loss_fn.OASISDiscriminatorLoss(), loss_fn.OASISGeneratorLoss()) if proj else \
        (loss_fn.BinaryCrossentropyDiscriminatorLoss(),
         loss_fn.BinaryCrossentropyGeneratorLoss())
    twin, tdisc = copy.deepcopy(model), copy.deepcopy(disc)
    cfg, ocfg = config(m, loss_fn.TargetRateConfig), opt_config(m, True)
    val, alg = r.choice([(None, "norm"), (0.02, "norm"), (0.001, "value")])
    lam, gw = r.choice([1.0, 3.0]), r.choice([1.0, 0.15])
    dist = Distortion()
    kw = {} if mc and r.random() < 0.5 else dict(mc_sampling=mc)
    mod = G(model, cfg, disc, dl, gl, ocfg, distortion_lam=lam, distortion_loss=dist,
            latent_projector=tap, generator_weight=gw, gradient_clip_val=val,
            gradient_clip_algorithm=alg, **kw)
    step = r.choice([0, 3, 999])
    if not wire(m, mod, step) or not check_groups(m, mod, disc):
        return
    t = twin_optim(mod, ocfg, twin, tdisc)
    n = r.choice([2, 3, 4, 5, 11]) if mc else r.choice([1, 2, 3, 8])
    m.case(("gan", cond, mc, proj, has_q, val, alg, n), True)
    frozen = {i: p.detach().clone() for i, p in tap.named_parameters()} if tap else {}

    def show(D, image, ctx):
        return D(image, ctx) if cond else D(image)
    for i in range(4):
        x = batch_of(m, n)
        keep = x.clone()
        mod.trainer.global_step = step + i
        model.calls.clear()
        disc.calls.clear()
        if tap:
            tap.calls.clear()
        ok, _ = m.run("gan-params", mod.training_step, x, i)
        if not ok:
            return
        m.check(torch.equal(x, keep), "batch-untouched", "batch")
        half = n // 2
        mine, real = (x[:half], x[half:2 * half]) if mc else (x, x)
        one = torch.tensor(1)
        if tap:
            shown = [c for c, _ in tap.calls]
            m.check(len(shown) >= 1 and all(any(torch.equal(c, q) for q in (mine, real))
                                            for c in shown), "gan-split", "projector input")
            ft, rt = Tap(k)(mine), Tap(k)(real)
        else:
            ft = rt = one
        # generator
        out = twin(mine)
        d = dist(out.image, mine)
        g = gl(show(tdisc, out.image, out.latent.detach()), ft)
        ref, margin = rate_of(cfg, step + i, mine, out)
        if margin < 1e-4:
            m.event("train-tie-skipped")
            return
        loss = lam * d + ref["rate_loss"].float() + gw * g
        apply(t, "model", loss, (val, alg))
        # discriminator: with the split, the context of the real images is computed by the
        # updated model
        if mc:
            with torch.no_grad():
                other = twin(real)
        else:
            other = out
        fake = show(tdisc, out.image.detach(), out.latent.detach())
        true = show(tdisc, real, other.latent.detach())
        dloss = dl(real_logits=true, fake_logits=fake, target=rt)
        apply(t, "discriminator", dloss, (val, alg))
        ql = 0.0
        if has_q:
            ql = twin.hyper_bottleneck.loss()
            apply(t, "aux", ql, (None, None))
        compare(m, "gan-params", mod, twin, tdisc, f"step {i} cond={cond} mc={mc} proj={proj}")
        logged(m, "gan-logs", mod, {
            "train/total_model_loss": loss, "train/distortion_loss": d,
            "train/rate_loss": ref["rate_loss"], "train/generator_loss": g,
            "train/discriminator_loss": dloss, "train/noisy_total_bpp": ref["total_bpp"],
            "train/quantized_total_bpp": ref["quantized_total_bpp"],
            "train/noisy_hyper_bpp": ref["hyper_bpp"],
            "train/quantized_hyper_bpp": ref["quantized_hyper_bpp"],
            "train/noisy_latent_bpp": ref["latent_bpp"],
            "train/quantized_latent_bpp": ref["quantized_latent_bpp"],
            "train/target": ref["target"], "train/lam2": ref["lam2"],
            "train/quantile_loss": ql}, f"step {i}")
        for a, (b, s, _) in zip(mod._opts, t.values()):
            m.check(near([q["lr"] for q in a.param_groups], [q["lr"] for q in b.param_groups]),
                    "schedulers", f"gan step {i}")
        seen = [c for c in model.calls if c[0] == "forward"]
        m.check(seen[0][1][0] == len(mine) and all(c[1][0] in (len(mine), len(real))
                                                   for c in seen), "gan-split", f"{seen}")
        # nothing shown to the discriminator lets its loss reach the model through the context
        m.check(all(not any(c[2]) for c in disc.calls), "gan-context", f"{disc.calls}")
        m.check(all(near(q, dict(tap.named_parameters())[z]) and
                    dict(tap.named_parameters())[z].grad is None for z, q in frozen.items()),
                "gan-frozen", "projector")
        moved = any(p.grad is not None and bool(p.grad.abs().sum()) for p in disc.parameters())
        m.check(moved, "gan-own-params", "the discriminator got no gradient")


def real(m, mods):
    """The library's own networks under the same modules: only what an optimiser owns moves."""
    from neuralcompression import loss_fn
    from neuralcompression.models import (ConditionalUnetDiscriminator, HiFiCAutoencoder,
                                          UnetDiscriminator)
    r = m.rng
    m.seed_torch()
    cond = r.random() < 0.5
    freeze = r.random() < 0.5
    kw = dict(freeze_encoder=True, freeze_bottleneck=True) if freeze else {}
    model = HiFiCAutoencoder(latent_features=4, hyper_features=3, num_residual_blocks=0, **kw)
    disc = (ConditionalUnetDiscriminator(1, 2, context_in=4, context_out=2, chans=[5, 4, 6])
            if cond else UnetDiscriminator(1, 2, chans=[3, 4, 6]))
    G = mods["gan_compression_module"].GANCompressionModule
    one = {"_target_": "torch.optim.SGD", "lr": 1e-3}
    ids = {"_target_": "neuralcompression.optim.IdentitySchedule"}
    ocfg = stubs.Cfg(model_opt=one, model_opt_schedule=ids, aux_opt=one, aux_opt_schedule=ids,
                     discriminator_opt=one, discriminator_opt_schedule=ids)
    mod = G(model, config(m, loss_fn.TargetRateConfig), disc,
            loss_fn.BinaryCrossentropyDiscriminatorLoss(),
            loss_fn.BinaryCrossentropyGeneratorLoss(), ocfg, gradient_clip_val=1.0)
    trainable = {n for n, p in model.named_parameters() if p.requires_grad}
    frozen = {n: p.detach().clone() for n, p in model.named_parameters() if not p.requires_grad}
    m.case(("real", cond, freeze), True)
    if not wire(m, mod, 0):
        return
    owned = {id(p) for o in mod._opts for p in params_of(o)}
    m.check({n for n, p in model.named_parameters() if id(p) in owned} == trainable,
            "optimizers", "trainable parameters of HiFiC")
    before = {n: p.detach().clone() for n, p in mod.named_parameters()}
    for i in range(2):
        ok, _ = m.run("real-model", mod.training_step, batch_of(m, 2, 64, 64), i)
        if not ok:
            return
    after = dict(mod.named_parameters())
    m.check(all(torch.equal(after["model." + n], q) for n, q in frozen.items()), "real-model",
            "frozen parameters moved")
    m.check(all(torch.isfinite(p).all() for p in after.values()), "real-model", "not finite")
    still = [n for n in before if torch.equal(before[n], after[n]) and
             n[6:] not in frozen and ".matrix" not in n and "_bias" not in n and "factor" not in n
             and ".bias" not in n]
    m.check(len(still) <= len(before) // 4, "real-model", f"did not move: {still}")


def run(m):
    mods = illm.load()
    for i in range(m.n(300, 900)):
        if not m.time_left():
            break
        [rates, plain, gan, gan][i % 4](m, mods)
        if i % 20 == 3:
            real(m, mods)
