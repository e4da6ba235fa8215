"""HiFiC forward: quantisation semantics, likelihoods, and rate = bitstream length."""
import torch

from lib import hific

PID = "C03"
RULE = ("case = one (model, batch, mode) evaluation, mode in {eval, train, train with frozen "
        "bottleneck}; non-trivial when rounded latents take >= 3 distinct values; distinct "
        "by (shape, config, mode, image kind)")
REQUIRED = ["eval-latent", "eval-image", "gauss-likelihood", "hyper-likelihood",
            "rate-vs-bits", "rate-tight", "train-ste", "ste-gradient", "likelihood-range",
            "noise-bounds", "quantized-likelihood"]
BUDGET = (32, 240)


def tails(t):
    return bool(((t > 0) & (t <= 1.0 + 1e-6)).all()) and bool(torch.isfinite(t).all())


def eval_case(m, model, cfg, x, kind):
    ref = hific.Ref(model, x, pad=False)
    med = hific.medians(model)
    tie = ref.near_tie(med)
    m.case((tuple(x.shape), cfg, "eval", kind), len(torch.unique(ref.sym)) >= 3)
    model.eval()
    with torch.no_grad():
        ok, o = m.run("forward-runs", model, x)
        ok2, o2 = m.run("forward-runs", model, x)
    if not (ok and ok2):
        return
    m.close(o2.image, o.image, "eval-deterministic", "eval forward is not deterministic")
    m.check(tuple(o.image.shape) == tuple(x.shape), "shape", str(tuple(o.image.shape)))
    for name in ("latent_likelihoods", "quantized_latent_likelihoods",
                 "hyper_latent_likelihoods", "quantized_hyper_latent_likelihoods"):
        m.check(tails(getattr(o, name)), "likelihood-range", f"{name} outside (0, 1]")
    if tie:
        m.event("skipped-near-tie")
        return
    m.close(o.hyper_latent, ref.z_hat, "eval-hyper-latent",
            "hyper latent is not the rounded one", atol=1e-3)
    m.close(o.latent, ref.y_hat, "eval-latent", "latent is not the rounded one", atol=2e-3)
    m.close(o.image, ref.full, "eval-image", "image is not the decoded rounded latent",
            rtol=2e-3, atol=2e-3)
    g = ref.gauss_likelihood()
    m.close(o.latent_likelihoods, g, "gauss-likelihood", "eval latent likelihoods",
            rtol=2e-2, atol=2e-6)
    m.close(o.quantized_latent_likelihoods, g, "quantized-likelihood",
            "quantized latent likelihoods", rtol=2e-2, atol=2e-6)
    with torch.no_grad():
        _, hl = model.hyper_bottleneck(ref.z, training=False)
    m.close(o.hyper_latent_likelihoods, hl, "hyper-likelihood", "eval hyper likelihoods",
            rtol=1e-2, atol=1e-6)
    m.close(o.quantized_hyper_latent_likelihoods, hl, "hyper-likelihood",
            "quantized hyper likelihoods", rtol=1e-2, atol=1e-6)
    # rate: what forward reports is what the coder spends
    with torch.no_grad():
        c = model.compress(x)
    for i in range(len(x)):
        for strings, like, nm in ((c.latent_strings, o.quantized_latent_likelihoods, "latent"),
                                  (c.hyper_latent_strings,
                                   o.quantized_hyper_latent_likelihoods, "hyper")):
            bits = -torch.log2(like[i].double())
            est = float(bits.sum())
            got = 8.0 * len(strings[i])
            n = like[i].numel()
            # the 16-bit coder never spends much less than 16 bits on a very rare symbol
            lo = float(bits.clamp_max(15.0).sum()) * 0.93 - 0.02 * n - 40
            hi = est * 1.35 + 0.4 * n + 140
            m.check(lo <= got <= hi, "rate-vs-bits",
                    f"{nm}: estimated {est:.1f} bits, coder spent {got} bits for {n} symbols",
                    {"est": est, "got": got, "n": n})
            if float(bits.max()) < 13.0 and nm == "latent":
                m.check(0.95 * est - 48 <= got <= 1.06 * est + 0.02 * n + 100,
                        "rate-tight", f"{nm}: estimated {est:.1f} bits, spent {got} "
                        f"for {n} symbols", {"est": est, "got": got, "n": n})
            m.extra.setdefault("rate_pairs", [])
            if len(m.extra["rate_pairs"]) < 12:
                m.extra["rate_pairs"].append([nm, round(est, 1), got, n])


def train_case(m, model, cfg, x, kind, frozen):
    mode = "train-frozen" if frozen else "train"
    m.case((tuple(x.shape), cfg, mode, kind))
    model.train()
    grads = {}
    cap = {}

    def enc_hook(_mod, _in, out):
        out = out.detach().requires_grad_(True)
        cap["y"] = out
        return out

    def dec_hook(_mod, args):
        cap["dec_in"] = args[0]

    def mean_hook(_m, _i, out):
        cap["mu"] = out.detach()

    def sc_hook(_m, _i, out):
        cap["sigma"] = out.detach()

    def ha_hook(_m, _i, out):
        cap["z"] = out.detach()

    hs = [model.encoder.register_forward_hook(enc_hook),
          model.decoder.register_forward_pre_hook(dec_hook),
          model.hyper_synthesis_mean.register_forward_hook(mean_hook),
          model.hyper_synthesis_scale.register_forward_hook(sc_hook),
          model.hyper_analysis.register_forward_hook(ha_hook)]
    try:
        ok, o = m.run("forward-runs", model, x)
    finally:
        for h in hs:
            h.remove()
    if not ok:
        return
    y, mu, dec_in = cap["y"].detach(), cap["mu"], cap["dec_in"]
    exp = torch.round(y - mu) + mu
    m.close(dec_in.detach(), exp, "train-ste",
            "the generator is not fed the mean-shifted rounded latent", atol=2e-3)
    m.close(o.latent.detach(), exp, "train-ste", "output latent", atol=2e-3)
    # straight-through: d(decoder input)/d(latent), at fixed means, is the identity
    w = torch.randn_like(dec_in)
    model.zero_grad()
    g, = torch.autograd.grad((dec_in * w).sum(), cap["y"], retain_graph=True,
                             allow_unused=True)
    # contributions through the means cancel (STE subtracts and adds the mean)
    m.close(g if g is not None else torch.zeros_like(w), w, "ste-gradient",
            "straight-through gradient is not the identity", rtol=1e-3, atol=1e-3)
    for name in ("latent_likelihoods", "quantized_latent_likelihoods",
                 "hyper_latent_likelihoods", "quantized_hyper_latent_likelihoods"):
        m.check(tails(getattr(o, name).detach()), "likelihood-range", f"train {name}")
    m.check(not o.quantized_latent_likelihoods.requires_grad
            and not o.quantized_hyper_latent_likelihoods.requires_grad,
            "detached", "quantized likelihoods carry gradients")
    m.check(o.latent_likelihoods.requires_grad, "rate-differentiable",
            "latent likelihoods are not differentiable")
    s = cap["sigma"].double().clamp_min(0.11)
    v = (exp - mu).abs().double()
    c = torch.special.ndtr
    q = (c((0.5 - v) / s) - c((-0.5 - v) / s)).clamp_min(1e-9)
    m.close(o.quantized_latent_likelihoods, q, "quantized-likelihood",
            "train quantized likelihoods", rtol=2e-2, atol=2e-6)
    if not frozen:
        dz = (o.hyper_latent.detach() - cap["z"])
        m.check(float(dz.abs().max()) <= 0.5 + 1e-4 and float(dz.std()) > 0.05,
                "noise-bounds", f"hyper latent noise max {float(dz.abs().max())}")
        lo_v = (y - mu).abs().double()
        # likelihood of y + u, |u| <= 1/2: bounded by the mass of the widened / shifted bins
        up = (c((1.0 - lo_v) / s) - c((-1.0 - lo_v) / s)).clamp_min(1e-9)
        m.check(bool((o.latent_likelihoods.detach().double() <= up * 1.05 + 1e-5).all()),
                "noise-bounds", "noisy likelihood exceeds the reachable mass")
        lk = o.latent_likelihoods.detach().double()
        ql = (c((0.5 - (lo_v + 0.5)) / s) - c((-0.5 - (lo_v + 0.5)) / s)).clamp_min(1e-9)
        m.check(bool((lk >= ql * 0.95 - 1e-5).all()), "noise-bounds",
                "noisy likelihood below the reachable mass")
    else:
        m.close(o.latent_likelihoods.detach(), q, "gauss-likelihood",
                "frozen-bottleneck train likelihoods", rtol=2e-2, atol=2e-6)
        med = hific.medians(model)
        m.close(o.hyper_latent.detach(), torch.round(cap["z"] - med) + med,
                "eval-hyper-latent", "frozen bottleneck must quantise", atol=1e-3)
    model.eval()


def run(m):
    torch.set_num_threads(2)
    i = 0
    while i < 6 or (m.time_left() and i < m.n(40, 400)):
        if i % 3 == 0:
            frozen = m.rng.random() < 0.35 or i == 3
            model, cfg = hific.make(m, in_ch=m.rng.choice([1, 3]),
                                    freeze_bottleneck=frozen and m.rng.random() < 0.5)
            if frozen and not model.frozen_bottleneck:
                model.freeze_bottleneck()
            if m.rng.random() < 0.5 or i == 0:  # scales that match the latents' spread
                with torch.no_grad():
                    ref = hific.Ref(model, torch.rand(1, cfg[0], 64, 64), pad=False)
                    sd = (ref.y - ref.mu).square().mean((0, 2, 3)).sqrt()
                    dict(model.named_parameters())[
                        "hyper_synthesis_scale.4.bias"].copy_(sd * 1.2 + 0.3)
            model.update()
        h, w = 64 * m.rng.choice([1, 1, 2, 3]), 64 * m.rng.choice([1, 2])
        b = m.rng.choice([1, 2, 3])
        if i == 1:
            h, w, b = 64, 64, m.rng.randint(7, 12)
        elif i == 2:
            h, w, b = 64 * m.rng.randint(5, 8), 64 * m.rng.randint(4, 5), 1
        x, kind = hific.images(m, b, cfg[0], h, w)
        eval_case(m, model, cfg, x, kind)
        train_case(m, model, cfg, x, kind, frozen)
        i += 1
