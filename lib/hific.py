"""Workload builders and reference oracles for the HiFiC autoencoder."""
import torch
import torch.nn.functional as F


def make(m, in_ch=3, lat=None, hyp=None, nres=None, **kw):
    """A HiFiC autoencoder with weights randomised so that latents, means and
    scales are spread over the coder's whole range instead of its init corner."""
    from neuralcompression.models import HiFiCAutoencoder

    r = m.rng
    m.seed_torch()
    lat = lat or r.choice([3, 5, 8, 12])
    hyp = hyp or r.choice([3, 4, 6, 9])  # compressai needs >= 3 symbols per string
    nres = r.choice([0, 1]) if nres is None else nres
    model = HiFiCAutoencoder(in_channels=in_ch, latent_features=lat,
                             hyper_features=hyp, num_residual_blocks=nres, **kw)
    spread(m, model, lat, hyp)
    return model.eval(), (in_ch, lat, hyp, nres)


def spread(m, model, lat, hyp):
    r = m.rng
    p = dict(model.named_parameters())
    g = torch.Generator().manual_seed(r.randrange(2**31))

    def u(n, lo, hi):
        return torch.rand(n, generator=g) * (hi - lo) + lo

    with torch.no_grad():
        enc_last = sorted((k for k in p if k.startswith("encoder.blocks.")
                           and k.endswith(".weight")),
                          key=lambda k: int(k.split(".")[2]))[-1]
        p[enc_last].mul_(r.choice([3.0, 10.0, 25.0]))
        p["hyper_analysis.4.weight"].mul_(r.choice([1.0, 4.0, 12.0]))
        p["hyper_analysis.4.bias"].copy_(u(hyp, -4, 4))
        p["hyper_synthesis_mean.4.bias"].copy_(u(lat, -6, 6))
        p["hyper_synthesis_scale.4.weight"].mul_(3.0)
        p["hyper_synthesis_scale.4.bias"].copy_(torch.exp(u(lat, -2.0, 3.0)))
        q = p["hyper_bottleneck.quantiles"]
        med = u(hyp, -2.5, 2.5)
        q[:, 0, 1] = med
        q[:, 0, 0] = med - u(hyp, 4, 14)
        q[:, 0, 2] = med + u(hyp, 4, 14)


def medians(model):
    q = dict(model.named_parameters())["hyper_bottleneck.quantiles"]
    return q[:, 0, 1].detach().view(1, -1, 1, 1)


def pad64(x):
    h, w = x.shape[-2:]
    return F.pad(x, (0, -w % 64, 0, -h % 64), mode="reflect") if (h % 64 or w % 64) else x


class Ref:
    """Reference result: round-and-reconstruct without any entropy coding."""

    def __init__(self, model, x, pad=True):
        with torch.no_grad():
            xp = pad64(x) if pad else x
            self.padded = tuple(xp.shape[-2:])
            self.y = model.encoder(xp)
            self.z = model.hyper_analysis(self.y)
            med = medians(model)
            self.z_hat = torch.round(self.z - med) + med
            self.mu = model.hyper_synthesis_mean(self.z_hat)
            self.sigma = model.hyper_synthesis_scale(self.z_hat)
            self.sym = torch.round(self.y - self.mu)
            self.y_hat = self.sym + self.mu
            full = model.decoder(self.y_hat)
            self.full = full
            self.image = full[..., : x.shape[-2], : x.shape[-1]].clamp(0, 1)

    def near_tie(self, med, tol=2e-5):
        def t(v):
            f = (v - torch.floor(v) - 0.5).abs()
            return bool((f < tol).any())

        return t(self.y - self.mu) or t(self.z - med)

    def gauss_likelihood(self, value=None):
        v = ((self.y_hat if value is None else value) - self.mu).abs().double()
        s = self.sigma.double().clamp_min(0.11)
        c = torch.special.ndtr
        return (c((0.5 - v) / s) - c((-0.5 - v) / s)).clamp_min(1e-9)


def images(m, b, c, h, w, kind=None):
    r = m.rng
    g = torch.Generator().manual_seed(r.randrange(2**31))
    kind = kind or r.choice(["noise", "smooth", "const", "binary", "ramp", "mixed"])
    if kind == "noise":
        x = torch.rand(b, c, h, w, generator=g)
    elif kind == "smooth":
        x = F.interpolate(torch.rand(b, c, 4, 4, generator=g), (h, w), mode="bilinear")
    elif kind == "const":
        x = torch.rand(b, c, 1, 1, generator=g).expand(b, c, h, w).contiguous()
    elif kind == "binary":
        x = (torch.rand(b, c, h, w, generator=g) > 0.5).float()
    elif kind == "ramp":
        x = (torch.arange(h * w).view(1, 1, h, w).float() / (h * w)).expand(b, c, h, w)
        x = x.contiguous() * torch.rand(b, c, 1, 1, generator=g)
    else:
        x = torch.rand(b, c, h, w, generator=g)
        x[:, :, : h // 2] = 0.0
        x[:, :, :, w // 2:] = 1.0
    return x, kind


def sizes(m, lo=33, hi=150):
    r = m.rng
    k = r.random()
    if k < 0.25:
        return r.choice([64, 128]), r.choice([64, 128])
    if k < 0.4:
        return r.choice([63, 65, 127, 129, 33, 48]), r.choice([63, 65, 64, 127, 33])
    return r.randint(lo, hi), r.randint(lo, hi)
