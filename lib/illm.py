"""Loads projects/illm over stand-ins for lightning/hydra and for the learned metrics."""
import importlib
import os
import pickle
import sys

import torch
import torch.nn as nn
import torchmetrics
import torchmetrics.image
from compressai.entropy_models import EntropyBottleneck

from lib import stubs
from lib.mon import REPO


class Pair(torchmetrics.Metric):
    """A distance with learned weights is not available: this one is not symmetric, so that
    exchanged arguments and other images show."""
    full_state_update = False

    def __init__(self, *a, **kw):
        super().__init__()
        self.kw = dict(kw)
        self.add_state("total", torch.tensor(0.0, dtype=torch.float64), dist_reduce_fx="sum")
        self.add_state("count", torch.tensor(0.0, dtype=torch.float64), dist_reduce_fx="sum")

    def update(self, a, b):
        assert a.shape == b.shape
        a, b = a.detach().double(), b.detach().double()
        d = ((a - b).abs() + 0.37 * a + 0.11 * b * b).flatten(1).mean(1)
        self.total += d.sum()
        self.count += a.shape[0]

    def compute(self):
        f = 1.0 if self.kw.get("normalize", True) else 2.0
        return self.total / self.count * f


class Ssim(Pair):
    """MS-SSIM needs images of at least 161 pixels; its values are judged in C24."""

    def __init__(self, data_range=1.0, **kw):
        super().__init__(**kw)
        self.data_range = data_range

    def compute(self):
        return super().compute() / self.data_range


class Dists(Pair):
    def update(self, a, b):
        super().update(a * 1.5, b)


class Fid(torchmetrics.Metric):
    full_state_update = False
    scale = 1.0

    def __init__(self, *a, **kw):
        super().__init__()
        for n in ("real", "fake"):
            self.add_state(n + "_sum", torch.tensor(0.0, dtype=torch.float64))
            self.add_state(n + "_sq", torch.tensor(0.0, dtype=torch.float64))
            self.add_state(n + "_n", torch.tensor(0.0, dtype=torch.float64))

    def update(self, imgs, real):
        if imgs.dtype != torch.uint8:
            raise ValueError("expected uint8 images")
        n = "real" if real else "fake"
        x = imgs.double().flatten(1)
        w = torch.linspace(0.5, 1.5, x.shape[1], dtype=torch.float64)
        setattr(self, n + "_sum", getattr(self, n + "_sum") + (x * w).mean(1).sum())
        setattr(self, n + "_sq", getattr(self, n + "_sq") + (x * w).mean(1).square().sum())
        setattr(self, n + "_n", getattr(self, n + "_n") + x.shape[0])

    def compute(self):
        if self.real_n < 2 or self.fake_n < 2:
            raise ValueError("not enough samples")
        return self.scale * ((self.real_sum / self.real_n) * 3 + self.fake_sum / self.fake_n +
                             self.real_sq / self.real_n * 0.01 - self.fake_sq / self.fake_n * 0.02)


class FidSwav(Fid):
    scale = 2.0


class FidNc(Fid):
    scale = 3.0


class Kid(Fid):
    scale = 5.0

    def compute(self):
        v = super().compute()
        return v, v * 0 - 7


def load():
    """Import the modules of projects/illm from the tree under test."""
    stubs.install()
    import neuralcompression.metrics as ncm
    torchmetrics.image.FrechetInceptionDistance = Fid
    torchmetrics.image.LearnedPerceptualImagePatchSimilarity = Pair
    ncm.MultiscaleStructuralSimilarity = Ssim
    ncm.DeepImageStructureTextureSimilarity = Dists
    ncm.FrechetInceptionDistance = FidNc
    ncm.FrechetInceptionDistanceSwAV = FidSwav
    ncm.KernelInceptionDistance = Kid
    sys.path.insert(0, os.path.join(REPO, "projects", "illm"))
    return {n: importlib.import_module(n) for n in
            ("image_module", "target_compression_module", "gan_compression_module", "train",
             "open_images_datamodule", "default_transforms")}


def toy_class():
    from neuralcompression import HyperpriorCompressedOutput, HyperpriorOutput
    from neuralcompression.models import HyperpriorAutoencoderBase

    class Toy(HyperpriorAutoencoderBase):
        """A small deterministic hyperprior model: what the module feeds it and what becomes of
        its outputs is what is judged."""

        def __init__(self, ch=4, spread=1.0, quantiles=True):
            super().__init__()
            self.enc = nn.Conv2d(3, ch, 4, stride=4)
            self.hyp = nn.Conv2d(ch, 2, 2, stride=2)
            self.dec = nn.ConvTranspose2d(ch, 3, 4, stride=4)
            self.gain = nn.Parameter(torch.full((4,), spread))
            if quantiles:
                self.hyper_bottleneck = EntropyBottleneck(2)
            self.calls = []
            self.updated = 0
            self.ready = False

        def forward(self, image):
            self.calls.append(("forward", tuple(image.shape), torch.is_grad_enabled()))
            y = self.enc(image)
            z = self.hyp(y)

            def p(v, i):
                return torch.sigmoid(v * self.gain[i]).clamp(1e-6, 1)
            scale = 1 + image.mean(dim=(1, 2, 3), keepdim=True)
            return HyperpriorOutput(
                image=torch.sigmoid(self.dec(torch.tanh(y)) * 9) * 1.5 - 0.25, latent=y,
                latent_likelihoods=p(y * scale, 0),
                quantized_latent_likelihoods=p(torch.round(y * 4) / 4 * scale, 1),
                hyper_latent=z, hyper_latent_likelihoods=p(z, 2),
                quantized_hyper_latent_likelihoods=p(torch.round(z), 3))

        def update(self, *a, **kw):
            self.updated += 1
            self.calls.append(("update",))
            return True

        def update_tensor_devices(self, target_operation):
            self.calls.append(("devices", target_operation))

        def compress(self, image, force_cpu=True):
            self.calls.append(("compress", tuple(image.shape), force_cpu))
            blobs = [pickle.dumps((x * 31).to(torch.uint8).numpy().tobytes()[:50 + 7 * i])
                     for i, x in enumerate(image)]
            self.kept = image
            return HyperpriorCompressedOutput(latent_strings=blobs, hyper_latent_strings=["h"],
                                              image_size=tuple(image.shape[-2:]),
                                              padded_size=tuple(image.shape[-2:]))

        def decompress(self, compressed_data, force_cpu=True):
            self.calls.append(("decompress", len(compressed_data.latent_strings), force_cpu))
            return (self.kept * 1.1 - 0.05 * torch.sin(self.kept * 40))
    return Toy


class Disc(nn.Module):
    """A discriminator of the library's interface that notes what it was shown."""

    def __init__(self, conditional, ch=4, out=1):
        super().__init__()
        self.is_conditional = conditional
        self.a = nn.Conv2d(3, 4, 4, stride=4)
        if conditional:
            self.c = nn.Conv2d(ch, 4, 1)
        self.b = nn.Conv2d(4, out, 1)
        self.calls = []

    def forward(self, image, *context):
        if len(context) != int(self.is_conditional):
            raise TypeError(f"{len(context)} contexts for is_conditional={self.is_conditional}")
        self.calls.append((tuple(image.shape), image.requires_grad,
                           [c.requires_grad for c in context]))
        h = self.a(image)
        if context:
            h = h + self.c(context[0])
        return self.b(torch.tanh(h))
