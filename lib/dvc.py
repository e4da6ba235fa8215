"""Loads projects/deep_video_compression over stand-ins for lightning, hydra, wandb and the
pretrained I-frame codec."""
import importlib
import os
import sys

import torch
import torch.nn as nn
import torchmetrics
import torchmetrics.image

from lib import stubs
from lib.mon import REPO


class IFrame(nn.Module):
    """What a pretrained image codec of CompressAI looks like to the module."""
    made = []

    def __init__(self, quality, pretrained=False, **kw):
        super().__init__()
        self.quality, self.pretrained = quality, pretrained
        self.conv = nn.Conv2d(3, 3, 3, padding=1)
        self.drop = nn.Dropout(0.5)
        self.noise = nn.Parameter(torch.zeros(1))
        self.seen = []
        IFrame.made.append(self)

    def update(self, force=False):
        return True

    def forward(self, x):
        self.seen.append((self.training, torch.is_grad_enabled(), x.detach().clone()))
        y = self.drop(torch.tanh(self.conv(x)))
        return {"x_hat": y * 0.5 + 0.4 * x + 0.05,
                "likelihoods": {"y": torch.sigmoid(y[:, :, ::2, ::2] * 3).clamp(1e-4, 1),
                                "z": torch.sigmoid(x[:, :1, ::4, ::4]).clamp(1e-4, 1)}}


class Image:
    def __init__(self, image, caption=None):
        self.image, self.caption = image, caption


def load():
    stubs.install()
    stubs.module("wandb", Image=Image)
    if not hasattr(torchmetrics, "PSNR"):
        torchmetrics.PSNR = torchmetrics.image.PeakSignalNoiseRatio  # its name until 0.11
    sys.path.insert(0, os.path.join(REPO, "projects", "deep_video_compression"))
    mods = {n: importlib.import_module(n) for n in ("_utils", "dvc_module", "data_module", "train")}
    mods["dvc_module"].models = {"toy": lambda q, **kw: IFrame(q, **kw)}
    return mods
