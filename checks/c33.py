"""Published networks against functional references rebuilt from their state dicts."""
import copy
import io
import math

import torch
import torch.nn.functional as F
from torch import nn

from lib import vct  # noqa: F401  (path of the torch_vct sources)
from model_pipeline import Dequantizer
from neural.entropy_model import VCTEntropyModel
from neural.entropy_model_layers import (
    EncoderSection, LearnedPosition, StartSym, Transformer, TransformerBlock)
from neural.layers_utils import MLP, WindowMultiHeadAttention
from neural.transforms import ConvGDNAnalysis, ConvGDNSynthesis, ELICAnalysis, ELICSynthesis

import neuralcompression.functional as ncF
from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder
from neuralcompression.models._hific_encoder_decoder import HiFiCEncoder, HiFiCGenerator
from neuralcompression.models.deep_video_compression import (
    DVC, DVCCompressionDecoder, DVCCompressionEncoder, DVCMotionCompensationModel,
    DVCPyramidFlowEstimator)

PID = "C33"
RULE = ("case = one network (class, sizes, options) with random weights on one input; distinct "
        "by class, options and input size; non-trivial when weights and input are random")
REQUIRED = ["hific-encoder", "hific-generator", "hific-hyper", "vq-encoder", "vq-decoder",
            "vq-dropout", "dvc-encoder", "dvc-decoder", "dvc-flow", "dvc-pairs", "dvc-motion",
            "vct-gdn", "vct-elic", "vct-block", "vct-stack", "vct-parts", "vct-dequantizer",
            "vct-entropy", "weights",
            "defaults", "gradient", "input-unchanged", "repeatable", "reload", "rejects",
            "dtype"]
BUDGET = (20, 240)


class Odd(Exception):
    pass


class Ref:
    """Evaluate layers by name from a state dict, noting which tensors were used."""

    def __init__(self, net, grad=False, dtype=torch.float64):
        self.sd = {}
        for k, v in net.state_dict().items():
            v = v.detach().clone()
            if v.is_floating_point() and v.device.type != "meta":
                v = v.to(dtype)
            if grad and v.is_floating_point():
                v.requires_grad_(True)
            self.sd[k] = v
        self.used = set()

    def get(self, name, shape=None):
        if name not in self.sd:
            raise Odd(f"no tensor {name} in the state dict")
        t = self.sd[name]
        if shape is not None and tuple(t.shape) != tuple(shape):
            raise Odd(f"{name} has shape {tuple(t.shape)}, documented {tuple(shape)}")
        self.used.add(name)
        return t

    def unused(self):
        return [k for k in self.sd if k not in self.used
                and "reparam" not in k and not k.endswith(
                    ("running_mean", "running_var", "num_batches_tracked", "look_ahead_mask"))]

    def conv(self, x, n, cout, k, stride=1, pad=None, bias=True):
        w = self.get(n + ".weight", (cout, x.shape[1], k, k))
        b = self.get(n + ".bias", (cout,)) if bias else None
        return F.conv2d(x, w, b, stride=stride, padding=k // 2 if pad is None else pad)

    def deconv(self, x, n, cout, k, stride, extra, bias=True):
        w = self.get(n + ".weight", (x.shape[1], cout, k, k))
        b = self.get(n + ".bias", (cout,)) if bias else None
        return F.conv_transpose2d(x, w, b, stride=stride, padding=k // 2, output_padding=extra)

    def lin(self, x, n, out):
        w, b = self.get(n + ".weight", (out, x.shape[-1])), self.get(n + ".bias", (out,))
        return x @ w.t() + b

    def chan(self, x, n):
        c = x.shape[1]
        g, b = self.get(n + ".gamma", (1, c, 1, 1)), self.get(n + ".beta", (1, c, 1, 1))
        mu = x.sum(1, keepdim=True) / c
        var = ((x - mu) ** 2).sum(1, keepdim=True) / (c - 1)
        return g * (x - mu) / torch.sqrt(var + 1e-3) + b

    def norm(self, x, n, kind):
        if kind == "channel":
            return self.chan(x, n)
        return F.group_norm(x, 16, self.get(n + ".weight", (x.shape[1],)),
                            self.get(n + ".bias", (x.shape[1],)), 1e-6)

    def layernorm(self, x, n):
        d = x.shape[-1]
        mu = x.mean(-1, keepdim=True)
        v = ((x - mu) ** 2).mean(-1, keepdim=True)
        return (x - mu) / torch.sqrt(v + 1e-6) * self.get(n + ".weight", (d,)) \
            + self.get(n + ".bias", (d,))

    def sgdn(self, x, n, inverse):
        c = x.shape[1]
        g, b = self.get(n + ".gamma", (c, c, 1, 1)), self.get(n + ".beta", (c,))
        d = F.conv2d(x.abs(), g, b)
        return x * d if inverse else x / d

    def gdn(self, x, n, inverse):
        c = x.shape[1]
        ped = (2.0 ** -18) ** 2
        b = self.get(n + ".beta", (c,)).clamp(min=(1e-6 + ped) ** 0.5) ** 2 - ped
        g = self.get(n + ".gamma", (c, c)).clamp(min=ped ** 0.5) ** 2 - ped
        d = F.conv2d(x * x, g.reshape(c, c, 1, 1), b).sqrt()
        return x * d if inverse else x / d

    def bn(self, x, n, train):
        w, b = self.get(n + ".weight"), self.get(n + ".bias")
        if train:
            return F.batch_norm(x, None, None, w, b, True)
        return F.batch_norm(x, self.get(n + ".running_mean").detach(),
                            self.get(n + ".running_var").detach(), w, b)


# ---- references -----------------------------------------------------------------------------

def hific_encoder(R, x, latent, p=""):
    for i, c in enumerate((60, 120, 240, 480, 960)):
        x = R.conv(x, f"{p}blocks.{i}.0", c, 3 if i else 7, 2 if i else 1)
        x = F.relu(R.chan(x, f"{p}blocks.{i}.1"))
    return R.conv(x, f"{p}blocks.5", latent, 3)


def hific_generator(R, x, ch, n, p=""):
    x = R.chan(R.conv(R.chan(x, p + "block_0.0"), p + "block_0.1", 960, 3), p + "block_0.2")
    h = x
    for i in range(n):
        q = f"{p}resid_blocks.{i}.sequence."
        t = F.relu(R.chan(R.conv(h, q + "0", 960, 3), q + "1"))
        h = h + R.chan(R.conv(t, q + "3", 960, 3), q + "4")
    x = x + h
    for i, c in enumerate((480, 240, 120, 60)):
        x = F.relu(R.chan(R.deconv(x, f"{p}blocks.{i}.0", c, 3, 2, 1), f"{p}blocks.{i}.1"))
    return R.conv(x, p + "blocks.4", ch, 7)


def hific_hyper(R, y, z, latent, hyper):
    a = F.relu(R.conv(y, "hyper_analysis.0", hyper, 3))
    a = F.relu(R.conv(a, "hyper_analysis.2", hyper, 5, 2))
    a = R.conv(a, "hyper_analysis.4", hyper, 5, 2)
    out = [a]
    for n in ("mean", "scale"):
        q = f"hyper_synthesis_{n}."
        h = F.relu(R.deconv(z, q + "0", hyper, 5, 2, 1))
        h = F.relu(R.deconv(h, q + "2", hyper, 5, 2, 1))
        out.append(R.conv(h, q + "4", latent, 3))
    return out


def swish(x):
    return x / (1 + torch.exp(-x))


def vq_res(R, x, n, cout, kind, drop):
    h = R.conv(swish(R.norm(x, n + ".norm1", kind)), n + ".conv1", cout, 3)
    h = swish(R.norm(h, n + ".norm2", kind))
    if drop:
        h = h * 0
    h = R.conv(h, n + ".conv2", cout, 3)
    if x.shape[1] != cout:
        x = R.conv(x, n + ".nin_shortcut", cout, 1)
    return x + h


def vq_attn(R, x, n, kind):
    B, C, H, W = x.shape
    t = R.norm(x, n + ".norm", kind).flatten(2).transpose(1, 2)
    q, k, v = R.lin(t, n + ".xca.qkv", 3 * C).split(C, -1)
    q = q / torch.sqrt((q * q).sum(1, keepdim=True)).clamp(min=1e-12)
    k = k / torch.sqrt((k * k).sum(1, keepdim=True)).clamp(min=1e-12)
    a = torch.einsum("bnc,bnd->bcd", q, k) * R.get(n + ".xca.temperature", (1, 1, 1))
    o = torch.einsum("bcd,bnd->bnc", torch.softmax(a, -1), v)
    return x + R.lin(o, n + ".xca.proj", C).transpose(1, 2).reshape(B, C, H, W)


def vq_mid(R, h, c, kind, drop):
    h = vq_res(R, h, "mid.0", c, kind, drop)
    h = vq_attn(R, h, "mid.1", kind)
    return vq_res(R, h, "mid.2", c, kind, drop)


def vq_encoder(R, x, o, drop):
    kind = "group" if o["norm_type"] == "channel_last" else o["norm_type"]
    h = R.conv(x, "conv_in", o["ch"], 3)
    res, L = o["resolution"], len(o["ch_mult"])
    for i, mult in enumerate(o["ch_mult"]):
        for b in range(o["num_res_blocks"]):
            h = vq_res(R, h, f"down.{i}.block.{b}", o["ch"] * mult, kind, drop)
            if res in o["attn_resolutions"]:
                h = vq_attn(R, h, f"down.{i}.attn.{b}", kind)
        if i < L - 1:
            if o["resamp_with_conv"]:
                h = R.conv(F.pad(h, (0, 1, 0, 1)), f"down.{i}.downsample.conv", h.shape[1], 3, 2,
                           pad=0)
            else:
                h = F.avg_pool2d(h, 2)
            res //= 2
    h = vq_mid(R, h, h.shape[1], kind, drop)
    return R.conv(swish(R.norm(h, "norm_out", kind)), "conv_out", o["embed_dim"], 3)


def vq_decoder(R, z, o, drop):
    last = "channel" if o["norm_type"] in ("channel_last", "channel") else "group"
    kind = "group" if o["norm_type"] == "channel_last" else o["norm_type"]
    L = len(o["ch_mult"])
    res = o["resolution"] // 2 ** (L - 1)
    h = R.conv(z, "conv_in", o["ch"] * o["ch_mult"][-1], 3)
    h = vq_mid(R, h, h.shape[1], kind, drop)
    for i in range(L - 1, -1, -1):
        for b in range(o["num_res_blocks"] + 1):
            h = vq_res(R, h, f"up.{i}.block.{b}", o["ch"] * o["ch_mult"][i], kind, drop)
            if res in o["attn_resolutions"]:
                h = vq_attn(R, h, f"up.{i}.attn.{b}", kind)
        if i:
            h = h.repeat_interleave(2, 2).repeat_interleave(2, 3)
            if o["resamp_with_conv"]:
                h = R.conv(h, f"up.{i}.upsample.conv", h.shape[1], 3)
            res *= 2
    return R.conv(swish(R.norm(h, "norm_out", last)), "conv_out", o["out_ch"], 3)


def dvc_encoder(R, x, o, train, p=""):
    step = 2 if o["use_gdn"] else 3
    sizes = []
    for i in range(o["num_conv_layers"]):
        final = i == o["num_conv_layers"] - 1
        sizes.append(tuple(x.shape))
        x = R.conv(x, f"{p}layers.{i * step}", o["out_channels"] if final else
                   o["filter_channels"], o["kernel_size"], o["stride"],
                   bias=final or o["use_gdn"])
        if not final:
            n = f"{p}layers.{i * step + 1}"
            x = R.sgdn(x, n, False) if o["use_gdn"] else F.relu(R.bn(x, n, train))
    return x, sizes


def dvc_decoder(R, x, o, sizes, train, p=""):
    step = 2 if o["use_gdn"] else 3
    k, s = o["kernel_size"], o["stride"]
    for i in range(o["num_conv_layers"]):
        final = i == o["num_conv_layers"] - 1
        extra = 0
        if sizes is not None:
            want = sizes[len(sizes) - 1 - i][-2:]
            extra = tuple(w - ((d - 1) * s - 2 * (k // 2) + k)
                          for w, d in zip(want, x.shape[-2:]))
        x = R.deconv(x, f"{p}layers.{i * step}", o["out_channels"] if final else
                     o["filter_channels"], k, s, extra, bias=final or o["use_gdn"])
        if not final:
            n = f"{p}layers.{i * step + 1}"
            x = R.sgdn(x, n, True) if o["use_gdn"] else F.relu(R.bn(x, n, train))
    return x


def warp(img, flow):
    return ncF.dense_image_warp(img, flow.permute(0, 2, 3, 1))


def dvc_flow(R, a, b, o, p=""):
    A, B = [a], [b]
    for _ in range(o["levels"] - 1):
        A.append(F.avg_pool2d(A[-1], 2))
        B.append(F.avg_pool2d(B[-1], 2))
    flow = torch.zeros_like(A[-1][:, :2])
    pairs = []
    for lv in range(o["levels"]):
        i1, i2 = A[-1 - lv], B[-1 - lv]
        flow = F.interpolate(flow, size=i1.shape[-2:], mode="bilinear", align_corners=False)
        h = torch.cat([warp(i1, flow), i2, flow], 1)
        cnt = o["filter_counts"]
        for j, c in enumerate(cnt):
            h = R.conv(h, f"{p}model_levels.{lv}.{2 * j}", c, o["kernel_size"])
            if j < len(cnt) - 1:
                h = F.relu(h)
        flow = flow + h
        pairs.append((warp(i1, flow), i2))
    return flow, pairs


def dvc_res(R, x, n, c):
    h = R.conv(F.relu(x), n + ".block.1", c, 3)
    return x + R.conv(F.relu(h), n + ".block.3", c, 3)


def dvc_unet(R, x, n, c, levels):
    x = dvc_res(R, x, n + ".input_block", c)
    if levels > 1:
        size = x.shape[-2:]
        h = dvc_unet(R, F.avg_pool2d(x, 2), n + ".child", c, levels - 1)
        iy = (torch.arange(size[0]) * h.shape[-2]) // size[0]
        ix = (torch.arange(size[1]) * h.shape[-1]) // size[1]
        x = x + h[:, :, iy][:, :, :, ix]
    return dvc_res(R, x, n + ".output_block", c)


def dvc_motion(R, a, b, f, o, p=""):
    c, k = o["model_channels"], o["kernel_size"]
    x = R.conv(torch.cat([a, b, f], 1), p + "model.0", c, k)
    x = dvc_unet(R, x, p + "model.1", c, o["num_levels"])
    x = F.relu(R.conv(x, p + "model.2.0", c, k))
    return R.conv(x, p + "model.2.2", o["out_channels"], k)


def vct_gdn(R, x, chans, synth):
    B, T = x.shape[:2]
    x = x.flatten(0, 1)
    for i, c in enumerate(chans):
        n = f"transforms.{2 * i}"
        x = R.deconv(x, n, c, 5, 2, 1) if synth else R.conv(x, n, c, 5, 2)
        if i < 3:
            x = R.gdn(x, f"transforms.{2 * i + 1}", synth)
    return x.reshape(B, T, *x.shape[1:])


def runit(R, x, n):
    c = x.shape[1]
    h = F.relu(R.conv(x, n + ".conv.0", c // 2, 1))
    h = F.relu(R.conv(h, n + ".conv.2", c // 2, 3))
    return F.relu(x + R.conv(h, n + ".conv.4", c, 1))


def attention_block(R, x, n):
    a = b = x
    for i in range(3):
        a = runit(R, a, f"{n}.conv_a.{i}")
        b = runit(R, b, f"{n}.conv_b.{i}")
    b = R.conv(b, n + ".conv_b.3", x.shape[1], 1)
    return x + a * torch.sigmoid(b)


def vct_elic(R, x, chans, nres, synth):
    B, T = x.shape[:2]
    x = x.flatten(0, 1)
    i = 0

    def name():
        nonlocal i
        i += 1
        return f"transforms.{i - 1}"

    def units(x):
        for _ in range(nres):
            x = runit(R, x, name())
        return x
    if synth:
        x = attention_block(R, x, name())
        x = units(R.deconv(x, name(), chans[0], 5, 2, 1))
        x = R.deconv(x, name(), chans[1], 5, 2, 1)
        x = units(attention_block(R, x, name()))
        x = units(R.deconv(x, name(), chans[2], 5, 2, 1))
        x = R.deconv(x, name(), chans[3], 5, 2, 1)
    else:
        x = units(R.conv(x, name(), chans[0], 5, 2))
        x = units(R.conv(x, name(), chans[1], 5, 2))
        x = attention_block(R, x, name())
        x = units(R.conv(x, name(), chans[2], 5, 2))
        x = attention_block(R, R.conv(x, name(), chans[3], 5, 2), name())
    return x.reshape(B, T, *x.shape[1:])


def mha(R, q, kv, n, heads, causal):
    d = q.shape[-1]
    Q, K, V = (R.lin(t, f"{n}{w}_linear", d) for t, w in ((q, "q"), (kv, "k"), (kv, "v")))
    w = d // heads
    outs = []
    for h in range(heads):
        sl = slice(h * w, (h + 1) * w)
        a = Q[..., sl] @ K[..., sl].transpose(-1, -2) / math.sqrt(w)
        if causal:
            L = q.shape[-2]
            a = a.masked_fill(torch.ones(L, L).triu(1).bool(), -math.inf)
        outs.append(torch.softmax(a, -1) @ V[..., sl])
    return R.lin(torch.cat(outs, -1), n + "proj", d)


def mlp(R, x, n, mult):
    d = x.shape[-1]
    return R.lin(F.gelu(R.lin(x, n + "fc1", d * mult)), n + "fc2", d)


def block(R, x, enc, p, heads, mult, dec):
    a = R.layernorm(x, p + "ln_1a")
    x = x + mha(R, a, a, p + "self_attention.", heads, dec)
    x = x + mlp(R, R.layernorm(x, p + "ln_1b"), p + "mlp1.", mult)
    a = R.layernorm(x, p + "ln_2a")
    y = x + mha(R, a, a if enc is None else enc, p + "cross_attention.", heads, False)
    return y + mlp(R, R.layernorm(y, p + "ln_2b"), p + "mlp2.", mult)


def dequantizer(R, q, f, C, leave):
    if leave:
        f = torch.zeros_like(f)
    h = F.leaky_relu(R.conv(f, "process_conv.0", C, 1), 0.01)
    n = "process_conv.2.conv"
    g = F.leaky_relu(R.conv(h, n + "1", C, 3), 0.01)
    return q + h + F.leaky_relu(R.conv(g, n + "2", C, 3), 0.01)


def stack(R, x, enc, name, n, heads, mult, dec):
    for i in range(n):
        x = block(R, x, enc, f"{name}.layers.encoder_layer_{i}.", heads, mult, dec)
    return x


def head(R, x, n, out):
    d = x.shape[-1]
    h = F.leaky_relu(R.lin(x, n + ".0", d), 0.01)
    return R.lin(F.leaky_relu(R.lin(h, n + ".2", d), 0.01), n + ".4", out)


def vct_entropy(R, y, prevs, o, patcher):
    d, heads, mult, C = o["d_model"], o["num_head"], o["mlp_expansion"], o["num_channels"]
    le, ld = o["window_size_enc"] ** 2, o["window_size_dec"] ** 2

    def embed(x, n, pos, ln):
        x = R.layernorm(R.lin(x / 35.0, n, d), "post_embedding_layernorm")
        return x + R.get(pos + "._emb", (1, ln, d))
    seqs = []
    for p in prevs:
        x = patcher(p, o["window_size_enc"])[0]
        x = embed(x, "encoder_embedding", "enc_position_sep", le)
        seqs.append(stack(R, x, None, "encoder_sep", o["num_layers_encoder_sep"], heads, mult,
                          False))
    seqs = seqs[:1] * (o["context_len"] - len(seqs)) + seqs
    ctx = torch.cat(seqs, 1) + R.get("enc_position_joint._emb", (1, le * o["context_len"], d))
    ctx = stack(R, ctx, None, "encoder_joint", o["num_layers_encoder_joint"], heads, mult, False)
    q = y + (torch.round(y) - y).detach()
    t, grid = patcher(q, o["window_size_dec"])
    t = torch.cat([R.get("learned_zero.sym", (C,)).expand(t.shape[0], 1, C), t[:, :-1]], 1)
    t = embed(t, "decoder_embedding", "dec_position", ld)
    t = stack(R, t, ctx, "decoder", o["num_layers_decoder"], heads, mult, True)
    mean, scale = head(R, t, "mean_head", C), head(R, t, "scale_head", C)
    feats = patcher.unpatch((t, grid), crop=tuple(y.shape[-2:]), channels_last=True)
    return 2 * mean + 3 * scale, feats, y


class Straight(nn.Module):
    """in place of the bottleneck: shows the mean and scale it is given"""

    def forward(self, inputs, scales, means):
        return inputs * 1, 2 * means + 3 * scales


# ---- driving --------------------------------------------------------------------------------

def shake(m, net):
    """Random weights a training run could have produced: nothing left at 0 or 1."""
    g = torch.Generator().manual_seed(m.rng.randrange(2 ** 31))
    with torch.no_grad():
        for n, p in net.named_parameters():
            if n.endswith("quantiles"):
                continue
            e = torch.randn(p.shape, generator=g, dtype=torch.float32).to(p.dtype)
            if n.endswith(("gamma", "beta")) and p.dim() != 4 or p.dim() == 4 and n.endswith(
                    "gamma") and p.shape[2:] == (1, 1) and p.shape[0] == p.shape[1] > 1:
                p.mul_(1 + 0.3 * e.clamp(-2, 2)).add_(0.02 * e.abs())
            elif p.dim() <= 1 or p.shape[0] == 1:
                p.add_(0.3 * e)
            else:
                p.add_(0.3 * p.std() * e if p.numel() > 1 else 0.3 * e)
        for n, b in net.named_buffers():
            if n.endswith("running_mean"):
                b.copy_(torch.randn(b.shape, generator=g) * 0.3)
            elif n.endswith("running_var"):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
    return net


def flat(o):
    if torch.is_tensor(o):
        return [o]
    return [t for q in o for t in flat(q)]


def compare(m, oracle, key, net, call, ref, xs, grad=False, train=False, single=False):
    """net's outputs, gradients and repeat runs against the reference on the same weights."""
    dtype = torch.float32 if single else torch.float64
    net = shake(m, net).to(dtype)
    net.train(train)
    xs = [x.to(dtype) for x in xs]
    m.case((oracle,) + tuple(key) + tuple(tuple(x.shape) for x in xs) + (train, single))
    R = Ref(net, grad)
    hold = [x.clone() for x in xs]
    ok, out = m.run(oracle, call, net, *[x.requires_grad_(grad) for x in xs])
    if not ok:
        return
    xr = [x.detach().clone().double().requires_grad_(grad) for x in hold]
    try:
        want = ref(R, *xr)
    except Odd as e:
        m.fail("weights", f"{oracle} {key}: {e}")
        return
    m.check(not R.unused(), "weights", f"{oracle} {key}: tensors with no documented role: "
            f"{R.unused()[:3]}")
    for i, (a, b) in enumerate(zip(flat(out), flat(want))):
        if a.shape != b.shape:
            m.fail(oracle, f"{key}: output {i} has shape {tuple(a.shape)}, documented "
                   f"{tuple(b.shape)}")
            return
        scale = float(b.detach().abs().max()) + 1e-12 if b.numel() else 1.0
        err = float((a.detach().double() - b.detach()).abs().max()) if b.numel() else 0.0
        tol = 2e-3 if single else 1e-7
        m.check(err <= tol * scale, "dtype" if single else oracle,
                f"{key} in={[tuple(x.shape) for x in xs]}: output {i} off by {err:.3g} "
                f"(scale {scale:.3g})")
        m.check(a.dtype == dtype, "dtype", f"{oracle}: {a.dtype}")
    m.check(len(flat(out)) == len(flat(want)), oracle, f"{key}: number of outputs")
    m.check(all(torch.equal(a.detach(), b) for a, b in zip(xs, hold)), "input-unchanged",
            f"{oracle} {key}: input modified")
    if grad:
        gs = [torch.randn(o.shape, dtype=dtype) for o in flat(out)]
        ps = [(n, p) for n, p in net.named_parameters() if n in R.used]
        ga = torch.autograd.grad(flat(out), xs + [p for _, p in ps], gs, allow_unused=True)
        gb = torch.autograd.grad(flat(want), xr + [R.sd[n] for n, _ in ps],
                                 [g.double() for g in gs], allow_unused=True)
        for n, a, b in zip([f"input {i}" for i in range(len(xs))] + [n for n, _ in ps], ga, gb):
            if a is None or b is None:
                m.check((a is None or not a.any()) and (b is None or not b.any()), "gradient",
                        f"{oracle} {key}: gradient of {n} missing on one side")
                continue
            scale = float(b.abs().max()) + 1e-9
            err = float((a - b).abs().max())
            m.check(err <= 1e-6 * max(scale, 1e-3), "gradient",
                    f"{oracle} {key}: gradient of {n} off by {err:.3g} (scale {scale:.3g})")
    elif not train:
        with torch.no_grad():
            again = call(net, *xs)
            m.check(all(torch.equal(a, b) for a, b in zip(flat(out), flat(again))), "repeatable",
                    f"{oracle} {key}: second call differs")
            if m.rng.random() < 0.3:
                f = io.BytesIO()
                torch.save(net.state_dict(), f)
                f.seek(0)
                other = shake(m, copy.deepcopy(net))
                other.load_state_dict(torch.load(f), strict=True)
                third = call(other, *xs)
                m.check(all(torch.equal(a, b) for a, b in zip(flat(out), flat(third))),
                        "reload", f"{oracle} {key}: reloaded weights give another output")


def opts(m):
    return dict(grad=m.rng.random() < 0.35, single=False)


def single(m):
    return dict(grad=False, single=True)


def mode(m, p=0.2):
    return single(m) if m.rng.random() < p else opts(m)


def hific(m, which):
    r = m.rng
    ch, lat, nres = r.choice([1, 3, 4]), r.choice([2, 5, 8]), r.choice([0, 1, 2])
    H, W = r.randint(1, 34), r.choice([r.randint(1, 34), r.randint(1, 34), r.randint(35, 130)])
    if which == 0:
        compare(m, "hific-encoder", (ch, lat), HiFiCEncoder(ch, lat), lambda n, x: n(x),
                lambda R, x: hific_encoder(R, x, lat), [torch.randn(r.choice([1, 2]), ch, H, W)],
                **mode(m))
    elif which == 1:
        h, w = r.randint(1, 3), r.randint(1, 3)
        compare(m, "hific-generator", (ch, lat, nres), HiFiCGenerator(ch, lat, nres),
                lambda n, x: n(x), lambda R, x: hific_generator(R, x, ch, nres),
                [torch.randn(r.choice([1, 2]), lat, h, w)], **mode(m))
    else:
        hyp = r.choice([3, 6])
        net = HyperOnly(HiFiCAutoencoder(ch, lat, hyp, 0))
        h, w = r.randint(1, 9), r.randint(1, 9)
        compare(m, "hific-hyper", (lat, hyp), net, lambda n, y, z: n(y, z),
                lambda R, y, z: hific_hyper(R, y, z, lat, hyp),
                [torch.randn(2, lat, h, w), torch.randn(2, hyp, r.randint(1, 3),
                                                        r.randint(1, 3))], **mode(m))


class HyperOnly(nn.Module):
    def __init__(self, net):
        super().__init__()
        self.hyper_analysis = net.hyper_analysis
        self.hyper_synthesis_mean = net.hyper_synthesis_mean
        self.hyper_synthesis_scale = net.hyper_synthesis_scale

    def forward(self, y, z):
        return (self.hyper_analysis(y), self.hyper_synthesis_mean(z),
                self.hyper_synthesis_scale(z))


def vq(m, drop=False):
    r = m.rng
    L = r.choice([1, 2, 3, 4])
    kind = r.choice(["group", "channel", "channel_last"])
    unit = 16 if kind != "channel" else r.choice([4, 6])
    resolution = r.choice([16, 32, 64])
    grid = [resolution // 2 ** i for i in range(L)]
    o = dict(ch=unit * r.choice([1, 1, 2]), ch_mult=[r.choice([1, 2]) for _ in range(L)],
             num_res_blocks=r.choice([1, 1, 2]), resolution=resolution,
             attn_resolutions=r.sample(grid, r.randint(0, min(2, L))),
             resamp_with_conv=r.random() < 0.7, in_channels=r.choice([1, 3]),
             out_ch=r.choice([1, 3]), embed_dim=r.choice([4, 10]), norm_type=kind)
    p = 1.0 if drop else r.choice([0.0, 0.3])
    ok, net = m.run("vq-encoder", VqVaeXCiTAutoencoder, dropout=p, **o)
    if not ok:
        return
    key = tuple(sorted((k, str(v)) for k, v in o.items()))
    kw = dict(train=True, grad=False) if drop else mode(m)
    H, W = (2 ** (L - 1) * r.randint(2, 3) for _ in range(2))
    tag = "vq-dropout" if drop else None
    compare(m, tag or "vq-encoder", key, net.encoder, lambda n, x: n(x),
            lambda R, x: vq_encoder(R, x, o, drop),
            [torch.randn(r.choice([1, 2]), o["in_channels"], H, W)], **kw)
    compare(m, tag or "vq-decoder", key, net.decoder, lambda n, x: n(x),
            lambda R, x: vq_decoder(R, x, o, drop),
            [torch.randn(r.choice([1, 2]), o["embed_dim"], r.randint(2, 4), r.randint(2, 4))],
            **kw)
    m.raises("rejects", ValueError, VqVaeXCiTAutoencoder, norm_type="layer", ch=16,
             _msg="norm_type layer")


def dvc(m, which):
    r = m.rng
    gdn = r.random() < 0.6
    o = dict(in_channels=r.choice([2, 3]), out_channels=r.choice([3, 4]),
             filter_channels=r.choice([2, 4, 5]), kernel_size=r.choice([3, 3, 5, 7]), stride=2,
             num_conv_layers=r.choice([1, 2, 3, 4]), use_gdn=gdn)
    train = not gdn and r.random() < 0.5
    kw = mode(m)
    kw["train"] = train
    key = tuple(sorted(o.items()))
    if which == 0:
        s = r.choice([1, 2, 2, 3])
        o["stride"] = s
        H, W = r.randint(17, 40), r.randint(17, 40)
        compare(m, "dvc-encoder", key + (s,), DVCCompressionEncoder(**o), lambda n, x: n(x)[0],
                lambda R, x: dvc_encoder(R, x, o, train)[0],
                [torch.randn(2, o["in_channels"], H, W)], **kw)
        net = DVCCompressionEncoder(**o).eval()
        x = torch.randn(1, o["in_channels"], H, W)
        ok, got = m.run("dvc-encoder", net, x)
        if ok:
            want = dvc_encoder(Ref(net), x.double(), o, False)[1]
            m.check([tuple(t) for t in got[1]] == want, "dvc-encoder",
                    f"sizes {[tuple(t) for t in got[1]]}, inputs of the convolutions {want}")
    elif which == 1:
        sizes = None
        h, w = r.randint(1, 4), r.randint(1, 4)
        if r.random() < 0.7:
            sizes, a, b = [], h, w
            for _ in range(o["num_conv_layers"]):
                a, b = 2 * a - r.randint(0, 1), 2 * b - r.randint(0, 1)
                sizes.insert(0, torch.Size((2, 1, a, b)))
            m.raises("rejects", ValueError, DVCCompressionDecoder(**o), torch.randn(
                1, o["in_channels"], h, w), sizes + sizes[:1], _msg="one size too many")
        keep = list(sizes) if sizes else None
        compare(m, "dvc-decoder", key + (bool(sizes),), DVCCompressionDecoder(**o),
                lambda n, x: n(x, sizes), lambda R, x: dvc_decoder(R, x, o, sizes, train),
                [torch.randn(2, o["in_channels"], h, w)], **kw)
        m.check(sizes == keep, "input-unchanged", "decoder consumed the caller's sizes")
    elif which == 2:
        o = dict(filter_counts=r.choice([[4, 3, 2], [2], [3, 2], [4, 6, 4, 3, 2]]),
                 kernel_size=r.choice([3, 5, 7]), levels=r.choice([1, 2, 3, 4, 5]))
        low = 2 ** (o["levels"] - 1) * 2
        H, W = low + r.randint(0, 12), low + r.randint(0, 12)
        net = DVCPyramidFlowEstimator(**o)
        with torch.no_grad():
            for p in net.parameters():
                p.mul_(r.choice([0.2, 1.0]))
        xs = [torch.rand(2, 3, H, W), torch.rand(2, 3, H, W)]
        key = (tuple(o["filter_counts"]), o["kernel_size"], o["levels"])
        kw = dict(grad=False, single=False)  # the warp's gradient rule is C06's
        compare(m, "dvc-flow", key, net, lambda n, a, b: n(a, b),
                lambda R, a, b: dvc_flow(R, a, b, o)[0], xs, **kw)
        compare(m, "dvc-pairs", key, copy.deepcopy(net),
                lambda n, a, b: n.calculate_flow_with_image_pairs(a, b),
                lambda R, a, b: dvc_flow(R, a, b, o), xs, **kw)
        m.raises("rejects", ValueError, net, xs[0].to(next(net.parameters()).dtype),
                 xs[1][..., :-1].to(next(net.parameters()).dtype), _msg="shape mismatch")
    else:
        o = dict(model_channels=r.choice([4, 5]), out_channels=r.choice([1, 3]),
                 kernel_size=r.choice([3, 5]), num_levels=r.choice([1, 2, 3, 4]))
        low = 2 ** (o["num_levels"] - 1)
        H, W = low + r.randint(0, 14), low + r.randint(0, 14)
        compare(m, "dvc-motion", tuple(o.values()), DVCMotionCompensationModel(**o),
                lambda n, *a: n(*a), lambda R, *a: dvc_motion(R, *a, o),
                [torch.rand(2, 3, H, W), torch.rand(2, 3, H, W), torch.randn(2, 2, H, W)],
                **mode(m))


def transforms(m, which):
    r = m.rng
    B, T = r.choice([(1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (2, 1), (5, 2), (1, 9)])
    C = r.choice([4, 6])
    if which == 0:
        n = r.choice([4, 5])
        H, W = r.randint(1, 40), r.randint(1, 40)
        compare(m, "vct-gdn", ("a", n, C), ConvGDNAnalysis(n, C), lambda t, x: t(x),
                lambda R, x: vct_gdn(R, x, [n, n, n, C], False), [torch.rand(B, T, 3, H, W)],
                **mode(m))
        h, w = r.randint(1, 3), r.randint(1, 3)
        H, W = 16 * h - r.randint(0, 15), 16 * w - r.randint(0, 15)
        compare(m, "vct-gdn", ("s", n, C, H, W), ConvGDNSynthesis(n, C),
                lambda t, x: t(x, torch.Size((B, T, 3, H, W))),
                lambda R, x: vct_gdn(R, x, [n, n, n, 3], True)[..., :H, :W],
                [torch.randn(B, T, C, h, w)], **mode(m))
        return
    nres = r.choice([0, 1, 2, 3])
    ch = [r.choice([4, 6]) for _ in range(3)]
    H, W = r.randint(1, 33), r.randint(1, 33)
    mf = r.choice([None, 1, T, B * T])
    compare(m, "vct-elic", ("a", nres, *ch, C, mf), ELICAnalysis(nres, ch + [C], max_frames=mf),
            lambda t, x: t(x), lambda R, x: vct_elic(R, x, ch + [C], nres, False),
            [torch.rand(B, T, 3, H, W)], **mode(m))
    ch = [C, r.choice([4, 6]), r.choice([4, 6]), 3]
    h, w = r.randint(1, 2), r.randint(1, 2)
    H, W = 16 * h - r.randint(0, 15), 16 * w - r.randint(0, 15)
    compare(m, "vct-elic", ("s", nres, *ch, mf, H, W), ELICSynthesis(nres, ch, max_frames=mf),
            lambda t, x: t(x, torch.Size((B, T, 3, H, W))),
            lambda R, x: vct_elic(R, x, ch, nres, True)[..., :H, :W],
            [torch.randn(B, T, C, h, w)], **mode(m))


def transformer(m):
    r = m.rng
    heads = r.choice([1, 2, 3, 4])
    d = heads * r.choice([1, 2, 5])
    L, mult, B = r.randint(1, 7), r.choice([1, 2, 4]), r.choice([1, 3])
    dec = r.random() < 0.5
    blow = r.choice([1, 2, 3])
    rates = r.choice([0.0, 0.1, 0.5])
    x, enc = torch.randn(B, L, d), torch.randn(B, L * blow, d)
    use = dec or r.random() < 0.5
    net = TransformerBlock(L, heads, d, d * mult, rates, rates, is_decoder=dec)
    compare(m, "vct-block", (heads, d, mult, dec, use, rates), net,
            lambda n, x, e: n(x, e if use else None),
            lambda R, x, e: block(R, x, e if use else None, "", heads, mult, dec), [x, enc],
            **mode(m))
    if dec:
        m.raises("rejects", ValueError, net, x.to(next(net.parameters()).dtype),
                 _msg="decoder block with no encoder output")
    n = r.choice([1, 2, 3])
    if dec:
        net = Transformer(L, n, heads, d, mult, rates, is_decoder=True)
    else:
        net = EncoderSection(n, heads, d, mult, rates)

    def ref(R, x, e):
        for i in range(n):
            x = block(R, x, e if dec else None, f"layers.encoder_layer_{i}.", heads, mult, dec)
        return x
    compare(m, "vct-stack", (n, heads, d, mult, dec), net,
            (lambda t, x, e: t(x, e)) if dec else (lambda t, x, e: t(x)), ref, [x, enc],
            **mode(m))
    compare(m, "vct-parts", ("mlp", d, mult), MLP(d, d * mult, rates), lambda t, x: t(x),
            lambda R, x: mlp(R, x, "", mult), [x], **mode(m))
    compare(m, "vct-parts", ("mha", heads, d, blow), WindowMultiHeadAttention(d, heads, rates,
                                                                             rates),
            lambda t, q, k: t(q, k, k)[0], lambda R, q, k: mha(R, q, k, "", heads, False),
            [x, enc], **mode(m))
    compare(m, "vct-parts", ("pos", L, d), LearnedPosition(L, d), lambda t, x: t(x),
            lambda R, x: x + R.get("_emb", (1, L, d)), [x], **mode(m))
    m.check(torch.equal(StartSym(d).sym, StartSym(d).sym) and
            float(StartSym(64).sym.abs().max()) <= 3.0, "vct-parts",
            "the start symbol does not start from its fixed draw in [-3, 3]")
    compare(m, "vct-parts", ("start", L, d), StartSym(d), lambda t, x: t(x),
            lambda R, x: torch.cat([R.get("sym", (d,)).expand(B, 1, d), x[:, :-1]], 1), [x],
            **mode(m))


def entropy(m):
    r = m.rng
    C, d = r.choice([4, 6]), r.choice([4, 8, 12])
    hw = r.randint(1, 5), r.randint(1, 5)
    leave = r.random() < 0.3
    compare(m, "vct-dequantizer", (C, d, leave), Dequantizer(C, d),
            lambda t, q, f: t(latent_q=q, entropy_features=None if leave else f),
            lambda R, q, f: dequantizer(R, q, f, C, leave),
            [torch.randn(2, C, *hw), torch.randn(2, d, *hw)], **mode(m))
    wd, we = r.choice([(1, 1), (1, 3), (2, 2), (2, 4), (2, 6), (3, 3)])
    ctx = r.choice([1, 2, 3])
    heads = r.choice([1, 2])
    n = [r.choice([0, 1, 2]), r.choice([0, 1]), r.choice([1, 2])]
    o = dict(num_channels=C, context_len=ctx, window_size_enc=we, window_size_dec=wd,
             num_layers_encoder_sep=n[0], num_layers_encoder_joint=n[1],
             num_layers_decoder=n[2], d_model=heads * 4, num_head=heads,
             mlp_expansion=r.choice([1, 2]))
    net = VCTEntropyModel(**o)
    net.bottleneck = Straight()
    B, k = r.choice([1, 2]), r.randint(1, ctx)
    H, W = r.randint(4, 9), r.randint(4, 9)
    y = torch.randn(B, C, H, W) * 4
    ps = [torch.round(torch.randn(B, C, H, W) * 4) for _ in range(k)]

    def call(t, y, *ps):
        out = t(y, [t.process_previous_latent_q(p) for p in ps])
        return out.bits, out.features, out.perturbed_latent
    compare(m, "vct-entropy", (C, wd, we, ctx, k, *n), net, call,
            lambda R, y, *ps: vct_entropy(R, y, ps, o, net.patcher), [y] + ps, **mode(m))


def defaults(m):
    """Every default constructor, on the meta device: shapes and downsampling as documented."""
    def run(name, make, ref, *shapes, dev="meta"):
        with torch.device(dev):
            ok, net = m.run("defaults", make)
            if not ok:
                return
            m.case(("default", name), False)
            R = Ref(net)
            try:
                out = ref(R, *[torch.zeros(s, dtype=torch.float64 if dev == "cpu" else None)
                              for s in shapes])
            except Odd as e:
                m.fail("defaults", f"{name}: {e}")
                return
            m.check(not R.unused(), "defaults", f"{name}: unexplained {R.unused()[:3]}")
            return out
    out = run("HiFiCEncoder", HiFiCEncoder, lambda R, x: hific_encoder(R, x, 220),
              (1, 3, 256, 256))
    m.check(out is not None and tuple(out.shape) == (1, 220, 16, 16), "defaults", "encoder")
    out = run("HiFiCGenerator", HiFiCGenerator, lambda R, x: hific_generator(R, x, 3, 9),
              (1, 220, 16, 16))
    m.check(out is not None and tuple(out.shape) == (1, 3, 256, 256), "defaults", "generator")
    run("HiFiC hyper", lambda: HyperOnly(HiFiCAutoencoder(num_residual_blocks=0)),
        lambda R, y, z: hific_hyper(R, y, z, 220, 320), (1, 220, 16, 16), (1, 320, 4, 4))
    o = dict(ch=128, ch_mult=(1, 1, 2, 2, 4), num_res_blocks=2, attn_resolutions=[16],
             resamp_with_conv=True, resolution=256, embed_dim=256, norm_type="group", out_ch=3)
    out = run("VqVae encoder", lambda: VqVaeXCiTAutoencoder().encoder,
              lambda R, x: vq_encoder(R, x, o, False), (1, 3, 256, 256))
    m.check(out is not None and tuple(out.shape) == (1, 256, 16, 16), "defaults", "vq encoder")
    out = run("VqVae decoder", lambda: VqVaeXCiTAutoencoder().decoder,
              lambda R, x: vq_decoder(R, x, o, False), (1, 256, 16, 16))
    m.check(out is not None and tuple(out.shape) == (1, 3, 256, 256), "defaults", "vq decoder")
    e = dict(in_channels=2, out_channels=128, filter_channels=128, kernel_size=3, stride=2,
             num_conv_layers=4, use_gdn=True)
    run("DVC encoder", DVCCompressionEncoder, lambda R, x: dvc_encoder(R, x, e, False)[0],
        (1, 2, 64, 64))
    d = dict(e, in_channels=128, out_channels=2)
    run("DVC decoder", DVCCompressionDecoder, lambda R, x: dvc_decoder(R, x, d, None, False),
        (1, 128, 4, 4))
    mo = dict(model_channels=64, out_channels=3, kernel_size=3, num_levels=3)

    def unet_shapes(R, x):
        for n in ["model.1" + ".child" * i for i in range(3)]:
            for b in ("input_block", "output_block"):
                dvc_res(R, x, f"{n}.{b}", 64)
        R.conv(torch.empty(1, 8, 8, 8), "model.0", 64, 3)
        R.conv(x, "model.2.0", 64, 3)
        return R.conv(x, "model.2.2", 3, 3)
    run("DVC motion compensation", DVCMotionCompensationModel, unet_shapes, (1, 64, 8, 8))

    def flow_shapes(R, x):
        for lv in range(5):
            h = x
            for j, c in enumerate((32, 64, 32, 16, 2)):
                h = R.conv(h, f"model_levels.{lv}.{2 * j}", c, 7)
        return h
    run("DVC flow", DVCPyramidFlowEstimator, flow_shapes, (1, 8, 8, 8))
    # the composed model, weights by weights
    c = m.rng.choice([3, 8])
    ok, net = m.run("defaults", DVC, c)
    if ok:
        R = Ref(net)
        try:
            me = dict(e, out_channels=c, filter_channels=c)
            md = dict(d, in_channels=c, filter_channels=c)
            dvc_encoder(R, torch.zeros(1, 2, 32, 32).double(), me, False, "motion_encoder.")
            dvc_decoder(R, torch.zeros(1, c, 2, 2).double(), md, None, False, "motion_decoder.")
            dvc_encoder(R, torch.zeros(1, 3, 32, 32).double(), dict(me, kernel_size=5), False,
                        "residual_encoder.")
            dvc_decoder(R, torch.zeros(1, c, 2, 2).double(), dict(md, kernel_size=5,
                                                                  out_channels=3), None, False,
                        "residual_decoder.")
            z = torch.zeros(1, 3, 32, 32).double()
            dvc_flow(R, z, z, dict(levels=5, filter_counts=[32, 64, 32, 16, 2], kernel_size=7),
                     "motion_estimator.")
            dvc_motion(R, z, z, z[:, :2], mo, "motion_compensation.")
            rest = [k for k in R.unused() if "entropy_bottleneck" not in k]
            m.check(not rest, "defaults", f"DVC: unexplained {rest[:3]}")
        except Odd as ex:
            m.fail("defaults", f"DVC: {ex}")
    run("ConvGDNAnalysis", ConvGDNAnalysis,
        lambda R, x: vct_gdn(R, x, [128, 128, 128, 192], False), (1, 1, 3, 16, 16), dev="cpu")
    run("ConvGDNSynthesis", ConvGDNSynthesis,
        lambda R, x: vct_gdn(R, x, [128, 128, 128, 3], True), (1, 1, 192, 1, 1), dev="cpu")
    run("ELICAnalysis", ELICAnalysis,
        lambda R, x: vct_elic(R, x, [128, 160, 192, 192], 3, False), (1, 1, 3, 64, 64))
    run("ELICSynthesis", ELICSynthesis,
        lambda R, x: vct_elic(R, x, [192, 160, 128, 3], 3, True), (1, 1, 192, 4, 4))


def entropy_defaults(m):
    """VCT's entropy model as published"""
    with torch.device("meta"):
        ok, net = m.run("defaults", VCTEntropyModel)
    if not ok:
        return
    m.case(("default", "VCTEntropyModel"), False)
    sd = {k: tuple(v.shape) for k, v in net.state_dict().items()}
    for n, k in (("encoder_sep", 3), ("encoder_joint", 2), ("decoder", 5)):
        have = {x.split("encoder_layer_")[1].split(".")[0] for x in sd
                if x.startswith(n + ".layers.")}
        m.check(have == {str(i) for i in range(k)}, "defaults", f"{n}: layers {have}")
    for n, shape in (("enc_position_sep._emb", (1, 64, 768)), ("dec_position._emb", (1, 16, 768)),
                     ("enc_position_joint._emb", (1, 128, 768)), ("learned_zero.sym", (192,)),
                     ("decoder.layers.encoder_layer_0.mlp1.fc1.weight", (3072, 768)),
                     ("encoder_embedding.weight", (768, 192))):
        m.check(sd.get(n) == shape, "defaults", f"{n}: {sd.get(n)}")
    heads = {getattr(q, "num_heads", 16) for q in net.modules()
             if isinstance(q, WindowMultiHeadAttention)}
    drop = {q.p for q in net.modules() if isinstance(q, nn.Dropout)}
    m.check(heads == {16} and drop <= {0.0}, "defaults", f"heads {heads}, dropout {drop}")
    m.check((net.context_len, net.window_size_enc, net.window_size_dec) == (2, 8, 4), "defaults",
            "windows")


def run(m):
    m.seed_torch(0)
    defaults(m)
    entropy_defaults(m)
    jobs = [lambda: hific(m, 0), lambda: hific(m, 1), lambda: hific(m, 2)] + \
        [lambda: vq(m)] * 2 + [lambda: vq(m, True)] + [lambda i=i: dvc(m, i) for i in range(4)] * 2 + \
        [lambda: transforms(m, 0), lambda: transforms(m, 1)] + [lambda: transformer(m)] * 2 + \
        [lambda: entropy(m)] * 2
    for rep in range(m.n(14, 400)):
        m.seed_torch(rep + 1)
        for j in jobs:
            j()
        if rep >= m.n(4, 8) and not m.time_left():
            break
