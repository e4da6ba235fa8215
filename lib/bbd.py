"""Loads projects/bits_back_diffusion over stand-ins for craystack, improved_diffusion, plotly,
wandb and hydra (none is installed).

The stand-in craystack is a vectorised rANS coder with the interface and the semantics of the
original: 64-bit heads, a tail of 32-bit words, codecs as (push, pop) pairs."""
import enum
import importlib
import math
import os
import sys
import types
from collections import namedtuple
from pathlib import Path

import numpy as np
import torch
import torch.distributed as dist
from scipy import special

from lib import stubs
from lib.mon import REPO

L = np.uint64(1 << 31)
U32 = np.uint64(32)


# ---- craystack -------------------------------------------------------------------------------
Codec = namedtuple("Codec", ["push", "pop"])


def random_message(flat_len, shape):
    head = np.random.randint(1 << 31, 1 << 62, size=shape).astype(np.uint64)
    return head, (np.random.randint(1 << 32, size=flat_len, dtype=np.uint64).astype(np.uint32), ())


def take(tail, n):
    out = []
    while n > 0:
        if not tail:
            raise ValueError("the message is empty")
        arr, tail = tail
        if n >= len(arr):
            out.append(arr)
            n -= len(arr)
        else:
            out.append(arr[:n])
            tail, n = (arr[n:], tail), 0
    return tail, np.concatenate(out)


def rpush(message, start, freq, prec):
    head, tail = message
    start, freq = np.asarray(start).astype(np.uint64), np.asarray(freq).astype(np.uint64)
    if (freq < 1).any():
        raise ValueError("zero frequency")
    prec = np.uint64(prec)
    full = head >= ((L >> prec) << U32) * freq
    if full.any():
        tail = (head[full].astype(np.uint32), tail)
        head = np.where(full, head >> U32, head)
    return ((head // freq) << prec) + head % freq + start, tail


def rpop(message, prec):
    head, tail = message
    prec = np.uint64(prec)
    cf = head & ((np.uint64(1) << prec) - np.uint64(1))

    def rest(start, freq):
        start, freq = np.asarray(start).astype(np.uint64), np.asarray(freq).astype(np.uint64)
        new = freq * (head >> prec) + cf - start
        low = new < L
        t = tail
        if low.any():
            t, words = take(t, int(low.sum()))
            new[low] = (new[low] << U32) | words.astype(np.uint64)
        return new, t
    return cf, rest


def flatten(message):
    head, tail = message
    head = np.ravel(head)
    out = [(head >> U32).astype(np.uint32), head.astype(np.uint32)]
    while tail:
        arr, tail = tail
        out.append(np.ravel(arr).astype(np.uint32))
    return np.concatenate(out)


def unflatten(arr, shape):
    arr = np.asarray(arr)
    n = int(np.prod(shape))
    head = (arr[:n].astype(np.uint64) << U32) | arr[n:2 * n].astype(np.uint64)
    return np.reshape(head, shape), (arr[2 * n:].copy(), ())


def Uniform(prec):
    def push(message, symbol):
        return (rpush(message, symbol, np.ones(np.shape(symbol), np.uint64), prec),)

    def pop(message):
        cf, rest = rpop(message, prec)
        return rest(cf, np.ones(cf.shape, np.uint64)), cf.astype(np.int64)
    return Codec(push, pop)


def NonUniform(enc, dec, prec):
    def push(message, symbol):
        start, freq = enc(np.asarray(symbol))
        return (rpush(message, start, freq, prec),)

    def pop(message):
        cf, rest = rpop(message, prec)
        symbol = dec(cf.astype(np.int64))
        return rest(*enc(symbol)), symbol
    return Codec(push, pop)


class norm:
    @staticmethod
    def cdf(x, mean=0.0, stdd=1.0):
        with np.errstate(all="ignore"):
            return special.ndtr((np.asarray(x, float) - mean) / stdd)

    @staticmethod
    def ppf(q):
        with np.errstate(all="ignore"):
            return special.ndtri(q)


def _cumulative_buckets_from_probs(probs, prec):
    with np.errstate(all="ignore"):
        freq = np.rint(np.asarray(probs, float) * (1 << prec)).astype(np.int64)
    freq[freq < 1] = 1
    top = np.argmax(freq, axis=-1)[..., None]
    np.put_along_axis(freq, top, np.take_along_axis(freq, top, -1) +
                      (1 << prec) - freq.sum(-1, keepdims=True), -1)
    if (freq < 1).any():
        raise ValueError("too many buckets for the precision")
    return np.concatenate([np.zeros(freq.shape[:-1] + (1,), np.int64), np.cumsum(freq, -1)], -1)


def _cdf_from_cumulative_buckets(b):
    return lambda s: np.take_along_axis(b, np.asarray(s)[..., None].astype(np.int64), -1)[..., 0]


def _cdf_to_enc_statfun(cdf):
    return lambda s: (cdf(s), cdf(np.asarray(s) + 1) - cdf(s))


def _ppf_from_cumulative_buckets(b):
    def ppf(cf):
        lo, hi = np.zeros(np.shape(cf), np.int64), np.full(np.shape(cf), b.shape[-1] - 1)
        while ((hi - lo) > 1).any():
            mid = (lo + hi) // 2
            right = np.take_along_axis(b, mid[..., None], -1)[..., 0] <= cf
            lo, hi = np.where(right, mid, lo), np.where(right, hi, mid)
        return lo
    return ppf


def std_gaussian_centres(prec):
    return norm.ppf((np.arange(1 << prec) + 0.5) / (1 << prec))


def std_gaussian_buckets(prec):
    return norm.ppf(np.arange((1 << prec) + 1) / (1 << prec))


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    with np.errstate(all="ignore"):
        edge = (np.asarray(bin_mean, float)[..., None] +
                std_gaussian_buckets(bin_prec) * np.asarray(bin_stdd, float)[..., None])
        c = norm.cdf(edge, np.asarray(mean, float)[..., None], np.asarray(stdd, float)[..., None])
    n = 1 << bin_prec
    b = np.floor(c * ((1 << coding_prec) - n)).astype(np.int64) + np.arange(n + 1)
    return NonUniform(_cdf_to_enc_statfun(_cdf_from_cumulative_buckets(b)),
                      _ppf_from_cumulative_buckets(b), coding_prec)


def substack(codec, view):
    def parts(head):
        at = view(np.arange(head.size).reshape(head.shape))
        return at, np.ravel(head)[at]

    def put(head, at, sub):
        new = np.ravel(head).copy()
        new[at] = sub
        return new.reshape(head.shape)

    def push(message, data):
        head, tail = message
        at, sub = parts(head)
        ((sub, tail),) = codec.push((sub, tail), data)
        return ((put(head, at, sub), tail),)

    def pop(message):
        head, tail = message
        at, sub = parts(head)
        (sub, tail), data = codec.pop((sub, tail))
        return (put(head, at, sub), tail), data
    return Codec(push, pop)


def BBANS(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        (message,) = likelihood(latent).push(message, data)
        return prior.push(message, latent)

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data
    return Codec(push, pop)


def length(message):
    """information in the message, in bits"""
    head, tail = message
    n = 0
    while tail:
        n += len(tail[0])
        tail = tail[1]
    return float(np.log2(np.ravel(head).astype(float)).sum()) + 32 * n


# ---- improved_diffusion ----------------------------------------------------------------------
class ModelMeanType(enum.Enum):
    PREVIOUS_X = 1
    START_X = 2
    EPSILON = 3


class ModelVarType(enum.Enum):
    LEARNED = 1
    FIXED_SMALL = 2
    FIXED_LARGE = 3
    LEARNED_RANGE = 4


class LossType(enum.Enum):
    MSE = 1
    RESCALED_MSE = 2
    KL = 3
    RESCALED_KL = 4


def get_named_beta_schedule(name, n):
    if name == "linear":
        return np.linspace(1000 / n * 1e-4, min(0.999, 1000 / n * 0.02), n)
    if name == "cosine":
        def bar(t):
            return math.cos((t + 0.008) / 1.008 * math.pi / 2) ** 2
        return np.array([min(1 - bar((i + 1) / n) / bar(i / n), 0.999) for i in range(n)])
    raise NotImplementedError(name)


class GaussianDiffusion:
    """Textbook DDPM with a model that predicts x_0; FIXED_LARGE variances by default."""

    def __init__(self, betas, **kw):
        self.kw = kw
        self.betas = b = np.asarray(betas, float)
        self.num_timesteps = len(b)
        self.abar = np.cumprod(1 - b)
        self.prev = np.append(1.0, self.abar[:-1])
        self.calls = []

    def _at(self, arr, t, x):
        return torch.tensor(arr, dtype=torch.float)[t].reshape(-1, *[1] * (x.dim() - 1)).expand(
            x.shape)

    def q_mean_variance(self, x_start, t):
        self.calls.append(("q", t.clone(), x_start.clone()))
        v = self._at(1 - self.abar, t, x_start)
        return self._at(np.sqrt(self.abar), t, x_start) * x_start, v, v.log()

    def q_posterior_mean_variance(self, x_start, x_t, t):
        self.calls.append(("posterior", t.clone(), x_start.clone(), x_t.clone()))
        c0 = self.betas * np.sqrt(self.prev) / (1 - self.abar)
        ct = (1 - self.prev) * np.sqrt(1 - self.betas) / (1 - self.abar)
        var = self.betas * (1 - self.prev) / (1 - self.abar)
        logv = np.log(np.append(var[1:2] if len(var) > 1 else self.betas[:1], var[1:]))
        return (self._at(c0, t, x_t) * x_start + self._at(ct, t, x_t) * x_t,
                self._at(var, t, x_t), self._at(logv, t, x_t))

    def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None,
                        model_kwargs=None):
        self.calls.append(("p", t.clone(), x.clone(), clip_denoised, torch.is_grad_enabled()))
        start = model(x, t, **(model_kwargs or {}))
        if clip_denoised:
            start = start.clamp(-1, 1)
        keep = len(self.calls)
        mean, _, _ = self.q_posterior_mean_variance(start, x, t)
        del self.calls[keep:]
        var = np.append((self.betas * (1 - self.prev) / (1 - self.abar))[1:2], self.betas[1:])
        if len(self.betas) == 1:
            var = self.betas
        # the log variance is that of a learned model: it may differ from the variance
        return {"mean": mean, "variance": self._at(var, t, x),
                "log_variance": self._at(np.log(var) - 0.25, t, x), "pred_xstart": start}

    def calc_bpd_loop(self, model, x_start, clip_denoised=True, model_kwargs=None):
        self.calls.append(("bpd", clip_denoised, model_kwargs, x_start.clone()))
        b, n = len(x_start), self.num_timesteps
        base = x_start.flatten(1).mean(1, keepdim=True)
        ts = torch.arange(n).float()[None]
        vb = base.abs() + ts
        prior = base[:, 0].square() + 7
        return {"total_bpd": vb.sum(1) + prior, "prior_bpd": prior, "vb": vb, "xstart_mse":
                base + 2 * ts, "mse": base - ts}


class SpacedDiffusion(GaussianDiffusion):
    def __init__(self, use_timesteps, **kw):
        self.use_timesteps = set(use_timesteps)
        base = GaussianDiffusion(**kw)
        last, betas = 1.0, []
        for i, a in enumerate(base.abar):
            if i in self.use_timesteps:
                betas.append(1 - a / last)
                last = a
        kw = dict(kw, all_betas=kw["betas"])
        kw.pop("betas")
        super().__init__(betas, **kw)


class Logger:
    dir, lines, rows, pending, crash = None, [], [], {}, None

    @classmethod
    def configure(cls, dir=None, format_strs=None):
        cls.dir = os.path.abspath(dir)
        os.makedirs(cls.dir, exist_ok=True)
        cls.current = types.SimpleNamespace(dir=cls.dir, output_formats=[])

    @classmethod
    def get_dir(cls):
        return cls.dir

    @classmethod
    def get_current(cls):
        return cls.current

    @classmethod
    def log(cls, *a, **kw):
        cls.lines.append(" ".join(map(str, a)))
        cls.hit("log")

    @classmethod
    def logkv(cls, k, v):
        cls.pending[k] = v

    @classmethod
    def logkvs(cls, d):
        for k, v in d.items():
            cls.logkv(k, v)

    @classmethod
    def dumpkvs(cls):
        cls.rows.append(dict(cls.pending))
        for f in cls.current.output_formats:
            f.writekvs(dict(cls.pending))
        cls.pending = {}
        cls.hit("dump")

    @classmethod
    def hit(cls, what):
        if cls.crash is not None:
            cls.crash -= 1
            if cls.crash < 0:
                cls.crash = None
                raise KeyboardInterrupt(what)


class TrainLoop:
    """What the original's constructor does before the hooks under test run."""

    def __init__(self, model=None, resume_checkpoint=None, ema_rate=0.9, **kw):
        self.model, self.resume_checkpoint, self.resume_step = model, resume_checkpoint, 0
        self.kw = kw
        self.ema_rate = [ema_rate] if isinstance(ema_rate, float) else [
            float(x) for x in ema_rate.split(",")]
        self._load_and_sync_parameters()
        self.master_params = list(model.parameters())
        self.ema_params = [self._load_ema_parameters(r) for r in self.ema_rate]

    def _state_dict_to_master_params(self, sd):
        return [sd[n] for n, _ in self.model.named_parameters()]


def find_ema_checkpoint(main, step, rate):
    if main is None:
        return None
    p = os.path.join(os.path.dirname(main), f"ema_{rate}_{step:06d}.pt")
    return p if os.path.exists(p) else None


class Scatter(dict):
    pass


class Figure:
    def __init__(self, data):
        self.data, self.layout = list(data), {}

    def update_layout(self, **kw):
        self.layout.update(kw)


class World:
    size, rank, others, barriers = 1, 0, None, 0


def load():
    stubs.install()
    om = sys.modules["omegaconf"].OmegaConf

    def select(cfg, key):
        for k in key.split("."):
            cfg = cfg.get(k) if cfg is not None else None
        return cfg

    def update(cfg, key, value):
        *head, last = key.split(".")
        for k in head:
            cfg = cfg[k]
        cfg[last] = value
    om.select, om.update = staticmethod(select), staticmethod(update)

    hydra = sys.modules["hydra"]

    def instantiate(cfg, *a, **kw):
        merged = stubs.Cfg(cfg)
        for k, v in kw.items():
            if isinstance(v, dict) and isinstance(merged.get(k), dict):
                merged[k] = {**merged[k], **v}
            else:
                merged[k] = v
        return stubs.instantiate(merged, *a)
    stubs.module("hydra.utils", instantiate=instantiate, to_absolute_path=lambda p: str(
        Path(World.cwd) / p))
    hydra.utils = sys.modules["hydra.utils"]
    run = types.SimpleNamespace(run=types.SimpleNamespace(dir="outputs/day/time"),
                                job=types.SimpleNamespace(name="encode"),
                                overrides=types.SimpleNamespace(task=["a=1"]))
    stubs.module("hydra.core", __path__=[])
    stubs.module("hydra.core.hydra_config", HydraConfig=types.SimpleNamespace(get=lambda: run))
    World.cwd = os.getcwd()
    World.logged = []
    stubs.module("wandb", log=lambda d: World.logged.append(d), require=lambda **kw: None,
                 init=lambda **kw: types.SimpleNamespace(log=lambda d: None, finish=lambda: None),
                 config=types.SimpleNamespace(update=lambda *a, **kw: None))
    stubs.module("plotly", __path__=[])
    stubs.module("plotly.graph_objs", Scatter=Scatter, Figure=Figure)

    rans = stubs.module("craystack", __path__=[], Codec=Codec, Uniform=Uniform,
                        random_message=random_message, flatten=flatten, unflatten=unflatten,
                        substack=substack, std_gaussian_centres=std_gaussian_centres,
                        std_gaussian_buckets=std_gaussian_buckets,
                        DiagGaussian_GaussianBins=DiagGaussian_GaussianBins)
    stubs.module("craystack.codecs", norm=norm, NonUniform=NonUniform, Uniform=Uniform,
                 _cumulative_buckets_from_probs=_cumulative_buckets_from_probs,
                 _cdf_from_cumulative_buckets=_cdf_from_cumulative_buckets,
                 _cdf_to_enc_statfun=_cdf_to_enc_statfun, Codec=Codec,
                 _ppf_from_cumulative_buckets=_ppf_from_cumulative_buckets,
                 std_gaussian_centres=std_gaussian_centres, substack=substack,
                 DiagGaussian_GaussianBins=DiagGaussian_GaussianBins)
    stubs.module("craystack.bb_ans", BBANS=BBANS)
    stubs.module("craystack.rans", flatten=flatten, unflatten=unflatten)
    assert rans

    stubs.module("improved_diffusion", __path__=[])
    stubs.module("improved_diffusion.gaussian_diffusion", GaussianDiffusion=GaussianDiffusion,
                 ModelMeanType=ModelMeanType, ModelVarType=ModelVarType, LossType=LossType,
                 get_named_beta_schedule=get_named_beta_schedule)
    stubs.module("improved_diffusion.respace", SpacedDiffusion=SpacedDiffusion)
    log = stubs.module("improved_diffusion.logger", KVWriter=object)
    for n in ("configure", "get_dir", "get_current", "log", "logkv", "logkvs", "dumpkvs"):
        setattr(log, n, getattr(Logger, n))
    World.synced = []
    stubs.module("improved_diffusion.dist_util", setup_dist=lambda: None,
                 dev=lambda: torch.device("cpu"),
                 load_state_dict=lambda p, **kw: torch.load(p, **kw),
                 sync_params=lambda ps: World.synced.append([p.detach().clone() for p in ps]))
    stubs.module("improved_diffusion.train_util", TrainLoop=TrainLoop,
                 find_ema_checkpoint=find_ema_checkpoint)

    def all_gather(out, x, *a, **kw):
        for i, o in enumerate(out):
            o.copy_(x if i == World.rank else x + 100.0 * (i + 1))

    def all_reduce(x, *a, **kw):
        x.add_(World.others or 0.0)

    def barrier(*a, **kw):
        World.barriers += 1
    dist.get_world_size = lambda *a: World.size
    dist.get_rank = lambda *a: World.rank
    dist.barrier, dist.all_gather, dist.all_reduce = barrier, all_gather, all_reduce

    sys.path.insert(0, os.path.join(REPO, "projects", "bits_back_diffusion"))
    return {n: importlib.import_module(n) for n in (
        "bits_back_diffusion.codec", "bits_back_diffusion.script_util", "encode", "compute_vlb",
        "train")}
