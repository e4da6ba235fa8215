"""Stand-ins for training frameworks which are not installed (lightning, hydra, omegaconf).

Only what the modules under test call is provided, with the semantics of the originals that
matter here: a LightningModule whose log()/log_dict() are recorded, manual optimisation, hydra's
recursive-free instantiate, DictConfig attribute access."""
import importlib
import sys
import types

import torch
import torch.nn as nn


class Cfg(dict):
    """omegaconf.DictConfig as far as it is used here."""

    def __init__(self, d=None, **kw):
        super().__init__()
        for k, v in {**(d or {}), **kw}.items():
            self[k] = v

    def __setitem__(self, k, v):
        super().__setitem__(k, Cfg(v) if isinstance(v, dict) and not isinstance(v, Cfg) else v)

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self[k] = v

    def copy(self):
        return Cfg(self)


def instantiate(cfg, *args, **kw):
    if cfg is None:
        return None
    d = {k: v for k, v in dict(cfg).items() if k != "_target_"}
    target = cfg["_target_"]
    if isinstance(target, str):
        mod, name = target.rsplit(".", 1)
        target = getattr(importlib.import_module(mod), name)
    d = {k: instantiate(v) if isinstance(v, dict) and "_target_" in v else v
         for k, v in d.items()}
    return target(*args, **{**d, **kw})


class Trainer:
    made = []

    def __init__(self, **kw):
        self.kw, self.global_step = kw, 0
        self.calls = []
        Trainer.made.append(self)

    def fit(self, *a, **kw):
        self.calls.append(("fit", a, kw))

    def test(self, *a, **kw):
        self.calls.append(("test", a, kw))


class LightningModule(nn.Module):
    def __init__(self):
        super().__init__()
        self.automatic_optimization = True
        self.trainer = None
        self._log = []
        self._local = []  # plain values of evaluation that stay on their worker
        self._opts, self._scheds = [], []

    # recorded
    def log(self, name, value, *a, **kw):
        if name.startswith("val/") and not kw.get("sync_dist") and not hasattr(value, "compute"):
            self._local.append(name)
        self._log.append((name, value.detach() if isinstance(value, torch.Tensor) else value))

    def log_dict(self, d, *a, **kw):
        for k, v in d.items():
            self.log(k, v, *a, **kw)

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def dtype(self):
        return torch.float32

    @property
    def global_step(self):
        return self.trainer.global_step

    def optimizers(self, use_pl_optimizer=True):
        return self._opts[0] if len(self._opts) == 1 else list(self._opts)

    def lr_schedulers(self):
        if not self._scheds:
            return None
        return self._scheds[0] if len(self._scheds) == 1 else list(self._scheds)

    def manual_backward(self, loss, *a, **kw):
        loss.backward(*a, **kw)

    def clip_gradients(self, optimizer, gradient_clip_val=None, gradient_clip_algorithm=None):
        params = [p for g in optimizer.param_groups for p in g["params"]]
        if gradient_clip_val is None:
            return
        if gradient_clip_algorithm in (None, "norm"):
            torch.nn.utils.clip_grad_norm_(params, gradient_clip_val)
        elif gradient_clip_algorithm == "value":
            torch.nn.utils.clip_grad_value_(params, gradient_clip_val)
        else:
            raise ValueError(gradient_clip_algorithm)

    def on_load_checkpoint(self, checkpoint):
        pass

    def save_hyperparameters(self, *a, **kw):
        pass

    def drain(self):
        out, self._log = self._log, []
        return out


class LightningDataModule:
    def __init__(self, *a, **kw):
        pass


class Empty:
    def __init__(self, *a, **kw):
        self.args, self.kw = a, kw


def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent and parent in sys.modules:
        setattr(sys.modules[parent], leaf, m)
    return m


def install():
    pl = dict(LightningModule=LightningModule, LightningDataModule=LightningDataModule,
              Callback=Empty, Trainer=Trainer, seed_everything=lambda s, **kw: torch.manual_seed(s))
    module("lightning", __path__=[])
    for base in ("lightning.pytorch", "pytorch_lightning"):
        module(base, __path__=[], **pl)
        module(base + ".callbacks", LearningRateMonitor=Empty, ModelCheckpoint=Empty)
        module(base + ".strategies", DDPStrategy=Empty)
        module(base + ".loggers", __path__=[], WandbLogger=Empty)
        module(base + ".loggers.wandb", WandbLogger=Empty)

    def main(version_base=None, config_path=None, config_name=None):
        def mark(f):
            f.hydra_main = (config_path, config_name)
            return f
        return mark
    module("hydra", __path__=[], main=main)
    module("hydra.utils", instantiate=instantiate)

    class OmegaConf:
        resolvers = {}

        @staticmethod
        def to_container(cfg, **kw):
            return dict(cfg)

        @staticmethod
        def set_struct(cfg, flag):
            pass

        @staticmethod
        def register_new_resolver(name, fn, **kw):
            OmegaConf.resolvers[name] = fn
    module("omegaconf", DictConfig=Cfg, OmegaConf=OmegaConf)
