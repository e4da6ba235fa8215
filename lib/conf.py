"""A small composer of Hydra configurations: defaults lists, groups, packages, interpolations.

Enough of Hydra's and OmegaConf's rules for the configurations of this repository: ``_self_``
ordering, ``group: option``, lists of options, options named by another choice (``${data}``),
``@package _global_``, ``override`` entries of the launcher, relative and absolute
interpolations, resolvers."""
import os
import re

import yaml

from lib import stubs


class Bad(Exception):
    pass


class Loader(yaml.SafeLoader):
    pass


def _map(loader, node, deep=False):
    out = {}
    for k, v in node.value:
        key = loader.construct_object(k, deep=True)
        if key in out:
            raise Bad(f"duplicate key {key}")
        out[key] = loader.construct_object(v, deep=True)
    return out


Loader.add_constructor(yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG, _map)
Loader.yaml_implicit_resolvers = {k: [(t, r) for t, r in v if t != "tag:yaml.org,2002:timestamp"]
                                  for k, v in yaml.SafeLoader.yaml_implicit_resolvers.items()}
Loader.add_implicit_resolver(  # OmegaConf reads 1e-3 as a number
    "tag:yaml.org,2002:float",
    re.compile(r"^[-+]?(?:[0-9][0-9_]*\.?[0-9_]*|\.[0-9_]+)[eE][-+]?[0-9]+$"),
    list("-+0123456789."))


def read(path):
    with open(path) as f:
        text = f.read()
    glob = re.search(r"^#\s*@package\s+_global_\s*$", text, re.M) is not None
    return yaml.load(text, Loader) or {}, glob


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = merge({}, v) if isinstance(v, dict) else v
    return a


def nest(package, d):
    for p in reversed([p for p in package.split("/") if p]):
        d = {p: d}
    return d


class Compose:
    def __init__(self, root, name, choices=None, extra=()):
        """choices: group -> option (None drops it); extra: ``+group=option`` additions"""
        self.root, self.choices, self.used = root, dict(choices or {}), []
        self.picked = {}
        self.cfg = {}
        self.load("", name)
        for group, option in extra:
            self.load(group, option)

    def load(self, group, name, package=None):
        path = os.path.join(self.root, group, name + ".yaml")
        if not os.path.isfile(path):
            raise Bad(f"no configuration {group}/{name}")
        self.used.append(os.path.relpath(path, self.root))
        body, glob = read(path)
        package = "" if glob else group if package is None else package
        defaults = body.pop("defaults", [])
        if "_self_" not in defaults:
            defaults = defaults + ["_self_"]
        for d in defaults:
            if d == "_self_":
                merge(self.cfg, nest(package, body))
            elif isinstance(d, str):
                self.load(group, d, package)
            else:
                (g, opt), = d.items()
                if g.startswith("override "):
                    continue  # picks a launcher plugin
                if g in self.choices:
                    opt = self.choices[g]
                if isinstance(opt, str) and opt.startswith("${"):
                    opt = self.picked[opt[2:-1]]
                if opt is None:
                    continue
                self.picked[g] = opt
                for o in opt if isinstance(opt, list) else [opt]:
                    self.load(os.path.join(group, g), o)

    # ---- interpolation
    def lookup(self, path):
        node = self.cfg
        for p in path.split("."):
            if not isinstance(node, dict) or p not in node:
                raise Bad(f"interpolation of {path}: no such key")
            node = node[p]
        return self.value(node)

    def value(self, v, depth=0):
        if depth > 20:
            raise Bad("interpolation cycle")
        if isinstance(v, dict):
            return {k: self.value(x) for k, x in v.items()}
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if not isinstance(v, str) or "${" not in v:
            return v
        whole = re.fullmatch(r"\$\{((?:[^{}]|\{[^{}]*\})*)\}", v)
        if whole:
            return self.value(self.inner(whole.group(1)), depth + 1)
        return re.sub(r"\$\{((?:[^{}]|\{[^{}]*\})*)\}",
                      lambda k: str(self.value(self.inner(k.group(1)), depth + 1)), v)

    def inner(self, text):
        if ":" not in text:
            return self.lookup(text)
        name, arg = text.split(":", 1)
        if name == "now":
            return "now"
        if name == "oc.env":
            return os.environ.get(arg, "somebody")
        import sys
        res = sys.modules["omegaconf"].OmegaConf.resolvers
        if name not in res:
            raise Bad(f"unknown resolver {name}")
        arg = self.value(arg)
        if isinstance(arg, str):
            arg = yaml.load(arg, Loader)
        return res[name](arg)

    def resolve(self, skip=("hydra",)):
        return stubs.Cfg({k: self.value(v) for k, v in self.cfg.items() if k not in skip})


def options(root, group):
    return sorted(f[:-5] for f in os.listdir(os.path.join(root, group)) if f.endswith(".yaml"))


def missing(cfg, at=""):
    """paths still marked ??? """
    out = []
    for k, v in cfg.items():
        if isinstance(v, dict):
            out += missing(v, at + k + ".")
        elif v == "???":
            out.append(at + k)
    return out
