"""Imports of projects/torch_vct the way its scripts see it (its folder on sys.path)."""
import inspect
import os
import sys

from lib.mon import REPO

sys.path.insert(0, os.path.join(REPO, "projects", "torch_vct"))


def shrink(cls, **small):
    """Lower the default sizes of a model class so whole pipelines run quickly."""
    f = cls.__init__
    names = [p.name for p in inspect.signature(f).parameters.values()
             if p.default is not inspect.Parameter.empty
             and p.kind is not inspect.Parameter.KEYWORD_ONLY]
    d = list(f.__defaults__ or ())
    for k, v in small.items():
        if k in names:
            d[names.index(k)] = v
        elif f.__kwdefaults__ and k in f.__kwdefaults__:
            f.__kwdefaults__[k] = v
    f.__defaults__ = tuple(d)
