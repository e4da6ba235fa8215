"""CIFAR-10 preparation for bits-back coding: every image once, whole, also after interruptions."""
import contextlib
import importlib.util
import io
import os
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import torchvision
from PIL import Image

from lib.mon import REPO

PID = "C41"
RULE = ("case = one history of runs over one output directory (complete, interrupted between or "
        "within images, with and without overwriting); distinct by the history")
REQUIRED = ["runs", "complete", "pixels", "names", "skip", "interrupted", "overwrite", "splits",
            "clean"]
BUDGET = (25, 150)
NAMES = ["plane", "car", "bird", "cat", "deer", "dog", "frog", "horse", "ship", "truck"]


class Stop(BaseException):
    """the process ends here"""


class Source:
    """torchvision's data set: what it holds, what was asked of it, when the process dies"""
    size = {"train": 50000, "valid": 10000}
    version = 0
    asked = []
    stop = None  # (split, index, within the image)

    def __init__(self, root, train=True, transform=None, target_transform=None, download=False):
        self.split = "train" if train else "valid"
        Source.asked.append((self.split, download, os.path.isdir(root), str(root)))
        if not download:
            raise RuntimeError("Dataset not found or corrupted.")
        (Path(root) / "cifar-10-python.tar.gz").write_bytes(b"x")

    def __len__(self):
        return Source.size[self.split]

    def __getitem__(self, i):
        if not 0 <= i < len(self):
            raise IndexError(i)
        if Source.stop == (self.split, i, False):
            raise Stop()
        return Shot(self.split, i), Source.label(self.split, i)

    @staticmethod
    def label(split, i):
        return (i * 7 + (3 if split == "train" else 0)) % 10

    @staticmethod
    def pixels(split, i):
        n = (i * 31 + Source.version * 101 + (7 if split == "train" else 0)) % 251
        return (np.arange(12).reshape(2, 2, 3) * 5 + n).astype(np.uint8)


def Shot(split, i):
    im = Image.fromarray(Source.pixels(split, i))
    real = im.save

    def save(fp, format=None, **kw):
        if Source.stop == (split, i, True):
            with open(fp, "wb") as f:
                f.write(b"\x89PNG\r\n")
            raise Stop()
        return real(fp, format, **kw)
    im.save = save
    return im


class Light:
    """an image whose file content is its number"""

    def __init__(self, i):
        self.i = i

    def save(self, fp, format=None, **kw):
        with open(fp, "wb") as f:
            f.write(b"%d" % self.i)


class Whole(Source):
    """all of CIFAR-10"""

    def __getitem__(self, i):
        if not 0 <= i < len(self):
            raise IndexError(i)
        return Light(i), Source.label(self.split, i)


def whole(m, mod):
    tmp = Path(tempfile.mkdtemp(prefix="vp_c41_"))
    torchvision.datasets.CIFAR10 = Whole
    try:
        m.case(("whole",), True)
        ok, _ = m.run("runs", launch, mod, tmp / "out")
        for split, n in Source.size.items():
            d = tmp / "out" / f"{split}_32x32"
            have = {p.name: p for p in d.glob("*")} if d.is_dir() else {}
            want = {f"{NAMES[Source.label(split, i)]}_{i:05d}.png": i for i in range(n)}
            m.check(have.keys() == want.keys(), "complete", f"{split}: {len(have)} files of {n}, "
                    f"{len(want.keys() - have.keys())} missing")
            bad = [k for k in have.keys() & want.keys()
                   if have[k].read_bytes() != b"%d" % want[k]]
            m.check(not bad, "pixels", f"{split}: {bad[:3]}")
    finally:
        torchvision.datasets.CIFAR10 = Source
        shutil.rmtree(tmp, ignore_errors=True)


def launch(mod, out, *flags):
    argv, sys.argv = sys.argv, ["cifar10.py", "-o", str(out), *flags]
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            mod.main()
    finally:
        sys.argv = argv


def state(out):
    return {str(p.relative_to(out)): p.read_bytes() for p in out.rglob("*") if p.is_file()}


def judge(m, out, versions):
    for split, n in Source.size.items():
        d = out / f"{split}_32x32"
        want = {f"{NAMES[Source.label(split, i)]}_{i:05d}.png": i for i in range(n)}
        have = sorted(p.name for p in d.glob("*")) if d.is_dir() else []
        m.check(set(have) >= set(want), "complete",
                f"{split}: {len(set(want) - set(have))} of {n} images are missing")
        m.check(set(have) <= set(want), "names", f"{split}: {sorted(set(have) - set(want))[:3]}")
        keep, Source.version = Source.version, versions[split]
        for f in set(have) & set(want):
            try:
                got = np.asarray(Image.open(d / f))
            except Exception as e:
                m.fail("pixels", f"{f}: {type(e).__name__}")
                continue
            m.check(np.array_equal(got, Source.pixels(split, want[f])), "pixels", f)
        Source.version = keep
    extra = {p.name for p in out.glob("*")} - {f"{s}_32x32" for s in Source.size}
    m.check(not extra, "clean", f"left behind {extra}")


def one(m, mod):
    r = m.rng
    tmp = Path(tempfile.mkdtemp(prefix="vp_c41_"))
    out = tmp / r.choice(["cifar", "a/b"])
    try:
        if hasattr(mod, "SIZE"):
            Source.size = {"train": r.choice([3, 11, 11, 120]), "valid": r.choice([2, 5])}
            mod.SIZE = dict(Source.size)
        Source.version = 0
        versions = {"train": 0, "valid": 0}
        hist = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            split = r.choice(["train", "valid"])
            n = Source.size[split]
            stop = (split, r.choice([0, n - 1, r.randrange(n)]), r.random() < 0.6)
            hist.append(stop)
            Source.stop = stop
            try:
                launch(mod, out)
                m.event("interrupt-not-reached")
            except Stop:
                m.event("interrupted")
            except Exception as e:
                m.fail("interrupted", f"{hist}: {type(e).__name__}: {e}")
                return
            Source.stop = None
        Source.asked.clear()
        m.case(("history", tuple(hist), tuple(Source.size.values())), True)
        ok, _ = m.run("runs", launch, mod, out)
        if not ok:
            return
        m.check(True, "interrupted" if hist else "runs", "")
        judge(m, out, versions)
        if not hist:
            m.check([a[0] for a in Source.asked] == ["train", "valid"], "splits",
                    f"{Source.asked}")
        m.check(all(not os.path.exists(a[3]) for a in Source.asked), "clean", "download left")
        # complete: nothing to do
        before = state(out)
        Source.asked.clear()
        Source.version = 1
        ok, _ = m.run("skip", launch, mod, out)
        m.check(state(out) == before and not Source.asked, "skip", f"{Source.asked}")
        if r.random() < 0.6:
            ok, _ = m.run("overwrite", launch, mod, out, r.choice(["-w", "--overwrite"]))
            m.check(len(Source.asked) == 2, "overwrite", f"{Source.asked}")
            judge(m, out, {"train": 1, "valid": 1})
        else:
            # one split is there, the other is not
            gone = r.choice(["train", "valid"])
            shutil.rmtree(out / f"{gone}_32x32")
            ok, _ = m.run("splits", launch, mod, out)
            m.check([a[0] for a in Source.asked] == [gone], "splits", f"{Source.asked}")
            versions[gone] = 1
            judge(m, out, versions)
    finally:
        Source.stop = None
        shutil.rmtree(tmp, ignore_errors=True)


def run(m):
    p = os.path.join(REPO, "projects/bits_back_diffusion/datasets/cifar10.py")
    torchvision.datasets.CIFAR10 = Source
    spec = importlib.util.spec_from_file_location("cifar10_prepare", p)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    import logging
    logging.getLogger("cifar10").setLevel(logging.ERROR)
    whole(m, mod)
    for i in range(m.n(150, 1500)):
        if not m.time_left():
            break
        one(m, mod)
