"""Video datasets: Vimeo-90k septuplets and CLIC 2020 video clips."""
import collections
import itertools
import math
import pickle
import random
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np
import torch
from PIL import Image
import pytorchvideo.data.clip_sampling as cs
from torch.utils.data import RandomSampler, Sampler, SequentialSampler

from neuralcompression.data import CLIC2020Video, Vimeo90kSeptuplet

PID = "C32"
RULE = ("case = one scratch video directory read through one configuration (mode, frames, "
        "sampler, transforms, worker processes); distinct by configuration and sizes")
REQUIRED = ["vimeo-item", "vimeo-len", "vimeo-transform", "vimeo-rejects", "vimeo-range",
            "vimeo-iteration", "clip-frames", "clip-fields", "clip-order", "epoch",
            "second-epoch", "abandoned", "workers", "subsample", "clip-transform",
            "clip-rejects", "clip-len", "random-access", "pickled", "files-untouched"]
BUDGET = (25, 150)
FPS = 30


def save(rng, path, h=4, w=5):
    a = rng.integers(0, 256, (h, w, 3), dtype=np.uint8)
    path.parent.mkdir(parents=True, exist_ok=True)
    Image.fromarray(a).save(path)
    return a


def snapshot(d):
    return sorted((str(p.relative_to(d)), p.stat().st_mtime_ns) for p in Path(d).rglob("*"))


class Pil:
    def __init__(self, tensor=True):
        self.calls, self.tensor = [], tensor

    def __call__(self, im):
        a = np.array(im)
        self.calls.append(a)
        return torch.from_numpy(a).permute(2, 0, 1).float() + 0.25 if self.tensor else im


def vimeo(m, tmp):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    n = r.choice([1, 2, 4, 4, 15])
    pool = ["%05d/%04d" % (i, r.randint(1, 999)) for i in range(n + 2)]
    r.shuffle(pool)
    frames = {f: [save(rng, tmp / "sequences" / f / f"im{k}.png") for k in range(1, 8)]
              for f in pool}
    lists = {"train": pool[:n], "test": pool[n:]}
    for s, fs in lists.items():
        end = r.choice(["\n", "\r\n"])
        with open(tmp / f"sep_{s}list.txt", "w", newline="") as f:
            f.write(end.join(fs) + r.choice(["", end, end + end]))
    video = r.random() < 0.5
    k = r.choice([1, 2, 3, 7, 7])
    kw = {}
    if video or r.random() < 0.5:
        kw["as_video"] = video
    if k != 7 or r.random() < 0.5:
        kw["frames_per_group"] = k
    if r.random() < 0.5:
        s = r.choice(["train", "test"])
        use = lists[s]
        kw["split"] = s
    else:
        use = r.sample(pool, r.randint(1, len(pool)))
        kw["folder_list"] = [f"sequences/{f}" for f in use]
    pil = Pil() if r.random() < 0.5 else None
    tens = (lambda t: t * 2 + 1) if r.random() < 0.4 and (video or pil) else None
    if pil:
        kw["pil_transform"] = pil
    if tens:
        kw["tensor_transform"] = tens
    m.case(("vimeo", video, k, kw.get("split"), len(use), pil is None, tens is None), True)
    before = snapshot(tmp)
    keep = list(kw["folder_list"]) if "folder_list" in kw else None
    ok, ds = m.run("vimeo-item", Vimeo90kSeptuplet, str(tmp) if r.random() < 0.5 else tmp, **kw)
    if not ok:
        return
    total = len(use) if video else len(use) * k
    m.check(len(ds) == total, "vimeo-len", f"{len(ds)} want {total}")

    def base(a):
        t = torch.from_numpy(a).permute(2, 0, 1).float()
        if pil:
            return t + 0.25
        return t / 255

    order = list(range(total))
    r.shuffle(order)
    for i in order[:10] + order[:1]:
        j = i - total if r.random() < 0.25 else i
        ok, item = m.run("vimeo-item", ds.__getitem__, j)
        if not ok:
            return
        if video:
            want = torch.stack([base(a) for a in frames[use[i]][:k]])
        else:
            a = frames[use[i // k]][i % k]
            if pil is None:
                m.check(isinstance(item, Image.Image) and np.array_equal(np.array(item), a),
                        "vimeo-item", f"image {j} of {kw}")
                continue
            want = base(a)
        if pil:
            m.check(len(pil.calls) == (k if video else 1), "vimeo-transform",
                    f"{len(pil.calls)} calls")
            pil.calls.clear()
        want = tens(want) if tens else want
        good = isinstance(item, torch.Tensor) and item.shape == want.shape and torch.allclose(
            item, want, atol=1e-6)
        m.check(good, "vimeo-item", f"item {j} of {total} ({use[i if video else i // k]})")
        if tens:
            m.check(good, "vimeo-transform", "tensor_transform")
    for j in (total, total + k, -total - 1):
        m.raises("vimeo-range", IndexError, ds.__getitem__, j)
    got = sum(1 for _ in itertools.islice(ds, total + 3))
    m.check(got == total, "vimeo-iteration", f"{got} of {total}")
    if pil:
        pil.calls.clear()
    if keep is not None:
        m.check(kw["folder_list"] == keep, "files-untouched", "folder list")
    ds2 = pickle.loads(pickle.dumps(Vimeo90kSeptuplet(tmp, as_video=video, split="test")))
    m.check(len(ds2) == len(lists["test"]) * (1 if video else 7), "vimeo-len", "pickled")
    m.check(snapshot(tmp) == before, "files-untouched", "vimeo")
    # invalid configurations
    m.raises("vimeo-rejects", ValueError, Vimeo90kSeptuplet, tmp, split="train",
             frames_per_group=r.choice([0, 8, -1, 2.5, 70]))
    m.raises("vimeo-rejects", ValueError, Vimeo90kSeptuplet, tmp)
    m.raises("vimeo-rejects", ValueError, Vimeo90kSeptuplet, tmp, split="train", folder_list=["a"])
    m.raises("vimeo-rejects", ValueError, Vimeo90kSeptuplet, tmp,
             split=r.choice(["val", "", "Train"]))
    bad = Vimeo90kSeptuplet(tmp, as_video=r.random() < 0.5, split="train",
                            pil_transform=Pil(tensor=False))
    m.raises("vimeo-rejects", RuntimeError, bad.__getitem__, 0)


class Reverse(Sampler):
    def __init__(self, data):
        self.n = len(data)

    def __iter__(self):
        return iter(reversed(range(self.n)))

    def __len__(self):
        return self.n


def tagged(rng, root, names, r):
    """Frame j of video i carries its own address in the red, green and blue channels."""
    lengths = {}
    for i, nm in enumerate(names):
        d = root / nm
        d.mkdir(parents=True)
        t = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 30])
        lengths[nm] = t
        js = list(range(t))
        r.shuffle(js)       # directory order is not frame order
        for j in js:
            a = np.zeros((2, 3, 3), np.uint8)
            a[..., 0], a[..., 1], a[..., 2] = i + 1, j, 200 - j
            Image.fromarray(a).save(d / f"{nm}_{j:05d}_y.png")
            for c in "uv":
                Image.fromarray(a * 0 + 77).save(d / f"{nm}_{j:05d}_{c}.png")
    return lengths


def expected(lengths, nm, start, end, per):
    t = lengths[nm]
    end = min(end, t / FPS)
    idx = list(range(math.ceil(FPS * start), min(math.ceil(FPS * end), t)))
    return idx


class Spy:
    """Passes a clip sampler through and logs what it decided."""

    def __init__(self, inner):
        self.inner, self.log = inner, []

    def __call__(self, last, duration, ann):
        c = self.inner(last, duration, ann)
        self.log.append((last, duration, c))
        return c

    def reset(self):
        self.inner.reset()


class Jumpy(cs.ClipSampler):
    """Clips in an order of its own: later clips may start before earlier ones, or at 0."""

    def __init__(self, d, starts):
        super().__init__(d)
        self.starts, self.k = starts, 0

    def __call__(self, last, duration, ann):
        k, self.k = self.k, self.k + 1
        d = self._clip_duration
        s = Fraction(int(self.starts[k] * int(duration * FPS + 0.5)), FPS)
        last = self.k == len(self.starts)
        if last:
            self.k = 0
        return cs.ClipInfo(s, s + d, k, 0, last)

    def reset(self):
        self.k = 0


def make_sampler(r):
    d = r.choice([Fraction(1, 30), Fraction(2, 30), Fraction(3, 30)])
    kind = r.choice(["random", "uniform", "constant", "augmented", "jumpy"])
    if kind == "random":
        return kind, cs.RandomClipSampler(d)
    if kind == "uniform":
        return kind, cs.UniformClipSampler(d)
    if kind == "constant":
        return kind, cs.ConstantClipsPerVideoSampler(d, r.choice([1, 2, 3]))
    if kind == "jumpy":
        return kind, Jumpy(d, [r.choice([0, 0, 0.3, 0.5, 0.8]) for _ in range(r.choice([1, 3]))])
    return kind, cs.ConstantClipsPerVideoSampler(d, 2, 2)


def look(m, sample, spy, names, lengths, per, tr):
    """One sample against the clip the sampler decided on."""
    if not spy.log:
        m.fail("clip-fields", "no clip was sampled")
        return None
    last, duration, info = spy.log[-1]
    nm = sample["video_name"]
    m.check(nm in lengths, "clip-fields", f"video name {nm}")
    if nm not in lengths:
        return None
    m.check(abs(float(duration) - lengths[nm] / FPS) < 1e-6, "clip-fields", "duration")
    m.check(sample["clip_index"] == info.clip_index and sample["aug_index"] == info.aug_index and
            sample["label"] is None and sample["video_label"] is None, "clip-fields",
            f"{[sample[k] for k in ('clip_index', 'aug_index')]}")
    m.check(("seen" in sample) == tr, "clip-transform", f"{list(sample)}")
    idx = expected(lengths, nm, float(info.clip_start_sec), float(info.clip_end_sec), per)
    v = sample["video"]
    m.check(v.dtype == torch.float32 and v.ndim == 4 and tuple(v.shape[::2])[:1] == (3,),
            "clip-fields", f"{v.dtype} {tuple(v.shape)}")
    vid = names.index(nm) + 1
    got = [int(x) for x in v[1, :, 0, 0]]
    m.check(bool((v[0] == vid).all()) and bool((v[2] == 200 - v[1]).all()), "clip-frames",
            f"frames of another video or plane in {nm}")
    if per is None:
        m.check(got == idx, "clip-frames", f"{nm}: frames {got} want {idx}")
    else:
        n = len(idx)
        pos = [i * (n - 1) / (per - 1) if per > 1 else 0.0 for i in range(per)]
        ok = len(got) == per and all(
            g in {idx[min(int(max(p + e, 0)), n - 1)] for e in (-1e-4, 0, 1e-4)}
            for g, p in zip(got, pos))
        m.check(ok, "subsample", f"{per} of {idx}: {got}")
    return nm


def clips(m, tmp, workers=False):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    root = tmp / "v"
    n = r.choice([1, 2, 3, 5, 13]) if not workers else r.choice([3, 5])
    names = ["%s_%sP-%04x" % (r.choice(["Vlog", "Sports", "Animation"]), r.choice([720, 1080]), i)
             for i in range(n)]
    r.shuffle(names)
    lengths = tagged(rng, root, names, r)
    kind, inner = make_sampler(r)
    vs = r.choice([None, SequentialSampler, Reverse, RandomSampler])
    per = r.choice([None, None, 1, 2, 4])
    tr = r.random() < 0.4
    kw = {}
    if vs is not None:
        kw["video_sampler"] = vs
    if per:
        kw["frames_per_clip"] = per
    if tr:
        kw["transform"] = lambda d: dict(d, seen=True)
    if r.random() < 0.3:
        kw["multithreaded_io"] = True
    if r.random() < 0.5:
        kw["split"] = r.choice(["train", "val", "test"])
    m.case(("clips", workers, kind, n, vs and vs.__name__, per, tr, "multithreaded_io" in kw), True)
    before = snapshot(tmp)
    if workers:
        count = r.choice([1, 2, 3])
        kind, inner = "random", cs.RandomClipSampler(Fraction(1, 30))
        ok, ds = m.run("workers", CLIC2020Video, root, inner, **dict(kw, transform=None))
        if not ok:
            return
        for epoch in range(2):
            ok, got = m.run("workers", lambda: [s["video_name"] for s in torch.utils.data.DataLoader(
                ds, batch_size=None, num_workers=count)])
            if not ok:
                return
            m.check(sorted(got) == sorted(names), "workers",
                    f"epoch {epoch}, {count} workers, {vs}: {dict(collections.Counter(got))}")
        return
    spy = Spy(inner)
    random.seed(r.getrandbits(32))
    ok, ds = m.run("clip-frames", CLIC2020Video, str(root) if r.random() < 0.5 else root, spy, **kw)
    if not ok:
        return
    m.check(len(ds) == n, "clip-len", f"{len(ds)} of {n}")

    def epoch(limit=None):
        seen = []
        for s in itertools.islice(ds, limit or 500):
            nm = look(m, s, spy, names, lengths, per, tr)
            seen.append((nm, s["clip_index"], s["aug_index"], spy.log[-1][2].is_last_clip,
                         s["video_index"]))
        return seen

    def judge(seen, oracle):
        """Every video once, its clips consecutive and complete."""
        groups = []
        for q in seen:
            if groups and not groups[-1][-1][3]:
                groups[-1].append(q)
            else:
                groups.append([q])
        m.check(all(len({(q[0], q[4]) for q in g}) == 1 for g in groups), "clip-order",
                "a clip of another video before the last clip")
        m.check(all([q[1:3] for q in g] == sorted({q[1:3] for q in g}) and g[0][1:3] == (0, 0) and
                    g[-1][3] for g in groups), "clip-order", f"{seen}")
        m.check(sorted(g[0][0] for g in groups) == sorted(names), oracle,
                f"{kind}: videos {[g[0][0] for g in groups]} of {names}")
        m.check(len({q[4] for g in groups for q in g}) == n, oracle, "video indices")
        return [g[0][4] for g in groups]
    ok, seen = m.run("epoch", epoch)
    if not ok:
        return
    order = judge(seen, "epoch")
    if vs in (SequentialSampler, Reverse):
        m.check(order == (list(range(n)) if vs is SequentialSampler else list(range(n))[::-1]),
                "clip-order", f"{vs.__name__}: {order}")
    ok, seen = m.run("second-epoch", epoch)
    if not ok:
        return
    judge(seen, "second-epoch")
    ok, _ = m.run("abandoned", epoch, r.randint(1, 3))
    ok, seen = m.run("abandoned", epoch)
    if not ok:
        return
    judge(seen, "abandoned")
    if kind == "random":
        for i in r.sample(range(n), n):
            ok, s = m.run("random-access", ds.__getitem__, i)
            if ok:
                look(m, s, spy, names, lengths, per, tr)
                m.check(s["video_index"] == i and spy.log[-1][0] == 0, "random-access", f"{i}")
    if not tr and vs is not None:
        ok, ds2 = m.run("pickled", lambda: pickle.loads(pickle.dumps(
            CLIC2020Video(root, inner, **kw))))
        if ok:
            m.check(len(ds2) == n and len(list(itertools.islice(ds2, 500))) >= n, "pickled", "")
    m.raises("clip-rejects", ValueError, CLIC2020Video, root, inner,
             split=r.choice(["valid", "", "all"]))
    m.check(snapshot(tmp) == before, "files-untouched", "clips")


def run(m):
    for i in range(m.n(150, 1800)):
        if not m.time_left():
            break
        tmp = Path(tempfile.mkdtemp(prefix="vp_c32_"))
        try:
            if i % 3 == 0:
                vimeo(m, tmp)
            else:
                clips(m, tmp, workers=i % 15 == 1)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
