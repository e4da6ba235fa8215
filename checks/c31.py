"""Dataset downloads and integrity checks against a scripted internet with faults."""
import hashlib
import io
import os
import shutil
import tempfile
import threading
import time
import zipfile
from pathlib import Path

import numpy as np
from PIL import Image
import pytorchvideo.data.clip_sampling as clip_sampling
import torchvision.datasets.utils as tvu

from lib.net import Net
from neuralcompression.data import CLIC2020Image, CLIC2020Video, Kodak

PID = "C31"
RULE = ("case = one download or integrity history (faults, retries, damaged files) of one data "
        "set in a scratch directory; distinct by data set, options and fault placement")
REQUIRED = ["kodak-files", "kodak-requests", "kodak-exists", "kodak-fault", "kodak-recover",
            "kodak-damaged", "kodak-unchecked", "kodak-offline", "clic-files", "clic-requests",
            "clic-again", "clic-fault", "clic-recover", "clic-others", "clic-leftovers",
            "video-files", "video-requests", "video-fault", "video-recover", "readable"]
BUDGET = (22, 150)
KODAK_URL = "http://r0k.us/graphics/kodak/kodak/"
KODAK_SHA = "076e2a5fd4515b5fda677f15fe63dd112d266bc5"
ARCHIVES = {
    "train": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_train_2020.zip",
              "a6845cac88c3dd882246575f7a2fc5f9"),
    "val": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_valid_2020.zip",
            "7111ee240435911db04dbc5f40d50272"),
    "test": ("https://storage.googleapis.com/clic2021_public/professional_test_2021.zip",
             "4476b708ea4c492505dd70061bebe202"),
}
VIDEO_INDEX = "https://storage.googleapis.com/clic2021_public/txt_files/video_urls.txt"
FAULTS = ["refused", "404", "reset", "truncated", "corrupt"]


def png(rng, h=5, w=6):
    a = rng.integers(0, 256, (h, w, 3), dtype=np.uint8)
    f = io.BytesIO()
    Image.fromarray(a).save(f, "PNG")
    return f.getvalue(), a


class Digest:
    """The real data cannot be had here: the published digest stands for the scripted files."""

    def __init__(self, kind, good, published):
        self.kind, self.published = kind, published
        self.real = getattr(hashlib, kind)
        self.good = self.real(good).hexdigest()

    def patch(self):
        outer = self

        class Fake:
            def __init__(self, data=b"", **kw):
                self.h = outer.real(data)
                self.name, self.digest_size, self.block_size = outer.kind, 20, 64

            def update(self, data):
                self.h.update(data)

            def copy(self):
                f = Fake()
                f.h = self.h.copy()
                return f

            def hexdigest(self):
                d = self.h.hexdigest()
                return outer.published if d == outer.good else d

            def digest(self):
                return bytes.fromhex(self.hexdigest())
        return Fake

    def __enter__(self):
        import neuralcompression.data._kodak as mod
        fake = self.patch()
        self.keep = [(hashlib, self.kind, self.real), (hashlib, "new", hashlib.new)]
        new = hashlib.new
        hashlib.new = lambda n, *a, **k: fake(*a) if n.lower() == self.kind else new(n, *a, **k)
        setattr(hashlib, self.kind, fake)
        for k, v in list(vars(mod).items()):
            if v is self.real:
                self.keep.append((mod, k, v))
                setattr(mod, k, fake)
        return self

    def __exit__(self, *a):
        for o, k, v in self.keep:
            setattr(o, k, v)


def files(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(Path(d).rglob("*"))
            if p.is_file()} if Path(d).exists() else {}


def kodak(m, tmp):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    names = ["kodim%02d.png" % i for i in range(1, 25)]
    data = [png(rng) for _ in names]
    base = KODAK_URL if r.random() < 0.5 else "http://mirror.example/k/"
    kw = {} if base == KODAK_URL and r.random() < 0.5 else dict(kodak_url=base)
    pages = {base + n: b for n, (b, _) in zip(names, data)}
    want = {n: b for n, (b, _) in zip(names, data)}
    root = tmp / "kodak"
    arg = str(root) if r.random() < 0.5 else root
    with Digest("sha1", b"".join(b for b, _ in data), KODAK_SHA):
        m.case(("kodak", "download", base, tuple(kw)), True)
        with Net(pages) as net:
            ok, ds = m.run("kodak-files", Kodak, arg, download=True, **kw)
            m.check(sorted(net.gets()) == sorted(pages), "kodak-requests",
                    f"{len(net.log)} requests for 24 images")
            if ok:
                m.check(files(root) == want, "kodak-files", "stored files differ")
                k = r.randrange(24)
                m.check(np.array_equal(np.array(ds[k]), data[k][1]), "readable", f"item {k}")
            # a second download is refused and harmless
            n = len(net.log)
            kept = files(root)
            m.raises("kodak-exists", RuntimeError, Kodak, arg, download=True,
                     check_hash=r.random() < 0.5, **kw)
            m.check(len(net.log) == n and files(root) == kept, "kodak-exists", "touched the files")
            # no download asked for: no traffic, intact files accepted
            ok, _ = m.run("kodak-offline", Kodak, arg, force_download=r.random() < 0.5)
            m.check(len(net.log) == n, "kodak-offline", "went to the network")
            # forced: everything fetched again over damaged files
            victim = r.choice(names)
            (root / victim).write_bytes(b"junk")
            ok, _ = m.run("kodak-recover", Kodak, arg, download=True, force_download=True, **kw)
            m.check(files(root) == want, "kodak-recover", "forced download left damaged files")
        # damaged directories are noticed unless checking is switched off
        for how in r.sample(["flip", "swap", "truncate", "append", "missing", "empty", "shift"], 4):
            a, b = r.sample(names, 2)
            m.case(("kodak", how, a), True)
            d = bytearray(want[a])
            exc = RuntimeError
            if how == "flip":
                d[r.randrange(len(d))] ^= 1 << r.randrange(8)
            elif how == "truncate":
                d = d[:r.randrange(len(d))]
            elif how == "append":
                d += b"\n"
            elif how == "empty":
                d = b""
            elif how == "shift":
                # the same bytes in total, cut at another place, is not distinguishable by a
                # digest over the concatenation: only a moved byte is
                d = d[1:] + d[:1]
            if how == "missing":
                (root / a).unlink()
                exc = Exception
            elif how == "swap":
                (root / a).write_bytes(want[b])
                (root / b).write_bytes(want[a])
            else:
                (root / a).write_bytes(bytes(d))
            m.raises("kodak-damaged", exc, Kodak, arg)
            ok, ds = m.run("kodak-unchecked", Kodak, arg, check_hash=False)
            m.check(ok and len(ds) == 24, "kodak-unchecked", how)
            for n in (a, b):
                (root / n).write_bytes(want[n])
        # faults while downloading are never silent, and a forced retry recovers
        for fault in r.sample(FAULTS, 2):
            shutil.rmtree(root)
            at = r.choice(names)
            m.case(("kodak", fault, at), True)
            with Net(pages, {base + at: [fault]}) as net:
                m.raises("kodak-fault", Exception, Kodak, arg, download=True, **kw)
                ok, ds = m.run("kodak-recover", Kodak, arg, download=True, force_download=True,
                               **kw)
                m.check(ok and files(root) == want, "kodak-recover", f"after {fault}")


def archive(r, rng, prefix, junk):
    out, f = {}, io.BytesIO()
    with zipfile.ZipFile(f, "w") as z:
        for i in range(r.choice([1, 2, 3, 4, 4, 15])):
            n = "%s_%d.png" % ("".join(r.choice("abcxyz") for _ in range(5)), i)
            b, a = png(rng)
            z.writestr(prefix + n, b)
            z.writestr(junk + "._" + n, b"mac")
            out[n] = (b, a)
    return f.getvalue(), out


def clic(m, tmp):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    root = tmp / "clic"
    root.mkdir()
    body, content = {}, {}
    for s in ARCHIVES:
        pre = {"train": "train/", "val": "valid/", "test": ""}[s]
        body[s], content[s] = archive(r, rng, pre, "__MACOSX/" + pre)
    pages = {ARCHIVES[s][0]: body[s] for s in ARCHIVES}
    digest = {hashlib.md5(body[s]).hexdigest(): ARCHIVES[s][1] for s in ARCHIVES}
    real = tvu.calculate_md5

    def calculate(path, *a, **k):
        d = hashlib.md5(Path(path).read_bytes()).hexdigest()
        return digest.get(d, d)
    tvu.calculate_md5 = calculate
    arg = (lambda: str(root)) if r.random() < 0.5 else (lambda: root)
    try:
        splits = list(ARCHIVES)
        r.shuffle(splits)
        done = []
        for s in splits[:r.choice([1, 2, 3])]:
            url = ARCHIVES[s][0]
            fault = r.choice([None, None] + FAULTS)
            m.case(("clic", s, fault, tuple(done)), True)
            others = {q: files(root / "clic2020" / q) for q in done}

            def listed(ds):
                return sorted(p.name for p in map(Path, ds.paths)) == sorted(content[s]) and all(
                    np.array_equal(np.array(ds[i]), content[s][n][1])
                    for i, n in enumerate(sorted(content[s])))
            with Net(pages, {url: [fault] if fault else []}) as net:
                if fault:
                    m.raises("clic-fault", Exception, CLIC2020Image, arg(), split=s, download=True)
                    ok, ds = m.run("clic-recover", CLIC2020Image, arg(), split=s, download=True)
                    if ok:
                        m.check(listed(ds), "clic-recover", f"{s} after {fault}")
                else:
                    ok, ds = m.run("clic-files", CLIC2020Image, arg(), split=s, download=True)
                    if ok:
                        m.check(listed(ds), "clic-files", f"{s}: {[str(p) for p in ds.paths]}")
                        m.check(net.gets() == [url], "clic-requests", f"{net.gets()}")
                if ok:
                    m.check(not list(root.rglob("__MACOSX")) and
                            not (root / "clic2020" / "valid").exists(), "clic-leftovers", s)
                    n = len(net.log)
                    ok, ds = m.run("clic-again", CLIC2020Image, arg(), split=s, download=True)
                    if ok:
                        m.check(listed(ds) and len(net.log) == n, "clic-again",
                                f"{s}: {net.gets()[n:]}")
                    ok, ds = m.run("clic-files", CLIC2020Image, arg(), split=s)
                    if ok:
                        m.check(listed(ds) and len(net.log) == n, "clic-files", f"{s} reopened")
            m.check(all(files(root / "clic2020" / q) == v for q, v in others.items()),
                    "clic-others", f"downloading {s} changed {done}")
            done.append(s)
        # all splits together: none has to be fetched again
        for s in r.sample(done, len(done)):
            m.case(("clic", "together", s, len(done)), len(done) > 1)
            with Net(pages) as net:
                ok, ds = m.run("clic-again", CLIC2020Image, arg(), split=s, download=True)
                if ok:
                    m.check(not net.log and sorted(p.name for p in map(Path, ds.paths)) ==
                            sorted(content[s]), "clic-again",
                            f"{s} after {done}: {net.gets()}")
    finally:
        tvu.calculate_md5 = real


def video(m, tmp):
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(32))
    root = tmp / "a" / "videos" if r.random() < 0.5 else tmp / "videos"
    n = r.choice([1, 2, 5, 20, 20, 130])
    want, pages = {}, {}
    for i in range(n):
        name = "Vlog_720P-%04x" % i
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w") as z:
            for j in range(r.randint(1, 3)):
                for c in "yuv":
                    b, _ = png(rng, 4, 4)
                    key = f"{name}/{name}_{j:05d}_{c}.png"
                    z.writestr(key, b)
                    want[key] = b
        pages["https://storage.example/%s.zip" % name] = f.getvalue()
    urls = list(pages)
    r.shuffle(urls)
    end = r.choice(["\n", "\r\n"])
    pages[VIDEO_INDEX] = (end.join(urls) + (end if r.random() < 0.5 else "")).encode()
    fault = r.choice([None, "refused", "404", "reset", "truncated", "index"])
    m.case(("video", n, fault), True)
    bad = VIDEO_INDEX if fault == "index" else r.choice(urls)
    seed = r.getrandbits(32)
    inter = {u: (hash((u, seed)) % 7) * 0.001 for u in urls}
    order = lambda u: time.sleep(inter.get(u, 0))
    sampler = clip_sampling.make_clip_sampler("random", 0.05)
    faults = {bad: ["refused" if fault == "index" else fault]} if fault else {}
    threads = threading.active_count()
    with Net(pages, faults, order) as net:
        def go():
            return CLIC2020Video(str(root) if r.random() < 0.5 else root, sampler, download=True)
        if fault:
            m.raises("video-fault", Exception, go)
            net.log.clear()
        ok, ds = m.run("video-recover" if fault else "video-files", go)
        if ok:
            m.check(files(root) == want, "video-recover" if fault else "video-files",
                    f"{len(files(root))} files of {len(want)}")
            m.check(len(ds) == n, "video-files", f"{len(ds)} videos of {n}")
            m.check(sorted(net.gets()) == sorted(pages), "video-requests",
                    f"{len(net.log)} requests for {n} videos")
            ok, item = m.run("readable", next, iter(ds))
            if ok:
                m.check(item["video_name"] in {k.split("/")[0] for k in want}, "readable", "")


def run(m):
    for i in range(m.n(150, 1500)):
        if not m.time_left():
            break
        fn = [clic, video, clic, kodak][i % 4]
        tmp = Path(tempfile.mkdtemp(prefix="vp_c31_"))
        try:
            fn(m, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
