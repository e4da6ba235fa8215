"""Image datasets: every item is exactly the file the documentation says it is."""
import os
import pickle
import random
import shutil
import tempfile
from pathlib import Path

import numpy as np
import torch
from PIL import Image

from neuralcompression.data import CLIC2020Image, DIV2KDataset, Kodak, OpenImagesV6

PID = "C30"
RULE = ("case = one scratch directory (random file names, pixel formats, distractor files, "
        "list-file layouts) opened by one dataset class; distinct by class, split, options and "
        "number of files")
REQUIRED = ["clic-item", "clic-len", "div2k-item", "div2k-len", "openimages-item",
            "openimages-len", "openimages-excluded", "kodak-item", "kodak-len", "transform",
            "rejects", "out-of-range", "iteration", "pickled", "loader", "repeat", "files-untouched",
            "missing"]
BUDGET = (18, 120)
# images of the training split which the loader documents as unusable
EXCLUDED = """0248001275c71dc8 0364f5c6f964e1bc 0a866d6fd1ea9317 0b76aafb249fc5b7 0c616f7947875acc
0df79dea97961a10 0efa17ee62d7caf9 14098132e2032aaf 16f199c310a1b7ac 193edd6c8ef39251
1b564e7e54361fc2 235f7b87aa67461e 23e5990f0ed037a7 24b77bff6bfd736c 24d76ef27ba41f38
2e58f4a0d31e9be1 2e7f9bc07e7bd4d8 2ff06b2f1ba0cc51 31968a4b02d9981b 33bbb7e2c767c773
36a83a554ef21da2 39a876a07f18f837 39af00cf7013519c 3dfceab39d674168 3e260ed1bfd6509e
42a6df3ac3bf2d33 439e232d7531027e 48212be4d45c5c1a 4ce068dcc2ae3cc9 4ddbede0f1bdc602
50eb15613b100675 59847832eb83aaa1 5cbd57fd38a45852 5ef177f1391765d3 61db1e0c8174b3c3
61efc69916e8fa1e 62a1bbca8a844225 62be906e5077bffa 646605f070b9883f 659c55b26b92c5ab
67b1dfe383f92dcf 6a5bdb01a0f99891 6b1efb7bf49e27be 6bba1f25a1ee68e8 723a41acf8804460
73497cedb79d23a4 73f886b2ab2f5bd9 752cf54040dc80d7 7996ed8f1f35ce83 79bcae5f044a69fb
8075443714f28729 80d19062a39df158 83c0499d3e8fdb06 8604fd077594d226 88161ed23f3379b4
895ef7a64e2858c1 8b1f16626a5bbc82 8d7efba30eeca417 91d66b5ddcb4f5a3 93fd5f0899065d78
965b4dccff47fa5d 97e9a3774468eb35 9f860289e93d11fc a7adff7aede82670 adcd441c940a8832
add170ca187afcd7 ae811292e322abe1 b146377ed3af77ec b6474a1a69bbbe49 b840cb6cca32d756
b8543f9c563bad6a b9511a25bf6aa6d9 b9e6642fc707d78f bcd2dfa3750ea055 bebf5b2470a3955c
bf8844bdf5fcded4 c100f8bda2d56a6d c18b0a385e0d8257 c2ffdc701a70e9a1 c57eb29e74376b15
c5ad20115f79cc66 c977b4fd166e908b cbcdc984e6f0d41d cf81b04e3baf23d8 d1fdbbb705bb6016
d45776312fb97ff6 d5af6277007b6001 d66352405f0385e3 da1267b1196c8e79 daa2fa027bd35189
de2ea1f167b03dab dfc42b77003e55d3 e752e43deb95c51c ea15e23587edc562 eb8fab01d113dc3b
ec1a5e86a7d570c8 ec40941f60fbc594 ecd25d7e90027c89 f0508277b718aa55 fb6574ec2e4e4bb8"""


def picture(r, mode, size=None):
    w, h = size or ((r.randint(1, 9), r.randint(1, 9)) if r.random() < 0.95 else
                    (r.randint(100, 300), r.randint(1, 270)))
    rng = np.random.default_rng(r.getrandbits(32))
    if mode == "L":
        a = rng.integers(0, 256, (h, w), dtype=np.uint8)
        return Image.fromarray(a, "L"), np.stack([a] * 3, -1)
    if mode == "RGBA":
        a = rng.integers(0, 256, (h, w, 4), dtype=np.uint8)
        return Image.fromarray(a, "RGBA"), a[..., :3]
    if mode == "P":
        a = rng.integers(0, 4, (h, w), dtype=np.uint8)
        pal = rng.integers(0, 256, (4, 3), dtype=np.uint8)
        im = Image.fromarray(a, "P")
        im.putpalette(pal.flatten().tolist() + [0] * (768 - 12))
        return im, pal[a]
    a = rng.integers(0, 256, (h, w, 3), dtype=np.uint8)
    return Image.fromarray(a, "RGB"), a


def names(r, n):
    out = set()
    while len(out) < n:
        out.add(r.choice(["%d" % r.randint(0, 40), "%04d" % r.randint(0, 900),
                          "img.%d" % r.randint(0, 99), "B%d" % r.randint(0, 9),
                          "b-%d" % r.randint(0, 9), "a b%d" % r.randint(0, 9),
                          "%016x" % r.getrandbits(64)]))
    out = sorted(out)
    r.shuffle(out)
    return out


def snapshot(d):
    return sorted((str(p.relative_to(d)), p.stat().st_mtime_ns, p.stat().st_size)
                  for p in Path(d).rglob("*"))


class Stamp:
    """Transform that records what it was given and tags what it returned."""

    def __init__(self):
        self.calls = []

    def __call__(self, im):
        self.calls.append(im)
        return torch.from_numpy(np.array(im)).permute(2, 0, 1)


def pixels(item):
    if isinstance(item, torch.Tensor):
        return item.permute(1, 2, 0).numpy()
    return np.array(item)


def judge(m, tag, ds, want, tr, root, exact=True):
    """ds must present `want` (a list of arrays, in order) and nothing else."""
    r = m.rng
    before = snapshot(root)
    m.check(len(ds) == len(want), f"{tag}-len", f"{len(ds)} items, want {len(want)}")
    if len(ds) != len(want):
        return
    order = list(range(len(want)))
    r.shuffle(order)
    for i in order + order[:2]:
        j = i - len(want) if r.random() < 0.3 else i
        ok, item = m.run(f"{tag}-item", ds.__getitem__, j)
        if not ok:
            return
        if tr is None:
            m.check(isinstance(item, Image.Image) and item.mode == "RGB", f"{tag}-item",
                    f"{type(item)}")
        else:
            c = tr.calls
            m.check(len(c) == 1 and isinstance(c[0], Image.Image) and c[0].mode == "RGB" and
                    isinstance(item, torch.Tensor), "transform", f"{len(c)} calls")
            c.clear()
        got = pixels(item)
        same = got.shape == want[i].shape and (np.array_equal(got, want[i]) if exact else
                                               np.abs(got.astype(int) - want[i]).mean() < 12)
        m.check(same, f"{tag}-item", f"item {j} of {len(want)} is not the expected file")
        m.event("repeat")
    for j in (len(want), len(want) + 5, -len(want) - 1):
        m.raises("out-of-range", IndexError, ds.__getitem__, j)
    seen = []
    for item in (ds[i] for i in range(len(ds))) if tag == "x" else ds:
        seen.append(pixels(item).shape)
        if len(seen) > len(want) + 2:
            break
    if tr is not None:
        tr.calls.clear()
    m.check(seen == [w.shape for w in want], "iteration", f"{len(seen)} items of {len(want)}")
    if want:
        ok, ds2 = m.run("pickled", lambda: pickle.loads(pickle.dumps(ds)))
        if ok:
            k = r.randrange(len(want))
            m.check(np.array_equal(pixels(ds2[k]), pixels(ds[k])), "pickled", f"item {k}")
            if tr is not None:
                tr.calls.clear()
        loader = torch.utils.data.DataLoader(ds, batch_size=None, shuffle=False)
        got = [pixels(x).shape for x in loader]
        m.check(got == [w.shape for w in want], "loader", f"{len(got)} items")
        if tr is not None:
            tr.calls.clear()
    m.check(snapshot(root) == before, "files-untouched", "reading changed the directory")


def fill(r, d, n, ext=".png"):
    """n valid files plus distractors in d; {name: pixels}."""
    d.mkdir(parents=True, exist_ok=True)
    out = {}
    for nm in names(r, n):
        im, a = picture(r, r.choice(["RGB", "RGB", "L", "RGBA", "P"]))
        im.save(d / (nm + ext))
        out[nm] = a
    for nm in r.sample(["notes.txt", "x.jpg", "thumbs.png.bak", "pngfile", "README"], 2):
        (d / nm).write_bytes(b"not an image")
    sub = d / "nested"
    sub.mkdir(exist_ok=True)
    picture(r, "RGB")[0].save(sub / "inner.png")
    return out


def option(r, root):
    return str(root) if r.random() < 0.5 else root


def clic(m, tmp):
    r = m.rng
    root = tmp / "data"
    splits = ["train", "val", "test"]
    data = {s: fill(r, root / "clic2020" / s, r.choice([0, 1, 3, 6, 14])) for s in splits}
    # the same data set next to it must not be picked up
    fill(r, root / "clic2020" / "valid", 1)
    for s in splits:
        tr = Stamp() if r.random() < 0.5 else None
        m.case(("clic", s, len(data[s]), tr is None), bool(data[s]))
        kw = {} if s == "train" and r.random() < 0.5 else dict(split=s)
        ok, ds = m.run("clic-item", CLIC2020Image, option(r, root), transform=tr, **kw)
        if ok:
            order = sorted(data[s], key=lambda k: k + ".png")
            judge(m, "clic", ds, [data[s][k] for k in order], tr, root)
    m.raises("rejects", ValueError, CLIC2020Image, root,
             split=r.choice(["valid", "validation", "", "Train", "all"]))


def div2k(m, tmp):
    r = m.rng
    root = tmp / "d"
    data = fill(r, root / "DIV2K_valid_HR", r.choice([0, 1, 4, 6, 30]))
    fill(r, root / "DIV2K_train_HR", 2)
    tr = Stamp() if r.random() < 0.5 else None
    m.case(("div2k", len(data), tr is None), bool(data))
    kw = {} if r.random() < 0.5 else dict(split="val")
    ok, ds = m.run("div2k-item", DIV2KDataset, option(r, root), transform=tr, **kw)
    if ok:
        order = sorted(data, key=lambda k: k + ".png")
        judge(m, "div2k", ds, [data[k] for k in order], tr, root)
    m.raises("rejects", ValueError, DIV2KDataset, root,
             split=r.choice(["train", "test", "valid", "", "DIV2K_valid_HR"]))


def openimages(m, tmp):
    r = m.rng
    root = tmp / "oi"
    bad = EXCLUDED.split()
    for split, folder in (("train", "train"), ("val", "validation"), ("test", "test")):
        d = root / folder
        d.mkdir(parents=True)
        n = r.choice([0, 1, 4, 6, 24])
        data = {}
        for nm in names(r, n):
            im, a = picture(r, "RGB", size=(r.choice([8, 16, 24]), r.choice([8, 16])))
            im.save(d / (nm + ".jpg"), quality=97, subsampling=0)
            data[nm] = np.array(Image.open(d / (nm + ".jpg")))
        sprinkle = r.sample(bad, r.choice([0, 3, 12]))
        for nm in sprinkle:
            im, _ = picture(r, "RGB", size=(8, 8))
            im.save(d / (nm + ".jpg"))
            if split != "train":
                data[nm] = np.array(Image.open(d / (nm + ".jpg")))
        unlisted, _ = picture(r, "RGB", size=(8, 8))
        unlisted.save(d / "zz-unlisted.jpg")
        lines = sorted(set(data) | set(sprinkle))
        r.shuffle(lines)
        style = r.choice(["ext", "bare"]) if not any("." in x for x in lines) else "ext"
        end = r.choice(["\n", "\r\n", "  \n"])
        raw = [x + (".jpg" if style == "ext" else "") for x in lines]
        text = end.join(raw) + (end if r.random() < 0.7 else "")
        default = root / f"list-{folder}-files.txt"
        own = r.random() < 0.4
        path = tmp / "my_list.txt" if own else default
        with open(path, "w", newline="") as f:
            f.write(text)
        if own:
            default.write_text("does-not-exist.jpg\n")
        tr = Stamp() if r.random() < 0.5 else None
        m.case(("openimages", split, len(lines), style, end, own, tr is None), bool(data))
        kw = dict(image_list_file=option(r, path)) if own else {}
        ok, ds = m.run("openimages-item", OpenImagesV6, option(r, root), split, transform=tr, **kw)
        if not ok:
            continue
        order = sorted(data, key=lambda k: k + (".jpg" if style == "ext" else ""))
        judge(m, "openimages", ds, [data[k] for k in order], tr, tmp)
    # every unusable training image is skipped, and in no other split
    path = tmp / "bad.txt"
    keep = ["%016x" % r.getrandbits(64) for _ in range(3)]
    path.write_text("".join(f"{x}.jpg\n" for x in bad + keep))
    m.case(("openimages", "excluded"), True)
    m.check(len(OpenImagesV6(root, "train", path)) == 3, "openimages-excluded",
            f"train keeps {len(OpenImagesV6(root, 'train', path))} of 3")
    for s in ("val", "test"):
        m.check(len(OpenImagesV6(root, s, path)) == len(bad) + 3, "openimages-excluded", s)
    m.raises("rejects", ValueError, OpenImagesV6, root, r.choice(["validation", "", "all"]))
    m.raises("missing", FileNotFoundError, OpenImagesV6, tmp / "nowhere", "train")


def kodak(m, tmp):
    r = m.rng
    root = tmp / "kodak"
    root.mkdir()
    want = []
    for i in range(1, 25):
        im, a = picture(r, r.choice(["RGB", "RGB", "RGBA", "L"]))
        im.save(root / f"kodim{i:02}.png")
        want.append(a)
    picture(r, "RGB")[0].save(root / "kodim25.png")
    picture(r, "RGB")[0].save(root / "kodim1.png")
    tr = Stamp() if r.random() < 0.5 else None
    m.case(("kodak", tr is None), True)
    ok, ds = m.run("kodak-item", Kodak, option(r, root), check_hash=False, transform=tr)
    if ok:
        judge(m, "kodak", ds, want, tr, root)
    m.raises("missing", FileNotFoundError, Kodak, root / "nope", check_hash=r.random() < 0.5)


def run(m):
    for i in range(m.n(280, 800)):
        if not m.time_left():
            break
        fn = [clic, div2k, openimages, kodak][i % 4]
        tmp = Path(tempfile.mkdtemp(prefix="vp_c30_"))
        try:
            fn(m, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
