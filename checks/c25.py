"""FID, FID with SwAV features, KID, and the patch-based update."""
import copy
import math
import pickle

import numpy as np
import torch
from torch import nn
import torchmetrics

import neuralcompression.metrics as ncm
import neuralcompression.metrics._fid as _fid
import neuralcompression.metrics._kid as _kid

PID = "C25"
RULE = ("case = one history of a distribution metric (updates of random batch sizes, reset, "
        "clone, pickling, worker synchronisation) or one patch update; distinct by metric, "
        "parameters, sizes and history")
REQUIRED = ["fid-value", "swav-value", "kid-value", "split", "swap", "reset", "persisted",
            "synced", "fid-input", "swav-input", "swav-backbone", "rejects", "backbone-frozen",
            "patch-content", "patch-count", "patch-rejects", "patch-unchanged", "identical"]
BUDGET = (20, 150)
D = 5


class Inception(nn.Module):
    """Stand-in for the pretrained network: fixed random features of the raw bytes."""
    log = []

    def __init__(self, name=None, features_list=None, *a, **k):
        super().__init__()
        self.kw = (name, list(features_list or []))
        g = torch.Generator().manual_seed(7)
        self.register_buffer("w", torch.randn(3, D, generator=g, dtype=torch.float64))

    def forward(self, x):
        Inception.log.append((x.dtype, x.detach().clone()))
        y = x.double() / 255
        y = torch.stack([y.mean((2, 3)), y.amax((2, 3)) - 0.5, y[:, :, 0, 0]]).sum(0)
        f = torch.tanh(y @ self.w) + 0.3 * y @ self.w
        return f.float()


class Resnet(nn.Module):
    def __init__(self):
        super().__init__()
        self.fc = nn.Linear(D, 3)
        g = torch.Generator().manual_seed(9)
        self.register_buffer("w", torch.randn(3, D, generator=g))
        self.drop = nn.Dropout(0.5)
        self.seen = []

    def forward(self, x):
        self.seen.append(x.detach().clone())
        y = x.mean((2, 3)) + x[:, :, 0, 0]
        return self.fc(self.drop(torch.tanh(y @ self.w) + 0.2 * y @ self.w))


HUB = []


def hub_load(repo, model, *a, **k):
    HUB.append((repo, model))
    return Resnet()


def feats(x):
    n = Inception()
    f = n(x)
    Inception.log.pop()
    return f.double().numpy()


def frechet(a, b):
    ma, mb = a.mean(0), b.mean(0)
    ca, cb = np.cov(a, rowvar=False), np.cov(b, rowvar=False)
    ev = np.linalg.eigvals(ca @ cb)
    tr = np.sqrt(np.maximum(ev.real, 0)).sum()
    return float(((ma - mb) ** 2).sum() + np.trace(ca) + np.trace(cb) - 2 * tr)


def kernel_mmd(x, y, degree, gamma, coef):
    gamma = 1.0 / x.shape[1] if gamma is None else gamma
    k = lambda p, q: (gamma * p @ q.T + coef) ** degree
    xx, yy, xy = k(x, x), k(y, y), k(x, y)
    n, m = len(x), len(y)
    return ((xx.sum() - np.trace(xx)) / (n * (n - 1)) + (yy.sum() - np.trace(yy)) / (m * (m - 1))
            - 2 * xy.mean())


def imgs(r, n, real, norm):
    h, w = r.randint(4, 7), r.randint(4, 7)
    x = torch.rand(n, 3, h, w) ** (1.0 if real else 1.4)
    return x if norm else (x * 255).round().to(torch.uint8)


def to_byte(x):
    return (x * 255).to(torch.uint8) if x.is_floating_point() else x


def synced(mt, other):
    """Synchronise mt with the states of another worker and return its value."""
    states = []
    for name, red in other._reductions.items():
        v = getattr(other, name)
        if isinstance(v, list):
            v = [torch.cat(v)] if red is not None and v else v
            states += v
        else:
            states.append(v)
    it = iter(states)
    mt.sync(dist_sync_fn=lambda x, group=None: [x, next(it)], should_sync=True,
            distributed_available=lambda: True)
    keep = mt._to_sync, mt._should_unsync
    mt._to_sync = mt._should_unsync = False
    mt._computed = None
    try:
        return mt.compute()
    finally:
        mt._to_sync, mt._should_unsync = keep
        mt.unsync()
        mt._computed = None


def history(m, kind):
    r = m.rng
    kw, norm = {}, False
    if kind == "fid":
        if r.random() < 0.5:
            norm = r.random() < 0.5
            kw["normalize"] = norm
        if r.random() < 0.5:
            kw["feature"] = r.choice([64, 192, 768, 2048])
        cls = ncm.FrechetInceptionDistance
    elif kind == "kid":
        if r.random() < 0.5:
            norm = r.random() < 0.5
            kw["normalize"] = norm
        kw.update(subsets=r.choice([1, 3]))
        deg, coef = r.choice([1, 2, 3, 3, 4]), r.choice([0.0, 0.3, 1.0, 1.0, 2.0])
        gam = r.choice([None, None, 1.0, 0.5, 0.1, r.uniform(0.05, 1.5)])
        if deg != 3 or r.random() < 0.5:
            kw["degree"] = deg
        if gam is not None:
            kw["gamma"] = gam
        if coef != 1.0 or r.random() < 0.5:
            kw["coef"] = coef
        cls = ncm.KernelInceptionDistance
    else:
        if r.random() < 0.6:
            kw["normalize"] = r.random() < 0.5
        cls = ncm.FrechetInceptionDistanceSwAV

    def build(n=None):
        k = dict(kw)
        if kind == "kid":
            k["subset_size"] = n or 84
        return cls(**k)

    oracle = f"{kind}-value"
    ok, mt = m.run(oracle, build)
    if not ok:
        return
    if kind == "fid":
        m.check(mt.inception.kw[1] == [str(kw.get("feature", 2048))], "fid-input",
                f"feature layer {mt.inception.kw}")
    if kind == "swav":
        m.check(HUB[-1] == ("facebookresearch/swav:main", "resnet50"), "swav-backbone",
                f"{HUB[-1]}")
        swav_stats = kw.get("normalize", True)

    def expect(x):
        if kind != "swav":
            return feats(to_byte(x))
        y = x.float() / 255
        if swav_stats:
            y = (y - torch.tensor([0.485, 0.456, 0.406]).view(1, 3, 1, 1)) / torch.tensor(
                [0.228, 0.224, 0.225]).view(1, 3, 1, 1)
        net = Resnet().eval()
        net.fc = nn.Identity()
        return net(y).detach().double().numpy()

    def value(real, fake):
        if kind == "kid":
            return kernel_mmd(real, fake, kw.get("degree", 3), kw.get("gamma"),
                              kw.get("coef", 1.0))
        return frechet(real, fake)

    seen = {True: [], False: []}
    ops = []
    for step in range(r.choice([3, 4, 5, 6, 7, 8] + [25] * (kind != "kid"))):
        op = r.choice(["real", "real", "fake", "fake", "reset", "persist", "mode"])
        ops.append(op)
        if op in ("real", "fake"):
            x = imgs(r, r.choice([1, 2, 5, 9] + [9, 70] * (kind != "kid")), op == "real", norm)
            x0 = x.clone()
            Inception.log.clear()
            ok, _ = m.run(oracle, mt.update, x, real=op == "real")
            m.check(torch.equal(x, x0), "patch-unchanged", "metric input")
            seen[op == "real"].append(x)
            if kind != "swav":
                m.check(len(Inception.log) == 1 and Inception.log[0][0] == torch.uint8 and
                        torch.equal(Inception.log[0][1], to_byte(x)), "fid-input",
                        f"{kind} normalize={norm}: network was given "
                        f"{[l[0] for l in Inception.log]}")
        elif op == "reset":
            mt.reset()
            seen = {True: [], False: []}
            m.event("reset")
        elif op == "persist":
            mt = r.choice([lambda: pickle.loads(pickle.dumps(mt)), mt.clone,
                           lambda: copy.deepcopy(mt)])()
            m.event("persisted")
        else:
            mt.train(r.random() < 0.5)
    need = 12
    for flag in (True, False):
        while sum(len(x) for x in seen[flag]) < need:
            x = imgs(r, r.choice([3, 4, 7]), flag, norm)
            mt.update(x, real=flag)
            seen[flag].append(x)
    if kind == "kid":
        # judged where the draw of subsets cannot matter: the subset is the whole sample
        n = 84
        for flag in (True, False):
            d = n - sum(len(x) for x in seen[flag])
            if d:
                x = imgs(r, d, flag, norm)
                mt.update(x, real=flag)
                seen[flag].append(x)
    m.case((kind, tuple(sorted((k, str(v)) for k, v in kw.items())), tuple(ops),
            tuple(len(x) for x in seen[True])), True, sample={"ops": ops, "kw": str(kw)})
    R = np.concatenate([expect(x) for x in seen[True]])
    F = np.concatenate([expect(x) for x in seen[False]])
    want = value(R, F)
    tol = 1e-4 * (1 + abs(want))
    ok, v = m.run(oracle, mt.compute)
    if not ok:
        return
    if kind == "kid":
        m.check(isinstance(v, tuple) and len(v) == 2 and abs(float(v[1])) < 1e-6 * (1 + abs(
            want)) + 1e-9, "kid-value", f"spread of equal subsets {v}")
        v = v[0]
    m.check(abs(float(v) - want) < tol, oracle, f"{kw} after {ops}: {float(v)} want {want}")
    if kind == "swav":
        net = mt.feature_extractor
        m.check(not net.training and not any(c.training for c in net.modules()),
                "backbone-frozen", "left evaluation mode")
        x = imgs(r, 2, True, False)
        net.model.seen.clear()
        mt.update(x, real=True)
        y = x.float() / 255
        if swav_stats:
            y = (y - torch.tensor([0.485, 0.456, 0.406]).view(1, 3, 1, 1)) / torch.tensor(
                [0.228, 0.224, 0.225]).view(1, 3, 1, 1)
        m.close(net.model.seen[-1], y, "swav-input", f"normalize={kw}", rtol=1e-5, atol=1e-5)
        seen[True].append(x)
    # the same images in other batches give the same value
    allx = {f: [x[i:i + 1] for x in seen[f] for i in range(len(x))] for f in seen}
    again = build(n if kind == "kid" else None)
    for f in r.sample([True, False], 2):
        for x in allx[f]:
            again.update(x, real=f)
    R = np.concatenate([expect(x) for x in seen[True]])
    F = np.concatenate([expect(x) for x in seen[False]])
    want = value(R, F)
    v = again.compute()
    v = v[0] if kind == "kid" else v
    m.check(abs(float(v) - want) < tol, "split", f"{kind} one by one: {float(v)} want {want}")
    swap = build(n if kind == "kid" else None)
    for f in (True, False):
        for x in seen[f]:
            swap.update(x, real=not f)
    v = swap.compute()
    v = v[0] if kind == "kid" else v
    m.check(abs(float(v) - want) < tol, "swap", f"{kind}: {float(v)} want {want}")
    if kind != "kid":
        same = build()
        for x in seen[True]:
            same.update(x, real=True)
            same.update(x, real=False)
        m.check(abs(float(same.compute())) < 1e-4, "identical", f"{float(same.compute())}")
    # a second worker
    a, b = build(24), build(24)
    parts = {}
    for f in (True, False):
        xs = [imgs(r, 6, f, norm) for _ in range(4)]
        parts[f] = xs
        a.update(xs[0], real=f)
        a.update(xs[1], real=f)
        b.update(xs[2], real=f)
        b.update(xs[3], real=f)
    R, F = (np.concatenate([expect(x) for x in parts[f]]) for f in (True, False))
    want = value(R, F)
    ok, v = m.run("synced", synced, a, b)
    if ok:
        v = v[0] if kind == "kid" else v
        m.check(abs(float(v) - want) < 1e-4 * (1 + abs(want)), "synced",
                f"{kind} two workers: {float(v)} want {want}")


    if kind == "swav":
        # workers which saw different numbers of batches
        a, b = build(), build()
        for f in (True, False):
            for x in parts[f][:3]:
                a.update(x, real=f)
            b.update(parts[f][3], real=f)
        ok, v = m.run("synced", synced, a, b)
        m.check(ok and abs(float(v) - want) < 1e-4 * (1 + abs(want)), "synced",
                f"{kind} two unequal workers: {v} want {want}")


class Spy:
    def __init__(self):
        self.calls = []

    def update(self, imgs, real):
        self.calls.append((imgs, real))


def grid(x, p):
    out = []
    n, _, h, w = x.shape
    starts = [0]
    if h >= 1.5 * p and w >= 1.5 * p:
        starts.append(p // 2)
    for s in starts:
        for i in range(n):
            for y in range(s, h - p + 1, p):
                for z in range(s, w - p + 1, p):
                    t = (x[i, :, y:y + p, z:z + p] * 255).round().to(torch.uint8)
                    out.append(t.numpy().tobytes())
    return sorted(out)


def patches(m):
    r = m.rng
    p = r.choice([2, 3, 4, 5, 8])
    side = lambda: r.choice([p, p + 1, math.ceil(1.5 * p) - 1, math.ceil(1.5 * p), 2 * p,
                             2 * p + p // 2, 3 * p + 1, r.randint(p, 4 * p)])
    shape = (r.choice([1, 2, 3, 3, 10]), 3, side(), side())
    x, y = torch.rand(shape), torch.rand(shape)
    if r.random() < 0.2:
        x[:, :, 0, 0] = 1.0
        y[:, :, 0, 0] = 0.0
    names = ["fid_metric", "fid_swav_metric", "kid_metric"]
    use = [n for n in names if r.random() < 0.6] or [r.choice(names)]
    spies = {n: Spy() for n in use}
    m.case(("patch", shape, p, tuple(use)), True)
    x0, y0 = x.clone(), y.clone()
    ok, cnt = m.run("patch-count", ncm.update_patch_fid, x, y, patch_size=p, **spies)
    if not ok:
        return
    gx, gy = grid(x0, p), grid(y0, p)
    m.check(cnt == len(gx), "patch-count", f"{cnt} for {shape} by {p}, want {len(gx)}")
    m.check(torch.equal(x, x0) and torch.equal(y, y0), "patch-unchanged", "")
    for n, s in spies.items():
        for flag, want in ((True, gx), (False, gy)):
            got = []
            for t, f in s.calls:
                if bool(f) == flag:
                    if t.dtype != torch.uint8 or tuple(t.shape[1:]) != (3, p, p):
                        m.fail("patch-content", f"{n}: {t.dtype} {tuple(t.shape)}")
                        return
                    got += [q.numpy().tobytes() for q in t.contiguous()]
            m.check(sorted(got) == want, "patch-content",
                    f"{n} real={flag} {shape} by {p}: {len(got)} patches, want {len(want)}")
    m.raises("patch-rejects", ValueError, ncm.update_patch_fid, x, y)
    bad = x0.clone()
    bad[0, 0, 0, 0] = r.choice([1.5, -0.5, 255.0])
    args = (bad, y) if r.random() < 0.5 else (x, bad)
    m.raises("patch-rejects", ValueError, ncm.update_patch_fid, *args, patch_size=p,
             fid_metric=Spy())


def default_patch(m):
    x = torch.rand(1, 3, 400, 390)
    s = Spy()
    n = ncm.update_patch_fid(x, x, fid_metric=s)
    m.check(n == 2 and sum(len(t) for t, f in s.calls if f) == 2, "patch-count",
            f"default patch size: {n}")
    m.check(all(tuple(t.shape[1:]) == (3, 256, 256) for t, _ in s.calls), "patch-content",
            "default patch size")


def default_kid(m):
    """defaults: subsets of 1000, cubic kernel"""
    mt = ncm.KernelInceptionDistance(subsets=1)
    xs = {f: (torch.rand(1000, 3, 4, 4) ** (1.0 if f else 1.3) * 255).to(torch.uint8)
          for f in (True, False)}
    for f in xs:
        mt.update(xs[f][:999], real=f)
    m.raises("rejects", Exception, mt.compute)
    for f in xs:
        mt.update(xs[f][999:], real=f)
    ok, v = m.run("kid-value", mt.compute)
    want = kernel_mmd(feats(xs[True]), feats(xs[False]), 3, None, 1.0)
    m.check(ok and abs(float(v[0]) - want) < 1e-4 * (1 + abs(want)), "kid-value",
            f"defaults: {v} want {want}")
    for subsets in (1, 4):  # one draw has no spread, several different ones have
        mt = ncm.KernelInceptionDistance(subsets=subsets, subset_size=20)
        for f in xs:
            mt.update(xs[f][:200], real=f)
        ok, v = m.run("kid-value", mt.compute)
        m.check(ok and (abs(float(v[1])) < 1e-12) == (subsets == 1), "kid-value",
                f"spread of {subsets} subsets: {v}")


def rejects(m):
    r = m.rng
    m.raises("rejects", ValueError, ncm.FrechetInceptionDistance,
             feature=r.choice([1, 100, 2049, 0, "a"]))
    m.raises("rejects", ValueError, ncm.FrechetInceptionDistance, normalize=r.choice([1, None,
                                                                                     "yes"]))
    m.raises("rejects", ValueError, ncm.FrechetInceptionDistanceSwAV,
             normalize=r.choice([1, None, "yes"]))


def run(m):
    _fid.NoTrainInceptionV3 = Inception
    _kid.NoTrainInceptionV3 = Inception
    torch.hub.load = hub_load
    for cls in (ncm.FrechetInceptionDistance, ncm.KernelInceptionDistance,
                ncm.FrechetInceptionDistanceSwAV):
        m.check(cls.higher_is_better is False, "direction", f"{cls.__name__}: lower is better")
    default_patch(m)
    default_kid(m)
    for i in range(m.n(450, 6000)):
        m.seed_torch(i)
        with torch.no_grad():
            history(m, ["fid", "swav", "kid"][i % 3])
        patches(m)
        patches(m)
        rejects(m)
        if not m.time_left():
            break
