"""Perceptual distances: lpips(), NormFixLPIPS, MSELPIPSLoss and the DISTS metric."""
import copy
import math
import pickle
import types

import numpy as np
import torch
from torch import nn
import torch.nn.functional as F
import torchvision
import lpips as lpips_package
from lpips import pretrained_networks as pn
import DISTS_pytorch.DISTS_pt as dists_pt

import neuralcompression.functional as ncF
from neuralcompression.loss_fn import MSELPIPSLoss, NormFixLPIPS
from neuralcompression.metrics import DeepImageStructureTextureSimilarity

PID = "C26"
RULE = ("case = one (image pair batch, backbone, options) through lpips, NormFixLPIPS, "
        "MSELPIPSLoss or one history of the DISTS metric; distinct by options, sizes and "
        "history. Pretrained backbones cannot be downloaded, so torchvision's architectures "
        "carry fixed random weights; the linear calibration weights are the packaged ones")
REQUIRED = ["lpips-value", "lpips-reduction", "lpips-identical", "lpips-normalize",
            "lpips-repeat", "lpips-rejects", "lpips-gradient", "normfix-value",
            "normfix-gradient", "normfix-options", "normfix-faint", "normfix-layers",
            "normfix-eval", "loss-value", "loss-frozen",
            "loss-eval", "loss-zero", "loss-gradient", "dists-value", "dists-history",
            "dists-rejects", "dists-eval", "dists-synced", "input-unchanged"]
BUDGET = (36, 180)
CACHE = {}


def fake(name, build):
    def make(pretrained=True, **kw):
        if name not in CACHE:
            state = torch.get_rng_state()
            torch.manual_seed(sum(map(ord, name)))
            CACHE[name] = build()
            torch.set_rng_state(state)
        return types.SimpleNamespace(features=copy.deepcopy(CACHE[name]))
    return make


def vgg_features():
    cfg = [64, 64, "M", 128, 128, "M", 256, 256, 256, "M", 512, 512, 512, "M", 512, 512, 512, "M"]
    out, c = [], 3
    for v in cfg:
        if v == "M":
            out.append(nn.MaxPool2d(2, 2))
        else:
            conv = nn.Conv2d(c, v, 3, padding=1)
            nn.init.kaiming_normal_(conv.weight)
            out += [conv, nn.ReLU(inplace=True)]
            c = v
    return nn.Sequential(*out)


def alex_features():
    f = nn.Sequential(
        nn.Conv2d(3, 64, 11, stride=4, padding=2), nn.ReLU(inplace=True), nn.MaxPool2d(3, 2),
        nn.Conv2d(64, 192, 5, padding=2), nn.ReLU(inplace=True), nn.MaxPool2d(3, 2),
        nn.Conv2d(192, 384, 3, padding=1), nn.ReLU(inplace=True),
        nn.Conv2d(384, 256, 3, padding=1), nn.ReLU(inplace=True),
        nn.Conv2d(256, 256, 3, padding=1), nn.ReLU(inplace=True), nn.MaxPool2d(3, 2))
    for c in f:
        if isinstance(c, nn.Conv2d):
            nn.init.kaiming_normal_(c.weight)
    return f


def install():
    real = torchvision.models
    tv = types.SimpleNamespace(
        alexnet=fake("alex", alex_features), vgg16=fake("vgg", vgg_features),
        squeezenet1_1=fake("squeeze", lambda: real.squeezenet1_1(weights=None).features))
    pn.tv = tv
    dists_pt.models = types.SimpleNamespace(vgg16=fake("vgg", vgg_features))


def reference(net, x, y, version, calib, normalize, fixed, spatial=False,
              model=None):
    """Distance per image (per pixel if spatial) from the raw backbone features."""
    size = x.shape[2:]
    model = model or lpips_package.LPIPS(net=net, version=version, lpips=calib, verbose=False)
    model.eval()
    if normalize:
        x, y = 2 * x - 1, 2 * y - 1
    if version == "0.1":
        shift = torch.tensor([-.030, -.088, -.188]).view(1, 3, 1, 1)
        scale = torch.tensor([.458, .448, .450]).view(1, 3, 1, 1)
        x, y = (x - shift) / scale, (y - shift) / scale
    fx, fy = model.net(x), model.net(y)
    per = []
    for k in range(len(model.chns)):
        a, b = fx[k].double(), fy[k].double()
        if fixed:
            a = a / torch.sqrt((a ** 2 + 1e-8).sum(1, keepdim=True))
            b = b / torch.sqrt((b ** 2 + 1e-8).sum(1, keepdim=True))
        else:
            a = a / (torch.sqrt((a ** 2).sum(1, keepdim=True)) + 1e-10)
            b = b / (torch.sqrt((b ** 2).sum(1, keepdim=True)) + 1e-10)
        d = (a - b) ** 2
        if calib:
            w = [p for p in model.lins[k].parameters()][0].double()
            d = (d * w).sum(1)
        else:
            d = d.sum(1)
        per.append(F.interpolate(d[:, None], size=size, mode="bilinear", align_corners=False)[:, 0]
                   if spatial else d.mean((1, 2)))
    return torch.stack(per)


def pair(r, n, h, w, lo, hi):
    kind = r.choice(["random", "smooth", "close", "flat"])
    x = torch.rand(n, 3, h, w)
    if kind == "smooth":
        x = F.interpolate(torch.rand(n, 3, 4, 4), size=(h, w), mode="bilinear")
    if kind == "flat":
        x = torch.full((n, 3, h, w), r.random())
    y = (x + torch.randn_like(x) * (0.01 if kind == "close" else 0.2)).clamp(0, 1)
    return x * (hi - lo) + lo, y * (hi - lo) + lo, kind


def functional(m, i):
    r = m.rng
    net = ["alex", "alex", "squeeze", "vgg"][i % 4]
    version, calib = r.choice(["0.1", "0.1", "0.0"]), r.random() < 0.7
    normalize = r.random() < 0.5
    red = r.choice(["mean", "sum", "none"])
    n = r.choice([1, 2, 3, 3, 7])
    h, w = r.choice([64, 65, 72]), r.choice([64, 70])
    if net == "vgg":
        h, w = 32, 34
    x, y, kind = pair(r, n, h, w, 0 if normalize else -1, 1)
    m.case(("lpips", net, version, calib, normalize, red, n, h, w, kind), True)
    kw = dict(base_network=net, linear_weights_version=version, use_linear_calibration=calib,
              normalize=normalize, reduction=red)
    for k, d in (("base_network", "alex"), ("linear_weights_version", "0.1"),
                 ("use_linear_calibration", True), ("normalize", False), ("reduction", "mean")):
        if kw[k] == d and r.random() < 0.5:
            del kw[k]
    with torch.no_grad():
        want = reference(net, x, y, version, calib, normalize, False).sum(0)
    full = {"mean": want.mean(), "sum": want.sum(), "none": want}[red]
    x0, y0 = x.clone(), y.clone()
    xg = x.clone().requires_grad_()
    ok, v = m.run("lpips-value", ncF.lpips, xg, y, **kw)
    if not ok:
        return
    m.check(tuple(v.shape) == tuple(full.shape), "lpips-reduction", f"{red}: {tuple(v.shape)}")
    tol = 1e-4 * (1 + float(want.abs().max()))
    m.close(v, full, "lpips-value", f"{kw}", rtol=1e-3, atol=tol)
    m.check(torch.equal(x, x0) and torch.equal(y, y0), "input-unchanged", "lpips")
    m.check(bool((v.detach().abs() >= 0).all()) and v.requires_grad, "lpips-gradient",
            "no gradient to the image")
    kw["reduction"] = "none"
    if net != "vgg":
        m.check(not ncF.lpips(x, y, **kw).requires_grad, "lpips-gradient",
                "the network's own weights are being trained")
    with torch.no_grad():
        z = ncF.lpips(x, y, **kw)
        m.close(z, want, "lpips-reduction", "none", rtol=1e-3, atol=tol)
        m.close(ncF.lpips(x, y, **kw), z, "lpips-repeat", "random", rtol=0, atol=1e-7)
        m.check(float(ncF.lpips(x, x.clone(), **kw).abs().max()) < 1e-6, "lpips-identical", "")
        kw2 = dict(kw, normalize=not normalize)
        xs, ys = ((2 * x - 1, 2 * y - 1) if normalize else ((x + 1) / 2, (y + 1) / 2))
        m.close(ncF.lpips(xs, ys, **kw2), z, "lpips-normalize", "", rtol=1e-3, atol=tol)
        # all batches alone
        m.close(ncF.lpips(x[:1], y[:1], **kw), z[:1], "lpips-reduction", "alone", rtol=1e-3,
                atol=tol)
    if i % 6 == 0:
        m.raises("lpips-rejects", ValueError, ncF.lpips, x, y,
                 base_network=r.choice(["resnet", "", "Alex"]))
        m.raises("lpips-rejects", ValueError, ncF.lpips, x, y,
                 linear_weights_version=r.choice(["0.2", "1", 0.1]))
        m.raises("lpips-rejects", ValueError, ncF.lpips, x, y, reduction=r.choice(["avg", ""]))


def losses(m, i):
    r = m.rng
    net = ["vgg", "alex", "squeeze"][i % 3]
    n = r.choice([1, 2])
    h, w = (32, 36) if net == "vgg" else (66, 64)
    normalize = r.random() < 0.6
    x, y, kind = pair(r, n, h, w, 0 if normalize else -1, 1)
    a, b = r.choice([(255.0 ** 2, 1.0), (1.0, 2.0), (0.0, 1.0), (3.0, 0.0), (0.5, 0.25)])
    m.case(("loss", net, n, normalize, a, b, kind), True)
    kw = dict(mse_param=a, lpips_param=b, normalize=normalize, backbone=net)
    for k, d in (("mse_param", 255.0 ** 2), ("lpips_param", 1.0), ("normalize", True),
                 ("backbone", "vgg")):
        if kw[k] == d and r.random() < 0.6:
            del kw[k]
    ok, loss = m.run("loss-value", MSELPIPSLoss, **kw)
    if not ok:
        return
    loss.train(r.random() < 0.7)
    m.check(not any(c.training for c in loss.lpips_model.modules()), "loss-eval",
            "the backbone left evaluation mode")
    m.check(all(not p.requires_grad for p in loss.parameters()), "loss-frozen", "")
    with torch.no_grad():
        per = reference(net, x, y, "0.1", True, normalize, True)
    want = a * F.mse_loss(x.double(), y.double()) + b * per.sum(0).mean()
    x0, y0 = x.clone(), y.clone()
    xg = x.clone().requires_grad_()
    ok, v = m.run("loss-value", loss, xg, y)
    if not ok:
        return
    m.check(v.ndim == 0, "loss-value", "not a scalar")
    m.close(v, want, "loss-value", f"{kw}", rtol=1e-3, atol=1e-4)
    m.check(torch.equal(x, x0) and torch.equal(y, y0), "input-unchanged", "loss")
    (g,) = torch.autograd.grad(v, xg)
    m.check(bool(torch.isfinite(g).all()) and (float(g.abs().max()) > 0), "loss-gradient",
            f"{kind}: gradient {float(g.abs().max())}")
    z = float(loss(x, x.clone()))
    m.check(abs(z) < 1e-5, "loss-zero", f"{z}")
    # NormFixLPIPS itself
    model = loss.lpips_model
    with torch.no_grad():
        s, layers = model(x, y, retPerLayer=True, normalize=normalize)
    m.check(tuple(s.shape) == (n, 1, 1, 1) and len(layers) == len(per), "normfix-layers",
            f"{tuple(s.shape)} {len(layers)}")
    m.close(s.view(-1), per.sum(0), "normfix-value", net, rtol=1e-3, atol=1e-4)
    m.close(torch.stack([q.view(-1) for q in layers]), per, "normfix-layers", net, rtol=2e-3,
            atol=1e-4)
    model.train()
    m.check(not any(c.training for c in model.modules()), "normfix-eval", "train()")
    # the other options of the parent class
    version, calib = r.choice([("0.0", True), ("0.1", False), ("0.0", False)])
    spatial = r.random() < 0.6
    other = NormFixLPIPS(net=net, version=version, lpips=calib, spatial=spatial, verbose=False)
    m.case(("normfix", net, version, calib, spatial, normalize, kind), True)
    with torch.no_grad():
        ok, s = m.run("normfix-options", other.eval(), x, y, normalize=normalize)
        per = reference(net, x, y, version, calib, normalize, True, spatial)
    if ok:
        want = per.sum(0) if spatial else per.sum(0)[:, None, None]
        m.close(s[:, 0], want, "normfix-options", f"{net} {version} {calib} spatial={spatial}",
                rtol=1e-3, atol=2e-4)
    # dead features: gradients stay finite where the plain distance divides by zero
    dead = copy.deepcopy(model)
    with torch.no_grad():
        for p in dead.net.parameters():
            p.mul_(0 if r.random() < 0.7 else 1e-12)
    # features of any small magnitude: where the epsilon sits decides the value
    faint = copy.deepcopy(model)
    with torch.no_grad():
        # the networks are positively homogeneous in the first layer once biases are gone
        params = list(faint.net.parameters())
        for p in params:
            if p.ndim == 1:
                p.zero_()
        top = max(float(f.abs().max()) for f in faint.net(faint.scaling_layer(x)))
        params[0].mul_(10 ** r.uniform(-6, -2) / max(top, 1e-30))
        want = reference(net, x, y, "0.1", True, normalize, True, model=faint).sum(0)
        m.close(faint(x, y, normalize=normalize).view(-1), want, "normfix-faint", net, rtol=2e-3,
                atol=1e-6)
    xg = x.clone().requires_grad_()
    out = dead(xg, y if r.random() < 0.5 else x.clone(), normalize=normalize)
    (g,) = torch.autograd.grad(out.sum(), xg)
    m.check(bool(torch.isfinite(out).all() and torch.isfinite(g).all()), "normfix-gradient",
            "not finite when features vanish")


def dists(m, i):
    r = m.rng
    if "dists" not in CACHE:
        ok, mt = m.run("dists-value", DeepImageStructureTextureSimilarity)
        if not ok:
            return
        CACHE["dists"] = mt.net
        ref = dists_pt.DISTS()
        ref.load_state_dict(mt.net.state_dict())
        CACHE["dists-ref"] = ref.eval()
    ref = CACHE["dists-ref"]
    red = r.choice(["mean", "sum", None])
    ok, mt = m.run("dists-value", lambda: DeepImageStructureTextureSimilarity(
        **({} if red is None else {"reduction": red})))
    if not ok:
        return
    seen, ops = [], []
    agg = np.sum if red == "sum" else np.mean
    for step in range(r.randint(2, 4)):
        op = r.choice(["update", "update", "update", "forward", "reset", "compute", "pickle",
                       "train"])
        ops.append(op)
        if op in ("update", "forward"):
            n = r.choice([1, 2, 3, 9])
            x, y, _ = pair(r, n, 32, r.choice([32, 40]), 0, 1)
            if r.random() < 0.3:
                x[0, 0, 0, 0], y[0, 0, 0, 0] = 1.0, 0.0
            x0 = x.clone()
            with torch.no_grad():
                vals = [float(ref(x[k:k + 1], y[k:k + 1])) for k in range(n)]
            if op == "update":
                ok, _ = m.run("dists-value", mt.update, x, y)
            else:
                ok, v = m.run("dists-value", mt, x, y)
                m.check(ok and abs(float(v) - agg(vals)) < 1e-3, "dists-value",
                        f"batch value {v} want {agg(vals)}")
            m.check(torch.equal(x, x0), "input-unchanged", "dists")
            seen += vals
        elif op == "reset":
            mt.reset()
            seen = []
        elif op == "compute" and seen:
            m.check(abs(float(mt.compute()) - agg(seen)) < 1e-3, "dists-history", f"{ops}")
        elif op == "pickle":
            mt = copy.deepcopy(mt)
        elif op == "train":
            mt.train()
            m.check(not any(c.training for c in mt.net.modules()), "dists-eval",
                    "the network left evaluation mode")
    m.case(("dists", red, tuple(ops), len(seen)), len(seen) > 1)
    if seen:
        m.check(abs(float(mt.compute()) - agg(seen)) < 1e-3, "dists-history",
                f"{ops}: {float(mt.compute())} want {agg(seen)}")
        x, y, _ = pair(r, 2, 32, 32, 0, 1)
        other = DeepImageStructureTextureSimilarity(**({} if red is None else {"reduction": red}))
        other.update(x, y)
        with torch.no_grad():
            vals = [float(ref(x[k:k + 1], y[k:k + 1])) for k in range(2)]
        it = iter([getattr(other, k).clone() for k in other._reductions])
        mt.sync(dist_sync_fn=lambda t, group=None: [t, next(it)], should_sync=True,
                distributed_available=lambda: True)
        mt._to_sync = mt._should_unsync = False
        mt._computed = None
        got = float(mt.compute())
        m.check(abs(got - agg(seen + vals)) < 1e-3, "dists-synced",
                f"two workers {got} want {agg(seen + vals)}")
    good = torch.rand(1, 3, 32, 32)
    over, under = good.clone(), good.clone()
    over[0, 1, 2, 3], under[0, 2, 5, 7] = 1.0 + r.choice([0.01, 0.2]), -r.choice([0.01, 0.2])
    bad = r.choice([over, under, over, under, good * 1.5 + 0.6, good - 0.6, good[0], torch.rand(1, 1, 32, 32),
                    torch.rand(1, 4, 32, 32), good * 255])
    mt2 = DeepImageStructureTextureSimilarity()
    m.raises("dists-rejects", ValueError, mt2.update, *r.sample([good, bad], 2))
    m.raises("dists-rejects", ValueError, DeepImageStructureTextureSimilarity,
             reduction=r.choice(["none", "", "avg"]))


def run(m):
    install()
    for i in range(m.n(90, 1200)):
        m.seed_torch(i)
        functional(m, i)
        losses(m, i)
        if i % 2 == 0:
            with torch.no_grad():
                dists(m, i)
        if not m.time_left():
            break
