"""DVC: P-frames decode to the encoder's reconstruction; forward, flow pyramid, sizes."""
import copy
import io
import pickle

import torch
import torch.nn.functional as F

from neuralcompression.models.deep_video_compression import (
    DVC, DVCCompressionDecoder, DVCCompressionEncoder,
    DVCMotionCompensationModel, DVCPyramidFlowEstimator)

PID = "C05"
RULE = ("case = one (model with random weights, frame pair or group of pictures, size) "
        "evaluation, sizes 16..90 incl. odd ones; non-trivial when motion and residual "
        "symbols both take >= 2 values; distinct by (shape, config, kind)")
REQUIRED = ["decode", "closed-loop", "forward-eval", "probabilities", "flow-pyramid",
            "pairs", "codec-sizes", "rejects", "portable", "batch-independent", "redecode",
            "gradients"]
BUDGET = (26, 240)


def grid_warp(image, flow):
    """Reference warp: flow is (B,2,H,W) in normalised coordinates."""
    h, w = flow.shape[-2:]
    gy = torch.linspace(-1, 1, h)[:, None].expand(h, w)
    gx = torch.linspace(-1, 1, w)[None, :].expand(h, w)
    grid = torch.stack((gx, gy), -1)[None].to(flow) + flow.permute(0, 2, 3, 1)
    return F.grid_sample(image, grid, mode="bilinear", padding_mode="border",
                         align_corners=False)


def med(eb):
    return eb.quantiles[:, 0, 1].detach().view(1, -1, 1, 1)


def make(m):
    r = m.rng
    m.seed_torch()
    ch = r.choice([3, 4, 6])  # compressai corrupts its heap on strings of < 3 symbols
    levels = r.choice([1, 2, 3, 5])
    est = DVCPyramidFlowEstimator(filter_counts=r.choice([[4, 2], [6, 4, 2]]),
                                  kernel_size=r.choice([3, 7]), levels=levels)
    comp = DVCMotionCompensationModel(model_channels=4, num_levels=r.choice([1, 2, 3]))
    d = DVC(coder_channels=ch, motion_estimator=est, motion_compensation=comp).eval()
    g = torch.Generator().manual_seed(r.randrange(2**31))
    with torch.no_grad():
        for name, k in (("motion_encoder", r.choice([20, 60, 200])),
                        ("residual_encoder", r.choice([5, 20, 60]))):
            p = [q for n, q in getattr(d, name).named_parameters() if n.endswith("weight")]
            [q for q in p if q.dim() == 4][-1].mul_(k)
        for eb in (d.motion_entropy_bottleneck, d.residual_entropy_bottleneck):
            mm = torch.rand(ch, generator=g) * 4 - 2
            eb.quantiles[:, 0, 1] = mm
            eb.quantiles[:, 0, 0] = mm - torch.rand(ch, generator=g) * 10 - 3
            eb.quantiles[:, 0, 2] = mm + torch.rand(ch, generator=g) * 10 + 3
    return d, (ch, levels, len(comp.model))


class Ref:
    def __init__(self, d, i1, i2):
        with torch.no_grad():
            self.flow0 = pyramid(d.motion_estimator, i1, i2)[0]
            lat, sizes = d.motion_encoder(self.flow0)
            mm = med(d.motion_entropy_bottleneck)
            self.ml = torch.round(lat - mm) + mm
            self.tie = tie(lat - mm)
            self.flow = d.motion_decoder(self.ml, sizes)
            warped = grid_warp(i1, self.flow)
            est = d.motion_compensation(i1, warped, self.flow)
            rl, rs = d.residual_encoder(i2 - est)
            rm = med(d.residual_entropy_bottleneck)
            self.rl = torch.round(rl - rm) + rm
            self.tie = self.tie or tie(rl - rm)
            self.residual = d.residual_decoder(self.rl, rs)
            self.est = est + self.residual
            self.raw = (lat, rl)


def tie(v, tol=3e-5):
    return bool(((v - torch.floor(v) - 0.5).abs() < tol).any())


def pyramid(est, i1, i2):
    """Reference pyramidal estimator on the model's own level networks."""
    a, b = [i1], [i2]
    n = len(est.model_levels)
    for _ in range(n - 1):
        a.append(F.avg_pool2d(a[-1], 2))
        b.append(F.avg_pool2d(b[-1], 2))
    flow = torch.zeros(i1.shape[0], 2, *a[-1].shape[-2:])
    pairs = []
    for k in range(n):
        x, y = a[n - 1 - k], b[n - 1 - k]
        flow = F.interpolate(flow, x.shape[2:], mode="bilinear")
        flow = flow + est.model_levels[k](torch.cat((grid_warp(x, flow), y, flow), 1))
        pairs.append((grid_warp(x, flow), y))
    return flow, pairs


def frames(m, b, h, w, n=2):
    r = m.rng
    kind = r.choice(["noise", "shift", "static", "fade", "mixed"])
    x = F.interpolate(torch.rand(b, 3, max(2, h // 4), max(2, w // 4)), (h, w),
                      mode="bilinear")
    out = [x]
    for _ in range(n - 1):
        p = out[-1]
        if kind == "noise":
            q = torch.rand(b, 3, h, w)
        elif kind == "shift":
            q = torch.roll(p, (r.randint(-3, 3), r.randint(-3, 3)), (2, 3))
        elif kind == "static":
            q = p.clone()
        elif kind == "fade":
            q = (p * r.uniform(0.3, 1.5)).clamp(0, 1)
        else:
            q = torch.where(torch.rand(b, 1, h, w) > 0.7, torch.rand(b, 3, h, w), p)
        out.append(q)
    return out, kind


def one(m, d, cfg):
    r = m.rng
    lo = max(16, 2 ** cfg[1])
    h, w = r.randint(lo, 70), r.randint(lo, 70)
    b = r.choice([1, 1, 2, 3])
    gop = r.choice([2, 2, 4])
    if m.extra.setdefault("big", 0) < 3 and r.random() < 0.5:  # scale, a few times per run
        k = m.extra["big"]
        m.extra["big"] += 1
        if k == 0:
            b, gop, h, w = r.randint(6, 10), 2, r.randint(lo, 40), r.randint(lo, 40)
        elif k == 1:
            b, gop, h, w = 1, r.randint(8, 13), r.randint(lo, 34), r.randint(lo, 34)
        else:
            b, gop, h, w = 1, 2, r.randint(200, 330), r.randint(120, 330)
    fr, kind = frames(m, b, h, w, gop)
    ref_dec = fr[0]
    sync = True
    for t in range(1, gop):
        ref = Ref(d, ref_dec, fr[t])
        m.case(((b, h, w), cfg, kind, t),
               len(torch.unique(ref.ml)) > 1 and len(torch.unique(ref.rl)) > 1,
               sample={"shape": [b, h, w], "cfg": cfg, "kind": kind, "frame": t,
                       "motion_symbols": len(torch.unique(ref.ml)),
                       "residual_symbols": len(torch.unique(ref.rl))})
        a0, b0 = ref_dec.clone(), fr[t].clone()
        with torch.no_grad():
            ok, c = m.run("compress-runs", d.compress, ref_dec, fr[t])
            if not ok:
                return
            c = pickle.loads(pickle.dumps(c)) if r.random() < 0.5 else c
            ok, out = m.run("decompress-runs", d.decompress, ref_dec, c)
            if not ok:
                return
        m.check(torch.equal(ref_dec, a0) and torch.equal(fr[t], b0), "input-unchanged",
                "compress/decompress modified a frame")
        if not m.check(out.shape == fr[t].shape and bool(torch.isfinite(out).all())
                       and float(out.min()) >= 0 and float(out.max()) <= 1, "shape-range",
                       f"{tuple(out.shape)}"):
            return
        if ref.tie:
            m.event("skipped-near-tie")
            sync = False
        else:
            m.close(out, ref.est.clamp(0, 1), "decode" if t == 1 else "closed-loop",
                    "decoded frame != reconstruction from rounded latents",
                    rtol=1e-3, atol=3e-3)
            with torch.no_grad():
                m.close(d.decompress(ref_dec, c), out, "redecode", "second decode differs",
                        atol=1e-5)
            if t == 1:
                forward(m, d, ref, ref_dec, fr[t])
            if b > 1 and t == 1:
                j = r.randrange(b)
                with torch.no_grad():
                    c1 = d.compress(ref_dec[j:j + 1], fr[t][j:j + 1])
                m.check(c1.compressed_flow[0] == c.compressed_flow[j]
                        and c1.compressed_residual[0] == c.compressed_residual[j],
                        "batch-independent", f"frame pair {j} coded differently alone")
        m.check(len(c.compressed_flow) == b and len(c.compressed_residual) == b,
                "one-string-each", "")
        ref_dec = out
    # another instance with the same weights decodes the last P-frame identically
    if r.random() < 0.4:
        buf = io.BytesIO()
        torch.save(d.state_dict(), buf)
        buf.seek(0)
        d2 = copy.deepcopy(d)
        with torch.no_grad():
            for p in d2.parameters():
                p.add_(0.1)
        d2.load_state_dict(torch.load(buf))
        with torch.no_grad():
            base = fr[0]
            cc = d.compress(base, fr[1])
            m.close(d2.decompress(base, cc), d.decompress(base, cc), "portable",
                    "state_dict copy decodes differently", atol=1e-5)


def forward(m, d, ref, i1, i2):
    d.eval()
    with torch.no_grad():
        ok, o = m.run("forward-runs", d, i1, i2)
    if not ok:
        return
    m.close(o.flow, ref.flow, "forward-eval", "flow", rtol=1e-3, atol=1e-3)
    m.close(o.image2_est, ref.est, "forward-eval", "image2_est", rtol=1e-3, atol=3e-3)
    m.close(o.residual, ref.residual, "forward-eval", "residual", rtol=1e-3, atol=3e-3)
    with torch.no_grad():
        _, pf = d.motion_entropy_bottleneck(ref.raw[0], training=False)
        _, pr = d.residual_entropy_bottleneck(ref.raw[1], training=False)
    m.close(o.flow_probabilities, pf, "probabilities", "flow", rtol=1e-2, atol=1e-5)
    m.close(o.resid_probabilities, pr, "probabilities", "residual", rtol=1e-2, atol=1e-5)
    # training: every part receives gradients
    d.train()
    d.zero_grad()
    o = d(i1, i2)
    loss = (o.image2_est - i2).square().mean() - torch.log(o.flow_probabilities).mean() \
        - torch.log(o.resid_probabilities).mean()
    loss.backward()
    for name in ("motion_estimator", "motion_encoder", "motion_decoder",
                 "motion_compensation", "residual_encoder", "residual_decoder",
                 "motion_entropy_bottleneck", "residual_entropy_bottleneck"):
        gs = [p.grad for p in getattr(d, name).parameters() if p.grad is not None]
        m.check(any(bool((g != 0).any()) for g in gs)
                and all(bool(torch.isfinite(g).all()) for g in gs), "gradients",
                f"{name} gets no (finite) gradient")
    d.zero_grad()
    d.eval()


def flow_pyramid(m, d, cfg):
    r = m.rng
    lo = 2 ** cfg[1]
    h, w = r.randint(lo, 60), r.randint(lo, 60)
    i1, i2 = torch.rand(2, 3, h, w), torch.rand(2, 3, h, w)
    m.case(("pyramid", h, w, cfg))
    with torch.no_grad():
        f, pairs = pyramid(d.motion_estimator, i1, i2)
        ok, res = m.run("flow-runs", d.motion_estimator.calculate_flow_with_image_pairs,
                        i1, i2)
        if not ok:
            return
        f2, pairs2 = res
        m.close(f2, f, "flow-pyramid", "flow", rtol=1e-3, atol=1e-4)
        m.close(d.motion_estimator(i1, i2), f, "flow-pyramid", "forward()", rtol=1e-3,
                atol=1e-4)
        if m.check(len(pairs2) == len(pairs), "pairs", f"{len(pairs2)} pairs"):
            for k, (p, q) in enumerate(zip(pairs2, pairs)):
                m.close(p[0], q[0], "pairs", f"warped base, level {k}", rtol=1e-3, atol=1e-3)
                m.close(p[1], q[1], "pairs", f"target, level {k}", atol=1e-5)
    m.raises("rejects", ValueError, d.motion_estimator, i1, i2[..., :-1],
             _msg="frames of different sizes")


def codec_sizes(m):
    """encoder -> sizes -> decoder restores any size, for every stride/depth."""
    r = m.rng
    m.seed_torch()
    cin, fc, k = r.choice([1, 2, 3]), r.choice([2, 3]), r.choice([3, 5])
    n, s = r.choice([1, 2, 3, 4, 5]), r.choice([1, 2, 2, 2])
    gdn = r.random() < 0.6
    kw = dict(filter_channels=fc, kernel_size=k, stride=s, num_conv_layers=n, use_gdn=gdn)
    e = DVCCompressionEncoder(in_channels=cin, out_channels=3, **kw).eval()
    dd = DVCCompressionDecoder(in_channels=3, out_channels=cin, **kw).eval()
    h, w = r.randint(2 ** n, 70), r.randint(2 ** n, 70)
    x = torch.rand(2, cin, h, w)
    m.case(("codec", cin, n, s, k, gdn, h, w))
    with torch.no_grad():
        ok, res = m.run("codec-runs", e, x)
        if not ok:
            return
        z, sizes = res
        hh, ww = h, w
        exp = []
        for _ in range(n):
            exp.append((hh, ww))
            hh, ww = (hh + s - 1) // s, (ww + s - 1) // s
        m.check([tuple(q[-2:]) for q in sizes] == exp and tuple(z.shape[-2:]) == (hh, ww),
                "codec-sizes", f"{sizes} {tuple(z.shape)} for {h}x{w}")
        keep = list(sizes)
        ok, y = m.run("codec-runs", dd, z, sizes)
        if ok:
            m.check(tuple(y.shape) == tuple(x.shape), "codec-sizes",
                    f"decoder gave {tuple(y.shape)} for {tuple(x.shape)}")
        m.check(list(sizes) == keep, "codec-sizes", "decoder consumed the caller's sizes")
        m.raises("rejects", ValueError, dd, z, list(sizes) + [sizes[-1]],
                 _msg="too many sizes")
        if n > 1:
            m.raises("rejects", ValueError, dd, z, list(sizes)[:-1], _msg="too few sizes")


def run(m):
    torch.set_num_threads(2)
    i = 0
    while i < 5 or (m.time_left() and i < m.n(110, 600)):
        if i % 3 == 0:
            d, cfg = make(m)
            m.check(bool(d.update()), "update", "update() returned False")
        one(m, d, cfg)
        flow_pyramid(m, d, cfg)
        for _ in range(4):
            codec_sizes(m)
        i += 1
