"""VCT video pipeline: causal in time, any size, compress == forward; memoisation is invisible."""
import math

import torch

from lib.vct import shrink
from neural.bottlenecks import GsnConditionalLocScaleShift
from neural.entropy_model import VCTEntropyModel
from neural.transforms import ConvGDNAnalysis, ConvGDNSynthesis, ELICAnalysis, ELICSynthesis
from datamodules.video_data_api import Scenes, VideoDataset
from model_pipeline import VCTPipeline
import utils.memoize as memoize

PID = "C12"
RULE = ("case = one (pipeline with random weights, clip) evaluation, or one call in a "
        "memoised-call history; non-trivial when the clip has >= 2 frames / the call repeats "
        "or shares arguments; distinct by (config, shape, kind)")
REQUIRED = ["forward-recon", "forward-likelihood", "time-causal", "size", "compress-recon",
            "compress-bits", "after-compress", "memo-result", "memo-hits", "memo-isolated",
            "memo-none", "rejects", "rate", "chunking", "frames-independent", "train-recon",
            "cache-invisible", "channels", "state-window", "scenes"]
BUDGET = (24, 220)

shrink(VCTEntropyModel, window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1,
       num_layers_encoder_joint=1, num_layers_decoder=1, d_model=8, num_head=2,
       mlp_expansion=2)


def make(m):
    r = m.rng
    m.seed_torch()
    C = r.choice([4, 6])
    kind = r.choice(["gdn", "elic"])
    if kind == "gdn":
        a, s = ConvGDNAnalysis(6, C), ConvGDNSynthesis(6, C)
    else:
        a = ELICAnalysis(1, [4, 4, 4, C])
        s = ELICSynthesis(1, [C, 4, 4, 3])
    m.check(a.compression_channels == C and s.compression_channels == C, "channels",
            f"{kind}: {a.compression_channels} {s.compression_channels} for {C}")
    ctx = r.choice([1, 2, 2, 3])
    ok, p = m.run("builds", VCTPipeline, a, s, compression_channels=C, context_len=ctx)
    if not ok:
        return None, None
    p.entropy_model.bottleneck = GsnConditionalLocScaleShift(num_scales=32, num_means=8)
    with torch.no_grad():
        for n, q in p.named_parameters():
            if "entropy_model" in n and q.dim() > 1 and "bottleneck" not in n:
                q.add_(torch.randn_like(q) * 0.3)
        w = [q for n, q in a.named_parameters() if q.dim() == 4][-1]
        w.mul_(r.choice([8.0, 20.0]) if kind == "gdn" else 20.0)
        p.entropy_model.scale_head[-1].bias.add_(3.0)
    return p.eval(), (kind, C, ctx)


def reference(p, ctx, x):
    """Frame-by-frame: latents, contexts and reconstructions without caches/generators."""
    em = p.entropy_model
    y = p.analysis_transform(x)
    hist, rec, like = [], [], []
    for t in range(y.shape[1]):
        yt = y[:, t]
        if t == 0:
            prev = [em.process_previous_latent_q(p._temporal_pad_token_maker(yt.shape))]
        else:
            prev = hist[-ctx:]
        o = em(yt, prev)
        q = torch.round(yt)
        rec.append(p._dequantizer(latent_q=q, entropy_features=o.features))
        like.append(o.bits)
        hist.append(em.process_previous_latent_q(q))
    return y, torch.stack(rec, 1), torch.stack(like)


def padded(x, kind):
    if kind != "gdn":
        return x
    h, w = x.shape[-2:]
    ph, pw = -h % 16, -w % 16
    b, t = x.shape[:2]
    z = torch.nn.functional.pad(x.flatten(0, 1), (0, pw, 0, ph), mode="reflect")
    return z.reshape(b, t, *z.shape[1:])


def clip(m, B, T, H, W):
    x = torch.rand(B, T, 3, H, W)
    if m.rng.random() < 0.3 and T > 1:
        x[:, 1:] = x[:, :1]
    return x


def containers(m):
    r = m.rng
    b, t, h, w = r.sample(range(2, 9), 4)
    v, s = VideoDataset(torch.zeros(b, t, 3, h, w)), Scenes(torch.rand(b, t, 4, h, w))
    m.case(("containers", b, t, h, w))
    m.check(tuple(v.spatial_shape) == tuple(s.spatial_shape) == (h, w) and
            v.num_frames == s.num_scenes == t and v.batch_size == s.batch_size == b and
            tuple(v.shape) == (b, t, 3, h, w) and tuple(s.shape) == (b, t, 4, h, w), "scenes",
            f"{(b, t, h, w)}: {v.spatial_shape} {s.spatial_shape} {v.num_frames} "
            f"{s.num_scenes} {v.batch_size} {s.batch_size}")


def pipeline(m, i):
    containers(m)
    p, cfg = make(m)
    if p is None:
        return
    kind, C, ctx = cfg
    r = m.rng
    B, T = r.choice([1, 1, 2]), r.choice([1, 2, 3, 5])
    H, W = r.randint(65, 100), r.randint(65, 100)
    big = r.random()
    if big < 0.08:
        B, T = 1, r.randint(8, 12)
    elif big < 0.16:
        B, T = r.randint(4, 6), 2
    elif big < 0.24:
        B, T, H, W = 1, 2, r.randint(130, 260), r.randint(130, 260)
    x = clip(m, B, T, H, W)
    m.case(("forward", cfg, B, T, H, W), T > 1)
    with torch.no_grad():
        y, rec, like = reference(p, ctx, padded(x, kind))
        if bool(((y - torch.floor(y) - 0.5).abs() < 3e-5).any()):
            m.event("skipped-ties")
            return
        ref = p.synthesis_transform(rec, x.shape)[..., :H, :W]
        ok, out = m.run("forward-runs", p, VideoDataset(x))
        if not ok:
            return
        img, lk = out[0], out[-1][0]
        m.check(tuple(img.shape) == tuple(x.shape), "size", f"{tuple(img.shape)}")
        m.close(img, ref, "forward-recon", "reconstruction", rtol=1e-3, atol=1e-3)
        m.close(lk, like, "forward-likelihood", "likelihoods", rtol=2e-3, atol=1e-5)
        if T > ctx:
            m.event("state-window")
        # rate
        bits = -torch.log2(lk.double())
        m.close(p.compute_rate(lk), bits.sum(), "rate", "total", rtol=1e-3)
        m.close(p.compute_rate(lk, per_frame=True), bits.sum((1, 2, 3)), "rate", "per frame",
                rtol=1e-3)
        # time causality
        if T > 1:
            t = r.randrange(1, T)
            x2 = x.clone()
            x2[:, t:] = torch.rand_like(x2[:, t:])
            o2 = p(VideoDataset(x2))
            m.close(o2[0][:, :t], img[:, :t], "time-causal", "earlier frames changed",
                    rtol=1e-3, atol=1e-4)
            m.close(o2[-1][0][:t], lk[:t], "time-causal", "earlier likelihoods changed",
                    rtol=2e-3, atol=1e-5)
        # caches change nothing
        sc = Scenes(p.analysis_transform(padded(x, kind)))
        for cache in (None, memoize.create_cache()):
            outs = list(p.encode_and_decode_scenes(sc, cache=cache))
            m.close(torch.stack([o.reconstruction for o in outs], 1), rec, "cache-invisible",
                    f"cache={cache is not None}", rtol=1e-3, atol=1e-3)
            m.close(torch.stack([o.likelihood for o in outs]), like, "cache-invisible",
                    "likelihood", rtol=2e-3, atol=1e-5)
        if B == 1:
            bn, nbytes = p.entropy_model.bottleneck, []
            orig = bn.compress

            def counted(*a, **k):
                out = orig(*a, **k)
                nbytes.append(sum(len(q) for q in out[1]))
                return out

            bn.compress = counted
            try:
                ok, res = m.run("compress-runs", p.compress_video, VideoDataset(x))
            finally:
                del bn.compress
            if ok:
                m.check(sum(float(b) for b in res[1][1:]) == 8 * sum(nbytes),
                        "compress-bits", f"{res[1][1:]} bits for {sum(nbytes)} bytes")
            if ok:
                comp(m, p, cfg, x, res, rec, like, ref)
                ok, again = m.run("after-compress", p, VideoDataset(x))
                if ok:
                    m.close(again[0], img, "after-compress", "forward after compress_video",
                            rtol=1e-3, atol=1e-4)
                    m.close(again[-1][0], lk, "after-compress", "likelihood", rtol=2e-3,
                            atol=1e-5)
        else:
            m.raises("rejects", AssertionError, p.compress_video, VideoDataset(x),
                     _msg="batch of 2")
        m.raises("rejects", ValueError, p, VideoDataset(x[:, :, :2]), _msg="2 channels")
        m.raises("rejects", ValueError, p, VideoDataset(x[0]), _msg="4-D clip")
        # training: straight-through rounding, so same reconstruction (no padding)
        xs = x[..., :64, :64].contiguous()
        p.eval()
        e = p(VideoDataset(xs))[0]
        yy = p.analysis_transform(xs)
        if not bool(((yy - torch.floor(yy) - 0.5).abs() < 3e-5).any()):
            p.train()
            o = p(VideoDataset(xs))
            m.close(o[0], e, "train-recon", "train-mode reconstruction", rtol=1e-3, atol=1e-3)
            m.check(bool(((o[-1][0] > 0) & (o[-1][0] <= 1 + 1e-5)).all()),
                    "train-likelihood", "")
    p.train()
    o = p(VideoDataset(xs))
    loss = o[0].square().mean() + p.compute_rate(o[-1][0]) / xs.numel()
    loss.backward()
    for n, q in p.named_parameters():
        if n.startswith(("analysis", "synthesis")) or ".mean_head" in n:
            m.check(q.grad is not None and bool(torch.isfinite(q.grad).all()), "gradients",
                    f"{n} gets no gradient")


def comp(m, p, cfg, x, res, rec, like, ref):
    kind, C, ctx = cfg
    r = m.rng
    T = x.shape[1]
    scenes, bits = res
    m.close(scenes, rec, "compress-recon", "dequantised scenes", rtol=1e-3, atol=1e-3)
    m.check(len(bits) == T and all(isinstance(float(b), float) for b in bits),
            "compress-bits", f"{len(bits)} entries for {T} frames")
    est = -torch.log2(like.double()).sum((1, 2, 3))
    m.close(bits[0], est[0], "compress-bits", "first frame", rtol=1e-3)
    for t in range(1, T):
        b = float(bits[t])
        m.check(b % 8 == 0 and b >= 0.5 * float(est[t]) - 300
                and b <= 1.6 * float(est[t]) + 600, "compress-bits",
                f"frame {t}: {b} bits, likelihood says {float(est[t]):.0f}")
    ok, d = m.run("decompress-runs", p.decompress_video, x.shape, [scenes])
    if ok:
        m.check(tuple(d.shape) == tuple(x.shape), "size", f"decompressed {tuple(d.shape)}")
        m.close(d, ref, "compress-recon", "decompressed video", rtol=1e-3, atol=1e-3)
    m.check(not p.training, "compress-mode", "")


def transforms(m):
    r = m.rng
    m.seed_torch()
    C = r.choice([4, 6])
    B, T = r.choice([(1, 4), (2, 2), (2, 6), (1, 9), (5, 3)])
    mf = r.choice([k for k in (1, 2, 3, 4, 5, 20) if k >= B * T or B * T % k == 0])
    H, W = r.choice([(32, 48), (33, 50)])
    m.case(("transforms", C, B, T, mf, H, W))
    x = torch.rand(B, T, 3, H, W)
    with torch.no_grad():
        for a, s in ((ConvGDNAnalysis(6, C), ConvGDNSynthesis(6, C)),
                     (ELICAnalysis(1, [4, 4, 4, C], max_frames=mf),
                      ELICSynthesis(1, [C, 4, 4, 3], max_frames=mf))):
            y = a(x)
            m.check(tuple(y.shape) == (B, T, C, -(-H // 16), -(-W // 16)), "latent-shape",
                    f"{tuple(y.shape)}")
            z = s(y, x.shape)
            m.check(tuple(z.shape) == tuple(x.shape), "size", f"synthesis {tuple(z.shape)}")
            for b in range(B):
                t = r.randrange(T)
                y1 = a(x[b:b + 1, t:t + 1])
                m.close(y1[0, 0], y[b, t], "frames-independent", "analysis", rtol=1e-3,
                        atol=1e-4)
                z1 = s(y[b:b + 1, t:t + 1], torch.Size((1, 1, 3, H, W)))
                m.close(z1[0, 0], z[b, t], "frames-independent", "synthesis", rtol=1e-3,
                        atol=1e-4)
            if isinstance(a, ELICAnalysis):
                a1, s1 = ELICAnalysis(1, [4, 4, 4, C]), ELICSynthesis(1, [C, 4, 4, 3])
                a1.load_state_dict(a.state_dict())
                s1.load_state_dict(s.state_dict())
                m.close(a1(x), y, "chunking", "analysis in chunks", rtol=1e-3, atol=1e-4)
                m.close(s1(y, x.shape), z, "chunking", "synthesis in chunks", rtol=1e-3,
                        atol=1e-4)
            m.raises("rejects", AssertionError, a, x[0], _msg="4-D input")
    m.raises("rejects", ValueError, ELICAnalysis, 1, [4, 4, C], _msg="3 conv layers")
    m.raises("rejects", ValueError, ELICAnalysis, 1, [4, 4, 4, C], compression_channels=C + 1,
             _msg="compression_channels")
    m.raises("rejects", ValueError, ELICSynthesis, 1, [C, 4, 3], _msg="3 conv layers")
    sc = Scenes(x)
    it = list(sc.get_scenes_iter())
    m.check(len(it) == T and all(torch.equal(q, x[:, t]) for t, q in enumerate(it)), "scenes",
            "scene order")
    m.raises("rejects", ValueError, Scenes(x.double()).get_scenes_iter, _msg="float64 scenes")
    m.raises("rejects", ValueError, Scenes(x[0]).get_scenes_iter, _msg="4-D scenes")


def val(a):
    """A value that identifies the contents of an argument structure."""
    if isinstance(a, torch.Tensor):
        return tuple(a.shape), tuple(a.reshape(-1).tolist())
    if isinstance(a, (list, tuple)):
        return tuple(val(v) for v in a)
    if isinstance(a, dict):
        return tuple(sorted((k, val(v)) for k, v in a.items()))
    return a


def memo(m, steps):
    """Random memoised-call histories against the plain function."""
    r = m.rng
    calls = {"f": 0, "g": 0}

    @memoize.memoize
    def f(*args, cache=None, **kw):
        calls["f"] += 1
        return ("f", val(args), val(kw))

    @memoize.memoize
    def g(*args, cache=None, **kw):
        calls["g"] += 1
        return ("g", val(args), val(kw))

    caches = [memoize.create_cache(), memoize.create_cache()]
    seen = {}   # (function, cache, identity key) -> held arguments
    hits = {("f", 0): 0, ("f", 1): 0, ("g", 0): 0, ("g", 1): 0}
    pool = [torch.randint(0, 3, (2,)).float() for _ in range(3)]
    for k in range(steps):
        name, fn = r.choice([("f", f), ("g", g)])

        def arg():
            c = r.randrange(6)
            if c == 0:
                return r.choice(pool)
            if c == 1:
                return torch.randint(0, 3, (2,)).float()     # short-lived
            if c == 2:
                return r.randint(5, 8)
            if c == 3:
                return [r.choice(pool), r.randint(5, 6)]
            if c == 4:
                return {"a": r.choice(pool), "b": (r.choice(pool),)}
            return "s%d" % r.randrange(2)
        args = tuple(arg() for _ in range(r.randint(0, 2)))
        kw = {q: arg() for q in r.sample(["x", "y"], r.randint(0, 2))}
        ci = r.choice([0, 1, None])
        want = (name, val(args), val(kw))
        call_kw = dict(kw)
        if r.random() < 0.3 and ci is not None:
            call_kw["cache"] = caches[ci]
        before = calls[name]

        def ident(a):
            if isinstance(a, torch.Tensor):
                return ("T", id(a))
            if isinstance(a, (list, tuple)):
                return tuple(ident(v) for v in a)
            if isinstance(a, dict):
                return tuple(sorted((q, ident(v)) for q, v in a.items()))
            return a
        key = (name, ci, ident(args), ident(dict(sorted(kw.items()))))
        m.case(("memo", name, ci, len(args), len(kw), k % 16), key in seen)
        got = memoize.bind(fn, caches[ci] if ci is not None else None)(*args, **call_kw)
        m.check(got == want, "memo-result", "memoised call returned another call's result",
                {"got": got, "expected": want})
        ran = calls[name] - before
        if ci is None:
            m.check(ran == 1, "memo-none", "unbound call was cached")
        elif key in seen:
            m.check(ran == 0, "memo-hits", "repeated call was recomputed")
            hits[name, ci] += 1
        else:
            m.check(ran == 1, "memo-isolated", "result came from another function or cache")
            seen[key] = (args, kw)
    for (n, ci), h in hits.items():
        fn = f if n == "f" else g
        m.check(fn.get_total_cache_hits(caches[ci]) == h, "memo-hits",
                f"{n}/{ci}: counter {fn.get_total_cache_hits(caches[ci])}, real {h}")
    a = torch.ones(1)
    c = memoize.create_cache()
    memoize.bind(f, c, expect_cache_hit=False)(a)
    memoize.bind(f, c, expect_cache_hit=True)(a)
    m.raises("rejects", AssertionError, memoize.bind(f, c, expect_cache_hit=False), a,
             _msg="unexpected hit")
    m.raises("rejects", AssertionError, memoize.bind(f, c, expect_cache_hit=True),
             torch.ones(2), _msg="unexpected miss")


def run(m):
    torch.set_num_threads(1)
    for _ in range(m.n(3, 30)):
        memo(m, m.n(150, 300))
    transforms(m)
    i = 0
    while i < 6 or (m.time_left() and i < m.n(28, 250)):
        pipeline(m, i)
        if i % 3 == 0:
            transforms(m)
        i += 1
