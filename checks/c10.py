"""VCT entropy model: causal prediction, lossless autoregressive coding, context rules."""
import inspect

import torch
import torch.nn.functional as F

from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift
from projects.torch_vct.neural.entropy_model import VCTEntropyModel
from projects.torch_vct.neural.entropy_model_layers import StartSym
from projects.torch_vct.neural.layers_utils import StochasticDepth, WindowMultiHeadAttention

PID = "C10"
RULE = ("case = one (small model with random weights, latent, context) evaluation: forward, "
        "single-token perturbation, compress, or receiver-side decode; non-trivial when the "
        "rounded latent takes >= 3 values; distinct by (config, size, context, kind)")
REQUIRED = ["forward-rounded", "causal", "uses-past", "patch-local", "batch-independent",
            "compress-rounded", "bits", "features", "receiver-params", "receiver-tokens",
            "context", "context-order", "rejects", "rate", "attention", "mask", "train-ste",
            "stochastic-depth", "validate-causal", "context-locality", "start-symbol", "shipped-coder"]
BUDGET = (36, 220)


def make(m, ctx=None):
    r = m.rng
    m.seed_torch()
    we, wd = r.choice([(4, 2), (6, 2), (4, 4), (6, 4)])
    ctx = ctx or r.choice([1, 2, 2, 3])
    if (we * we * ctx) % (wd * wd):
        we = wd * 2
    C, d, nh = r.choice([3, 5]), r.choice([8, 16]), r.choice([1, 2, 4])
    cfg = (C, ctx, we, wd, d, nh)
    em = VCTEntropyModel(num_channels=C, context_len=ctx, window_size_enc=we,
                         window_size_dec=wd, num_layers_encoder_sep=1,
                         num_layers_encoder_joint=1, num_layers_decoder=r.choice([1, 2]),
                         d_model=d, num_head=nh, mlp_expansion=2)
    # the shipped 100x256 tables make real coding slow; they are judged in C09
    em.bottleneck = GsnConditionalLocScaleShift(num_scales=48, num_means=10, min_scale=0.01)
    with torch.no_grad():
        for n, p in em.named_parameters():
            if p.dim() > 1 and "bottleneck" not in n:
                p.add_(torch.randn_like(p) * r.choice([0.2, 0.5]))
            elif "head" in n and n.endswith("bias"):
                p.add_(torch.randn_like(p))
    return em.eval(), cfg


class Tap:
    """Records the arguments given to the bottleneck."""

    def __init__(self, em):
        self.fwd, self.comp, self.dec = [], [], []
        b = em.bottleneck
        sig = {k: inspect.signature(getattr(b, k)) for k in ("forward", "compress",
                                                             "decompress")}
        self.h = b.register_forward_pre_hook(
            lambda mod, a, k: self.fwd.append(sig["forward"].bind(*a, **k).arguments),
            with_kwargs=True)
        oc, od = b.compress, b.decompress

        def comp(*a, **k):
            res = oc(*a, **k)
            self.comp.append((sig["compress"].bind(*a, **k).arguments, res))
            return res

        def dec(*a, **k):
            res = od(*a, **k)
            self.dec.append((sig["decompress"].bind(*a, **k).arguments, res))
            return res

        b.compress, b.decompress = comp, dec
        self.b, self.real_dec = b, od

    def close(self):
        self.h.remove()
        del self.b.compress, self.b.decompress


def latent(m, B, C, H, W):
    x = torch.randn(B, C, H, W) * m.rng.choice([1.0, 3.0, 6.0])
    tie = (x - torch.floor(x) - 0.5).abs() < 0.02
    return torch.where(tie, x + 0.1, x)


def context(m, em, B, H, W, n):
    prev = [torch.round(torch.randn(B, em.num_channels, H, W) * 10) for _ in range(n)]
    return [em.process_previous_latent_q(p) for p in prev], prev


def grid(B, H, W, wd):
    nh, nw = -(-H // wd), -(-W // wd)
    return nh, nw, B * nh * nw


def forward(m):
    em, cfg = make(m)
    C, ctx, we, wd, d, _ = cfg
    r = m.rng
    B = r.choice([1, 1, 2])
    H, W = r.randint(wd + we, wd + we + 6), r.randint(wd + we, wd + we + 6)
    if r.random() < 0.12:
        B = r.randint(5, 8)
    elif r.random() < 0.12:
        H, W = r.randint(30, 44), r.randint(wd + we, 30)
    with torch.no_grad():
        x = latent(m, B, C, H, W)
        prev, raw = context(m, em, B, H, W, r.randint(1, ctx))
        m.case(("forward", cfg, B, H, W, len(prev)), len(torch.unique(torch.round(x))) >= 3)
        nh, nw, bp = grid(B, H, W, wd)
        tap = Tap(em)
        ok, o = m.run("runs", em, x, prev)
        tap.close()
        if not ok:
            return
        m.close(o.perturbed_latent, torch.round(x), "forward-rounded", "eval latent",
                rtol=0, atol=1e-3)
        m.check(tuple(o.bits.shape) == (bp, wd * wd, C)
                and tuple(o.features.shape) == (B, d, H, W), "shapes",
                f"{tuple(o.bits.shape)} {tuple(o.features.shape)}")
        m.check(bool(((o.bits > 0) & (o.bits <= 1 + 1e-5)).all()), "likelihood-range", "")
        # causality: change one pixel, look at which likelihoods/features move
        for _ in range(4):
            b, y, z = r.randrange(B), r.randrange(H), r.randrange(W)
            c = r.randrange(C)
            # keep away from pixels mirrored into the padding
            mir = set()
            for (s, n) in ((y, H), (z, W)):
                npad = -(-n // wd) * wd
                mir.add(any(2 * (n - 1) - k == s for k in range(n, npad)))
            if True in mir:
                continue
            x2 = x.clone()
            x2[b, c, y, z] += r.choice([-40.0, 25.0])
            o2 = em(x2, prev)
            pi = b * nh * nw + (y // wd) * nw + z // wd
            t = (y % wd) * wd + z % wd
            dl = (o2.bits - o.bits).abs()
            other = torch.ones(bp, dtype=torch.bool)
            other[pi] = False
            m.check(float(dl[other].max() if bool(other.any()) else 0) < 1e-5, "patch-local",
                    "a pixel influences likelihoods of another patch")
            m.check(t == 0 or float(dl[pi, :t].max()) < 1e-5, "causal",
                    f"token {t} changes likelihoods of earlier tokens")
            oth_c = [k for k in range(C) if k != c]
            m.check(float(dl[pi, t, oth_c].max()) < 1e-5, "causal",
                    f"token {t} is used for its own distribution")
            df = (o2.features - o.features).abs()[b].amax(0)
            py, pz = y // wd * wd, z // wd * wd
            mv = torch.zeros(H, W, dtype=torch.bool)
            for k in range(t + 1, wd * wd):
                yy, zz = py + k // wd, pz + k % wd
                if yy < H and zz < W:
                    mv[yy, zz] = True
            m.check(float(df[~mv].max()) < 1e-4, "causal",
                    "features change at or before the perturbed token")
            if bool(mv.any()):
                # every later token of the window sees it (random weights)
                m.check(float(df[mv].max()) > 1e-6, "uses-past",
                        f"no later token reacts to token {t}")
        # previous latents influence only windows that contain them
        if we < min(H, W):
            k = r.randrange(len(prev))
            y, z = r.randrange(H), r.randrange(W)
            p2 = raw[k].clone()
            p2[0, :, y, z] += 60.0
            ctx2 = list(prev)
            ctx2[k] = em.process_previous_latent_q(p2)
            o2 = em(x, ctx2)
            df = (o2.features - o.features).abs()
            moved = df[0].amax(0) > 1e-6
            half = (we - wd) // 2
            ys, zs = torch.arange(H), torch.arange(W)
            # distance from the pixel to the window's core, up to mirrored padding
            cy, cz = ys // wd * wd, zs // wd * wd
            H2, W2 = nh * wd, nw * wd

            def touch(c0, s, n, n2):
                pos = []
                for q in range(-half, n2 + half):
                    src = -q if q < 0 else (2 * (n - 1) - q if q >= n else q)
                    if src == s:
                        pos.append(q)
                return torch.tensor([any(int(a) - half <= q < int(a) + wd + half
                                         for q in pos) for a in c0])
            allowed = touch(cy, y, H, H2)[:, None] & touch(cz, z, W, W2)[None, :]
            m.check(not bool((moved & ~allowed).any()), "context-locality",
                    "a previous-latent pixel influences windows that do not contain it")
            m.check(bool((moved & allowed).any()), "context-locality", "context is ignored")
            if B > 1:
                m.check(float(df[1:].max()) < 1e-5, "batch-independent", "context")
        if B > 1:
            for b in range(B):
                pb = [em.process_previous_latent_q(q[b:b + 1]) for q in raw]
                ob = em(x[b:b + 1], pb)
                n = nh * nw
                m.close(ob.bits, o.bits[b * n:(b + 1) * n], "batch-independent", "bits",
                        rtol=2e-3, atol=1e-4)
                m.close(ob.features, o.features[b:b + 1], "batch-independent", "features",
                        rtol=1e-3, atol=1e-3)
        # short contexts
        if len(prev) < ctx:
            if len(prev) == 1:
                full = [prev[0]] * ctx
            else:
                full = [prev[0], prev[0], prev[1]]
            of = em(x, full)
            m.close(of.bits, o.bits, "context", "short context != repeated context",
                    rtol=1e-3, atol=1e-5)
            m.close(of.features, o.features, "context", "features", rtol=1e-3, atol=1e-4)
    # training mode: straight-through rounding
    em.train()
    xt = x.clone().requires_grad_(True)
    o = em(xt, prev)
    m.close(o.perturbed_latent, torch.round(x), "train-ste", "train latent", rtol=0, atol=2e-3)
    w = torch.randn_like(o.perturbed_latent)
    g, = torch.autograd.grad((o.perturbed_latent * w).sum(), xt, retain_graph=True)
    m.close(g, w, "train-ste", "gradient of the rounded latent", rtol=1e-3, atol=1e-3)
    ps = [p for n, p in em.named_parameters() if "head" in n or "decoder_emb" in n]
    gs = torch.autograd.grad(torch.log(o.bits).sum(), ps, allow_unused=True)
    m.check(all(q is not None and bool(torch.isfinite(q).all()) for q in gs), "rate-gradient",
            "no finite rate gradient")


def contexts(m):
    """Order matters and the most recent latent is the last one."""
    em, cfg = make(m, ctx=m.rng.choice([2, 3]))
    C, ctx, we, wd, d, _ = cfg
    H = W = we + wd
    with torch.no_grad():
        x = latent(m, 1, C, H, W)
        (a, b), _ = context(m, em, 1, H, W, 2)
        m.case(("contexts", cfg))
        one, two = em(x, [a]), em(x, [a] * ctx)
        m.close(one.bits, two.bits, "context", "[a] != [a]*n", rtol=1e-3, atol=1e-5)
        if ctx == 3:
            m.close(em(x, [a, b]).bits, em(x, [a, a, b]).bits, "context", "[a,b] != [a,a,b]",
                    rtol=1e-3, atol=1e-5)
        f, g = em(x, [a, b]).features, em(x, [b, a]).features
        m.check(float((f - g).abs().max()) > 1e-6, "context-order", "context order ignored")


def coding(m):
    em, cfg = make(m)
    C, ctx, we, wd, d, _ = cfg
    r = m.rng
    H, W = r.randint(wd + 1, we + wd), r.randint(wd + 1, we + wd)
    L = wd * wd
    if r.random() < 0.7:  # a prior wide enough for the latents: rates are comparable
        with torch.no_grad():
            em.scale_head[-1].bias.add_(4.0)
            em.mean_head[-1].weight.mul_(0.1)
            em.scale_head[-1].weight.mul_(0.3)
    m.check(em.update() is True, "update-returns", "first update()")
    m.check(em.update() is False and em.update(force=True) is True, "update-returns", "again")
    with torch.no_grad():
        x = latent(m, 1, C, H, W)
        # enough padding room for reflection
        H, W = x.shape[-2:]
        ok, res = m.run("runs", context, m, em, 1, max(H, we), max(W, we), r.randint(1, ctx))
        if not ok:
            return
        H, W = max(H, we), max(W, we)
        x = latent(m, 1, C, H, W)
        prev, _ = res
        nh, nw, bp = grid(1, H, W, wd)
        run_dec = r.random() < 0.6
        m.case(("coding", cfg, H, W, len(prev), run_dec),
               len(torch.unique(torch.round(x))) >= 3)
        x0 = x.clone()
        tap = Tap(em)
        ok, c = m.run("runs", em.compress, latent_unquantized=x, previous_latents=prev,
                      run_decode=run_dec)
        if not ok:
            tap.close()
            return
        m.check(torch.equal(x, x0), "input-unchanged", "latent modified by compress")
        m.close(c.perturbed_latent, torch.round(x), "compress-rounded",
                f"run_decode={run_dec}", rtol=0, atol=1e-3)
        strings = [s for _, (_, s) in tap.comp]
        nb = sum(len(b) for s in strings for b in s)
        m.check(float(c.bits.sum()) == 8 * nb, "bits", f"reports {c.bits.tolist()} bits, "
                f"emitted {8 * nb}")
        m.check(len(strings) == L and all(len(s) == 1 for s in strings), "strings",
                f"{len(strings)} strings for {L} tokens")
        if run_dec:
            m.check([list(a["strings"]) for a, _ in tap.dec] == [list(s) for s in strings],
                    "decodes-stream", "decoder did not read the emitted strings in order")
        tap.fwd.clear()
        o = em(x, prev)
        fw = tap.fwd[-1]
        m.close(c.features, o.features, "features", "compress features != forward features",
                rtol=2e-3, atol=1e-3)
        enc_mean = torch.stack([a["means"].reshape(bp, C) for a, _ in tap.comp], 1)
        enc_scale = torch.stack([a["scales"].reshape(bp, C) for a, _ in tap.comp], 1)
        m.close(enc_mean, fw["means"], "receiver-params", "coding means != forward means",
                rtol=1e-3, atol=1e-3)
        m.close(enc_scale, fw["scales"], "receiver-params", "coding scales", rtol=1e-3,
                atol=1e-3)
        bits = -torch.log2(o.bits.clamp_min(1e-9))
        for i in range(min(L, len(strings))):
            if float(bits[:, i].max()) < 10:
                est, got = float(bits[:, i].sum()), 8.0 * len(strings[i][0])
                m.check(est * 0.7 - 64 <= got <= est * 1.3 + 80, "rate",
                        f"forward says {est:.0f} bits for token {i}, string has {got:.0f}")
        # a receiver that knows only the context and the strings
        hp, wp = nh * wd, nw * wd
        tok = torch.full((bp, L, C), float(r.choice([10.0, -3.0, 0.0])))
        for i in range(L):
            full = em.patcher.unpatch((tok, (nh, nw)), channels_last=True)
            if tuple(full.shape[-2:]) != (hp, wp):
                break
            tap.fwd.clear()
            em(full, prev)
            mu, s = tap.fwd[-1]["means"][:, i], tap.fwd[-1]["scales"][:, i]
            a = m.close(enc_mean[:, i], mu, "receiver-params",
                        f"means of token {i} not computable from earlier tokens", rtol=1e-3,
                        atol=1e-3)
            b = m.close(enc_scale[:, i], s, "receiver-params", f"scales of token {i}",
                        rtol=1e-3, atol=1e-3)
            if not (a and b):
                break
            t = tap.real_dec(strings[i], enc_scale[None, :, i], enc_mean[None, :, i])
            tok[:, i] = t.reshape(bp, C)
        else:
            back = em.patcher.unpatch((tok, (nh, nw)), crop=(H, W), channels_last=True)
            m.close(back, torch.round(x), "receiver-tokens",
                    "latent decoded from the strings alone", rtol=0, atol=1e-3)
        tap.close()
        m.raises("rejects", AssertionError, em.compress, latent_unquantized=x.repeat(2, 1, 1, 1),
                 previous_latents=prev, _msg="batch of 2")


def layers(m):
    r = m.rng
    m.seed_torch()
    d, h = r.choice([(8, 2), (12, 3), (6, 1)])
    att = WindowMultiHeadAttention(d, h).eval()
    with torch.no_grad():
        for p in att.parameters():
            p.copy_(torch.randn_like(p))
        b, q, k = r.choice([1, 3]), r.choice([3, 4]), r.choice([1, 1, 2, 3])
        Q, K, V = torch.randn(b, q, d), torch.randn(b, q * k, d), torch.randn(b, q * k, d)
        mask = None
        if k == 1:
            mask = torch.triu(torch.ones(q, q), 1)[None]
        m.case(("attention", d, h, b, q, k, mask is None))
        f, a = att(Q, K, V, mask=mask)

        def heads(t):
            return t.reshape(b, -1, h, d // h).transpose(1, 2)
        qq, kk, vv = (heads(l(t)) for l, t in ((att.q_linear, Q), (att.k_linear, K),
                                               (att.v_linear, V)))
        ref = F.scaled_dot_product_attention(
            qq, kk, vv, attn_mask=None if mask is None else mask[0] == 0)
        ref = att.proj(ref.transpose(1, 2).reshape(b, -1, d))
        m.close(f, ref, "attention", "features", rtol=1e-3, atol=1e-3)
        m.close(a.sum(-1), torch.ones(b, h, q), "attention", "weights do not sum to 1")
        if mask is not None:
            m.check(float(a[..., mask[0] == 1].abs().max()) == 0, "mask",
                    "masked positions get weight")
    m.raises("rejects", ValueError, WindowMultiHeadAttention, 10, 3, _msg="heads")
    ss = StartSym(4)
    x = torch.randn(2, 5, 4)
    with torch.no_grad():
        y = ss(x)
    m.close(y[:, 1:], x[:, :-1], "start-symbol", "shift", rtol=0, atol=0)
    m.check(torch.equal(y[0, 0], y[1, 0]), "start-symbol", "start symbol depends on input")
    rate = r.choice([0.2, 0.5, 0.7])
    sd = StochasticDepth(rate)
    x = torch.randn(4000, 2) + 5
    y = sd.train()(x)
    kept = (y != 0).all(1)
    m.close(y[kept], x[kept] / (1 - rate), "stochastic-depth", "kept samples", rtol=1e-4)
    m.check(bool((y[~kept] == 0).all()) and
            abs(float(kept.float().mean()) - (1 - rate)) < 6.5 * 0.5 / 4000 ** 0.5,
            "stochastic-depth", f"kept {float(kept.float().mean())} at rate {rate}")
    m.check(torch.equal(sd.eval()(x), x), "stochastic-depth", "eval is not the identity")


def rejects(m):
    em, cfg = make(m, ctx=2)
    C, ctx, we, wd, d, _ = cfg
    H = W = we + wd
    m.case(("rejects", cfg))
    with torch.no_grad():
        x = latent(m, 1, C, H, W)
        prev, _ = context(m, em, 1, H, W, 1)
        m.raises("rejects", ValueError, VCTEntropyModel, num_channels=3, window_size_enc=2,
                 window_size_dec=4, d_model=8, num_head=2, _msg="window sizes")
        m.raises("rejects", ValueError, VCTEntropyModel, num_channels=-1, d_model=8,
                 num_head=2, _msg="negative channels")
        m.raises("rejects", ValueError, em, torch.randn(1, C + 1, H, W), prev,
                 _msg="channel mismatch")
        m.raises("rejects", ValueError, em, torch.randn(1, C, H + 2 * wd, W), prev,
                 _msg="number of patches")
        bad = type(prev[0])(prev[0].quantized, prev[0].processed[..., :-1])
        m.raises("rejects", ValueError, em, x, [bad], _msg="context width")
        em4 = VCTEntropyModel(num_channels=C, context_len=4, window_size_enc=we,
                              window_size_dec=wd, d_model=d, num_head=1,
                              num_layers_encoder_sep=1, num_layers_encoder_joint=1,
                              num_layers_decoder=1).eval()
        p4, _ = context(m, em4, 1, H, W, 2)
        m.raises("rejects", ValueError, em4, x, p4, _msg="short context of unsupported length")
        # the built-in causality validator accepts a causal model, rejects a leaky one
        enc = torch.cat([p.processed for p in prev] * 2, -2)
        lp = em.patcher(torch.round(x), wd).tensor
        m.run("validate-causal", em.validate_causal, lp, enc)
        leaky = 0
        for layer in em.decoder.layers:
            if getattr(layer, "look_ahead_mask", None) is not None:
                layer.look_ahead_mask = torch.zeros_like(layer.look_ahead_mask)
                leaky += 1
        if leaky:
            m.raises("validate-causal", ValueError, em.validate_causal, lp, enc,
                     _msg="leaky decoder accepted")


def shipped(m):
    """the entropy coder the model ships with: lossless, and near the rate of its prior"""
    m.seed_torch()
    em = VCTEntropyModel(num_channels=3, window_size_enc=4, window_size_dec=2, d_model=8,
                         num_head=1, num_layers_encoder_sep=1, num_layers_encoder_joint=1,
                         num_layers_decoder=1).eval()
    if not m.run("shipped-coder", em.update)[0]:
        return
    b = em.bottleneck
    for k in range(m.n(3, 12)):
        lo = [0.02, 0.3, 2.0][k % 3]
        n = 3000
        mu = torch.rand(1, n) * 20 - 10
        s = lo * (1 + torch.rand(1, n) * 3)
        x = mu + s * torch.randn(1, n)
        m.case(("shipped-coder", lo))
        with torch.no_grad():
            raw = torch.where(s > 1, s - 1, 1 - 1 / s)  # what verysoftplus maps to the scale
            ok, out = m.run("shipped-coder", b.compress, x, raw, mu)
            if not ok:
                return
            q, strings = out
            back = b.decompress(strings, raw, mu)
            d = torch.distributions.Normal(mu.double(), s.double())
            rx = torch.round(x).double()
            p = (d.cdf(rx + 0.5) - d.cdf(rx - 0.5)).clamp_min(1e-9)
        m.check(torch.equal(q, back) and float((q - rx).abs().max()) < 1e-3, "shipped-coder",
                f"scale {lo}: not lossless")
        ideal, got = float(-torch.log2(p).sum()), 8.0 * sum(map(len, strings))
        # tables are coarse (100 means per unit, 256 scales), the tail has its own symbol
        m.check(got <= 1.1 * ideal + 0.05 * n + 100, "shipped-coder",
                f"scale {lo}: {got:.0f} bits where the distribution needs {ideal:.0f}")
        m.check(got >= 0.9 * ideal - 100, "shipped-coder", f"{got:.0f} bits below {ideal:.0f}")


def run(m):
    torch.set_num_threads(1)
    shipped(m)
    rejects(m)
    contexts(m)
    for _ in range(m.n(12, 60)):
        layers(m)
    i = 0
    while i < 4 or (m.time_left() and i < m.n(30, 400)):
        forward(m)
        coding(m)
        if i % 4 == 0:
            contexts(m)
        i += 1
