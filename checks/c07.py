"""VQ bottleneck: nearest-codeword quantisation, straight-through, usage accounting."""
import io
import math

import torch
import torch.nn.functional as F

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import VQBottleneck
from neuralcompression.layers._q_bottleneck import QBottleneck

PID = "C07"
RULE = ("case = one quantisation (random codebook, latent batch) inside a history of "
        "quantise/reset/metrics/save/load operations; non-trivial when >= 2 codewords are "
        "used; distinct by (shape, codebook size, operation, history length mod 8)")
REQUIRED = ["nearest", "codeword", "distances", "ste", "commit-grad", "embed-grad", "losses",
            "hits", "metrics", "num-bytes", "rejects", "probabilistic", "order",
            "input-unchanged", "persist"]
BUDGET = (15, 150)


def judge(m, z, cb, norm, out, nearest=True):
    """out: object with latent/prequantized_latent/... for latent batch z."""
    c64 = F.normalize(cb.detach().double(), dim=1) if norm else cb.detach().double()
    B, L, H, W = z.shape
    v = z.detach().double().permute(0, 2, 3, 1).reshape(-1, L)
    d = ((v[:, None, :] - c64[None]) ** 2).sum(-1)
    idx = out.indices
    if not m.check(idx.shape == (B * H * W,) and not idx.is_floating_point()
                   and int(idx.min()) >= 0 and int(idx.max()) < len(cb), "index-range",
                   f"{tuple(idx.shape)}"):
        return None
    if nearest:
        got = d.gather(1, idx[:, None])[:, 0]
        best = d.min(1).values
        m.check(bool((got <= best * (1 + 1e-4) + 1e-5).all()), "nearest",
                "a vector was not mapped to its nearest codeword",
                {"worst": float((got - best).max())})
        # ties and near-ties aside, the index itself is determined
        s = d.sort(1).values
        clear = (s[:, 1] - s[:, 0] > 1e-3 + 1e-4 * s[:, 0]) if d.shape[1] > 1 else torch.ones(len(d)).bool()
        m.check(torch.equal(idx[clear], d.argmin(1)[clear]), "order",
                "indices are not in (batch, row, column) order")
    q = c64[idx].view(B, H, W, L).permute(0, 3, 1, 2)
    m.close(out.latent, q, "codeword", "output is not the chosen codeword", rtol=1e-4,
            atol=1e-5 * (1 + float(z.abs().max())))
    m.close(out.prequantized_latent, z, "codeword", "prequantized_latent")
    mse = ((q - z.detach().double()) ** 2).mean()
    m.close(out.commitment_loss, mse, "losses", "commitment", rtol=1e-3, atol=1e-6)
    m.close(out.embedding_loss, mse, "losses", "embedding", rtol=1e-3, atol=1e-6)
    return q, d


def grads(m, z, cb, norm, out):
    w = torch.randn_like(out.latent)
    g, gc = torch.autograd.grad((out.latent * w).sum(), (z, cb), retain_graph=True,
                                allow_unused=True)
    m.check(g is not None, "ste", "no gradient to the latent") and m.close(
        g, w, "ste", "straight-through gradient is not the identity")
    m.check(gc is None or not bool(gc.any()), "ste", "decoder gradient reaches the codebook")
    g, gc = torch.autograd.grad(out.commitment_loss, (z, cb), retain_graph=True,
                                allow_unused=True)
    q = out.latent.detach()
    if m.check(g is not None, "commit-grad", "none"):
        m.close(g, 2 * (z.detach() - q) / z.numel(), "commit-grad", "", rtol=1e-3, atol=1e-6)
    m.check(gc is None or not bool(gc.any()), "commit-grad", "reaches the codebook")
    g, gc = torch.autograd.grad(out.embedding_loss, (z, cb), retain_graph=True,
                                allow_unused=True)
    m.check(g is None or not bool(g.any()), "embed-grad", "reaches the latent")
    m.check(gc is not None and bool(torch.isfinite(gc).all()), "embed-grad", "no gradient")
    if gc is not None:
        # only used codewords move
        unused = torch.ones(len(cb), dtype=torch.bool)
        unused[out.indices] = False
        m.check(not bool(gc[unused].any()), "embed-grad", "an unused codeword gets gradient")
        c = cb.detach().clone().double().requires_grad_(True)
        cc = F.normalize(c, dim=1) if norm else c
        B, L, H, W = z.shape
        qq = cc[out.indices].view(B, H, W, L).permute(0, 3, 1, 2)
        ref, = torch.autograd.grad(((qq - z.detach().double()) ** 2).mean(), c)
        tol = 1e-5 * float((qq - z.detach()).abs().max()) / (
            float(cb.detach().norm(dim=1).min().clamp_min(1e-12)) if norm else 1.0)
        m.close(gc, ref, "embed-grad", "wrong value", rtol=1e-2, atol=1e-6 + tol)


def latents(m, B, L, H, W, cb):
    r = m.rng
    kind = r.choice(["noise", "code", "near", "const", "big", "tiny"])
    z = torch.randn(B, L, H, W)
    if kind in ("code", "near"):
        i = torch.randint(0, len(cb), (B, H, W))
        z = F.normalize(cb.detach(), dim=1)[i].permute(0, 3, 1, 2).clone()
        if kind == "near":
            z = z + 0.05 * torch.randn_like(z)
    elif kind == "const":
        z = torch.randn(1, L, 1, 1).expand(B, L, H, W).clone()
    elif kind == "big":
        z = z * 50
    elif kind == "tiny":
        z = z * 1e-3
    if r.random() < 0.3:
        z = z.contiguous(memory_format=torch.channels_last)
    return z.requires_grad_(True), kind


def history(m, steps):
    r = m.rng
    m.seed_torch()
    K, L = r.choice([1, 2, 3, 7, 16, 64, 200, 300, 1100]), r.choice([1, 2, 4, 8, 40])
    init = r.choice(["uniform", "normal"])
    ok, vq = m.run("constructs", VQBottleneck, K, L, init_distribution=init)
    if not ok:
        return
    ok, shape = m.run("constructs", lambda: tuple(vq.codebooks[0].shape))
    m.check(ok and shape == (K, L), "constructs", "codebook shape")
    if not ok:
        return
    counts = torch.zeros(K, dtype=torch.long)
    for t in range(steps):
        op = r.choice(["q", "q", "q", "q", "reset", "metrics", "save", "mode"])
        if op == "q":
            cb = vq.codebooks[0]
            B, H, W = r.choice([1, 2, 3]), r.randint(1, 7), r.randint(1, 7)
            if r.random() < 0.06:
                B, H, W = r.choice([(9, 5, 5), (1, 40, 31), (2, 17, 16), (1, 1, 300)])
            z, kind = latents(m, B, L, H, W, cb)
            z0 = z.detach().clone()
            inp = VqVaeAutoencoderOutput(latent=z)
            ok, out = m.run("runs", vq, inp)
            if not ok:
                return
            m.case((B, L, H, W, K, kind, t % 8), len(torch.unique(out.indices)) > 1)
            m.check(torch.equal(z.detach(), z0), "input-unchanged", "latent modified")
            res = judge(m, z, cb, True, out)
            if res is None:
                return
            m.close(out.quantize_distances, res[1], "distances", "quantize_distances",
                    rtol=1e-3, atol=1e-4 * (1 + float(z0.abs().max()) ** 2))
            counts += torch.bincount(out.indices, minlength=K)
            exact = B * H * W * math.log2(K) / 8
            m.check(out.num_bytes in {math.floor(exact + 1e-9), math.floor(exact - 1e-9)},
                    "num-bytes", f"{out.num_bytes} for {exact} bytes of index payload")
            grads(m, z, cb, True, out)
        elif op == "reset":
            vq.reset_hits()
            counts.zero_()
        elif op == "mode":
            vq.train(r.random() < 0.5)
        elif op == "save":
            buf = io.BytesIO()
            torch.save(vq.state_dict(), buf)
            buf.seek(0)
            new = VQBottleneck(K, L)
            new.load_state_dict(torch.load(buf))
            m.close(new.codebooks[0], vq.codebooks[0], "persist", "codebook")
            vq = new
        elif counts.sum() > 0:
            vq.update_metrics()
            p = counts.double() / counts.sum()
            ent = -(p * torch.log2(p + 1e-7)).sum()
            m.close(vq.percentage_hits[0], (counts > 0).double().mean(), "metrics",
                    "percentage_hits")
            m.close(vq.max_hits[0], counts.max(), "metrics", "max_hits")
            m.close(vq.perplexities[0], 2 ** ent, "metrics", "perplexity", rtol=1e-3)
        m.check(torch.equal(vq.codebook_hits_0, counts), "hits",
                f"hit counts differ from the emitted indices after {op}")
    m.raises("rejects", ValueError, vq, VqVaeAutoencoderOutput(), _msg="no latent")
    m.raises("rejects", ValueError, VQBottleneck, 4, 4, init_distribution="gamma",
             _msg="bad init_distribution")


def multi(m):
    """QBottleneck with several codebooks, raw codebooks, probabilistic picks."""
    r = m.rng
    m.seed_torch()
    n = r.choice([1, 2, 3])
    Ks, Ls = [r.choice([2, 5, 9]) for _ in range(n)], [r.choice([2, 4]) for _ in range(n)]
    norm = r.random() < 0.5
    q = QBottleneck(Ks, Ls, init_distribution="normal", normalize_codebook=norm)
    m.check([tuple(c.shape) for c in q.codebooks] == list(zip(Ks, Ls)), "constructs", "")
    for lv in range(n):
        h = getattr(q, f"codebook_hits_{lv}")
        m.check(h.shape == (Ks[lv],) and not bool(h.any()), "hits", "initial hits")
        h += torch.randint(1, 9, (Ks[lv],))
    q.update_metrics()
    for lv in range(n):
        h = getattr(q, f"codebook_hits_{lv}").double()
        p = h / h.sum()
        m.close(q.perplexities[lv], 2 ** (-(p * torch.log2(p + 1e-7)).sum()), "metrics",
                f"level {lv}", rtol=1e-3)
        m.close(q.max_hits[lv], h.max(), "metrics", f"max_hits level {lv}")
        m.close(q.percentage_hits[lv], (h > 0).double().mean(), "metrics", f"level {lv}")
    q.reset_hits()
    for lv in range(n):
        m.check(not bool(getattr(q, f"codebook_hits_{lv}").any()), "hits", "reset")
    lv = r.randrange(n)
    cb = q.codebooks[lv]
    B, H, W = r.choice([1, 2]), r.randint(1, 5), r.randint(1, 5)
    z = torch.randn(B, Ls[lv], H, W, requires_grad=True)
    ok, out = m.run("runs", q.quantize_vectors, z, cb)
    if ok:
        m.case(("multi", n, Ks[lv], Ls[lv], norm, B, H, W))
        if judge(m, z, cb, norm, out) is not None:
            grads(m, z, cb, norm, out)
    # probabilistic: codeword i with probability proportional to 1 / distance_i
    N = 60
    v = torch.randn(1, Ls[lv], 1, 1)
    zz = v.expand(1, Ls[lv], N, N).clone().requires_grad_(True)
    out = q.quantize_vectors(zz, cb, probabilistic=True)
    m.case(("prob", Ks[lv], Ls[lv], norm))
    if judge(m, zz, cb, norm, out, nearest=False) is None:
        return
    c = F.normalize(cb.detach(), dim=1) if norm else cb.detach()
    d = ((c - v.view(1, -1)) ** 2).sum(1).double()
    p = 1 / (d + 1e-7)
    p = p / p.sum()
    f = torch.bincount(out.indices, minlength=Ks[lv]).double() / N**2
    sd = (p * (1 - p) / N**2).sqrt()
    m.check(bool(((f - p).abs() <= 6.5 * sd + 1e-3).all()), "probabilistic",
            f"frequencies {f.tolist()} vs {p.tolist()}")


def run(m):
    torch.set_num_threads(1)
    i = 0
    while i < 20 or (m.time_left() and i < m.n(400, 3000)):
        history(m, 12)
        multi(m)
        i += 1
