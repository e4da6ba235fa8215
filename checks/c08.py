"""VQ-VAE (XCiT): the image is a function of the transmitted indices; any size; freezing."""
import torch
import torch.nn.functional as F

from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
from neuralcompression.models import VqVaeProjector, VqVaeXCiTAutoencoder

PID = "C08"
RULE = ("case = one (autoencoder config, image batch) evaluation or one step of a "
        "train/eval/optimise history; non-trivial when >= 2 codewords are used; distinct by "
        "(shape, config)")
REQUIRED = ["image-from-indices", "pipeline", "size", "deterministic", "batch-independent",
            "frozen", "unfrozen-trains", "projector", "projector-frozen", "no-bottleneck",
            "train-pipeline", "factor"]
BUDGET = (25, 240)


def make(m, bott=True, **kw):
    r = m.rng
    m.seed_torch()
    ch_mult = r.choice([(1, 1), (1, 2), (1, 1, 2), (1,)])
    emb, code, K = r.choice([16, 32]), r.choice([4, 8]), r.choice([4, 16, 50, 300])
    cfg = dict(ch=16, ch_mult=ch_mult, num_res_blocks=r.choice([1, 2]),
               attn_resolutions=r.choice([[16], [32], [64, 32], []]),
               resamp_with_conv=r.random() < 0.7, resolution=64, embed_dim=emb,
               norm_type=r.choice(["group", "channel", "channel_last"]))
    b = None
    if bott:
        b = ProjectLatent(emb, code, child=NormalizeLatent(
            child=VQBottleneck(K, code, init_distribution="normal")))
    model = VqVaeXCiTAutoencoder(bottleneck_op=b, **cfg, **kw)
    with torch.no_grad():
        for p in model.parameters():
            p.add_(0.05 * torch.randn_like(p))
    m.check(model.factor == 2 ** (len(ch_mult) - 1), "factor", f"{model.factor}")
    return model.eval(), (len(ch_mult), emb, code, K, cfg["norm_type"],
                          tuple(cfg["attn_resolutions"]), cfg["resamp_with_conv"])


def vq(model):
    return [s for s in model.modules() if isinstance(s, VQBottleneck)][0]


def pad(x, f):
    h, w = x.shape[-2:]
    return F.pad(x, (0, -w % f, 0, -h % f), mode="reflect") if h % f or w % f else x


def from_indices(model, indices, B, h, w):
    """What a receiver holding only the indices and the weights reconstructs."""
    pl = model.bottleneck_op
    cb = F.normalize(vq(model).codebooks[0], dim=1)
    q = cb[indices].view(B, h, w, -1).permute(0, 3, 1, 2)
    return model.decoder(pl.output_conv(q))


def one(m, model, cfg):
    r = m.rng
    f = model.factor
    h, w = r.randint(max(8, f + 1), 56), r.randint(max(8, f + 1), 56)
    b = r.choice([1, 2, 3])
    if m.extra.setdefault("big", 0) < 3 and r.random() < 0.3:
        k = m.extra["big"]
        m.extra["big"] += 1
        if k == 1:
            b = r.randint(6, 9)
        else:
            b, h, w = 1, r.randint(70, 150), r.randint(70, 150)
    x = torch.rand(b, 3, h, w)
    x0 = x.clone()
    with torch.no_grad():
        ok, o = m.run("runs", model, x)
        if not ok:
            return
        m.case(((b, h, w), cfg), len(torch.unique(o.indices)) > 1,
               sample={"shape": [b, h, w], "cfg": cfg,
                       "codewords_used": len(torch.unique(o.indices))})
        m.check(torch.equal(x, x0), "input-unchanged", "image modified")
        if not m.check(tuple(o.image.shape) == tuple(x.shape), "size",
                       f"{tuple(o.image.shape)} for {tuple(x.shape)}"):
            return
        xp = pad(x, f)
        gh, gw = xp.shape[-2] // f, xp.shape[-1] // f
        if not m.check(o.indices.numel() == b * gh * gw, "size",
                       f"{o.indices.numel()} indices for a {b}x{gh}x{gw} grid"):
            return
        rec = from_indices(model, o.indices, b, gh, gw)[..., :h, :w]
        m.close(o.image, rec, "image-from-indices",
                "image differs from the one decoded from its indices", rtol=1e-3, atol=2e-3)
        # encoder side: nearest codeword of the normalised projection
        z = F.normalize(model.bottleneck_op.input_conv(model.encoder(xp)), dim=1)
        cb = F.normalize(vq(model).codebooks[0], dim=1)
        v = z.permute(0, 2, 3, 1).reshape(-1, z.shape[1])
        d = torch.cdist(v.double(), cb.double()) ** 2
        got = d.gather(1, o.indices[:, None])[:, 0]
        m.check(bool((got <= d.min(1).values + 1e-3).all()), "pipeline",
                "indices are not those of the padded, encoded, projected, normalised image")
        o2 = model(x)
        m.close(o2.image, o.image, "deterministic", "two forward passes differ", atol=1e-4)
        if b > 1:
            j = r.randrange(b)
            o1 = model(x[j:j + 1])
            same = torch.equal(o1.indices, o.indices.view(b, -1)[j])
            clear = d.sort(1).values
            clear = bool((clear[:, 1] - clear[:, 0] > 1e-3).all()) if d.shape[1] > 1 else True
            if clear:
                m.check(same, "batch-independent", "indices depend on the batch")
                m.close(o1.image, o.image[j:j + 1], "batch-independent", "image",
                        rtol=1e-3, atol=2e-3)
    # train mode (no padding): sizes divisible by the factor
    h, w = f * r.randint(2, 8), f * r.randint(2, 8)
    x = torch.rand(2, 3, h, w)
    model.train()
    ok, o = m.run("train-runs", model, x)
    if ok:
        with torch.no_grad():
            rec = from_indices(model, o.indices, 2, h // f, w // f)
        m.close(o.image, rec, "train-pipeline", "train-mode image", rtol=1e-3, atol=2e-3)
        m.check(o.image.requires_grad, "train-pipeline", "not differentiable")
        m.check(o.commitment_loss is not None and o.embedding_loss is not None
                and o.num_bytes is not None, "train-pipeline", "missing outputs")
    model.eval()


def plain(m):
    model, cfg = make(m, bott=False)
    r = m.rng
    h, w = r.randint(8, 40), r.randint(8, 40)
    x = torch.rand(1, 3, h, w)
    m.case(("plain", cfg, h, w))
    with torch.no_grad():
        ok, o = m.run("runs", model, x)
        if ok:
            ref = model.decoder(model.encoder(pad(x, model.factor)))[..., :h, :w]
            m.close(o.image, ref, "no-bottleneck", "plain autoencoder", rtol=1e-3, atol=1e-3)


def freezing(m):
    r = m.rng
    fe, fb = r.choice([(True, False), (False, True), (True, True), (False, False)])
    model, cfg = make(m, freeze_encoder=fe, freeze_bottleneck=fb)
    frozen = [n for n, f in (("encoder.", fe), ("bottleneck_op.", fb)) if f]
    # an optimizer may be built before the first call
    m.check(all(p.requires_grad != any(n.startswith(f) for f in frozen)
                for n, p in model.named_parameters()), "frozen", "before the first call")
    m.check(not any(s.training for n, s in model.named_modules()
                    if any((n + ".").startswith(f) for f in frozen)), "frozen",
            "evaluation mode before the first call")
    if fb and r.random() < 0.3:
        bare, bcfg = make(m, bott=False, freeze_encoder=fe, freeze_bottleneck=True)
        m.case(("freeze-bare", fe, bcfg))
        x = torch.rand(1, 3, bare.factor * 8, bare.factor * 8)
        ok, o = m.run("frozen", bare.train(), x)
        m.check(ok and o.image.requires_grad, "frozen", "nothing to train without a bottleneck")
    model.train()
    for t in range(3):
        model.train() if r.random() < 0.7 else model.eval()
        if r.random() < 0.3:
            model.requires_grad_(True)
        m.case(("freeze", fe, fb, t, model.training, cfg))
        before = {n: p.detach().clone() for n, p in model.named_parameters()}
        x = torch.rand(1, 3, model.factor * 8, model.factor * 8)
        o = model(x)
        params = [p for p in model.parameters() if p.requires_grad]
        opt = torch.optim.SGD(params, 0.1, weight_decay=0.1)
        opt.zero_grad()
        (o.image.square().mean() + o.commitment_loss + o.embedding_loss).backward()
        opt.step()
        for n, s in model.named_modules():
            if any((n + ".").startswith(f) for f in frozen):
                m.check(not s.training, "frozen", f"{n} left eval mode")
        moved = {k: False for k in ("encoder.", "bottleneck_op.", "decoder.")}
        for n, p in model.named_parameters():
            if any(n.startswith(f) for f in frozen):
                m.check(not p.requires_grad and torch.equal(p.detach(), before[n]),
                        "frozen", f"{n} changed or trainable although frozen")
            elif not torch.equal(p.detach(), before[n]):
                moved[n.split(".")[0] + "."] = True
        for k, v in moved.items():
            if k not in frozen:
                m.check(v, "unfrozen-trains", f"{k} did not train")
        with torch.no_grad():
            for p in model.parameters():
                p.clamp_(-5, 5)


def projector(m, model, cfg):
    r = m.rng
    model.train(r.random() < 0.7)
    ok, pr = m.run("projector", VqVaeProjector, model)
    if not ok:
        return
    m.check(not any(s.training for s in pr.modules()), "projector-frozen",
            "not in eval mode from the start")
    f = model.factor
    before = {n: p.detach().clone() for n, p in pr.named_parameters()}
    for mode in ("train", "eval", "train"):
        ret = getattr(pr, mode)()
        m.check(ret is pr, "projector-frozen", "train() does not return self")
        wrap = torch.nn.Sequential(pr).train()
        m.check(not any(s.training for s in pr.modules()), "projector-frozen",
                "projector left eval mode")
        m.check(not any(p.requires_grad for p in pr.parameters()), "projector-frozen",
                "projector parameter is trainable")
        h, w = f * r.randint(2, 8), f * r.randint(2, 8)
        x = torch.rand(2, 3, h, w)
        m.case(("projector", cfg, mode, h, w))
        with torch.no_grad():
            a = wrap(x)
            o = model.eval()(x)
        m.check(torch.equal(a.reshape(-1), o.indices.reshape(-1)), "projector",
                "projector indices differ from the autoencoder's")
        m.check(not a.is_floating_point() and int(a.max()) < cfg[3], "projector", "range")
    m.check(all(torch.equal(p, before[n]) for n, p in pr.named_parameters()),
            "projector-frozen", "parameters changed")


def run(m):
    torch.set_num_threads(2)
    i = 0
    while i < 4 or (m.time_left() and i < m.n(40, 400)):
        model, cfg = make(m)
        for _ in range(3):
            one(m, model, cfg)
        plain(m)
        freezing(m)
        projector(m, model, cfg)
        i += 1
