"""HiFiC: decompress(compress(x)) is exactly the reconstruction of the rounded latents."""
import torch

from lib import hific

PID = "C01"
RULE = ("case = one (model with random weights, image batch) pair, sizes 33..260 px, some up to 2100, batches up to 17, incl. "
        "every residue class mod 64; non-trivial when the coded latent symbols take at "
        "least 3 distinct values; distinct by (shape, model config, image kind)")
BUDGET = (45, 240)
REQUIRED = ["latent-lossless", "image", "metadata", "shape-range"]
ASSUMPTIONS = ["images of at least 33 px per side (reflection padding needs pad < side)"]


def one(m, model, cfg, x, kind):
    rec = {}

    def hook(_mod, args):
        rec["y_hat"] = args[0].detach().clone()

    ref = hific.Ref(model, x)
    tie = ref.near_tie(hific.medians(model))
    nsym = len(torch.unique(ref.sym))
    m.case((tuple(x.shape), cfg, kind), nontrivial=nsym >= 3,
           sample={"shape": list(x.shape), "cfg": cfg, "kind": kind, "symbols": nsym,
                   "max_symbol": float(ref.sym.abs().max())})
    x0 = x.clone()
    with torch.no_grad():
        ok, c = m.run("compress-runs", model.compress, x)
        if not ok:
            return
        h = model.decoder.register_forward_pre_hook(hook)
        try:
            ok, d = m.run("decompress-runs", model.decompress, c)
        finally:
            h.remove()
        if not ok:
            return
    m.check(torch.equal(x, x0), "input-unchanged", "compress modified its input image")
    m.check(tuple(c.image_size) == tuple(x.shape[-2:])
            and tuple(c.padded_size) == ref.padded, "metadata",
            f"image_size={c.image_size} padded_size={c.padded_size} for {tuple(x.shape)}")
    m.check(len(c.latent_strings) == len(x) and len(c.hyper_latent_strings) == len(x),
            "one-string-per-image", f"{len(c.latent_strings)} strings for {len(x)} images")
    m.check(all(isinstance(s, bytes) for s in list(c.latent_strings)
                + list(c.hyper_latent_strings)), "byte-strings", "non-bytes stream")
    m.check(tuple(d.shape) == tuple(x.shape) and bool(torch.isfinite(d).all())
            and float(d.min()) >= 0.0 and float(d.max()) <= 1.0, "shape-range",
            f"decoded {tuple(d.shape)} range [{float(d.min())}, {float(d.max())}]")
    if tie:
        m.event("skipped-near-tie")
        return
    m.close(rec.get("y_hat", torch.zeros(0)), ref.y_hat, "latent-lossless",
            "decoded latent != rounded latent", rtol=1e-4, atol=2e-3)
    m.close(d, ref.image, "image", "decoded image != reconstruction of rounded latents",
            rtol=1e-3, atol=2e-3)


def run(m):
    torch.set_num_threads(2)
    first = True
    for i in range(m.n(60, 700)):
        if i and not m.time_left():
            break
        if i % 5 == 0:
            model, cfg = hific.make(m, in_ch=m.rng.choice([1, 3, 3, 2]))
            model.update()
            if i == 5:  # the zoo's real width at least once
                model, cfg = hific.make(m, lat=220, hyp=320, nres=1)
                model.update()
        h, w = hific.sizes(m)
        b = m.rng.choice([1, 1, 2, 3])
        if first:  # every residue of both sides mod 64 is reached over the run
            h, w, first = 64, 64, False
        if i in (2, 12):  # many images at once
            h, w, b = 33 + m.rng.randrange(40), 33 + m.rng.randrange(40), m.rng.randint(8, 17)
        elif i in (3, 13):  # photograph-sized and elongated
            h, w, b = m.rng.randint(500, 800), m.rng.randint(260, 600), 1
        elif i in (8, 18):
            h, w, b = 33 + m.rng.randrange(30), m.rng.randint(1030, 2100), 1
            if m.rng.random() < 0.5:
                h, w = w, h
        x, kind = hific.images(m, b, cfg[0], h, w)
        if m.rng.random() < 0.15:
            x = x.to(memory_format=torch.channels_last)
        one(m, model, cfg, x, kind)
        if m.rng.random() < 0.1:
            # latents far outside the coder's tables (bypass coding)
            x = x * 1.0
            with torch.no_grad():
                k = sorted((k for k in dict(model.named_parameters())
                            if k.startswith("encoder.blocks.") and k.endswith(".weight")),
                           key=lambda k: int(k.split(".")[2]))[-1]
                p = dict(model.named_parameters())[k]
                p.mul_(200)
                one(m, model, cfg, x, "overflow-" + kind)
                p.div_(200)
    m.extra["residues_mod_64_seen"] = len({(k[0][2] % 64) for k in m.keys})
