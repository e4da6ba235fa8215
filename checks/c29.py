"""U-Net discriminators against a functional model rebuilt from their state dict."""
import copy
import io

import torch
import torch.nn.functional as F

from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator

PID = "C29"
RULE = ("case = one discriminator (channels, norm, factor, conditioning) on one image batch; "
        "distinct by configuration and sizes")
REQUIRED = ["value", "shape", "rejects", "alone", "deterministic", "input-unchanged",
            "conditional-flag", "context", "gradient", "statistics", "reload", "defaults",
            "train-value", "biases"]
BUDGET = (22, 150)
SLOPE = 0.2
NORMS = ["identity", "spectral", "instance", "batch"]


class Ref:
    """Forward pass in float64 from a state dict, level by level."""

    def __init__(self, sd, norm, levels, ups, train, prefix=""):
        self.sd = {k: v.detach().double() if v.is_floating_point() else v for k, v in sd.items()}
        self.norm, self.levels, self.ups, self.train, self.pre = norm, levels, ups, train, prefix
        self.odd = []

    def conv(self, x, name, pad, bias=True):
        sd, n = self.sd, self.pre + name
        if n + ".weight" in sd:
            w = sd[n + ".weight"]
        elif n + ".parametrizations.weight.original" in sd:
            w = sd[n + ".parametrizations.weight.original"]
            u, v = (sd[n + f".parametrizations.weight.0.{q}"] for q in ("_u", "_v"))
            w = w / torch.dot(u, torch.mv(w.flatten(1), v))
        else:
            return x
        if (n + ".bias" in sd) is not bias:
            self.odd.append(n)
        return F.conv2d(x, w, sd.get(n + ".bias"), padding=pad)

    def act(self, x, name):
        """norm + LeakyReLU; returns (result, what the input tensor holds afterwards)."""
        sd, n = self.sd, self.pre + name
        if self.norm == "instance":
            y = F.instance_norm(x)
        elif self.norm == "batch":
            if self.train:
                y = F.batch_norm(x, None, None, sd[n + ".weight"], sd[n + ".bias"], True)
            else:
                y = F.batch_norm(x, sd[n + ".running_mean"], sd[n + ".running_var"],
                                 sd[n + ".weight"], sd[n + ".bias"])
        else:
            y = F.leaky_relu(x, SLOPE)
            return y, y
        return F.leaky_relu(y, SLOPE), x

    def level(self, x, i, name):
        """level i, counted from the top; the last `levels - ups` from the top are clipped."""
        a = x
        if i > 0:
            a, x = self.act(x, name + "left_block.0")
        a = self.conv(a, name + "left_block.2", 1, self.norm != "batch")
        a, _ = self.act(a, name + "left_block.3")
        a = self.conv(a, name + "left_block.5", 1)
        x = F.avg_pool2d(a, 2) + F.avg_pool2d(self.conv(x, name + "left_shortcut.0", 0), 2)
        if i + 1 < self.levels:
            x = self.level(x, i + 1, name + "child.")
        if i < self.levels - self.ups:
            return x
        a, x = self.act(x, name + "right_block.0")
        a = F.interpolate(a, scale_factor=2, mode="nearest")
        a = self.conv(a, name + "right_block.3", 1, self.norm != "batch")
        a, _ = self.act(a, name + "right_block.4")
        a = self.conv(a, name + "right_block.6", 1)
        return a + F.interpolate(self.conv(x, name + "right_shortcut.0", 0), scale_factor=2)

    def __call__(self, x):
        return self.conv(self.level(x.double(), 0, "model.0."), "model.1", 0)


def scramble(r, model):
    """Weights as after training: batch statistics and affine parameters away from defaults."""
    with torch.no_grad():
        for k, v in model.state_dict().items():
            if k.endswith("running_mean"):
                v.copy_(torch.randn_like(v) * 0.3)
            elif k.endswith("running_var"):
                v.copy_(torch.rand_like(v) + 0.5)
        for k, p in model.named_parameters():
            if p.ndim == 1:
                p.add_(torch.randn_like(p) * 0.2)


def one(m, i):
    r = m.rng
    norm = NORMS[i % 4]
    levels = r.choice([1, 2, 3, 3, 4])
    cond = r.random() < 0.4
    cin, cout = r.choice([1, 3, 5]), r.choice([1, 4])
    base = r.choice([3, 3, 1])
    chans = [base + (cout if cond else 0)] + [r.choice([2, 4, 4, 6, 64]) if levels < 3 else
                                              r.choice([2, 4, 4, 6]) for _ in range(levels)]
    k = r.randrange(levels + 1) if r.random() < 0.8 else r.choice([0, levels])
    f = 2 ** k
    oc = r.choice([1, 2, 7])
    # the last dimension of the smallest map must exceed one pixel for instance norm
    q = 2 ** levels
    n, h, w = r.choice([1, 2, 3, 3, 8]), q * r.choice([2, 3]), q * r.choice([2, 3, 5, 11])
    key = (norm, tuple(chans), f, oc, cond, (cin, cout) if cond else None, n, h, w)
    m.case(key, True, sample={"norm": norm, "chans": chans, "factor": f, "size": [n, h, w]})
    given = list(chans)
    kw = dict(output_channels=oc, output_downsampling_factor=f, chans=given, norm_type=norm)
    if norm == "identity" and r.random() < 0.5:
        del kw["norm_type"]
    cls = UnetDiscriminator
    if cond:
        cls = ConditionalUnetDiscriminator
        kw.update(context_in=cin, context_out=cout)
    ok, model = m.run("shape", cls, **kw)
    if not ok:
        return
    m.check(given == chans, "input-unchanged", f"channel list became {given}")
    m.check(model.is_conditional is cond, "conditional-flag", f"{cls.__name__}")
    scramble(r, model)
    x = torch.randn(n, base, h, w) * r.choice([0.3, 1.0])
    args = [x]
    if cond:
        hh, ww = r.choice([(2, 2), (4, 3), (h, w), (5, 9), (h // 2, w // 2)])
        args.append(torch.randn(n, cin, hh, ww))
    keep = [a.clone() for a in args]
    if norm == "spectral" and r.random() < 0.5:
        model.train()
        with torch.no_grad():
            model(*args)
    model.eval()

    def ref(train, args):
        sd = model.state_dict()
        x = args[0].double()
        if cond:
            c = F.pad(args[1].double(), (1, 1, 1, 1), mode="reflect")
            c = F.leaky_relu(F.conv2d(c, sd["input_sequence.0.weight"].double(),
                                      sd["input_sequence.0.bias"].double()), SLOPE)
            ih = (torch.arange(h) * hh) // h
            iw = (torch.arange(w) * ww) // w
            x = torch.cat([x, c[:, :, ih][:, :, :, iw]], 1)
        net = Ref(sd, norm, levels, levels - k, train, "_unet." if cond else "")
        y = net(x)
        m.check(not net.odd, "biases", f"{norm}: {net.odd}")
        return y
    before = {q: v.clone() for q, v in model.state_dict().items()}
    with torch.no_grad():
        ok, y = m.run("value", model, *args)
        if not ok:
            return
        want_shape = (n, oc, h // f, w // f)
        m.check(tuple(y.shape) == want_shape, "shape", f"{tuple(y.shape)} want {want_shape} {key}")
        if tuple(y.shape) != want_shape:
            return
        want = ref(False, args)
        tol = 1e-4 * (1 + float(want.abs().max()))
        m.close(y, want, "context" if cond else "value", f"{key}", rtol=1e-3, atol=tol)
        m.check(all(torch.equal(a, b) for a, b in zip(args, keep)), "input-unchanged", f"{norm}")
        m.check(torch.equal(model(*args), y), "deterministic", f"{norm}")
        m.check(all(torch.equal(v, before[q]) for q, v in model.state_dict().items()),
                "statistics", "evaluation changed the state")
        j = r.randrange(n)
        m.close(model(*[a[j:j + 1] for a in args]), y[j:j + 1], "alone", f"{norm}", rtol=1e-3,
                atol=tol)
    # checkpoint into a fresh model
    buf = io.BytesIO()
    torch.save(model.state_dict(), buf)
    buf.seek(0)
    kw["chans"] = list(chans)
    fresh = cls(**kw).eval()
    ok, _ = m.run("reload", fresh.load_state_dict, torch.load(buf))
    if ok:
        with torch.no_grad():
            m.close(fresh(*args), y, "reload", f"{norm}", rtol=1e-5, atol=tol * 1e-2)
    # training: same function (batch statistics for batch norm), gradients everywhere
    model.train()
    leaves = [a.clone().requires_grad_() for a in args]
    ok, z = m.run("train-value", model, *leaves)
    if not ok:
        return
    with torch.no_grad():
        sd_after = model.state_dict()
        want = ref(True, args)
        m.close(z, want, "train-value", f"{key}", rtol=1e-3,
                atol=(1e-3 if norm in ("batch", "instance") else 1e-4) *
                (1 + float(want.abs().max())))
        if norm == "batch":
            changed = [q for q in sd_after if q.endswith("num_batches_tracked")]
            m.check(bool(changed) and all(int(sd_after[q]) == int(before[q]) + 1
                                          for q in changed), "statistics", "not tracked")
    params = list(model.parameters())
    g = torch.autograd.grad((z * torch.randn_like(z)).sum(), leaves + params, allow_unused=True)
    m.check(all(t is not None and bool(torch.isfinite(t).all()) for t in g), "gradient",
            f"{norm}: a parameter or input gets no finite gradient")
    if h > 4 * f and norm != "instance":
        m.check(all(float(t.abs().max()) > 0 for t in g[:len(leaves)]), "gradient",
                "zero input gradient")


def rejects(m):
    r = m.rng
    levels = r.choice([1, 2, 3])
    chans = [3] + [4] * levels
    cls = r.choice([UnetDiscriminator, ConditionalUnetDiscriminator])
    extra = dict(context_in=2, context_out=1) if cls is not UnetDiscriminator else {}
    bad = r.choice([0, 3, 5, 6, 7, 9, 10, 12, 24, 100])
    m.case(("reject", cls.__name__, bad, levels), True)
    m.raises("rejects", ValueError, cls, output_channels=2, output_downsampling_factor=bad,
             chans=chans, **extra)
    m.raises("rejects", ValueError, cls, output_channels=2, output_downsampling_factor=2,
             chans=chans, norm_type=r.choice(["layer", "", "Batch", "group", None]), **extra)
    m.raises("rejects", Exception, cls, output_channels=2,
             output_downsampling_factor=2 ** (levels + r.choice([1, 2])), chans=chans, **extra)


def defaults(m):
    """The documented default channels, and histories: two models do not share state."""
    m.case(("defaults",), True)
    f = m.rng.choice([1, 8, 16, 32, 64])
    a = UnetDiscriminator(3, f).eval()
    m.check(list(a.channels) == [3, 128, 128, 256, 256, 512, 512], "defaults", f"{a.channels}")
    x = torch.randn(1, 3, 64, 64)
    with torch.no_grad():
        y = a(x)
        want = Ref(a.state_dict(), "identity", 6, 6 - f.bit_length() + 1, False)(x)
    m.check(tuple(y.shape) == (1, 3, 64 // f, 64 // f), "defaults", f"{tuple(y.shape)}")
    m.close(y, want, "defaults", f"factor {f}", rtol=1e-3, atol=1e-3 * (1 + float(want.abs().max())))
    c = ConditionalUnetDiscriminator(output_channels=2, output_downsampling_factor=f,
                                     context_in=5).eval()
    with torch.no_grad():
        y = c(x, torch.randn(1, 5, 4, 4))
    m.check(tuple(y.shape) == (1, 2, 64 // f, 64 // f), "defaults", f"{tuple(y.shape)}")
    b = UnetDiscriminator(3, f)
    m.check(list(b.channels) == [3, 128, 128, 256, 256, 512, 512], "defaults",
            f"after a conditional model: {b.channels}")


def run(m):
    m.seed_torch(0)
    defaults(m)
    for i in range(m.n(400, 6000)):
        if not m.time_left():
            break
        m.seed_torch(i + 1)
        if i % 10 == 3:
            rejects(m)
        one(m, i)
