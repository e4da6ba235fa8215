"""count_flops against counts recorded while the same program runs."""
import copy
import math

import torch
from torch import nn
import torch.nn.functional as F

import neuralcompression.functional as ncF

PID = "C22"
RULE = ("case = one random module (chain of convolutions, linear layers, elementwise operations "
        "with broadcasting, unsupported and ignored operations) counted under one option set; "
        "distinct by the list of operations")
REQUIRED = ["total", "by-operator", "sum-of-parts", "unsupported", "estimates-flag", "overrides",
            "override-isolated", "history", "list-inputs", "unchanged", "linear-in-batch"]
BUDGET = (22, 120)

SINGLE = {
    "aten::abs": lambda x, c: x.abs(), "aten::add": lambda x, c: x + c,
    "aten::div": lambda x, c: x / c, "aten::mul": lambda x, c: x * c,
    "aten::neg": lambda x, c: -x, "aten::rsub": lambda x, c: 1.5 - x,
    "aten::sign": lambda x, c: x.sign(), "aten::sub": lambda x, c: x - c,
    "aten::abs_": lambda x, c: x.abs_(), "aten::add_": lambda x, c: x.add_(0.5),
    "aten::mul_": lambda x, c: x.mul_(0.5), "aten::div_": lambda x, c: x.div_(2.0),
    "aten::sub_": lambda x, c: x.sub_(0.1), "aten::neg_": lambda x, c: x.neg_(),
    "aten::sign_": lambda x, c: x.sign_(),
}
EST = {
    "aten::erfc": lambda x, c: x.erfc(), "aten::exp": lambda x, c: x.exp(),
    "aten::log": lambda x, c: x.log(), "aten::log10": lambda x, c: x.log10(),
    "aten::log2": lambda x, c: x.log2(), "aten::pow": lambda x, c: x.pow(2.0),
    "aten::reciprocal": lambda x, c: x.reciprocal(), "aten::rsqrt": lambda x, c: x.rsqrt(),
    "aten::sigmoid": lambda x, c: x.sigmoid(), "aten::softplus": lambda x, c: F.softplus(x),
    "aten::sqrt": lambda x, c: x.sqrt(), "aten::tanh": lambda x, c: x.tanh(),
    "aten::exp_": lambda x, c: x.exp_(), "aten::tanh_": lambda x, c: x.tanh_(),
    "aten::sigmoid_": lambda x, c: x.sigmoid_(), "aten::sqrt_": lambda x, c: x.sqrt_(),
    "aten::log_": lambda x, c: x.log_(), "aten::reciprocal_": lambda x, c: x.reciprocal_(),
    "aten::pow_": lambda x, c: x.pow_(2.0), "aten::uniform_": lambda x, c: x.uniform_(),
}
NONE = {
    "aten::sin": lambda x, c: x.sin(), "aten::cos": lambda x, c: x.cos(),
    "aten::cumsum": lambda x, c: x.cumsum(-1), "aten::atan": lambda x, c: x.atan(),
    "aten::erf": lambda x, c: x.erf(),
}
FREE = {
    "aten::relu": lambda x, c: x.relu(), "aten::empty_like": lambda x, c: torch.empty_like(x).copy_(x),
    "aten::numel": lambda x, c: x.reshape(x.numel()).reshape(x.shape),
    "aten::view": lambda x, c: x.reshape(x.shape), "aten::cat": lambda x, c: torch.cat([x]),
}


class Net(nn.Module):
    """Runs its program; with log set, records (operator, flops, class) as it goes."""

    def __init__(self, prog):
        super().__init__()
        self.prog = prog
        self.mods = nn.ModuleList([p[2] for p in prog if p[0] == "layer"])
        self.log = None

    def forward(self, x, *rest):
        it = iter(self.mods)
        for p in self.prog:
            if p[0] == "layer":
                mod = next(it)
                y = mod(x)
                if self.log is not None:
                    self.log.append((p[1], macs(mod, x, y), "layer"))
                x = y
            else:
                table = {"single": SINGLE, "est": EST, "none": NONE, "free": FREE}[p[0]]
                if p[1].endswith("_") and p[0] != "free":
                    x = x + 0                                    # do not touch the input
                    if self.log is not None:
                        self.log.append(("aten::add", x.numel(), "single"))
                    x = table[p[1]](x, p[2])
                else:
                    x = table[p[1]](x, p[2])
                if self.log is not None:
                    self.log.append((p[1], x.numel(), p[0]))
        for y in rest:
            x = x + y
            if self.log is not None:
                self.log.append(("aten::add", x.numel(), "single"))
        return x


def macs(mod, x, y):
    if isinstance(mod, nn.Linear):
        return y.numel() * mod.in_features
    k = math.prod(mod.kernel_size)
    if isinstance(mod, nn.ConvTranspose2d):
        return x.numel() * (mod.out_channels // mod.groups) * k
    return y.numel() * (mod.in_channels // mod.groups) * k


def program(r, img):
    prog, ch = [], 4
    for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 7, 20])):
        k = r.random()
        if k < 0.3:
            if img:
                out = r.choice([2, 4, 6])
                g = 2 if r.random() < 0.3 else 1
                if r.random() < 0.3:
                    mod = nn.ConvTranspose2d(ch, out, r.choice([1, 2, 3]), stride=r.choice([1, 2]),
                                             bias=r.random() < 0.5, groups=g)
                else:
                    mod = nn.Conv2d(ch, out, r.choice([1, 3]), padding=1, groups=g,
                                    stride=r.choice([1, 1, 2]), bias=r.random() < 0.5)
                prog.append(("layer", "conv", mod))
                ch = out
            else:
                out = r.choice([3, 5, 8])
                prog.append(("layer", "linear", nn.Linear(ch, out, bias=r.random() < 0.5)))
                ch = out
        elif k < 0.6:
            op = r.choice(list(SINGLE))
            prog.append(("single", op, r.choice([0.7, torch.full((1,), 1.3),
                                                 torch.full((2, 1, 1, 1, 1), 0.9)
                                                 if r.random() < 0.6 and not img
                                                 else torch.full((1, 1), 0.8)])))
        elif k < 0.8:
            prog.append(("est", r.choice(list(EST)), None))
        elif k < 0.9:
            prog.append(("none", r.choice(list(NONE)), None))
        else:
            prog.append(("free", r.choice(list(FREE)), None))
    return prog, ch


def tally(log, est):
    by, un = {}, {}
    for op, n, kind in log:
        name = op.split("::")[-1]
        if kind in ("single", "layer") or (kind == "est" and est):
            by[name] = by.get(name, 0) + n
        elif kind in ("none", "est"):
            un[op] = un.get(op, 0) + 1
    return by, un


def one(m, prev):
    r = m.rng
    img = r.random() < 0.5
    prog, ch = program(r, img)
    net = Net(prog)
    b = r.choice([1, 2, 3, 9])
    x = torch.rand(b, 4, r.choice([6, 9]), r.choice([6, 8])) + 0.1 if img else \
        torch.rand(*r.choice([(b, 4), (b, 5, 4)])) + 0.1
    est = r.random() < 0.5
    key = tuple(p[1] if p[0] != "layer" else repr(p[2]) for p in prog)
    m.case((key, tuple(x.shape), est), len(prog) > 1, sample={"ops": [k[:60] for k in key]})
    net.log = []
    with torch.no_grad():
        try:
            y = net(x.clone())
        except RuntimeError:
            return None
    log, net.log = net.log, None
    inputs = [x]
    if r.random() < 0.3 and not any(p[1] == "aten::cumsum" for p in prog):
        extra = torch.rand_like(y)
        inputs.append(extra)
        log.append(("aten::add", y.numel(), "single"))
    by, un = tally(log, est)
    sd = copy.deepcopy(net.state_dict())
    args = r.choice([tuple, list])(inputs)
    x0 = x.clone()
    kw = {"use_single_flop_estimates": est} if est or r.random() < 0.5 else {}
    ok, res = m.run("total", ncF.count_flops, net, args, **kw)
    if not ok:
        return None
    if isinstance(args, list):
        m.event("list-inputs")
        m.check(len(args) == len(inputs), "list-inputs", "argument list changed")
    tot, got, unsup = res
    m.check(tot == sum(by.values()), "total", f"{tot} want {sum(by.values())}: {key}")
    m.check(sum(got.values()) == tot, "sum-of-parts", f"{got} vs {tot}")
    want = {k: v for k, v in by.items() if v}
    m.check({k.split("::")[-1]: v for k, v in got.items() if v} == want, "by-operator",
            f"{dict(got)} want {want}")
    m.check(dict(unsup) == un, "unsupported", f"{dict(unsup)} want {un}")
    m.check(torch.equal(x, x0) and all(torch.equal(sd[k], v)
                                       for k, v in net.state_dict().items()), "unchanged", "")
    # the flag moves exactly the estimated operations
    by2, un2 = tally(log, not est)
    t2, g2, u2 = ncF.count_flops(net, args, use_single_flop_estimates=not est)
    m.check(t2 == sum(by2.values()) and dict(u2) == un2, "estimates-flag",
            f"{t2} want {sum(by2.values())}")
    # overrides
    ops = [o for o, _, k in log if k != "free"]
    if ops:
        target = r.choice([o if "::" in o else f"aten::{o}" for o in ops])
        target = {"aten::conv": "aten::_convolution"}.get(target, target)
        calls = []
        ov = {target: lambda i, o: calls.append(1) or 1000.0}
        ov0 = dict(ov)
        t3, g3, u3 = ncF.count_flops(net, args, counter_overrides=ov,
                                     use_single_flop_estimates=est)
        name = target.split("::")[-1]
        cnt = sum(1 for o in ops if o == target or f"aten::{o}" == target or
                  (o == "conv" and name == "_convolution"))
        base = {k: v for k, v in by.items() if k != (name if name != "_convolution" else "conv")}
        m.check(t3 == sum(base.values()) + 1000.0 * cnt, "overrides",
                f"{target} x{cnt}: {t3} want {sum(base.values()) + 1000.0 * cnt}")
        m.check(target not in u3, "overrides", "still listed as unsupported")
        m.check(ov == ov0, "overrides", "argument changed")
    t4, g4, u4 = ncF.count_flops(net, args, use_single_flop_estimates=est)
    m.check(t4 == tot and dict(g4) == dict(got) and dict(u4) == dict(unsup),
            "override-isolated", f"recount gives {t4}, first {tot}")
    if len(inputs) == 1:
        big = torch.cat([x, x])
        t5 = ncF.count_flops(net, (big,), use_single_flop_estimates=est)[0]
        m.check(t5 == 2 * tot or any(p[0] == "single" and torch.is_tensor(p[2]) and p[2].ndim > 2
                                     for p in prog), "linear-in-batch",
                f"{t5} for twice the batch, {tot} for one")
    if prev is not None:
        t6 = ncF.count_flops(prev[0], prev[1], use_single_flop_estimates=prev[2])[0]
        m.check(t6 == prev[3], "history", f"an earlier module now counts {t6}, was {prev[3]}")
    return net, args, est, tot


def run(m):
    import logging
    logging.disable(logging.ERROR)
    prev = None
    for i in range(m.n(700, 8000)):
        m.seed_torch(i)
        prev = one(m, prev) or prev
        if not m.time_left():
            break
