"""Learning-rate schedules over whole training histories, with checkpoints."""
import copy
import math
import sys

import torch

from lib import vct  # puts projects/torch_vct on the path
from neuralcompression.optim import (
    IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule)

PID = "C28"
RULE = ("case = one schedule (class, lengths, floor, parameter groups) stepped through a whole "
        "training run with checkpoint/restore at random steps; distinct by class and parameters")
REQUIRED = ["identity", "ramp-const-cosine", "ramp-cosine", "vct-ramp-cosine", "vct-ramp-linear",
            "vct-warm-cosine", "bounds", "groups", "resume", "initial", "shape"]
BUDGET = (12, 90)


def f_const(max_steps, ramp, cos, floor):
    def f(s):
        if s < ramp:
            return max(s / ramp, floor)
        c = s - (max_steps - cos)
        return max(math.cos(c / cos * math.pi / 2), floor) if c > 0 else 1.0
    return f


def f_ramp(ramp, max_steps, floor):
    def f(s):
        if s < ramp:
            return max(s / ramp, floor)
        return max(math.cos((s - ramp) / max_steps * math.pi / 2), floor)
    return f


def build(m, sch):
    r = m.rng
    kind = r.choice(["identity", "ramp-const-cosine", "ramp-const-cosine", "ramp-cosine",
                     "vct-ramp-cosine", "vct-ramp-linear", "vct-warm-cosine"])
    total = r.choice([5, 12, 40, 100, 5, 12, 40, 100, 1500])
    if kind == "identity":
        return kind, total, {}, IdentitySchedule, (), {}, lambda s, b: b
    if kind == "ramp-const-cosine":
        ramp = r.choice([0, 1, r.randint(0, total // 2)])
        cos = r.choice([0, 1, r.randint(0, total - ramp), total - ramp])
        floor = r.choice([1e-12, 0.1, 0.0])
        kw = dict(num_max_steps=total)
        if ramp or r.random() < 0.5:
            kw["num_ramp_steps"] = ramp
        if cos or r.random() < 0.5:
            kw["num_cosine_steps"] = cos
        if floor != 1e-12 or r.random() < 0.5:
            kw["min_val"] = floor
        f = f_const(total, ramp, cos, floor)
        return kind, total, kw, RampConstCosineLRSchedule, (), kw, lambda s, b: b * f(s)
    if kind == "ramp-cosine":
        ramp = r.choice([0, 1, r.randint(0, total // 2)])
        floor = r.choice([1e-12, 0.1])
        kw = dict(num_ramp_steps=ramp, num_max_steps=total)
        if floor != 1e-12 or r.random() < 0.5:
            kw["min_val"] = floor
        f = f_ramp(ramp, total, floor)
        return kind, total, kw, RampCosineLRSchedule, (), kw, lambda s, b: b * f(s)
    ramp = r.choice([1, 2, r.randint(1, total - 3)])
    eta = r.choice([0, 0, 1e-4])
    kw = dict(T_max=total)
    if r.random() < 0.3 and total > 12:
        ramp = 10
    else:
        kw["ramp_len"] = ramp
    if kind != "vct-ramp-linear":
        if eta:
            kw["eta_min"] = eta

    def cosine(s, b):
        e = kw.get("eta_min", 0)
        return e + (b - e) * (1 + math.cos(math.pi * (s - ramp) / (total - ramp - 1))) / 2
    if kind == "vct-ramp-cosine":
        fn = lambda s, b: b * (1 + s) / ramp if s < ramp else cosine(s, b)
        cls = sch.LinearRampCosineLR
    elif kind == "vct-ramp-linear":
        fn = lambda s, b: b * (1 + s) / ramp if s < ramp else b
        cls = sch.LinearRampLinearLR
    else:
        fn = lambda s, b: b if s < ramp else cosine(s, b)
        cls = sch.LinearWarmUpCosineLR
    return kind, total - 1, kw, cls, (), kw, fn


def run(m):
    sch = __import__(
        "utils.schedulers", fromlist=["x"])
    r = m.rng
    for i in range(m.n(900, 6000)):
        kind, total, kw, cls, a, k, fn = build(m, sch)
        lrs = [10 ** r.uniform(-3, 0) for _ in range(r.choice([1, 1, 3]))]
        m.case((kind, tuple(sorted(kw.items())), len(lrs)), kind != "identity",
               sample={"kind": kind, "kw": {q: v for q, v in kw.items()}})

        def make():
            opt = torch.optim.SGD([{"params": [torch.nn.Parameter(torch.zeros(1))], "lr": v}
                                   for v in lrs], lr=0.1)
            return opt, cls(opt, *a, **k)
        ok, pair = m.run(kind, make)
        if not ok:
            continue
        opt, s = pair
        floor = kw.get("min_val", 1e-12)
        trace = [[] for _ in lrs]
        for step in range(total + 1):
            got = [g["lr"] for g in opt.param_groups]
            want = [fn(step, v) for v in lrs]
            bad = [abs(x - y) > 1e-9 + 1e-6 * abs(y) for x, y in zip(got, want)]
            m.check(not any(bad), "initial" if step == 0 else kind,
                    f"{kw} step {step}: {got} want {want}")
            if any(bad):
                break
            m.check(len(got) == len(lrs), "groups", "")
            for t, x in zip(trace, got):
                t.append(x)
            if step == total:
                break
            if r.random() < 0.08:
                # checkpoint, forget, restore into fresh objects
                so, ss = copy.deepcopy(opt.state_dict()), copy.deepcopy(s.state_dict())
                opt, s = make()
                if r.random() < 0.7:
                    opt.load_state_dict(so)
                s.load_state_dict(ss)
                m.event("resume")
            opt.step()
            ok, _ = m.run(kind, s.step)
            if not ok:
                break
        for t, b in zip(trace, lrs):
            m.check(all(-1e-12 <= x <= b * (1 + 1e-9) for x in t), "bounds",
                    f"{kind} {kw}: leaves [0, base]")
            top = max(range(len(t)), key=lambda q: t[q])
            up, down = t[:top + 1], t[top:]
            m.check(all(x <= y + 1e-12 for x, y in zip(up, up[1:])) and
                    all(x >= y - 1e-12 for x, y in zip(down, down[1:])), "shape",
                    f"{kind} {kw}: not one rise then one fall")
            if kind == "ramp-const-cosine" and kw.get("num_cosine_steps") and len(t) == total + 1:
                m.check(abs(t[-1] - b * floor) < 1e-9 + 1e-9 * b, "shape", "final value")
            if kind in ("vct-ramp-cosine", "vct-warm-cosine") and len(t) == total + 1:
                m.check(abs(t[-1] - kw.get("eta_min", 0)) < 1e-9, "shape", "final value")
        if not m.time_left():
            break
