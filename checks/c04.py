"""HiFiC: freezing, parameter groups and device placement over any history."""
import pickle

import torch

from lib import hific
from lib.dev import ACC, accelerator

PID = "C04"
RULE = ("case = one operation in a random history of freeze/train/eval/optimiser steps "
        "(distinct by config and last four operations), or one placement of the model's "
        "parameters over CPU and a stand-in accelerator (distinct by misplaced parameter)")
REQUIRED = ["frozen-grad", "frozen-mode", "frozen-values", "mode-follows", "groups",
            "trains", "force-cpu", "misplaced-rejected", "compress-placement",
            "forward-placement", "partial-runs", "bad-target", "forward-needs-setting",
            "update-returns"]
BUDGET = (22, 200)

ENC = ("encoder.",)
BOT = ("hyper_bottleneck.", "hyper_synthesis_mean.", "hyper_synthesis_scale.",
       "hyper_analysis.", "latent_bottleneck.")


def group(name):
    if name.startswith(ENC):
        return "enc"
    if name.startswith(BOT):
        return "bot"
    return "dec"


def observe(m, model, frozen, mode):
    for n, p in model.named_parameters():
        m.check(p.requires_grad == (group(n) not in frozen), "frozen-grad",
                f"{n}.requires_grad={p.requires_grad}, frozen={sorted(frozen)}")
    for n, s in model.named_modules():
        if not n:
            m.check(s.training == mode, "mode-follows", f"model.training={s.training}")
            continue
        g = group(n + ".")
        if g in frozen:
            m.check(not s.training, "frozen-mode", f"{n} is in train mode while frozen")
        else:
            m.check(s.training == mode, "mode-follows",
                    f"{n}.training={s.training} after train({mode})")
    m.check(model.frozen_encoder == ("enc" in frozen)
            and model.frozen_bottleneck == ("bot" in frozen), "flags",
            f"{model.frozen_encoder} {model.frozen_bottleneck} vs {sorted(frozen)}")
    a, b = model.collect_parameters()
    named = dict(model.named_parameters())
    exp_a = {n for n, p in named.items() if p.requires_grad and not n.endswith(".quantiles")}
    exp_b = {n for n, p in named.items() if p.requires_grad and n.endswith(".quantiles")}
    ids = {id(p): n for n, p in named.items()}
    got_a, got_b = [ids.get(id(p)) for p in a], [ids.get(id(p)) for p in b]
    m.check(len(got_a) == len(set(got_a)) and len(got_b) == len(set(got_b))
            and set(got_a) == exp_a and set(got_b) == exp_b, "groups",
            f"collect_parameters: {set(got_a) ^ exp_a} / {set(got_b) ^ exp_b}")


def freeze_history(m, steps):
    from neuralcompression.models import HiFiCAutoencoder

    r = m.rng
    m.seed_torch()
    fe, fb = r.random() < 0.3, r.random() < 0.3
    model = HiFiCAutoencoder(3, 4, 3, r.choice([0, 1]), freeze_encoder=fe,
                             freeze_bottleneck=fb)
    frozen = {g for g, f in (("enc", fe), ("bot", fb)) if f}
    mode = True
    ops = [f"init({fe},{fb})"]
    m.case(tuple(ops), sample={"history": list(ops)})
    observe(m, model, frozen, mode)
    for _ in range(steps):
        op = r.choice(["freeze_encoder", "freeze_bottleneck", "train", "train", "eval",
                       "eval", "step", "step", "requires", "reload", "update"])
        if op.startswith("freeze") and r.random() < 0.6:
            op = "train"
        ops.append(op)
        m.case((frozenset(frozen), mode) + tuple(ops[-4:]), sample={"history": ops[-10:]})
        if op == "freeze_encoder":
            model.freeze_encoder()
            frozen.add("enc")
        elif op == "freeze_bottleneck":
            model.freeze_bottleneck()
            frozen.add("bot")
        elif op == "train":
            ret = model.train()
            m.check(ret is model, "train-returns-self", repr(type(ret)))
            mode = True
        elif op == "eval":
            ret = model.eval()
            m.check(ret is model, "train-returns-self", repr(type(ret)))
            mode = False
        elif op == "update":
            model.update(force=True)
        elif op == "requires":
            model.zero_grad(set_to_none=True)
        elif op == "reload":
            model.load_state_dict(model.state_dict())
        else:
            before = {n: p.detach().clone() for n, p in model.named_parameters()}
            buf = {n: p.detach().clone() for n, p in model.named_buffers()
                   if group(n) in frozen}
            main, quant = model.collect_parameters()
            opts = [torch.optim.SGD(main, 0.05, momentum=0.5, weight_decay=0.01)]
            if quant:
                opts.append(torch.optim.SGD(quant, 0.05))
            for o in opts:
                o.zero_grad()
            out = model(torch.rand(1, 3, 64, 64))
            loss = (out.image.square().mean()
                    - torch.log2(out.latent_likelihoods).mean()
                    - torch.log2(out.hyper_latent_likelihoods).mean())
            if quant:
                loss = loss + model.aux_loss()
            loss.backward()
            for o in opts:
                o.step()
            moved = set()
            for n, p in model.named_parameters():
                if group(n) in frozen:
                    m.check(torch.equal(p.detach(), before[n]), "frozen-values",
                            f"frozen {n} changed in a training step")
                elif not torch.equal(p.detach(), before[n]):
                    moved.add(group(n))
            for n, p in model.named_buffers():
                if n in buf:
                    m.check(torch.equal(p, buf[n]), "frozen-values", f"frozen buffer {n}")
            m.check("dec" in moved, "trains", "decoder did not train")
            for g in ("enc", "bot"):
                if g not in frozen and mode:
                    m.check(g in moved, "trains", f"unfrozen {g} did not train")
        observe(m, model, frozen, mode)


def misplaced(model, name):
    """Put one parameter (by name) on the accelerator; returns an undo function."""
    mod, _, leaf = name.rpartition(".")
    s = model.get_submodule(mod)
    old = s._parameters[leaf]
    s._parameters[leaf] = torch.nn.Parameter(torch.empty(old.shape, device=ACC),
                                             requires_grad=old.requires_grad)
    return lambda: s._parameters.__setitem__(leaf, old)


def placements(m):
    r = m.rng
    model, cfg = hific.make(m, nres=r.choice([0, 1]))
    model.update()
    h, w = r.choice([(64, 64), (70, 100), (128, 65)])
    x = torch.rand(2, cfg[0], h, w)
    with torch.no_grad():
        c = model.compress(x)
    # every single parameter in the wrong place; the coder must not even be reached
    # (tensors on the stand-in hold no data, so the native coder gets a stub)
    def reached(*a, **k):
        raise RuntimeError("entropy coder reached")

    coders = [(b, k) for b in (model.hyper_bottleneck, model.latent_bottleneck)
              for k in ("compress", "decompress")]
    for b, k in coders:
        setattr(b, k, reached)
    names = [n for n, _ in model.named_parameters()]
    for n in names:
        undo = misplaced(model, n)
        g = group(n)
        m.case(("misplaced", n), sample={"on_accelerator": n})
        try:
            with torch.no_grad(), accelerator():
                for f, a in ((model.compress, x), (model.decompress, c)):
                    m.raises("force-cpu", ValueError, f, a, _msg=f"{n} off the CPU")
                    m.raises("force-cpu", ValueError, f, a, force_cpu=True,
                             _msg=f"{n} off the CPU")
                    if g == "bot":
                        m.raises("misplaced-rejected", ValueError, f, a, force_cpu=False,
                                 _msg=f"coding layer parameter {n} off the CPU")
        finally:
            undo()
    for b, k in coders:
        delattr(b, k)
    # partial placement: encoder and decoder on the accelerator
    model.encoder.to(ACC)
    model.decoder.to(ACC)
    m.case(("partial", cfg, h, w))
    with torch.no_grad(), accelerator():
        ok, c2 = m.run("partial-runs", model.compress, x.to(ACC), force_cpu=False)
        if ok:
            m.check(len(c2.latent_strings) == 2 and tuple(c2.image_size) == (h, w),
                    "partial-runs", "partial-device compress metadata")
            again = model.compress(x.to(ACC), force_cpu=False)
            m.check(list(again.latent_strings) == list(c2.latent_strings),
                    "partial-deterministic", "partial-device streams differ")
            ok, d = m.run("partial-runs", model.decompress, c2, force_cpu=False)
            if ok:
                m.check(tuple(d.shape) == tuple(x.shape) and d.device == ACC,
                        "partial-runs", f"decoded {tuple(d.shape)} on {d.device}")


def settings(m):
    r = m.rng
    model, cfg = hific.make(m, nres=0)
    x = torch.rand(1, cfg[0], 64, 64)
    first = model.update()
    second = model.update()
    m.case(("settings", cfg))
    m.check(first is True or first == 1, "update-returns", f"first update() -> {first}")
    m.check(not second, "update-returns", f"update() again -> {second}")
    m.check(bool(model.update(force=True)), "update-returns", "update(force=True)")
    m.check(model.device_setting == "forward", "initial-setting", model.device_setting)
    for bad in ("", "cpu", "Forward", "decompress", None, 0):
        cur = model.device_setting
        m.raises("bad-target", ValueError, model.update_tensor_devices, bad,
                 _msg=f"target {bad!r}")
        m.check(model.device_setting == cur, "bad-target", "setting changed by a bad target")
    want = "forward"
    for _ in range(12):
        op = r.choice(["forward", "compress", "use", "use", "pickle"])
        m.case(("settings", want, op))
        if op in ("forward", "compress"):
            model.update_tensor_devices(op)
            want = op
        elif op == "pickle":
            model = pickle.loads(pickle.dumps(model))
        else:
            with torch.no_grad():
                if want == "forward":
                    m.run("forward-runs", model, x)
                else:
                    m.raises("forward-needs-setting", RuntimeError, model, x,
                             _msg="forward in the compress setting")
                c = model.compress(x)
                m.check(model.decompress(c).shape == x.shape, "compress-any-setting", "")
        m.check(model.device_setting == want, "setting", f"{model.device_setting}!={want}")
    model.update_tensor_devices("compress")
    with torch.no_grad():
        m.raises("forward-needs-setting", RuntimeError, model, x, _msg="compress setting")
    # a model living on the accelerator
    model, cfg = hific.make(m, nres=0)
    model.update()
    from compressai.entropy_models import EntropyBottleneck, GaussianConditional

    # the tables are there already; rebuilding them needs values, which ACC does not hold
    keep = (EntropyBottleneck.update, GaussianConditional.update,
            GaussianConditional.update_scale_table)
    EntropyBottleneck.update = GaussianConditional.update = \
        GaussianConditional.update_scale_table = lambda *a, **k: False
    try:
        on_accelerator(m, model, cfg)
    finally:
        (EntropyBottleneck.update, GaussianConditional.update,
         GaussianConditional.update_scale_table) = keep


def on_accelerator(m, model, cfg):
    with accelerator():
        model.to(ACC)
        model.update_tensor_devices("compress")
        m.case(("accelerator", cfg))
        for kind, it in (("parameter", model.named_parameters()),
                         ("buffer", model.named_buffers())):
            for n, p in it:
                if group(n) == "bot":
                    m.check(p.device.type == "cpu", "compress-placement",
                            f"{kind} {n} on {p.device} in the compress setting")
                else:
                    m.check(p.device == ACC, "compress-placement",
                            f"{kind} {n} left the accelerator")
        model.update_tensor_devices("forward")
        for n, p in list(model.named_parameters()) + list(model.named_buffers()):
            m.check(p.device == ACC, "forward-placement", f"{n} on {p.device}")


def run(m):
    torch.set_num_threads(2)
    settings(m)
    placements(m)
    i = 0
    while i < 2 or (m.time_left() and i < m.n(8, 80)):
        freeze_history(m, m.n(14, 30))
        i += 1
    for _ in range(m.n(0, 6) if m.thorough else 0):
        settings(m)
        placements(m)
