"""Model zoo and torch.hub entry points: the documented weights end up in the model."""
import copy
import inspect
import os
import random
import sys

import torch

from lib.mon import REPO

PID = "C34"
RULE = ("case = one entry point called with one argument form (default, pretrained on or off, "
        "extra keywords, direct or through torch.hub) against one served checkpoint; distinct by "
        "entry point and form")
REQUIRED = ["hub-weights", "hub-url", "hub-default", "zoo-weights", "zoo-url", "zoo-default",
            "no-download", "mismatch", "unknown-weights", "fresh", "usable", "architecture",
            "entry-points", "served-untouched"]
BUDGET = (45, 200)
BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
RATES = {"1": "0.035", "2": "0.07", "3": "0.14", "4": "0.3", "5": "0.45", "6": "0.9",
         "vlo1": "0.00218", "vlo2": "0.00438"}
URLS = {f"msillm_quality_{q}": f"{BASE}msillm_target_{v}bpp.ckpt" for q, v in RATES.items()}
URLS.update({f"noganms_quality_{q}": f"{BASE}noganms_target_{v}bpp.ckpt"
             for q, v in RATES.items() if not q.startswith("v")})
VQ = "vqvae_xcit_p8_ch64_cb1024_h8"
URLS[VQ] = f"{BASE}{VQ}.ckpt"
HUB = {n: ("msillm_" + n if n == VQ else n) for n in URLS}


class Shelf:
    """Stands for the download server: one distinct checkpoint per URL, requests logged."""

    def __init__(self):
        self.log, self.templates, self.damage = [], {}, None

    def content(self, url):
        base = self.templates["vq" if VQ in url else "hific"]
        seed = sum(ord(c) * (i + 1) for i, c in enumerate(url)) % 9973
        out = {}
        for i, (k, v) in enumerate(base.items()):
            if v.is_floating_point() and v.numel() < 5000:
                out[k] = v + (seed + i % 7) / 1000
            else:
                out[k] = v
        return out

    def load(self, url, model_dir=None, map_location=None, *a, **kw):
        self.log.append((url, map_location))
        sd = self.content(url)
        if self.damage == "missing":
            del sd[sorted(sd)[len(sd) // 2]]
        elif self.damage == "extra":
            sd["not_a_parameter"] = torch.zeros(1)
        elif self.damage == "shape":
            k = sorted(q for q in sd if sd[q].ndim == 1 and sd[q].numel() > 1)[0]
            sd[k] = sd[k][:-1]
        self.served = sd
        return sd


def cheap_init(t, *a, **kw):
    with torch.no_grad():
        return t.fill_(0.01)


def same(a, b):
    return set(a) == set(b) and all(a[k].shape == b[k].shape and torch.equal(a[k], b[k]) for k in a)


def run(m):
    r = m.rng
    shelf = Shelf()
    torch.hub.load_state_dict_from_url = shelf.load
    # initial values do not matter here and cost seconds per model
    for f in ("kaiming_uniform_", "kaiming_normal_", "xavier_uniform_", "xavier_normal_",
              "trunc_normal_"):
        setattr(torch.nn.init, f, cheap_init)
    import neuralcompression.zoo as zoo
    from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder
    kind = {"hific": HiFiCAutoencoder, "vq": VqVaeXCiTAutoencoder}
    names = list(URLS)
    sys.path.insert(0, REPO)
    import importlib.util
    spec = importlib.util.spec_from_file_location("hubconf_under_test",
                                                  os.path.join(REPO, "hubconf.py"))
    hub = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(hub)
    m.case(("entry-points",), True)
    found = {n for n, f in vars(hub).items() if callable(f) and not n.startswith("_")}
    m.check(set(HUB.values()) <= found, "entry-points", f"missing {set(HUB.values()) - found}")
    m.check(all(hasattr(zoo, n) for n in names), "entry-points", "zoo")

    def tag(n):
        return "vq" if n == VQ else "hific"
    for t, n in (("hific", "msillm_quality_1"), ("vq", VQ)):
        model = getattr(zoo, n)()
        m.check(type(model) is kind[t], "architecture", f"{n}: {type(model).__name__}")
        shelf.templates[t] = {k: v.clone() for k, v in model.state_dict().items()}
        if t == "hific":
            ref = HiFiCAutoencoder()
            m.check({k: v.shape for k, v in ref.state_dict().items()} ==
                    {k: v.shape for k, v in model.state_dict().items()}, "architecture", n)
            del ref
        else:
            books = {k: tuple(v.shape) for k, v in model.state_dict().items()
                     if "codebooks" in k}
            m.check(set(books.values()) == {(1024, 8)}, "architecture", f"{n}: {books}")
        m.check(not shelf.log, "no-download", f"{n}: {shelf.log}")
        del model
    r.shuffle(names)
    for i, n in enumerate(names * m.n(1, 3)):
        if not m.time_left():
            break
        url = URLS[n]
        # through torch.hub, default is pretrained
        shelf.log.clear()
        via = r.choice(["module", "torch.hub"])
        form = r.choice([{}, {"pretrained": True}, {"progress": False}])
        m.case(("hub", n, via, tuple(form)), True)
        if via == "torch.hub":
            ok, model = m.run("hub-weights", torch.hub.load, REPO, HUB[n], source="local",
                              trust_repo=True, **form)
        else:
            ok, model = m.run("hub-weights", getattr(hub, HUB[n]), **form)
        if ok:
            m.check([u for u, _ in shelf.log] == [url], "hub-url", f"{n}: {shelf.log}")
            m.check(all(str(d) == "cpu" for _, d in shelf.log), "hub-url", f"{shelf.log}")
            want = shelf.content(url)
            m.check(same(model.state_dict(), want), "hub-weights",
                    f"{n} does not hold the weights of {url}")
            m.event("hub-default" if not form else "hub-weights")
            m.check(type(model) is kind[tag(n)], "architecture", n)
            m.check(same(shelf.served, want), "served-untouched", n)
            with torch.no_grad():
                next(model.parameters()).add_(1)     # must not reach the next model
            del model
        # zoo with weights
        if i % 2 == 0:
            shelf.log.clear()
            m.case(("zoo", n, "pretrained"), True)
            ok, model = m.run("zoo-weights", getattr(zoo, n), pretrained=True)
            if ok:
                m.check([u for u, _ in shelf.log] == [url], "zoo-url", f"{n}: {shelf.log}")
                m.check(same(model.state_dict(), shelf.content(url)), "zoo-weights", n)
                del model
        # without weights: nothing is fetched; the zoo's default
        if i % 3 == 0:
            shelf.log.clear()
            how = r.choice(["zoo", "zoo-false", "hub-false"])
            m.case((how, n), True)
            fn = getattr(hub, HUB[n]) if how == "hub-false" else getattr(zoo, n)
            ok, model = m.run("no-download", fn, **({} if how == "zoo" else {"pretrained": False}))
            m.check(not shelf.log, "no-download", f"{how} {n}: {shelf.log}")
            m.event("zoo-default")
            if ok:
                m.check(not same(model.state_dict(), shelf.content(url)), "fresh", n)
                del model
    # every entry's default, without building the network: hub fetches, the zoo does not
    for n in names:
        for how, mod, fn in (("hub", hub, HUB[n]), ("zoo", zoo, n)):
            shelf.log.clear()
            m.case(("default", how, n), True)
            with torch.device("meta"):
                try:
                    getattr(mod, fn)()
                except Exception:   # weights cannot be put into tensors without storage
                    m.check(how == "hub", "zoo-default", f"{n}: loads weights by default")
            m.check(bool(shelf.log) == (how == "hub"), f"{how}-default", f"{n}: {shelf.log}")
    # a damaged checkpoint is never accepted, by any family
    families = [[n for n in names if n.startswith(p)] for p in ("msillm", "noganms", "vqvae")]
    for fam in families:
        for how in ("missing", "extra") + (("shape",) if r.random() < 0.4 else ()):
            n = r.choice(fam)
            shelf.damage = how
            m.case(("damaged", n, how), True)
            via = r.choice([getattr(hub, HUB[n]), getattr(zoo, n)])
            m.raises("mismatch", Exception, via, pretrained=True)
            shelf.damage = None
    for mod, fn in (("_msillm", "_build_msillm"), ("_noganms", "_build_noganms")):
        f = getattr(__import__(f"neuralcompression.zoo.{mod}", fromlist=["x"]), fn, None)
        if f is None:
            m.event("unknown-weights")
            continue
        m.case(("unknown", fn), True)
        m.raises("unknown-weights", ValueError, f, weights=r.choice(
            ["target_0.1bpp", "", "0.14"] + (["target_0.00218bpp"] if "nogan" in fn else [])))
    # the documented default use: load and reconstruct
    torch.manual_seed(0)
    m.case(("usable",), True)
    with torch.no_grad():
        model = getattr(hub, HUB[VQ])(pretrained=False).eval()
        ok, y = m.run("usable", model, torch.rand(1, 3, 64, 64))
        if ok:
            img = y if isinstance(y, torch.Tensor) else y.image
            m.check(tuple(img.shape) == (1, 3, 64, 64), "usable", f"{tuple(img.shape)}")
