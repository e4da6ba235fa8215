"""HiFiC bitstreams: self-contained, deterministic, portable, stable over any history."""
import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

import torch

from lib import hific

PID = "C02"
RULE = ("case = one operation in a random history over a pool of models and stored "
        "bitstreams (compress, decompress, forward, update, device setting, train/eval, "
        "state-dict transfer, deepcopy, pickling, fresh process), followed by re-decoding "
        "stored bitstreams; non-trivial when a stored bitstream is re-decoded; distinct by "
        "the last three operations of the history")
REQUIRED = ["redecode", "deterministic", "transfer", "fresh-process", "isolation", "uninit"]
BUDGET = (32, 300)

CHILD = r"""
import sys, pickle, torch
sys.path.insert(0, sys.argv[2])
from neuralcompression.models import HiFiCAutoencoder
torch.set_num_threads(2)
d = torch.load(sys.argv[1])
cfg = d["cfg"]
model = HiFiCAutoencoder(in_channels=cfg[0], latent_features=cfg[1],
                         hyper_features=cfg[2], num_residual_blocks=cfg[3]).eval()
model.load_state_dict(d["sd"])
with torch.no_grad():
    outs = [model.decompress(pickle.loads(s)) for s in d["streams"]]
torch.save(outs, sys.argv[1] + ".out")
"""


def fresh(cfg):
    from neuralcompression.models import HiFiCAutoencoder

    return HiFiCAutoencoder(in_channels=cfg[0], latent_features=cfg[1],
                            hyper_features=cfg[2], num_residual_blocks=cfg[3])


def same_stream(a, b):
    return (list(a.latent_strings) == list(b.latent_strings)
            and list(a.hyper_latent_strings) == list(b.hyper_latent_strings)
            and tuple(a.image_size) == tuple(b.image_size)
            and tuple(a.padded_size) == tuple(b.padded_size))


def history(m, steps):
    r = m.rng
    model, cfg = hific.make(m, in_ch=r.choice([1, 3]))
    m.raises("uninit", ValueError, model.compress, torch.rand(1, cfg[0], 64, 64),
             _msg="compress before update()")
    model.update()
    master = model
    store = []  # (pickled stream, image, original)
    ops = []

    def redecode(who, tag, k=None):
        if not store:
            return
        s, img, _ = store[r.randrange(len(store)) if k is None else k]
        c = pickle.loads(s)
        with torch.no_grad():
            ok, d = m.run("redecode-runs", who.decompress, c)
        if ok:
            m.close(d, img, "redecode", f"stored bitstream decodes differently ({tag})",
                    rtol=1e-3, atol=1e-3, witness=ops[-6:])

    for _ in range(steps):
        op = r.choice(["compress", "compress", "decompress", "forward", "update",
                       "update_force", "to_compress", "to_forward", "mode", "transfer",
                       "deepcopy", "pickle_model", "recompress", "splice"])
        ops.append(op)
        m.case(("h",) + tuple(ops[-3:]), nontrivial=bool(store),
               sample={"history": list(ops[-12:]), "cfg": cfg})
        if op == "compress" or not store:
            h, w = hific.sizes(m, hi=130)
            b = r.choice([1, 2, 3, 3, 7])
            x, kind = hific.images(m, b, cfg[0], h, w)
            with torch.no_grad():
                ok, c = m.run("compress-runs", model.compress, x)
                if not ok:
                    return
                ok, d = m.run("decompress-runs", model.decompress, c)
                if not ok:
                    return
            store.append((pickle.dumps(c), d, x))
            if len(store) > 4:
                store.pop(0)
        elif op == "recompress":
            s, _, x = r.choice(store)
            torch.manual_seed(r.randrange(2**31))
            with torch.no_grad():
                c = model.compress(x)
            c0 = pickle.loads(s)
            m.check(same_stream(c, c0), "deterministic",
                    "compressing the same image again gave different bytes", ops[-6:])
            if len(x) > 1:
                j = r.randrange(len(x))
                if not hific.Ref(model, x).near_tie(hific.medians(model)):
                    with torch.no_grad():
                        c1 = model.compress(x[j:j + 1])
                    m.check(c1.latent_strings[0] == c0.latent_strings[j]
                            and c1.hyper_latent_strings[0] == c0.hyper_latent_strings[j],
                            "alone", f"image {j} alone has another stream than in its batch")
        elif op == "decompress":
            s, img, _ = r.choice(store)
            c = pickle.loads(s)
            with torch.no_grad():
                d1 = model.decompress(c)
                d2 = model.decompress(c)
            m.check(same_stream(c, pickle.loads(s)), "stream-unchanged",
                    "decompress modified the bitstream")
            m.close(d2, d1, "deterministic", "two decodes differ", rtol=1e-4, atol=1e-5)
        elif op == "forward":
            x, _ = hific.images(m, 1, cfg[0], 64, 64)
            with torch.no_grad():
                if model.device_setting == "forward":
                    m.run("forward-runs", model, x)
                else:
                    m.raises("forward-rejected", RuntimeError, model, x,
                             _msg="forward while in compress setting")
        elif op == "update":
            model.update()
        elif op == "update_force":
            model.update(force=True)
        elif op == "to_compress":
            model.update_tensor_devices("compress")
            m.check(model.device_setting == "compress", "device-setting", "compress")
        elif op == "to_forward":
            model.update_tensor_devices("forward")
            m.check(model.device_setting == "forward", "device-setting", "forward")
        elif op == "mode":
            model.train(r.random() < 0.5)
        elif op == "splice":
            # swap one image of the batch: the other images' strings must not change
            s, img, x = r.choice(store)
            if len(x) < 2:
                continue
            j = r.randrange(len(x))
            x2 = x.clone()
            x2[j] = torch.rand_like(x2[j])
            with torch.no_grad():
                c1 = pickle.loads(s)
                c2 = model.compress(x2)
                for i in range(len(x)):
                    if i != j:
                        m.check(c1.latent_strings[i] == c2.latent_strings[i]
                                and c1.hyper_latent_strings[i] == c2.hyper_latent_strings[i],
                                "isolation", f"string {i} changed when image {j} changed")
                m.check(c1.latent_strings[j] != c2.latent_strings[j], "isolation",
                        f"string {j} unchanged although image {j} changed")
                # splice image j's strings of c2 into c1
                ls = list(c1.latent_strings)
                hs = list(c1.hyper_latent_strings)
                ls[j], hs[j] = c2.latent_strings[j], c2.hyper_latent_strings[j]
                d3 = model.decompress(c1._replace(latent_strings=ls,
                                                  hyper_latent_strings=hs))
                d2 = model.decompress(c2)
                m.close(d3, d2, "isolation", "spliced batch decodes differently",
                        rtol=1e-3, atol=1e-3)
        elif op in ("transfer", "deepcopy", "pickle_model"):
            if op == "transfer":
                new = fresh(cfg)
                buf = io.BytesIO()
                torch.save(model.state_dict(), buf)
                buf.seek(0)
                new.load_state_dict(torch.load(buf))
                if r.random() < 0.3:
                    new.update()
            elif op == "deepcopy":
                new = copy.deepcopy(model)
            else:
                new = pickle.loads(pickle.dumps(model))
            new.eval()
            for k in range(len(store)):
                redecode(new, op, k)
                m.event("transfer")
            if r.random() < 0.5:
                model = new
        redecode(model, op)
    # a fresh process holding only the saved weights and the pickled bitstreams
    with tempfile.TemporaryDirectory() as td:
        path = os.path.join(td, "x.pt")
        torch.save({"cfg": cfg, "sd": master.state_dict(),
                    "streams": [s for s, _, _ in store]}, path)
        repo = os.environ.get("VERIF_REPO", "/repo")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, path, repo],
                           capture_output=True, text=True, timeout=300)
        m.case(("process", cfg, len(store)))
        if not m.check(p.returncode == 0, "fresh-process",
                       "decoding in a fresh process failed: " + p.stderr[-1500:]):
            return
        for d, (_, img, _) in zip(torch.load(path + ".out"), store):
            m.close(d, img, "fresh-process", "fresh process decodes differently",
                    rtol=1e-3, atol=1e-3)


def run(m):
    torch.set_num_threads(2)
    n = 0
    while n < 2 or (m.time_left() and n < m.n(6, 60)):
        history(m, m.n(30, 50))
        n += 1
