"""JAX entropy coders: lossless for every message, distribution and buffer history."""
import importlib
import os
import sys

import numpy as np

from lib import jaxshim
from lib.mon import REPO

PID = "C13"
RULE = ("case = one coded batch or one history of a rANS buffer; distinct by alphabet, batch, "
        "lengths, precision, distributions and operations")
REQUIRED = ["ac-lossless", "ac-rate", "ac-lengths", "ac-overrun", "ac-adaptive", "rans-lossless",
            "rans-restored", "rans-rate", "rans-state", "bitsback-lossless", "bitsback-rate",
            "flatten", "no-side-effects"]
BUDGET = (45, 240)


def load():
    jaxshim.install()
    sys.path.insert(0, os.path.join(REPO, "projects", "jax_entropy_coders"))
    return importlib.import_module("jax_arithmetic_coder"), importlib.import_module("craystack")


def freqs(rng, n, prec, zeros=False):
    """positive integer frequencies of total 2^prec, from flat to extremely skewed"""
    kind = rng.integers(5)
    f = rng.random(n) + 1e-3 if kind < 2 else np.exp(rng.normal(size=n) * 5) if kind < 4 \
        else np.ones(n)
    f = np.maximum(1, np.floor(f / f.sum() * (2 ** prec - n))).astype(np.int64)
    if zeros and n > 2:
        f[rng.integers(n)] = 0
    f[np.argmax(f)] += 2 ** prec - f.sum()
    return f


def cdf(f):
    return np.concatenate([np.zeros(f.shape[:-1] + (1,), np.int64), np.cumsum(f, -1)],
                          -1).astype(np.uint32)


def draw(rng, f, n):
    p = f / f.sum() if rng.random() < 0.6 else (f > 0) / (f > 0).sum()
    return rng.choice(len(f), n, p=p)


def info(f, msg):
    return float(-np.log2(f[msg] / f.sum()).sum())


def table(jnp):
    def fwd(s, st):
        s = s.astype("int32")
        return st[0][s], st[0][s + 1], st

    def inv(v, st):
        s = jnp.argmin(v >= st[0]) - 1
        return st[0][s], st[0][s + 1], s, st
    return fwd, inv


def arithmetic(m, jac, cs):
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    n, b, L = r.choice([1, 2, 3, 5, 20, 256]), r.choice([1, 2, 3, 7]), r.choice(
        [1, 2, 3, 9, 9, 30, 30, 30, 130])
    f = [freqs(rng, n, 16, r.random() < 0.2) for _ in range(b)]
    msgs = np.stack([draw(rng, x, L) for x in f]).astype(np.uint8)
    bits = [info(x, y) for x, y in zip(f, msgs)]
    over = r.choice([1.5, 1.5, 3.0, 2 + (max(bits) / 8 + 4) / L, (max(bits) / 8 + 0.5) / L])
    cap = int(over * L)
    m.case(("ac", n, b, L, round(over, 3), round(sum(bits), 3)), True)
    if cap < 1:
        return
    fwd, inv = table(jnp)
    st = (jnp.array(np.stack([cdf(x) for x in f])),)
    args = jnp.array(msgs), fwd, st
    keep = np.asarray(st[0]).copy()
    room = all(cap * 8 >= x * 1.001 + 26 for x in bits)
    try:
        data = jac.encode(*args) if over == 1.5 else jac.encode(*args, buffer_oversize=over)
    except RuntimeError as e:
        m.check(not room, "ac-overrun", f"{e}: {max(bits) / 8:.1f} bytes in {cap}")
        m.event("overrun")
        return
    except Exception as e:
        m.fail("ac-lossless", f"encode: {type(e).__name__}: {e}")
        return
    m.check(all(isinstance(d, bytes) for d in data) and len(data) == b, "ac-lossless", "type")
    for d, x in zip(data, bits):
        m.check(len(d) * 8 <= x * 1.001 + 18, "ac-rate", f"{len(d)} bytes for {x:.1f} bits")
        m.check(len(d) * 8 >= x * 0.999 - 8, "ac-rate", f"{len(d)} bytes for {x:.1f} bits")
    ok, got = m.run("ac-lossless", jac.decode, data, jnp.array([L] * b), inv, st)
    if ok:
        m.check(np.array_equal(np.asarray(got), msgs), "ac-lossless" if room else "ac-overrun",
                f"decoded otherwise ({max(bits) / 8:.1f} bytes in a buffer of {cap})")
    # each alone, and with different lengths: a prefix is what it was
    i = r.randrange(b)
    one = (st[0][i:i + 1],)
    ok, alone = m.run("ac-lossless", lambda: jac.encode(jnp.array(msgs[i:i + 1]), fwd, one,
                                                        buffer_oversize=over))
    if ok:
        m.check(alone[0] == data[i], "ac-lossless", "depends on the rest of the batch")
    lens = [r.randrange(1, L + 1) for _ in range(b)]
    ok, got = m.run("ac-lengths", jac.decode, data, jnp.array(lens), inv, st)
    if ok:
        m.check(len(got) == b and all(np.array_equal(np.asarray(g), x[:k]) for g, x, k in
                                      zip(got, msgs, lens)), "ac-lengths", f"lengths {lens}")
    m.check(np.array_equal(np.asarray(st[0]), keep), "no-side-effects", "tables")


def adaptive(m, jac, cs):
    """state-carrying distributions: the coder hands the state from symbol to symbol"""
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    n, b, L, K = r.choice([2, 4, 9]), r.choice([1, 2]), r.choice([3, 8, 20]), r.choice([2, 3])
    tabs = jnp.array(np.stack([cdf(freqs(rng, n, 16)) for _ in range(K)]))
    first = rng.integers(0, K, b)
    msgs = rng.integers(0, n, (b, L)).astype(np.uint8)
    m.case(("adaptive", n, b, L, K, msgs.tobytes()), True)

    def fwd(s, st):
        t = tabs[st[0]]
        return t[s], t[s + 1], ((st[0] + s + 1) % K,)

    def inv(v, st):
        t = tabs[st[0]]
        s = jnp.argmin(v >= t) - 1
        return t[s], t[s + 1], s, ((st[0] + s + 1) % K,)
    st = (jnp.array(first),)
    ok, data = m.run("ac-adaptive", lambda: jac.encode(jnp.array(msgs), fwd, st,
                                                       buffer_oversize=6.0))
    if not ok:
        return
    ok, got = m.run("ac-adaptive", jac.decode, data, jnp.array([L] * b), inv, st)
    m.check(ok and np.array_equal(np.asarray(got), msgs), "ac-adaptive", "decoded otherwise")
    for i in range(b):
        k, bits = first[i], 0.0
        for s in msgs[i]:
            t = np.asarray(tabs)[k].astype(float)
            bits -= np.log2((t[s + 1] - t[s]) / 65536)
            k = (k + int(s) + 1) % K
        m.check(bits * 0.999 - 8 <= len(data[i]) * 8 <= bits * 1.001 + 18, "ac-rate",
                f"adaptive: {len(data[i])} bytes for {bits:.1f} bits")


def equal(a, b):
    return len(a) == len(b) and all(
        np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


def rans(m, jac, cs):
    """histories of one buffer per batch element: last in, first out"""
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    b, first = r.choice([1, 2, 4]), r.choice([1, 2, 5, 7])
    cap = r.choice([900, 2500])
    kw = dict(tail_capacity=cap)
    stack, buf, log = [], None, []
    total = np.zeros(b)
    m.case(("rans", b, first, cap, r.random()), True)
    for _ in range(r.choice([2, 4, 6])):
        if stack and r.random() < 0.45:
            msgs, codec, L, shape, before, was, width, dt = stack.pop()
            log.append("decode")
            ok, got = m.run("rans-lossless", lambda: cs.decode(buf, L, shape, codec, **kw))
            if not ok:
                return
            m.check(np.array_equal(np.asarray(got[0]), msgs) and
                    np.asarray(got[0]).dtype == np.dtype(dt), "rans-lossless",
                    f"decoded otherwise after {log}")
            if before is not None:
                m.check(equal(got[1], before), "rans-restored",
                        f"the buffer before encoding was not restored after {log}")
            buf, total = got[1], was
        else:
            n = r.choice([1, 2, 3, 20, 200, 256])
            prec = r.choice([8, 12, 16, 20, 24] if n < 100 else [16, 20])
            width = r.choice([i for i in (1, 2, 5, 7) if i <= (stack[-1][6] if stack else first)])
            if buf is None:
                width = first
            L = r.choice([1, 2, 5, 12])
            f = np.stack([[freqs(rng, n, prec) for _ in range(width)] for _ in range(b)])
            msgs = np.stack([np.stack([draw(rng, f[i, j], L) for j in range(width)], -1)
                             for i in range(b)])
            if r.random() < 0.5:  # the alphabet's last symbol, at the end of narrow dtypes
                for i in range(b):
                    for j in range(width):
                        if f[i, j][-1]:
                            msgs[i, r.randrange(L), j] = n - 1
            bits = np.array([sum(info(f[i, j], msgs[i, :, j]) for j in range(width))
                             for i in range(b)])
            dt = r.choice(["int64", "uint8", "int32"])
            codec = cs.fixed_array_cdf_codec(jnp.array(cdf(f)), precision=prec, message_dtype=dt)
            log.append(("encode", n, L, width, prec))
            before = buf
            held = None if buf is None else [np.asarray(x).copy() for x in buf]
            ok, got = m.run("rans-lossless", lambda: cs.encode(
                jnp.array(msgs.astype(dt)), codec, start_buffers=buf, **kw))
            if not ok:
                return
            if held is not None:
                m.check(equal(buf, held), "no-side-effects", "start buffers changed")
            stack.append((msgs.astype(dt), codec, L, (width,), before, total, width, dt))
            buf, total = got[0], total + bits
            for x, t in zip(buf, total):
                # four bytes per head, of which one may be unused; a spare byte per encoding
                m.check(t * 0.97 / 8 - first - 2 <= len(x) - 3 * first and
                        len(x) <= t * 1.03 / 8 + 4 * first + 3 + 2 * len(stack), "rans-rate",
                        f"{len(x)} bytes for {t:.1f} bits, {first} heads, {log}")
    while stack:
        msgs, codec, L, shape, before, was, width, dt = stack.pop()
        ok, got = m.run("rans-lossless", lambda: cs.decode(buf, L, shape, codec, **kw))
        if not ok:
            return
        m.check(np.array_equal(np.asarray(got[0]), msgs), "rans-lossless", f"at the end of {log}")
        buf = got[1]
    m.event("rans-ops", len(log))


def stateful(m, jac, cs):
    """the state of the distribution runs forward while encoding and back while decoding"""
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    n, b, L, width, K = r.choice([2, 5]), r.choice([1, 2]), r.choice([1, 4, 9]), r.choice(
        [1, 3]), r.choice([2, 3])
    tabs = jnp.array(np.stack([cdf(freqs(rng, n, 16)) for _ in range(K)]))
    start = rng.integers(0, K, (b,))
    msgs = rng.integers(0, n, (b, L, width))
    m.case(("stateful", n, b, L, width, msgs.tobytes()), True)

    def fwd(s, st):
        t = tabs[st[0]]
        return t[s], t[s + 1], ((st[0] + 1) % K,)

    def inv(v, st):
        k = (st[0] + K - 1) % K
        t = tabs[k]
        s = jnp.argmin(jnp.expand_dims(v, -1) >= t, axis=-1) - 1
        return t[s], t[s + 1], s, (k,)

    def codec(state):
        return cs.default_rans_codec(fwd, inv, (jnp.array(state),))
    kw = dict(tail_capacity=600) if r.random() < 0.5 else dict(tail_capacity_mult=12.0)
    ok, got = m.run("rans-state", lambda: cs.encode(jnp.array(msgs), codec(start), **kw))
    if not ok:
        return
    end = (start + L) % K
    m.check(np.array_equal(np.asarray(got[1][0]), end), "rans-state",
            f"final state {got[1][0]} want {end}")
    kw = dict(tail_capacity=600)
    ok, back = m.run("rans-state", lambda: cs.decode(got[0], L, (width,), codec(end), **kw))
    if ok:
        m.check(np.array_equal(np.asarray(back[0]), msgs) and
                np.array_equal(np.asarray(back[2][0]), start), "rans-state",
                f"state {back[2][0]} want {start}, or another message")


def bitsback(m, jac, cs):
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    nx, nz, width = r.choice([2, 4, 9, 40]), r.choice([2, 3, 8]), r.choice([1, 3, 6])
    b, L = r.choice([1, 2, 5]), r.choice([1, 4, 12, 40])
    exact = r.random() < 0.6
    pz, px = freqs(rng, nz, 16), np.stack([freqs(rng, nx, 16) for _ in range(nz)])
    joint = pz[:, None] / 65536 * (px / 65536)
    if exact:   # q(z|x) = p(z|x), up to the precision
        q = np.stack([np.maximum(1, np.floor(c / c.sum() * (65536 - nz))).astype(np.int64)
                      for c in joint.T])
        q[np.arange(nx), q.argmax(1)] += 65536 - q.sum(1)
    else:
        q = np.stack([freqs(rng, nz, 16) for _ in range(nx)])
    dt = r.choice(["int64", "uint8"])
    p = joint.sum(0)
    msgs = rng.choice(nx, (b, L, width), p=p / p.sum()).astype(dt)
    m.case(("bitsback", nx, nz, width, b, L, exact, r.random()), True)
    czz, cq, cx = (jnp.array(cdf(v)) for v in (np.tile(pz, (width, 1)), q, px))
    prior = cs.fixed_array_cdf_codec(czz, message_dtype=dt)
    codec = cs.bitsback_ans_codec(
        prior, lambda s: cs.fixed_array_cdf_codec(cq[s], allow_empty_pops=True,
                                                  message_dtype=dt),
        lambda z: cs.fixed_array_cdf_codec(cx[z], message_dtype=dt), (width,), dt)
    kw = dict(tail_capacity=1500)
    ok, got = m.run("bitsback-lossless", lambda: cs.encode(jnp.array(msgs), codec, **kw))
    if not ok:
        return
    ok, back = m.run("bitsback-lossless", lambda: cs.decode(got[0], L, (width,), codec, **kw))
    if ok:
        m.check(np.array_equal(np.asarray(back[0]), msgs), "bitsback-lossless",
                "decoded otherwise")
    # onto a buffer that holds enough random bytes, a message costs what it informs
    if not exact:
        return
    uni = cs.fixed_array_cdf_codec(jnp.array(np.tile(np.arange(257) * 256, (b, width, 1)).astype(
        np.uint32)), message_dtype="int64")
    ok, base = m.run("bitsback-lossless", lambda: cs.encode(jnp.array(rng.integers(
        0, 256, (b, 12, width))), uni, **kw))
    if not ok:
        return
    ok, got = m.run("bitsback-lossless", lambda: cs.encode(
        jnp.array(msgs), codec, start_buffers=base[0], **kw))
    if not ok:
        return
    for x, y, z in zip(got[0], msgs, base[0]):
        bits = float(-np.log2(p[y.astype(int)] / p.sum()).sum())
        m.check(abs(len(x) - len(z) - bits / 8) <= 0.05 * bits / 8 + width + 6, "bitsback-rate",
                f"{len(x) - len(z)} bytes for {bits:.1f} bits of {width} streams")
    ok, back = m.run("bitsback-lossless", lambda: cs.decode(got[0], L, (width,), codec, **kw))
    if ok:
        m.check(np.array_equal(np.asarray(back[0]), msgs) and equal(back[1], base[0]),
                "bitsback-lossless", "onto a filled buffer: decoded or restored otherwise")


def flat(m, jac, cs):
    import jax.numpy as jnp
    r = m.rng
    rng = np.random.default_rng(r.getrandbits(40))
    n, k = r.choice([1, 2, 6]), r.choice([1, 5, 30])
    head = jnp.array(rng.integers(0, 1 << 32, n, dtype=np.uint64).astype(np.uint32))
    data = jnp.array(rng.integers(0, 256, k).astype(np.uint8))
    lim = r.randrange(0, k + 1)
    m.case(("flat", n, k, lim, r.random()), True)
    make = sys.modules[type(cs.empty_message((1,), 4)).__module__]
    msg = cs.CrayCompressedMessage(head, make.CrayTail(jnp.array([lim]), data))
    ok, got = m.run("flatten", cs.craymessage_to_array, msg)
    if not ok:
        return
    arr, size = got
    m.check(len(np.asarray(arr)) == 4 * n + k and int(size) == 4 * n + lim, "flatten",
            f"{len(np.asarray(arr))} bytes, {size}")
    ok, back = m.run("flatten", cs.array_to_craymessage, arr, (n,), lim)
    if ok:
        m.check(np.array_equal(np.asarray(back.head), np.asarray(head)) and
                np.array_equal(np.asarray(back.tail.data), np.asarray(data)) and
                int(np.asarray(back.tail.pointer)[0]) == lim, "flatten", "not the inverse")


def run(m):
    jac, cs = load()
    parts = [arithmetic, rans, adaptive, arithmetic, stateful, bitsback, rans, flat]
    for i in range(m.n(240, 3000)):
        if not m.time_left():
            break
        parts[i % len(parts)](m, jac, cs)
