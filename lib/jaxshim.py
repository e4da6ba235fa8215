"""A numpy stand-in for the part of JAX 0.2 that projects/jax_entropy_coders uses.

Arrays are immutable, promote like JAX (Python scalars are weak), clamp out-of-bounds reads and
drop out-of-bounds writes; control flow runs eagerly; vmap maps over a Python loop."""
import sys
import types

import numpy as np


def promote(dts):
    kinds = {d.kind for d in dts}
    if "f" in kinds:
        return max((d for d in dts if d.kind == "f"), key=lambda d: d.itemsize)
    ints = [d for d in dts if d.kind in "ui"]
    if not ints:
        return np.dtype(bool)
    u = max((d.itemsize for d in ints if d.kind == "u"), default=0)
    i = max((d.itemsize for d in ints if d.kind == "i"), default=0)
    if not i:
        return np.dtype(f"u{u}")
    if u >= i:
        return np.dtype(f"i{2 * u}") if u < 8 else np.dtype(float)
    return np.dtype(f"i{i}")


KEEP = {np.logical_not, np.logical_and, np.logical_or, np.isnan, np.isfinite, np.log2, np.exp,
        np.log, np.sqrt}


class A(np.ndarray):
    __array_priority__ = 100

    def __array_ufunc__(self, uf, method, *args, **kw):
        kw.pop("out", None)
        raw = [np.asarray(a) if isinstance(a, (np.ndarray, np.generic)) else a for a in args]
        if method == "__call__" and uf not in KEEP:
            strong = [a.dtype for a in raw if isinstance(a, np.ndarray)]
            weak = [a for a in raw if not isinstance(a, np.ndarray)]
            d = promote(strong)
            for w in weak:
                if isinstance(w, float) and d.kind != "f":
                    d = np.dtype(float)
                elif isinstance(w, int) and not isinstance(w, bool) and d.kind == "b":
                    d = np.dtype(int)
            if uf is np.true_divide and d.kind != "f":
                d = np.dtype(float)
            cast = []
            for a in raw:
                if isinstance(a, np.ndarray):
                    cast.append(a.astype(d))
                elif isinstance(a, (int, float)):
                    cast.append(np.array(a).astype(d) if not isinstance(a, list) else a)
                else:
                    cast.append(np.asarray(a).astype(d))
            raw = cast
        with np.errstate(all="ignore"):
            out = getattr(uf, method)(*raw, **kw)
        return wrap(out)

    def __getitem__(self, k):
        k = clamp(k, self.shape)
        return wrap(np.asarray(self)[k])

    def __setitem__(self, k, v):
        raise TypeError("JAX arrays are immutable")

    def __iter__(self):
        return (self[i] for i in range(len(self)))

    def astype(self, d, **kw):
        return wrap(np.asarray(self).astype(np.dtype(d)))

    @property
    def at(self):
        return At(self)

    def __hash__(self):
        raise TypeError


def _inplace(name):
    def f(self, other):
        return getattr(self, name)(other)
    return f


for _n in ("add", "sub", "mul", "lshift", "rshift", "and", "or", "xor", "floordiv", "truediv",
           "mod"):
    setattr(A, f"__i{_n}__", _inplace(f"__{_n}__"))


class At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        self.k = k
        return self

    def _do(self, fn):
        out = np.array(self.a)
        try:
            k = index(self.k)
            v = fn(out[k])
            out[k] = v
        except IndexError:
            pass  # out-of-bounds updates are dropped
        return wrap(out)

    def set(self, v):
        return self._do(lambda o: np.asarray(v).astype(self.a.dtype))

    def add(self, v):
        return self._do(lambda o: o + np.asarray(v).astype(self.a.dtype))


def index(k):
    if isinstance(k, tuple):
        return tuple(index(x) for x in k)
    if isinstance(k, A):
        return np.asarray(k) if k.ndim else k.item()
    return k


def clamp(k, shape):
    if isinstance(k, tuple):
        return index(k)
    k = index(k)
    if isinstance(k, (int, np.integer)) and not isinstance(k, (bool, np.bool_)) and shape:
        n = shape[0]
        return min(max(k, -n), n - 1)
    if isinstance(k, np.ndarray) and k.dtype.kind in "ui" and shape:
        k = k.astype(np.int64)
        return np.clip(k, -shape[0], shape[0] - 1)
    return k


def wrap(x):
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[wrap(v) for v in x])
    if isinstance(x, (tuple, list)):
        return type(x)(wrap(v) for v in x)
    if isinstance(x, (np.ndarray, np.generic)):
        return np.asarray(x).view(A)
    return x


def bare(x):
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[bare(v) for v in x])
    if isinstance(x, (tuple, list)):
        return type(x)(bare(v) for v in x)
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items()}
    if isinstance(x, A):
        return np.asarray(x)
    if isinstance(x, Scalar):
        return x.dtype
    return x


class Scalar:
    def __init__(self, d):
        self.dtype = np.dtype(d)

    def __call__(self, x=0):
        with np.errstate(all="ignore"):
            return wrap(np.asarray(bare(x)).astype(self.dtype))


def tree(fn, *ts):
    t = ts[0]
    if t is None:
        return None
    if isinstance(t, tuple) and hasattr(t, "_fields"):
        return type(t)(*[tree(fn, *v) for v in zip(*ts)])
    if isinstance(t, (tuple, list)):
        return type(t)(tree(fn, *v) for v in zip(*ts))
    if isinstance(t, dict):
        return {k: tree(fn, *[x[k] for x in ts]) for k in t}
    return fn(*ts)


def leaves(t):
    out = []
    tree(lambda x: out.append(x), t)
    return out


def vmap(f, in_axes=0, out_axes=0):
    def mapped(*args):
        n = len(leaves(args)[0])
        outs = [f(*[tree(lambda x: wrap(np.asarray(x))[i], a) for a in args]) for i in range(n)]
        return tree(lambda *xs: wrap(np.stack([np.asarray(x) for x in xs])), *outs)
    return mapped


def carry(old, new):
    """loop-carried values keep their dtype"""
    def one(o, v):
        d = o.dtype if hasattr(o, "dtype") else None
        v = wrap(np.asarray(bare(v)))
        return v.astype(d) if d is not None and v.dtype != d else v
    return tree(one, old, new)


def while_loop(cond, body, init):
    val = tree(lambda x: wrap(np.asarray(bare(x))), init)
    n = 0
    while bool(cond(val)):
        val = carry(val, body(val))
        n += 1
        if n > 200000:
            raise RuntimeError("loop does not end")
    return val


def fori_loop(lo, hi, body, init):
    val = tree(lambda x: wrap(np.asarray(bare(x))), init)
    for i in range(int(lo), int(hi)):
        val = carry(val, body(wrap(np.asarray(i)), val))
    return val


def cond(pred, t, f, *ops):
    return (t if bool(pred) else f)(*ops)


def switch(i, branches, *ops):
    return branches[min(max(int(i), 0), len(branches) - 1)](*ops)


def sort_key_val(keys, values, dimension=-1, is_stable=True):
    k, v = np.asarray(keys), np.asarray(values)
    o = np.argsort(k, kind="stable")
    return wrap(k[o]), wrap(v[o])


def _start(starts, shape, sizes):
    s = [int(x) for x in np.ravel(np.asarray(bare(starts)))]
    return tuple(slice(min(max(a, 0), n - z), min(max(a, 0), n - z) + z)
                 for a, n, z in zip(s, shape, sizes))


def dynamic_slice(x, starts, sizes):
    x = np.asarray(x)
    if any(z > n for z, n in zip(sizes, x.shape)):
        raise TypeError("slice larger than the operand")
    return wrap(x[_start(starts, x.shape, sizes)].copy())


def dynamic_update_slice(x, update, starts):
    x, u = np.array(x), np.asarray(update)
    if any(z > n for z, n in zip(u.shape, x.shape)):
        raise TypeError("update larger than the operand")
    x[_start(starts, x.shape, u.shape)] = u.astype(x.dtype)
    return wrap(x)


def dynamic_update_index_in_dim(x, update, i, axis):
    assert axis == 0
    x, u = np.array(x), np.asarray(update)
    if u.ndim == x.ndim - 1:
        u = u[None]
    return dynamic_update_slice(x, u, [int(i)] + [0] * (x.ndim - 1))


def argmax(x, axis, dtype):
    return wrap(np.argmax(np.asarray(x), axis).astype(np.dtype(dtype)))


def index_update(x, k, v):
    return At(wrap(np.asarray(x)))[k].set(bare(v))


class Jnp(types.ModuleType):
    ndarray = A

    def __getattr__(self, name):
        if name in ("uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64",
                    "float32", "float64", "bool_"):
            return Scalar(name)
        fn = getattr(np, name)
        if isinstance(fn, np.ufunc):
            def call(*a, **kw):
                return fn(*[wrap(np.asarray(bare(x))) if isinstance(x, (A, np.ndarray, list))
                            else x for x in a], **bare(kw))
        else:
            def call(*a, **kw):
                return wrap(fn(*bare(a), **bare(kw)))
        return call


def randint(key, shape, lo, hi, dtype="int32"):
    return wrap(np.random.RandomState(key).randint(lo, hi, size=tuple(shape)).astype(dtype))


def install():
    jnp = Jnp("jax.numpy")
    lax = types.ModuleType("jax.lax")
    for f in (while_loop, fori_loop, cond, switch, sort_key_val, dynamic_slice,
              dynamic_update_slice, dynamic_update_index_in_dim, argmax):
        setattr(lax, f.__name__, f)
    rnd = types.ModuleType("jax.random")
    rnd.PRNGKey, rnd.randint = (lambda s: s), randint
    ops = types.ModuleType("jax.ops")
    ops.index_update = index_update
    jax = types.ModuleType("jax")
    jax.numpy, jax.lax, jax.random, jax.ops, jax.vmap = jnp, lax, rnd, ops, vmap
    jax.jit = lambda f, *a, **kw: f
    jax.config = types.SimpleNamespace(update=lambda *a: None)
    jax.__path__ = []
    sys.modules.update({"jax": jax, "jax.numpy": jnp, "jax.lax": lax, "jax.random": rnd,
                        "jax.ops": ops})
