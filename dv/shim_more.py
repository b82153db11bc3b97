"""Further torch / numpy operations, each composed of the ones already modelled."""
from __future__ import annotations
import types
import z3
from . import core, sums, tensor as T, shim_torch, shim_np
from .core import Unsupported, SReal, wrap, realval
from .tensor import STensor

t, np = shim_torch.torch, shim_np.np


def cartesian_prod(*ts):
    if len(ts) == 1:
        return ts[0]
    return t.stack([g.flatten() for g in t.meshgrid(*ts, indexing="ij")], dim=-1)


def hypot(a, b): return t.sqrt(a * a + b * b)
def outer(a, b): return a.unsqueeze(1) * b.unsqueeze(0)
def lerp(a, b, w): return a + w * (b - a)
def addcmul(x, a, b, value=1): return x + value * (a * b)


def movedim(x, a, b):
    if not isinstance(a, int):
        raise Unsupported("movedim of several dims")
    a, b = x._norm(a), x._norm(b)
    order = [i for i in range(x.ndim) if i != a]
    order.insert(b, a)
    return x.permute(*order)


def diff(x, n=1, dim=-1, prepend=None, append=None):
    if n != 1 or prepend is not None or append is not None or x.dtype.kind == "b":
        raise Unsupported("diff")
    d = x._norm(dim)
    return x._slice(d, slice(1, None)) - x._slice(d, slice(None, -1))


def flip(x, *a, dims=None):
    dims = a if dims is None else (dims,)
    if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
        dims = dims[0]
    r = x
    for d in dims:
        d = r._norm(d)
        n = r.shape[d]
        key = [slice(None)] * r.ndim
        key[d] = t.arange(n - 1, -1, -1) if isinstance(n, int) else (n - 1) - t.arange(n)
        r = r[tuple(key)]
    return r.clone() if r is x else r


def hstack(xs):
    xs = list(xs)
    return t.cat([x if x.ndim else x.reshape(1) for x in xs], dim=0 if xs[0].ndim <= 1 else 1)


def vstack(xs):
    return t.cat([x.reshape(1, -1) if x.ndim <= 1 else x for x in xs], dim=0)


def column_stack(xs):
    return t.cat([x.reshape(-1, 1) if x.ndim <= 1 else x for x in xs], dim=1)


def tile(x, *reps):
    if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
        reps = tuple(reps[0])
    reps = (1,) * (x.ndim - len(reps)) + tuple(reps)
    return x.repeat(*reps)


def inner(a, b):
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported("inner")
    return T.matmul(a, b)


class _FInfo:
    def __init__(self, dt):
        f = {"float64": (52, 1023), "float32": (23, 127)}.get(getattr(dt, "name", None))
        if f is None:
            raise Unsupported("finfo")
        m, e = f
        self.eps = SReal(realval(2.0 ** -m))
        self.tiny = self.smallest_normal = SReal(realval(2.0 ** (1 - e)))
        self.max = SReal(z3.RealVal((2 ** (m + 1) - 1) * 2 ** (e - m)))
        self.min = SReal(z3.RealVal(-(2 ** (m + 1) - 1) * 2 ** (e - m)))
        self.bits, self.dtype = dt.bits, dt.name


def finfo(dt=None): return _FInfo(dt or T._default_dtype)


def masked_fill_(x, mask, v):
    x.copy_(T.where(mask, v, x))
    return x


def eye(n, m=None, dtype=None, device=None, **k):
    m = n if m is None else m
    return (t.arange(n, device=device).unsqueeze(1) == t.arange(m, device=device).unsqueeze(0)).to(dtype or T._default_dtype)


def einsum(eq, *ops):
    """sum over the letters absent from the output of the product of the operands"""
    if len(ops) == 1 and isinstance(ops[0], (tuple, list)):
        ops = ops[0]
    eq = eq.replace(" ", "")
    if "." in eq:
        raise Unsupported("einsum with an ellipsis")
    lhs, _, out = eq.partition("->")
    ins = lhs.split(",")
    if "->" not in eq:
        out = "".join(sorted(c for c in set(lhs) - {","} if lhs.count(c) == 1))
    if len(ins) != len(ops) or any(len(set(i)) != len(i) or len(i) != o.ndim for i, o in zip(ins, ops)):
        raise Unsupported("einsum form")
    letters = out + "".join(sorted(set(lhs) - {","} - set(out)))
    r = None
    for i, o in zip(ins, ops):
        o = o.permute(*[i.index(c) for c in letters if c in i])
        for k, c in enumerate(letters):
            if c not in i:
                o = o.unsqueeze(k)
        r = o if r is None else r * o
    red = tuple(range(len(out), len(letters)))
    return r.sum(dim=red) if red else r


def roll(x, shifts, dims=None):
    if dims is None:
        return roll(x.flatten(), shifts, 0).reshape(*x.shape)
    if isinstance(shifts, (tuple, list)):
        for s, d in zip(shifts, dims):
            x = roll(x, s, d)
        return x
    d = x._norm(dims[0] if isinstance(dims, (tuple, list)) else dims)
    n = x.shape[d]
    key = [slice(None)] * x.ndim
    key[d] = (t.arange(n) - shifts) % n
    return x[tuple(key)]


def cumsum(x, dim, dtype=None):
    if dtype is not None:
        x = x.to(dtype)
    d = x._norm(dim)
    if x.dtype.kind != "f" or x.masks or len(x._d[d]) != 1:
        raise Unsupported("cumsum of this tensor")
    T.need_finite([x], "cumsum")
    pre = sum(len(c) for c in x._d[:d])
    fn0 = x.snapshot()

    def fn(idx):
        k = idx[pre]
        if T.is_c(k):
            r = z3.RealVal(0)
            for j in range(k.as_long() + 1):
                r = r + fn0(list(idx[:pre]) + [z3.IntVal(j)] + list(idx[pre + 1:]))
            return r
        b = core.fresh("r")
        return sums.mk_sum([b], core.mkand(b >= 0, b <= k), fn0(list(idx[:pre]) + [b] + list(idx[pre + 1:])))
    return STensor.new([[c.size for c in y] for y in x._d], fn, x.dtype, x.device)


for _f in (einsum, roll, cumsum, cartesian_prod, hypot, outer, lerp, addcmul, movedim, diff, flip, hstack, vstack, column_stack, tile, inner, finfo, eye):
    setattr(t, _f.__name__, _f)
t.negative, t.subtract, t.ravel = t.neg, t.sub, lambda x: x.flatten()
t.reciprocal = lambda x: x.reciprocal()
t.clamp_max = lambda x, v: x.clamp(max=v)
t.clamp_min = lambda x, v: x.clamp(min=v)
t.swapaxes, t.t = t.transpose, lambda x: x.t()
t.swapdims = t.transpose
t.unbind = lambda x, dim=0: x.unbind(dim)
t.narrow = lambda x, d, s, n: x.narrow(d, s, n)
t.select = lambda x, d, i: x.select(d, i)
t.rad2deg = lambda x: x * (180.0 / SReal(core.PI))
t.row_stack, t.moveaxis = vstack, movedim
t.count_nonzero = lambda x, dim=None: (x != 0 if x.dtype.kind != "b" else x).sum(dim)
STensor.count_nonzero = lambda x, dim=None: t.count_nonzero(x, dim)
for _n in ("roll", "cumsum", "lerp", "addcmul", "movedim", "diff", "flip", "tile", "outer"):
    setattr(STensor, _n, globals()[_n])
STensor.moveaxis = movedim
STensor.masked_fill_ = masked_fill_
STensor.allclose = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: t.allclose(a, b, rtol, atol, equal_nan)
STensor.isclose = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: t.isclose(a, b, rtol, atol, equal_nan)
STensor.masked_select = lambda x, m: x[m]
STensor.matmul = lambda a, b: T.matmul(a, b)
STensor.dot = lambda a, b: T.matmul(a, b)
STensor.where = lambda x, c, o: T.where(c, x, o)
STensor.new_ones = lambda x, *s, dtype=None, device=None: t.ones(*s, dtype=dtype or x.dtype, device=device or x.device)
STensor.new_empty = lambda x, *s, dtype=None, device=None: t.empty(*s, dtype=dtype or x.dtype, device=device or x.device)
STensor.scatter_add = lambda x, d, i, s: x.clone().scatter_add_(d, i, s)
STensor.deg2rad = lambda x: t.deg2rad(x)
STensor.hypot = lambda a, b: hypot(a, b)

A = shim_np.arr
np.empty_like = lambda a, dtype=None: t.empty_like(A(a), dtype=shim_np._dt(dtype))
np.ravel = lambda a: A(a).flatten()
np.shape = lambda a: tuple(A(a).shape)
np.hstack = lambda xs: hstack([A(x) for x in xs])
np.vstack = lambda xs: vstack([A(x) for x in xs])
np.column_stack = lambda xs: column_stack([A(x) for x in xs])
np.flip = lambda a, axis=None: flip(A(a), *(range(A(a).ndim) if axis is None else [axis]))
np.tile = lambda a, r: tile(A(a), *(r if isinstance(r, (tuple, list)) else [r]))
np.outer = lambda a, b: outer(A(a), A(b))
np.moveaxis = lambda a, x, y: movedim(A(a), x, y)
np.allclose = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: t.allclose(A(a), A(b), rtol, atol, equal_nan)
np.arctan2 = lambda a, b: t.atan2(A(a, T.float64), A(b, T.float64)).item() if shim_np._sc(a) and shim_np._sc(b) else t.atan2(A(a), A(b))
