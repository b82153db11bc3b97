"""The `torch` module seen by the code under verification: documented semantics of the operations it uses, over the
reals.  Anything not listed raises Unsupported (never silently accepted)."""
from __future__ import annotations
import math as _math
import types
import z3
from . import core, sums, seq, tensor as T
from .core import I, R, B, SVal, SInt, SReal, SBool, wrap, lift, mkif, mkand, toreal, toint_floor, fresh, Unsupported
from .tensor import STensor, DType, Device, DTYPES, ZERO, ONE, dterm, same, dim_eq, as_device, const_tensor

torch = types.ModuleType("torch")
for _n, _d in DTYPES.items():
    setattr(torch, _n, _d)
torch.long, torch.int, torch.short, torch.float, torch.double, torch.half = T.int64, T.int32, T.int16, T.float32, T.float64, T.float16
torch.bool = T.bool_


class _TensorMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, STensor)

    def __call__(cls, *a, **k):
        raise Unsupported("torch.Tensor(...)")


class Tensor(metaclass=_TensorMeta):
    pass


class _DevMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Device)

    def __call__(cls, type="cpu", index=None):
        return Device(type, index)


class device(metaclass=_DevMeta):
    pass


class _DtMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, DType)


class dtype(metaclass=_DtMeta):
    pass


torch.Tensor, torch.device, torch.dtype = Tensor, device, dtype
torch.Size = T.Size


def export(f):
    if f.__name__.startswith("_t_"):
        f.__name__ = f.__name__[3:]
    setattr(torch, f.__name__.rstrip("_"), f)
    return f


@export
def is_tensor(x):
    return isinstance(x, STensor)


def set_default_dtype(d):
    raise Unsupported("set_default_dtype")


torch.set_default_dtype = set_default_dtype
torch.get_default_dtype = lambda: T._default_dtype
torch.strided = "strided"


def _shape(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)) and not isinstance(args[0], SVal):
        args = args[0]
    out = []
    for a in args:
        if isinstance(a, STensor):
            a = a.item()
        if isinstance(a, (float, SReal)):
            raise TypeError("size must be ints")
        t = dterm(a)
        if not T.is_c(t):
            c = core.ctx()
            if not c.entails(t >= 0) and not c.branch(t >= 0, "non-negative size"):
                raise RuntimeError("Trying to create tensor with negative dimension")
        elif t.as_long() < 0:
            raise RuntimeError("Trying to create tensor with negative dimension")
        out.append(sums.canon(t))
    return out


def _const(shape, v, dt, dev):
    t = lift(v)
    t = T.cast_term(t, {B: T.bool_, I: T.int64, R: T.float32}[t.sort()], dt)
    kind = v.kind if isinstance(v, SVal) else None
    return STensor.new([[s] for s in shape], lambda idx: t, dt, as_device(dev), nf=(lambda idx: kind) if kind is not None else None)


@export
def zeros(*size, dtype=None, device=None, out=None, requires_grad=False, **kw):
    return _const(_shape(size), 0, dtype or T._default_dtype, device)


@export
def ones(*size, dtype=None, device=None, requires_grad=False, **kw):
    return _const(_shape(size), 1, dtype or T._default_dtype, device)


@export
def empty(*size, dtype=None, device=None, requires_grad=False, **kw):
    sh = _shape(size)
    dt = dtype or T._default_dtype
    f = core.fresh_fn("uninit", max(len(sh), 1), {"f": R, "i": I, "b": B}[dt.kind])
    return STensor.new([[s] for s in sh], lambda idx: f(*(idx or [ZERO])), dt, as_device(device))


@export
def full(size, fill_value, *, dtype=None, device=None, **kw):
    v = fill_value.item() if isinstance(fill_value, STensor) else fill_value
    if dtype is None:
        t = lift(v)
        dtype = {B: T.bool_, I: T.int64, R: T._default_dtype}[t.sort()]
    if isinstance(v, float) and (v != v or v in (_math.inf, -_math.inf)):
        k = z3.IntVal(3 if v != v else (1 if v > 0 else 2))
        return STensor.new([[s] for s in _shape((size,) if not isinstance(size, (tuple, list)) else size)], lambda idx: z3.RealVal(0), dtype,
                           as_device(device), nf=lambda idx: k)
    return _const(_shape(size if isinstance(size, (tuple, list)) else (size,)), v, dtype, device)


def _like(t, v, dtype, device):
    dt = dtype or t.dtype
    c = T.cast_term(lift(v), {B: T.bool_, I: T.int64, R: T.float32}[lift(v).sort()], dt)
    return STensor.new([[x.size for x in d] for d in t._d], lambda idx: c, dt, as_device(device) if device is not None else t.device, masks=dict(t.masks))


@export
def zeros_like(t, dtype=None, device=None, **k): return _like(t, 0, dtype, device)
@export
def ones_like(t, dtype=None, device=None, **k): return _like(t, 1, dtype, device)
@export
def full_like(t, v, dtype=None, device=None, **k):
    return _like(t, v.item() if isinstance(v, STensor) else v, dtype, device)
@export
def empty_like(t, dtype=None, device=None, **k):
    return empty(*t.shape, dtype=dtype or t.dtype, device=device if device is not None else t.device)


@export
def arange(*args, dtype=None, device=None, **kw):
    args = [a.item() if isinstance(a, STensor) else a for a in args]
    start, end, step = (0, args[0], 1) if len(args) == 1 else (args[0], args[1], args[2] if len(args) > 2 else 1)
    ts, te, tp = lift(start), lift(end), lift(step)
    if all(x.sort() == I for x in (ts, te, tp)):
        dt = dtype or T.int64
        if not T.is_c(tp, 1):
            r = seq.SRange(wrap(ts), wrap(te), wrap(tp))
            n = r.count()
        else:
            n = sums.canon(te - ts)
            c = core.ctx()
            if T.is_c(n):
                n = z3.IntVal(max(0, n.as_long())) if n.as_long() >= 0 else None
                if n is None:
                    raise RuntimeError("upper bound and lower bound inconsistent with step sign")
            elif not c.entails(n >= 0) and not c.branch(n >= 0, "non-empty arange"):
                raise RuntimeError("upper bound and lower bound inconsistent with step sign")
        return STensor.new([[n]], lambda idx: T.cast_term(sums.canon(ts + idx[0] * tp), T.int64, dt), dt, as_device(device))
    dt = dtype or T._default_dtype
    ts, te, tp = toreal(ts), toreal(te), toreal(tp)
    if not (z3.is_rational_value(tp) and tp.as_fraction() > 0):
        raise Unsupported("arange with symbolic real step")
    n = sums.canon(-toint_floor(-((te - ts) / tp)))
    c = core.ctx()
    if not c.entails(n >= 0) and not c.branch(n >= 0, "non-empty arange"):
        raise RuntimeError("upper bound and lower bound inconsistent with step sign")
    return STensor.new([[n]], lambda idx: T.cast_term(ts + toreal(idx[0]) * tp, T.float32, dt), dt, as_device(device))


@export
def linspace(start, end, steps, *, dtype=None, device=None, **kw):
    start, end, steps = [a.item() if isinstance(a, STensor) else a for a in (start, end, steps)]
    ts, te, n = toreal(lift(start)), toreal(lift(end)), dterm(steps)
    c = core.ctx()
    if not (T.is_c(n) and n.as_long() >= 0) and not c.entails(n >= 0) and not c.branch(n >= 0, "steps >= 0"):
        raise RuntimeError("number of steps must be non-negative")
    dt = dtype or T._default_dtype
    if T.is_c(n):
        m = n.as_long()

        def fn(idx):
            return ts if m <= 1 else sums.canon(ts + toreal(idx[0]) * (te - ts) / (m - 1))
    else:
        # element 0 is the start, element n-1 the end, uniform in between (n == 1: only the start)
        one = c.entails(n > 1) or c.branch(n > 1, "more than one step")

        def fn(idx):
            return sums.canon(ts + toreal(idx[0]) * (te - ts) / toreal(n - 1)) if one else ts
    return STensor.new([[n]], lambda idx: T.cast_term(fn(idx), T.float32, dt), dt, as_device(device))


@export
def hann_window(n, periodic=True, *, dtype=None, device=None, **kw):
    nt = dterm(n)
    c = core.ctx()
    dt = dtype or T._default_dtype
    if not c.entails(nt >= 0) and not c.branch(nt >= 0, "window length >= 0"):
        raise RuntimeError("hann_window requires non-negative window_length")
    if not periodic:
        if c.entails(nt > 1) or c.branch(nt > 1, "window longer than one"):
            def fn(idx):
                x = sums.canon(2 * core.PI * toreal(idx[0]) / toreal(nt - 1))
                return (1 - core.COS(x)) / 2
        else:
            def fn(idx):
                return z3.RealVal(1)
    else:
        def fn(idx):
            x = sums.canon(2 * core.PI * toreal(idx[0]) / toreal(nt))
            return (1 - core.COS(x)) / 2
    return STensor.new([[nt]], fn, dt, as_device(device))


@export
def tensor(data, *, dtype=None, device=None, requires_grad=False, **kw):
    if isinstance(data, STensor):
        r = data.to(dtype=dtype, device=device) if (dtype or device) is not None else data
        return r.clone()
    return _from_py(data, dtype, device)


def _from_py(data, dtype, device):
    if isinstance(data, seq.SymSeq):
        return _from_seq(data, dtype, device)
    if isinstance(data, (list, tuple)):
        xs = [(_from_py(x, dtype, None) if not isinstance(x, STensor) else x) for x in data]
        if not xs:
            return STensor.new([[ZERO]], lambda idx: z3.RealVal(0), dtype or T._default_dtype, as_device(device))
        kinds = [x.dtype for x in xs]
        dt = dtype
        if dt is None:
            dt = kinds[0]
            for k in kinds[1:]:
                dt = T.promote(dt, k)
        for x in xs[1:]:
            if x.ndim != xs[0].ndim:
                raise ValueError("expected sequence of equal length")
        fns = [x.to(dt) for x in xs]
        nfs = any(f.nf_snapshot() is not None for f in fns)
        if nfs:
            base = fns[0]
            n = len(fns)
            vs, ns = [f.snapshot() for f in fns], [f.nf_snapshot() for f in fns]

            def pickf(lst, default):
                def fn(idx):
                    get = lambda i: lst[i](list(idx[1:])) if lst[i] is not None else default
                    if T.is_c(idx[0]):
                        return get(min(max(idx[0].as_long(), 0), n - 1))
                    r = get(n - 1)
                    for i in range(n - 2, -1, -1):
                        r = mkif(idx[0] == i, get(i), r)
                    return r
                return fn
            return STensor.new([[z3.IntVal(n)]] + [[c.size for c in d] for d in base._d], pickf(vs, None), dt, as_device(device), nf=pickf(ns, ZERO))
        r = T.stack(fns, 0)
        r.device = as_device(device)
        return r
    if isinstance(data, (int, float, SVal)):
        return _scalar(data, dtype, device)
    if hasattr(data, "__dv_array__"):
        return data.__dv_array__().to(dtype=dtype, device=device)
    raise TypeError(f"could not convert {type(data).__name__} to a tensor")


def _scalar(v, dtype, device):
    r = const_tensor(v, None, as_device(device))
    r._weak = False
    if dtype is not None and dtype is not r.dtype:
        d = r.device
        r = r.to(dtype)
        r._weak = False
    else:
        r = r.clone()
        r._weak = False
    return r


def _from_seq(s, dtype, device):
    k = fresh("k")
    c = core.ctx()
    from .builtins_shim import element
    e0 = element(s, k)
    if isinstance(e0, STensor):
        dims = [[x.size for x in d] for d in e0._d]
        dt = dtype or e0.dtype
        fn0 = e0.snapshot()

        def fn(idx):
            ph = [fresh("ph") for _ in idx[1:]]
            t = z3.substitute(fn0(ph), (k, idx[0]))
            return T.cast_term(z3.substitute(t, *zip(ph, idx[1:])) if ph else t, e0.dtype, dt)
        return STensor.new([[s.n]] + dims, fn, dt, as_device(device))
    if isinstance(e0, (list, tuple)):
        e0 = _from_py(e0, dtype, device)
        fn0 = e0.snapshot()
        dt = dtype or e0.dtype

        def fn2(idx):
            ph = [fresh("ph") for _ in idx[1:]]
            t = z3.substitute(fn0(ph), (k, idx[0]))
            return z3.substitute(t, *zip(ph, idx[1:])) if ph else t
        return STensor.new([[s.n]] + [[x.size for x in d] for d in e0._d], fn2, dt, as_device(device))
    t0 = lift(e0)
    frm = {B: T.bool_, I: T.int64, R: T._default_dtype}[t0.sort()]
    dt = dtype or frm
    return STensor.new([[s.n]], lambda idx: T.cast_term(z3.substitute(t0, (k, idx[0])), frm, dt), dt, as_device(device))


@export
def as_tensor(data, dtype=None, device=None):
    if isinstance(data, STensor):
        return data.to(dtype=dtype, device=device)
    return _from_py(data, dtype, device)


torch.asarray = as_tensor


@export
def from_numpy(a):
    return a if isinstance(a, STensor) else _from_py(a, None, None)


@export
def stack(tensors, dim=0, *, out=None):
    if seq.is_symbolic(tensors):
        s = seq.as_symseq(tensors)
        if dim == 0:
            return _from_seq(s, None, None)
        r = _from_seq(s, None, None)
        n = r.ndim
        d = dim % n
        order = list(range(1, n))
        order.insert(d, 0)
        return r.permute(*order)
    return T.stack(list(tensors), dim)


@export
def cat(tensors, dim=0, *, out=None):
    if seq.is_symbolic(tensors):
        return T.cat_ragged(tensors, dim)
    return T.cat(list(tensors), dim)


torch.concat = torch.concatenate = cat


@export
def meshgrid(*ts, indexing=None):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = ts[0]
    ts = list(ts)
    if indexing not in ("ij",):
        raise Unsupported("meshgrid indexing")
    dims = [t._d[0] if False else [c.size for c in t._d[0]] for t in ts]
    for t in ts:
        if t.ndim != 1 or t.masks:
            raise Unsupported("meshgrid input")
    out = []
    p = 0
    for t in ts:
        fn = t.snapshot()
        n = len(t._d[0])
        out.append(STensor.new(dims, lambda idx, fn=fn, p=p, n=n: fn(list(idx[p:p + n])), t.dtype, t.device))
        p += n
    return tuple(out)


@export
def where(c, a=None, b=None): return T.where(c, a, b)


def _un(name):
    def f(x, *, out=None):
        if not isinstance(x, STensor):
            raise TypeError(f"{name}(): argument 'input' must be Tensor")
        return T.unop(name, x)
    return f


for _n in ("floor", "ceil", "round", "trunc", "sqrt", "exp", "sin", "cos", "sinc", "sign", "neg", "isfinite", "isnan", "isinf"):
    setattr(torch, _n, _un(_n))
torch.abs = torch.absolute = _un("abs")
torch.logical_not = lambda x: T.unop("not", x)
torch.square = lambda x: T.binop("mul", x, x)
torch.rsqrt = lambda x: T.binop("div", 1.0, T.unop("sqrt", x))


def _bi(name):
    def f(a, b, *, out=None):
        return T.binop(name, a, b)
    return f


for _n, _o in [("mul", "mul"), ("multiply", "mul"), ("div", "div"), ("true_divide", "div"), ("floor_divide", "fdiv"),
               ("remainder", "mod"), ("maximum", "max"), ("minimum", "min"), ("logical_and", "and"), ("logical_or", "or"),
               ("eq", "eq"), ("ne", "ne"), ("lt", "lt"), ("le", "le"), ("gt", "gt"), ("ge", "ge"), ("pow", "pow")]:
    setattr(torch, _n, _bi(_o))
torch.add = lambda a, b, alpha=1: T.binop("add", a, b if alpha == 1 else T.binop("mul", b, alpha))
torch.sub = lambda a, b, alpha=1: T.binop("sub", a, b if alpha == 1 else T.binop("mul", b, alpha))


@export
def deg2rad(x): return T.binop("mul", x if x.dtype.kind == "f" else x.to(T._default_dtype), SReal(core.PI / 180))


@export
def atan2(a, b):
    dims, masks, maps = T.pair_dims(a, b)
    fa, fb = a.snapshot(), b.snapshot()
    T.need_finite([a, b], "atan2")
    return STensor.new(dims, lambda idx: core.ATAN2(sums.canon(toreal(fa(maps[0](idx)))), sums.canon(toreal(fb(maps[1](idx))))), a.dtype, a.device, masks=masks)


@export
def _t_sum(x, dim=None, keepdim=False, dtype=None, axis=None):
    return T.reduce_sum(x, axis if dim is None else dim, keepdim, dtype)
@export
def prod(x, dim=None, keepdim=False, dtype=None): return T.reduce_finite("prod", x, dim, keepdim)
@export
def mean(x, dim=None, keepdim=False): return x.mean(dim, keepdim)
@export
def _t_any(x, dim=None, keepdim=False): return T.reduce_bool("any", x, dim, keepdim)
@export
def _t_all(x, dim=None, keepdim=False): return T.reduce_bool("all", x, dim, keepdim)
@export
def clamp(x, min=None, max=None, out=None): return x.clamp(min, max)
torch.clip = clamp
@export
def _t_max(x, dim=None, keepdim=False):
    return T.binop("max", x, dim) if isinstance(dim, STensor) else x.max(dim, keepdim)
@export
def _t_min(x, dim=None, keepdim=False):
    return T.binop("min", x, dim) if isinstance(dim, STensor) else x.min(dim, keepdim)
torch.amax = lambda x, dim=None, keepdim=False: x.amax(dim, keepdim)
torch.amin = lambda x, dim=None, keepdim=False: x.amin(dim, keepdim)
torch.norm = lambda x, p=2, dim=None, keepdim=False: T.vnorm(x, p, dim, keepdim)
torch.numel = lambda x: x.numel()
torch.take = lambda t, i: T.take(t, i)
torch.matmul = torch.mm = lambda a, b: T.matmul(a, b)
torch.dot = lambda a, b: T.matmul(a, b)
torch.reshape = lambda x, s: x.reshape(*s)
torch.flatten = lambda x, a=0, b=-1: x.flatten(a, b)
torch.squeeze = lambda x, d=None: x.squeeze(d) if d is not None else x.squeeze()
torch.unsqueeze = lambda x, d: x.unsqueeze(d)
torch.transpose = lambda x, a, b: x.transpose(a, b)
torch.permute = lambda x, d: x.permute(*d)
torch.broadcast_to = lambda x, s: x.expand(*s)
torch.clone = lambda x: x.clone()
torch.is_floating_point = lambda x: x.is_floating_point()
torch.index_select = lambda x, d, i: x.index_select(d, i)
torch.masked_select = lambda x, m: x[m]
torch.scatter_add = lambda x, d, i, s: x.clone().scatter_add_(d, i, s)
torch.index_add = lambda x, d, i, s: x.clone().index_add_(d, i, s)


@export
def cross(a, b, dim=-1):
    a, b = a.to(T.promote(a.dtype, b.dtype)), b.to(T.promote(a.dtype, b.dtype))
    d = dim % builtin_max(a.ndim, 1)
    if not (T.is_c(a.dim_size(d), 3) and T.is_c(b.dim_size(b.ndim - a.ndim + d), 3)):
        raise RuntimeError("linalg.cross: inputs dimension must have length 3")
    g = lambda t, i: t.select(dim, i)
    return T.stack([g(a, 1) * g(b, 2) - g(a, 2) * g(b, 1), g(a, 2) * g(b, 0) - g(a, 0) * g(b, 2), g(a, 0) * g(b, 1) - g(a, 1) * g(b, 0)], dim)


builtin_max = __builtins__["max"] if isinstance(__builtins__, dict) else __builtins__.max


@export
def cdist(a, b, p=2.0, compute_mode="use_mm_for_euclid_dist_if_necessary"):
    if p != 2.0:
        raise Unsupported("cdist p")
    if compute_mode != "donot_use_mm_for_euclid_dist":
        # torch switches to a cancelling matrix product above 25 rows (or always, on request): not a distance any more
        core.ctx().oblige("cdist: distances come from coordinate differences (at most 25 rows, or the exact mode)",
                          z3.BoolVal(False) if compute_mode == "use_mm_for_euclid_dist" else z3.And(dterm(a.shape[-2]) <= 25, dterm(b.shape[-2]) <= 25))
    d = T.binop("sub", a.unsqueeze(-2), b.unsqueeze(-3))
    return T.vnorm(d, 2, -1, False)


@export
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = T.unop("abs", T.binop("sub", a, b))
    lim = T.binop("add", T.binop("mul", T.unop("abs", b), rtol), atol)
    return bool(T.reduce_bool("all", T.binop("le", d, lim), None, False))


torch.isclose = lambda a, b, rtol=1e-5, atol=1e-8, equal_nan=False: T.binop(
    "le", T.unop("abs", T.binop("sub", a, b)), T.binop("add", T.binop("mul", T.unop("abs", b), rtol), atol))


@export
def equal(a, b):
    if a.ndim != b.ndim:
        return False
    for k in range(a.ndim):
        if not dim_eq(a.dim_size(k), b.dim_size(k)):
            return False
    return bool(T.reduce_bool("all", T.binop("eq", a, b), None, False))


# linalg
linalg = types.ModuleType("torch.linalg")
linalg.norm = lambda x, ord=None, dim=None, keepdim=False: T.vnorm(x, 2 if ord is None else ord, dim, keepdim)
linalg.vector_norm = lambda x, ord=2, dim=None, keepdim=False: T.vnorm(x, ord, dim, keepdim)
linalg.cross = lambda a, b, dim=-1: cross(a, b, dim)
torch.linalg = linalg


# --------------------------------------------------------------------------- FFT
class Spectrum:
    """rfft values of a product of real sequences of length n along the last dimension."""

    def __init__(self, factors, n):
        self.factors, self.n = factors, n          # factors: STensors (time domain, untouched length)

    @property
    def ndim(self):
        return builtin_max(f.ndim for f in self.factors)

    def __mul__(self, o):
        if isinstance(o, Spectrum):
            if not same(self.n, o.n):
                if not dim_eq(self.n, o.n):
                    raise Unsupported("product of spectra of different lengths")
            return Spectrum(self.factors + o.factors, self.n)
        if isinstance(o, (int, float, SVal)):
            return Spectrum([self.factors[0] * o] + self.factors[1:], self.n)
        raise Unsupported("spectrum times tensor")

    __rmul__ = __mul__

    def __imul__(self, o):
        return self * o

    def __getitem__(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        if len(self.factors) != 1:
            raise Unsupported("indexing a product spectrum")
        f = self.factors[0]
        if not builtins_any(k is Ellipsis for k in ks):
            used = len([k for k in ks if k is not None])
            if used == f.ndim:
                last = [k for k in ks][-1]
                if last is None or not (isinstance(last, slice) and last == slice(None)):
                    raise Unsupported("indexing the frequency axis")
        elif ks[-1] is not Ellipsis and not (isinstance(ks[-1], slice) and ks[-1] == slice(None)):
            raise Unsupported("indexing the frequency axis")
        return Spectrum([f[key]], self.n)

    def unsqueeze(self, d):
        if len(self.factors) != 1:
            raise Unsupported("unsqueeze of a product spectrum")
        f = self.factors[0]
        d = d % (f.ndim + 1)
        if d >= f.ndim:
            raise Unsupported("unsqueeze after the frequency axis")
        return Spectrum([f.unsqueeze(d)], self.n)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"complex tensor .{name}")


builtins_any = __builtins__["any"] if isinstance(__builtins__, dict) else __builtins__.any
builtins_min = __builtins__["min"] if isinstance(__builtins__, dict) else __builtins__.min


def rfft(x, n=None, dim=-1, norm=None, out=None):
    if norm is not None:
        raise Unsupported("rfft norm")
    if x.dtype.kind != "f":
        x = x.to(T._default_dtype)
    if x.ndim == 0:
        raise RuntimeError("rfft of a 0-d tensor")
    d = x._norm(dim)
    if d != x.ndim - 1:
        raise Unsupported("rfft along another dimension")
    nt = dterm(n) if n is not None else x.dim_size(d)
    c = core.ctx()
    if not c.entails(nt >= 1) and not c.branch(nt >= 1, "fft length positive"):
        raise RuntimeError("Invalid number of data points specified")
    T.need_finite([x], "rfft")
    return Spectrum([x.clone()], nt)


def irfft(s, n=None, dim=-1, norm=None, out=None):
    if norm is not None or not isinstance(s, Spectrum):
        raise Unsupported("irfft")
    if n is None:
        raise Unsupported("irfft without length")
    nt = dterm(n)
    if not same(nt, s.n) and not dim_eq(nt, s.n):
        raise Unsupported("irfft length differs from rfft length")
    if dim not in (-1, s.ndim - 1):
        raise Unsupported("irfft along another dimension")
    fs = s.factors
    if len(fs) > 2:
        raise Unsupported("product of more than two spectra")
    c = core.ctx()

    def upper(f):
        L = f.dim_size(f.ndim - 1)
        return L if c.entails(L <= s.n) else mkif(L <= s.n, L, s.n)
    if len(fs) == 1:
        f = fs[0]
        U = upper(f)
        dims = [[x.size for x in d] for d in f._d[:-1]] + [[s.n]]
        fn0 = f.snapshot()
        nl = len(f._d[-1])
        szl = [x.size for x in f._d[-1]]

        def fn(idx):
            return mkif(sums.canonb(idx[-1] < U), fn0(list(idx[:-1]) + T.split_flat(idx[-1], szl)), z3.RealVal(0))
        dt = f.dtype
    else:
        a, b = fs
        # broadcast all but the last dimension
        av, bv = a.select(-1, 0) if T.is_c(a.dim_size(a.ndim - 1)) and False else a, b
        la, lb = a.dim_size(a.ndim - 1), b.dim_size(b.ndim - 1)
        ha = STensor.new([[x.size for x in d] for d in a._d[:-1]], lambda idx: z3.RealVal(0), a.dtype, a.device)
        hb = STensor.new([[x.size for x in d] for d in b._d[:-1]], lambda idx: z3.RealVal(0), b.dtype, b.device)
        dims_h, masks, maps = T.pair_dims(ha, hb)
        fa, fb = a.snapshot(), b.snapshot()
        sza, szb = [x.size for x in a._d[-1]], [x.size for x in b._d[-1]]
        ua, ub = upper(a), upper(b)

        def fn(idx):
            head, i = list(idx[:-1]), idx[-1]
            out = None
            for wrapn in (ZERO, s.n):
                p, q = fresh("a"), fresh("b")
                g = z3.And(p >= 0, p < ua, q >= 0, q < ub, p + q == (i if T.is_c(wrapn, 0) else i + wrapn))
                body = toreal(fa(maps[0](head) + T.split_flat(p, sza))) * toreal(fb(maps[1](head) + T.split_flat(q, szb)))
                t = sums.mk_sum([p, q], g, body)
                out = t if out is None else out + t
            return out
        dims = dims_h + [[s.n]]
        dt = T.promote(a.dtype, b.dtype)
    r = STensor.new(dims, fn, dt, fs[0].device)
    if out is not None:
        T.write(out, r)
        return out
    return r


fft = types.ModuleType("torch.fft")
fft.rfft, fft.irfft = rfft, irfft


def _nofft(name):
    raise Unsupported(f"torch.fft.{name}")


fft.__getattr__ = _nofft
torch.fft = fft


# --------------------------------------------------------------------------- RNG
class Generator:
    def __init__(self, device=None):
        self.device = as_device(device)
        self.seed_t = z3.IntVal(67280421310721)
        self.k = 0

    def manual_seed(self, s):
        self.seed_t, self.k = dterm(s.item() if isinstance(s, STensor) else s), 0
        return self

    def initial_seed(self):
        return wrap(self.seed_t)


torch.Generator = Generator
RANDN = z3.Function("RANDN", I, I, I, I, R)      # seed, draw number, number of values, position
RANDU = z3.Function("RANDU", I, I, I, I, R)
core.AXIOMS["RANDU"] = lambda a: [a >= 0, a < 1]


def _rand(U, name):
    def f(*size, generator=None, dtype=None, device=None, **kw):
        sh = _shape(size)
        n = T.prod_terms(sh) if sh else ONE
        if generator is None:
            core.ctx().log.append(("global_rng", name))
            g = core.fresh_fn("globalrng", 1, R)
            return STensor.new([[s] for s in sh], lambda idx: g(T.horner(idx, sh)), dtype or T._default_dtype, as_device(device))
        k, seed = generator.k, generator.seed_t
        generator.k += 1
        return STensor.new([[s] for s in sh], lambda idx: U(seed, z3.IntVal(k), n, T.horner(idx, sh)), dtype or T._default_dtype, as_device(device))
    return f


torch.randn, torch.rand = _rand(RANDN, "randn"), _rand(RANDU, "rand")


def _grng(name):
    def f(*a, **k):
        core.ctx().log.append(("global_rng", name))
        raise Unsupported(f"torch.{name}")
    return f


for _n in ("manual_seed", "seed", "randint", "randperm", "normal", "bernoulli", "rand_like", "randn_like"):
    setattr(torch, _n, _grng(_n))


# --------------------------------------------------------------------------- misc namespaces
def compile(fn=None, **kw):
    return fn if fn is not None else (lambda f: f)


torch.compile = compile


class _NoGrad:
    def __call__(self, f=None):
        return f if f is not None else self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


torch.no_grad = torch.inference_mode = lambda *a: _NoGrad()
cuda = types.ModuleType("torch.cuda")
cuda.is_available = lambda: T.CUDA_AVAILABLE
torch.cuda = cuda
backends = types.ModuleType("torch.backends")
mps = types.ModuleType("torch.backends.mps")
mps.is_available = lambda: T.MPS_AVAILABLE
backends.mps = mps
torch.backends = backends
utils = types.ModuleType("torch.utils")
data = types.ModuleType("torch.utils.data")


class Dataset:
    def __class_getitem__(cls, k):
        return cls


class DataLoader:
    def __init__(self, *a, **k):
        self.args, self.kwargs = a, k

    def __class_getitem__(cls, k):
        return cls


data.Dataset, data.DataLoader = Dataset, DataLoader
utils.data = data
torch.utils = utils
torch.pi = SReal(core.PI)
torch.inf, torch.nan = _math.inf, _math.nan
torch.__version__ = "2.0-dv"


def _missing(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"torch.{name}")


torch.__getattr__ = _missing
MODULES = {"torch": torch, "torch.fft": fft, "torch.linalg": linalg, "torch.cuda": cuda, "torch.backends": backends,
           "torch.backends.mps": mps, "torch.utils": utils, "torch.utils.data": data}
