"""The numpy functions the library uses, over STensor (a numpy array is represented by the tensor it was made from)."""
from __future__ import annotations
import types, math as _m
import builtins
import z3
from . import core, tensor as T, shim_torch
from .core import Unsupported, SReal, SVal, wrap, lift, toreal
from .tensor import STensor
_t = shim_torch.torch

np = types.ModuleType("numpy")


class _ND(type):
    def __instancecheck__(cls, x):
        return getattr(x, "__dv_tensor__", False)


class ndarray(metaclass=_ND):
    pass


class _Scalar(type):
    def __instancecheck__(cls, x):
        return False


class _DType:
    """np.float64 & co: a dtype that is also a constructor"""


np.ndarray = ndarray
np.float64, np.float32, np.int64, np.int32, np.int16 = T.float64, T.float32, T.int64, T.int32, T.int16
np.int8, np.uint8, np.float16 = T.int8, T.uint8, T.float16
np.bool_ = T.bool_
np.pi, np.inf, np.nan, np.e = SReal(core.PI), _m.inf, _m.nan, _m.e
np.newaxis = None
np.ascontiguousarray = lambda a, dtype=None: arr(a) if dtype is None else arr(a).to(dtype)


def _dt(d):
    if d is None or isinstance(d, type(T.float64)) or d in (T.float64,):
        return d
    return {float: T.float64, int: T.int64, builtins.bool: T.bool_, "float64": T.float64, "float32": T.float32, "int64": T.int64}[d]


def arr(a, dtype=None):
    if getattr(a, "__dv_tensor__", False):
        return a if dtype is None else a.to(_dt(dtype))
    if dtype is None:
        x = _t.tensor(a, dtype=None)
        return x.to(T.float64) if x.dtype.kind == "f" else x
    return _t.tensor(a, dtype=_dt(dtype))


def asarray(a, dtype=None):
    return arr(a, dtype)


def array(a, dtype=None, copy=True):
    x = arr(a, dtype)
    return x.clone() if x is a else x


np.asarray, np.array, np.atleast_1d = asarray, array, lambda a: arr(a) if arr(a).ndim else arr(a).reshape(1)


def _sc(x):
    return isinstance(x, (int, float, SVal))


def _un(name):
    def f(x):
        if _sc(x):
            return T.unop(name, arr(x, T.float64)).item()
        return T.unop(name, arr(x))
    return f


for _n in ("cos", "sin", "sqrt", "abs", "exp", "log", "floor", "ceil"):
    setattr(np, _n, _un(_n))
np.absolute = np.fabs = np.abs
np.rad2deg = np.degrees = lambda x: x * 180.0 / np.pi
np.deg2rad = np.radians = lambda x: x * np.pi / 180.0
np.square = lambda x: x * x


def _bi(name):
    def f(a, b):
        if _sc(a) and _sc(b):
            from . import builtins_shim as bs
            return bs.dv_max(a, b) if name == "maximum" else bs.dv_min(a, b) if name == "minimum" else T.binop(name, arr(a), arr(b)).item()
        return getattr(_t, name)(arr(a), arr(b))
    return f


np.maximum, np.minimum = _bi("maximum"), _bi("minimum")
np.clip = lambda x, lo, hi: arr(x).clamp(lo, hi)
np.hypot = lambda a, b: np.sqrt(a * a + b * b)
np.where = lambda c, a=None, b=None: T.where(arr(c), a, b)
np.logical_and = lambda a, b: arr(a) & arr(b)
np.logical_or = lambda a, b: arr(a) | arr(b)
np.logical_not = lambda a: ~arr(a)


def zeros(shape, dtype=T.float64):
    return _t.zeros(shape, dtype=_dt(dtype))


def ones(shape, dtype=T.float64):
    return _t.ones(shape, dtype=_dt(dtype))


def full(shape, v, dtype=None):
    return _t.full(shape if isinstance(shape, (tuple, list)) else (shape,), v, dtype=_dt(dtype) or T.float64)


np.zeros, np.ones, np.empty, np.full = zeros, ones, lambda s, dtype=T.float64: _t.empty(s, dtype=_dt(dtype)), full
np.zeros_like = lambda a, dtype=None: _t.zeros_like(arr(a), dtype=_dt(dtype))
np.ones_like = lambda a, dtype=None: _t.ones_like(arr(a), dtype=_dt(dtype))
np.full_like = lambda a, v, dtype=None: _t.full_like(arr(a), v, dtype=_dt(dtype))
np.empty_like = np.zeros_like


def linspace(start, stop, num=50, endpoint=True, dtype=None, axis=0):
    if not endpoint:
        raise Unsupported("numpy.linspace without the end point")
    return _t.linspace(start, stop, num, dtype=_dt(dtype) or T.float64)


def arange(*a, dtype=None):
    x = _t.arange(*a, dtype=_dt(dtype))
    return x.to(T.float64) if x.dtype.kind == "f" and dtype is None else x


np.linspace, np.arange = linspace, arange


def stack(xs, axis=0):
    return _t.stack([arr(x) for x in xs] if not core_symbolic(xs) else xs, dim=axis)


def core_symbolic(xs):
    from . import seq
    return seq.is_symbolic(xs)


np.stack = stack
np.concatenate = lambda xs, axis=0: _t.cat([arr(x) for x in xs] if not core_symbolic(xs) else xs, dim=axis)
np.vstack = lambda xs: _t.cat([arr(x) if arr(x).ndim > 1 else arr(x).reshape(1, -1) for x in xs], dim=0)


def repeat(a, n, axis=None):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    axis = axis % a.ndim
    if not isinstance(a.shape[axis], SVal) and int(a.shape[axis]) == 1:
        s = list(a.shape)
        s[axis] = n
        return a.expand(*s).clone()
    return a.repeat_interleave(n, dim=axis)


def tile(a, reps):
    a = arr(a)
    return a.repeat(*(reps if isinstance(reps, (tuple, list)) else (reps,)))


np.repeat, np.tile = repeat, tile
np.broadcast_to = lambda a, s: arr(a).expand(*s)
np.reshape = lambda a, s: arr(a).reshape(s)
np.transpose = lambda a, axes=None: arr(a).T if axes is None else arr(a).permute(*axes)
np.squeeze = lambda a, axis=None: arr(a).squeeze() if axis is None else arr(a).squeeze(axis)
np.expand_dims = lambda a, axis: arr(a).unsqueeze(axis)
np.moveaxis = lambda a, i, j: arr(a).movedim(i, j)
np.swapaxes = lambda a, i, j: arr(a).transpose(i, j)


def _red(name):
    def f(a, axis=None, keepdims=False, dtype=None, initial=None):
        if isinstance(a, (list, tuple)):
            a = stack(a) if a and getattr(a[0], "__dv_tensor__", False) else arr(a)
        a = arr(a)
        if initial is not None or dtype is not None:
            raise Unsupported(f"numpy.{name} with initial/dtype")
        g = getattr(a, {"amax": "max", "amin": "min"}.get(name, name))
        if axis is None:
            return g()
        r = g(axis, keepdims) if name not in ("max", "min", "amax", "amin") else (a.amax if "max" in name else a.amin)(axis, keepdims)
        return r
    return f


for _n in ("sum", "any", "all", "max", "min", "mean", "prod", "amax", "amin"):
    setattr(np, _n, _red(_n))
np.linalg = types.ModuleType("numpy.linalg")
np.linalg.norm = lambda x, ord=None, axis=None, keepdims=False: T.vnorm(arr(x), 2 if ord is None else ord, axis, keepdims) if axis is not None else \
    T.vnorm(arr(x).reshape(-1), 2 if ord is None else ord, None, False)
np.dot = np.matmul = lambda a, b: T.matmul(arr(a), arr(b))
np.diff = lambda a, axis=-1: arr(a).narrow(axis, 1, arr(a).shape[axis] - 1) - arr(a).narrow(axis, 0, arr(a).shape[axis] - 1)
np.random = types.ModuleType("numpy.random")


class Generator(object):
    pass


np.random.Generator = Generator


def _missing(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"numpy.{name}")


np.random.__getattr__ = _missing
np.linalg.__getattr__ = _missing
np.__getattr__ = _missing


def _astype(self, dtype, copy=True):
    r = self.to(_dt(dtype))
    return r.clone() if copy and r is self else r


STensor.astype = _astype
if not hasattr(STensor, "copy"):
    STensor.copy = lambda self: self.clone()
