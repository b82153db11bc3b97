"""`math` over symbolic reals."""
from __future__ import annotations
import math as _m
import types
import z3
from . import core, sums
from .core import SVal, SInt, SReal, SBool, wrap, lift, toreal, toint_floor, Unsupported

math = types.ModuleType("math")


def _v(x):
    if getattr(x, "__dv_tensor__", False):
        x = x.item()
    return x


def _sym(x):
    return isinstance(x, SVal)


def _finite(x, what):
    if isinstance(x, SVal) and x.kind is not None:
        c = core.ctx()
        if not c.entails(x.kind == 0):
            if not c.branch(x.kind == 0, f"{what}: finite"):
                raise ValueError(f"{what} of a non-finite value")


def floor(x):
    x = _v(x)
    if not _sym(x):
        return _m.floor(x)
    if x.kind is not None and not core.ctx().branch(x.kind == 0, "finite"):
        if core.ctx().branch(x.kind == 3, "nan"):
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    return wrap(sums.canon(toint_floor(lift(x))))


def ceil(x):
    x = _v(x)
    if not _sym(x):
        return _m.ceil(x)
    if x.kind is not None and not core.ctx().branch(x.kind == 0, "finite"):
        if core.ctx().branch(x.kind == 3, "nan"):
            raise ValueError("cannot convert float NaN to integer")
        raise OverflowError("cannot convert float infinity to integer")
    t = lift(x)
    if t.sort() == core.I:
        return x
    return wrap(sums.canon(-toint_floor(-t)))


def trunc(x):
    x = _v(x)
    return core.trunc(x) if _sym(x) else _m.trunc(x)


def sqrt(x):
    x = _v(x)
    if not _sym(x):
        return _m.sqrt(x)
    t = sums.canon(toreal(lift(x)))
    if not core.ctx().entails(t >= 0) and not core.ctx().branch(t >= 0, "sqrt argument"):
        raise ValueError("math domain error")
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        return 0.0
    return SReal(core.SQRT(t))


def _u(F, name):
    def f(x):
        x = _v(x)
        if not _sym(x):
            if x == 0:
                return getattr(_m, name)(x)
            return SReal(F(core.realval(x))) if isinstance(x, (int, float)) else getattr(_m, name)(x)
        return SReal(F(sums.canon(toreal(lift(x)))))
    return f


math.sin, math.cos, math.exp = _u(core.SIN, "sin"), _u(core.COS, "cos"), _u(core.EXP, "exp")
math.atan2 = lambda a, b: SReal(core.ATAN2(sums.canon(toreal(lift(_v(a)))), sums.canon(toreal(lift(_v(b))))))
math.radians = lambda x: SReal(toreal(lift(_v(x))) * core.PI / 180)
math.degrees = lambda x: SReal(toreal(lift(_v(x))) * 180 / core.PI)


def isinf(x):
    x = _v(x)
    if not _sym(x):
        return _m.isinf(x)
    return False if x.kind is None else SBool(z3.Or(x.kind == 1, x.kind == 2))


def isnan(x):
    x = _v(x)
    if not _sym(x):
        return _m.isnan(x)
    return False if x.kind is None else SBool(x.kind == 3)


def isfinite(x):
    x = _v(x)
    if not _sym(x):
        return _m.isfinite(x)
    return True if x.kind is None else SBool(x.kind == 0)


def fabs(x):
    return abs(_v(x)) + 0.0


def prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def hypot(*xs):
    s = 0.0
    for x in xs:
        s = s + _v(x) * _v(x)
    return sqrt(s)


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = abs(a - b)
    from .builtins_shim import dv_max
    return d <= dv_max(rel_tol * dv_max(abs(a), abs(b)), abs_tol)


for _f in (floor, ceil, trunc, sqrt, isinf, isnan, isfinite, fabs, prod, hypot, isclose):
    setattr(math, _f.__name__, _f)
math.pi, math.inf, math.nan, math.e = SReal(core.PI), _m.inf, _m.nan, _m.e
math.tau = SReal(2 * core.PI)


def pow(a, b):
    return _v(a) ** _v(b)


math.pow = pow
math.log2 = lambda x: _m.log2(x) if not _sym(_v(x)) else _bad("log2")
math.log = lambda x, *a: _m.log(x, *a) if not _sym(_v(x)) else _bad("log")
math.log10 = lambda x: _m.log10(x) if not _sym(_v(x)) else _bad("log10")


def _bad(n):
    raise Unsupported("math." + n)


def _missing(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"math.{name}")


math.__getattr__ = _missing
