"""Builtins seen by the code under verification: symbolic-aware versions of the Python builtins it may use."""
from __future__ import annotations
import builtins, math
import z3
from . import core, seq
from .core import I, R, B, SVal, SInt, SReal, SBool, SNum, wrap, lift, mkif, toreal, toint_floor, Unsupported

_isinstance = builtins.isinstance


def is_tensor(x):
    return getattr(x, "__dv_tensor__", False) is True


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.int, SInt, SBool))

    def __call__(cls, x=0, base=None):
        return dv_int(x, base)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


def dv_int(x=0, base=None):
    if base is not None:
        return builtins.int(x, base)
    if is_tensor(x):
        x = x.item()
    if _isinstance(x, SBool):
        return wrap(mkif(x.t, z3.IntVal(1), z3.IntVal(0)))
    if _isinstance(x, SInt):
        return x
    if _isinstance(x, SReal):
        if x.kind is not None and not core.ctx().entails(x.kind == 0):
            if not core.ctx().branch(x.kind == 0, "finite"):
                raise ValueError("cannot convert float NaN or infinity to integer")
        return core.trunc(x)
    if hasattr(x, "__dv_int__"):
        return x.__dv_int__()
    return builtins.int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.float, SReal))

    def __call__(cls, x=0.0):
        return dv_float(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.float)


def dv_float(x=0.0):
    if is_tensor(x):
        x = x.item()
    if _isinstance(x, SReal):
        return x
    if _isinstance(x, (SInt, SBool)):
        return wrap(toreal(lift(x)))
    if hasattr(x, "__dv_float__"):
        return x.__dv_float__()
    return builtins.float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.bool, SBool))

    def __call__(cls, x=False):
        if is_tensor(x):
            x = x.item()
        if _isinstance(x, SBool):
            return x
        if _isinstance(x, SNum):
            return wrap(x.t != 0)
        return builtins.bool(x)


class dv_int_cls(builtins.int, metaclass=_IntMeta):
    pass


class dv_float_cls(builtins.float, metaclass=_FloatMeta):
    pass


class dv_bool_cls(metaclass=_BoolMeta):
    pass


for _k in ("from_bytes",):
    pass
dv_int_cls.__name__, dv_float_cls.__name__, dv_bool_cls.__name__ = "int", "float", "bool"


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.str, SymStr))


class SymStr:
    """An opaque string (only equality with itself is known)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<str {self.name}>"


def dv_len(x):
    f = getattr(type(x), "__dv_len__", None)
    if f is not None:
        return f(x)
    if _isinstance(x, builtins.list) and any(type(e).__name__ == "Splice" for e in x):
        from . import text
        return text.unsplice(x).__dv_len__()
    return builtins.len(x)


def dv_range(*a):
    a = [x.item() if is_tensor(x) else x for x in a]
    for x in a:
        if _isinstance(x, (builtins.float, SReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(_isinstance(x, builtins.int) for x in a):
        return builtins.range(*a)
    if len(a) == 1:
        return seq.SRange(0, a[0], 1)
    if len(a) == 2:
        return seq.SRange(a[0], a[1], 1)
    return seq.SRange(*a)


def _sym(x):
    return _isinstance(x, SVal)


def _minmax(op, args, kw):
    if len(args) == 1:
        xs = args[0]
        if is_tensor(xs):
            xs = list(xs)
        if seq.is_symbolic(xs):
            return _sym_minmax(op, xs, kw)
        xs = list(xs)
    else:
        xs = list(args)
    if "key" in kw or not any(_sym(x) or is_tensor(x) for x in xs):
        return (builtins.min if op == "min" else builtins.max)(*([xs] if len(args) == 1 else xs), **kw)
    if not xs:
        if "default" in kw:
            return kw["default"]
        raise ValueError("min() arg is an empty sequence")
    r = xs[0]
    for x in xs[1:]:
        a, b = (r.item() if is_tensor(r) else r), (x.item() if is_tensor(x) else x)
        if any(_isinstance(v, builtins.float) and (v != v or math.isinf(v)) for v in (a, b)) or \
                any(_sym(v) and v.kind is not None for v in (a, b)):
            # exact python semantics: max keeps the first unless the new one is greater
            keep = (b > a) if op == "max" else (b < a)
            r = b if keep else a
            continue
        ta, tb = core.coerce2(a, b)
        if op == "min":
            r = wrap(mkif(z3.simplify(ta <= tb), ta, tb))
        else:
            r = wrap(mkif(z3.simplify(ta >= tb), ta, tb))
    return r


def _sym_minmax(op, xs, kw):
    s = seq.as_symseq(xs)
    c = core.ctx()
    if not c.branch(s.count() > 0):
        if "default" in kw:
            return kw["default"]
        raise ValueError("min() arg is an empty sequence")
    if kw.get("key"):
        raise Unsupported("min/max with key over symbolic sequence")
    k = core.fresh("arg")
    c.assume(s.in_range(k))
    m = s.elem(k)
    mt = lift(m)
    core.undecided([k])

    def f(x):
        e = lift(s.elem(x))
        return z3.Implies(s.in_range(x), mt <= e if op == "min" else mt >= e)
    from . import tensor as T
    try:
        trig = T._triggers(lambda xs: lift(s.elem(xs[0])), [s.count()])
    except Unsupported:
        trig = ()
    c.add_ufact(core.UFact(1, f, triggers=trig))
    return m


def dv_min(*a, **k): return _minmax("min", a, k)
def dv_max(*a, **k): return _minmax("max", a, k)


def dv_abs(x):
    return abs(x)


def dv_sum(xs, start=0):
    if is_tensor(xs):
        if isinstance(xs.__dv_len__(), int):
            xs = list(xs)
        else:
            return xs.sum(0) + start
    if seq.is_symbolic(xs):
        from . import sums
        from .tensor import STensor
        s = seq.as_symseq(xs)
        k = core.fresh("k")
        e = element(s, k)
        g = s.in_range(k)
        if is_tensor(e):
            fn = e.snapshot()
            r = STensor.new([[c.size for c in d] for d in e._d], lambda idx: sums.mk_sum([k], g, fn(idx)), e.dtype, e.device)
            return r + start if not (isinstance(start, int) and start == 0) else r
        t = lift(e)
        if t.sort() != R:
            v = core.mkif(t, z3.IntVal(1), z3.IntVal(0)) if t.sort() == B else t
            if z3.is_int_value(v):
                return wrap(s.count() * v) + start
            raise Unsupported("integer sum over a symbolic sequence")
        return wrap(sums.mk_sum([k], g, t)) + start
    r = start
    for x in xs:
        r = r + x
    return r


def dv_any(xs):
    if seq.is_symbolic(xs):
        return quantify(xs, "any")
    if is_tensor(xs):
        return bool(xs.any())
    for x in xs:
        if x:
            return True
    return False


def dv_all(xs):
    if seq.is_symbolic(xs):
        return quantify(xs, "all")
    if is_tensor(xs):
        return bool(xs.all())
    for x in xs:
        if not x:
            return False
    return True


def truth_term(v):
    """truth value of a python value as a term (no forking)"""
    if is_tensor(v):
        v = v.item()
    if _isinstance(v, SBool):
        return v.t
    if _isinstance(v, SVal):
        return v.t != 0
    return z3.BoolVal(bool(v))


def element_truth(s, w):
    """Truth value of the element at the arbitrary index w; decisions made while it is computed become part of the value."""
    from . import loops
    noop = lambda *a: None
    paths = loops.run_paths(w, s.in_range(w), lambda: noop, lambda v: ("return", truth_term(v)), s.elem, dict, noop)
    if any(p.outcome.kind == "raise" for p in paths):
        if len(paths) == 1:
            raise paths[0].outcome.val
        raise Unsupported("an element of any()/all() may raise")
    for p in paths:
        if p.written or p.log or any(loops._fresh_in(t, p, w) for t in [p.outcome.val, *p.cond] if z3.is_expr(t)):
            raise Unsupported("an element of any()/all() has effects or its own witnesses")
    if not paths:
        return z3.BoolVal(False)
    return core.mkor(*[core.mkand(*p.cond, p.outcome.val) for p in paths])


def element(s, k):
    """The element at the arbitrary index k.  Evaluated knowing that k is an index (without adding that to the path: the sequence
    may be empty), when this takes a single way without effects; otherwise evaluated on the path itself."""
    from . import loops
    noop = lambda *a: None
    if core.ctx().__dict__.get("log") is not None and core.ctx().log:
        return s.elem(k)
    try:
        paths = loops.run_paths(k, s.in_range(k), lambda: noop, lambda v: ("return", v), s.elem, dict, noop, limit=3)
    except (Unsupported, core.PathLimit):
        return s.elem(k)
    if len(paths) == 1 and paths[0].outcome.kind == "return" and not paths[0].log and \
            not any(loops._preexisting(st, k) for st, _ in paths[0].written.values()):
        v = paths[0].outcome.val
        if is_tensor(v):
            terms = [v.snapshot()([z3.Int(f"ph{i}") for i in range(sum(len(d) for d in v._d))])] + [c.size for d in v._d for c in d]
        elif _isinstance(v, (SVal, int, float)) :
            terms = [lift(v)]
        else:
            return s.elem(k)
        if not any(loops._fresh_in(t, paths[0], k) for t in terms):
            return v
    return s.elem(k)


def quantify(xs, op):
    s = seq.as_symseq(xs)
    c = core.ctx()
    e = core.fresh(op, B)
    w = core.fresh("w")
    tw = element_truth(s, w)

    def val(x):
        return z3.substitute(tw, (w, x))
    if op == "any":
        c.assume(z3.Implies(e, z3.And(s.in_range(w), tw)))
        c.add_ufact(core.UFact(1, lambda x: z3.Implies(z3.And(z3.Not(e), s.in_range(x)), z3.Not(val(x)))))
    else:
        c.assume(z3.Implies(z3.Not(e), z3.And(s.in_range(w), z3.Not(tw))))
        c.add_ufact(core.UFact(1, lambda x: z3.Implies(z3.And(e, s.in_range(x)), val(x))))
    return SBool(e)


def dv_round(x, nd=None):
    if is_tensor(x):
        x = x.item()
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def dv_sorted(xs, **k):
    if hasattr(xs, "__dv_sorted__") and not k:
        return xs.__dv_sorted__()
    if seq.is_symbolic(xs):
        raise Unsupported("sorted of a symbolic sequence")
    return builtins.sorted(xs, **k)


def dv_enumerate(xs, start=0):
    if seq.is_symbolic(xs):
        s = seq.as_symseq(xs) if not _isinstance(xs, seq.SymIter) else xs
        return seq.SymSeq(wrap(s.count()), lambda k: (wrap(k + lift(start)), s.elem(k)), rng=s.in_range)
    return builtins.enumerate(xs, start)


def dv_zip(*xs, strict=False):
    if any(seq.is_symbolic(x) for x in xs):
        ss = [seq.as_symseq(x) for x in xs]
        n = ss[0].n
        for s in ss[1:]:
            from .tensor import same
            if same(n, s.n):
                continue
            if strict and not core.ctx().branch(n == s.n):
                raise ValueError("zip() argument lengths differ")
            n = core.mkif(n <= s.n, n, s.n)
        return seq.SymSeq(wrap(n), lambda k: tuple(s.elem(k) for s in ss))
    return builtins.zip(*xs, strict=strict)


def dv_list(xs=()):
    if seq.is_symbolic(xs):
        return seq.as_symseq(xs).copy()
    return builtins.list(xs)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.list, seq.SymSeq))

    def __call__(cls, xs=()):
        return dv_list(xs)


class dv_list_cls(builtins.list, metaclass=_ListMeta):
    pass


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, (builtins.set, seq.SymSet))

    def __call__(cls, xs=()):
        if seq.is_symbolic(xs):
            return seq.SymSet(seq.as_symseq(xs))
        return builtins.set(xs)


class dv_set_cls(builtins.set, metaclass=_SetMeta):
    pass


class _TupleMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, builtins.tuple)

    def __call__(cls, xs=()):
        if seq.is_symbolic(xs):
            return seq.as_symseq(xs).copy()
        return builtins.tuple(xs)


class dv_tuple_cls(builtins.tuple, metaclass=_TupleMeta):
    pass


def dv_isinstance(x, cls):
    if _isinstance(cls, builtins.tuple):
        return any(dv_isinstance(x, c) for c in cls)
    if cls is builtins.int:
        return _isinstance(x, (builtins.int, SInt))
    if cls is builtins.float:
        return _isinstance(x, (builtins.float, SReal))
    if cls is builtins.bool:
        return _isinstance(x, (builtins.bool, SBool))
    if cls is dv_int_cls and _isinstance(x, SBool):
        return True
    return _isinstance(x, cls)


def dv_divmod(a, b):
    return (a // b, a % b)


def dv_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def dv_hash(x):
    return builtins.hash(x)


def dv_reversed(xs):
    if seq.is_symbolic(xs):
        s = seq.as_symseq(xs)
        return seq.SymSeq(wrap(s.n), lambda k: s.elem(s.n - 1 - k))
    return builtins.reversed(xs)


def dv_print(*a, **k):
    core.ctx().log.append(("print",))


def dv_iter(x, *s):
    if s:
        from . import ghost
        if ghost.active() is not None:
            return ghost.SentinelIter(x, s[0])
    return builtins.iter(x, *s)


OVERRIDES = {"iter": dv_iter, "int": dv_int_cls, "float": dv_float_cls, "bool": dv_bool_cls, "len": dv_len, "range": dv_range,
             "min": dv_min, "max": dv_max, "abs": dv_abs, "sum": dv_sum, "any": dv_any, "all": dv_all, "round": dv_round,
             "sorted": dv_sorted, "enumerate": dv_enumerate, "zip": dv_zip, "list": dv_list_cls, "set": dv_set_cls, "tuple": dv_tuple_cls,
             "isinstance": dv_isinstance, "divmod": dv_divmod, "reversed": dv_reversed, "print": dv_print}
