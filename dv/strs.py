"""Arbitrary strings of the code under verification, as terms of the string theory.  A SStr is a `str` whose every operation
either has its exact meaning over the term or is refused (Unsupported) — none falls through to the placeholder text."""
from __future__ import annotations
import builtins
import z3
from . import core
from .core import Unsupported, SBool, wrap

S = z3.StringSort()
LOWER = z3.Function("LOWER", S, S)
UPPER = z3.Function("UPPER", S, S)
STRIP = z3.Function("STRIP", S, S)


def term(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, builtins.str):
        return z3.StringVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"string term of {type(x).__name__}")


class SStr(builtins.str):
    def __new__(cls, t):
        o = builtins.str.__new__(cls, "\x00symbolic")
        o.t = z3.Const(t, S) if isinstance(t, builtins.str) else t
        return o

    def __repr__(self):
        return f"SStr({self.t})"

    def __str__(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        if spec:
            raise Unsupported("format of a symbolic string")
        return f"<{self.t}>"

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __bool__(self):
        return bool(wrap(self.t != z3.StringVal("")))

    def _cmp(self, o):
        if isinstance(o, builtins.str):
            return wrap(self.t == term(o))
        return False

    def __eq__(self, o):
        return self._cmp(o)

    def __ne__(self, o):
        r = self._cmp(o)
        return True if r is False else wrap(z3.Not(r.t)) if isinstance(r, SBool) else not r

    def lower(self):
        return SStr(LOWER(self.t))
    casefold = lower

    def upper(self):
        return SStr(UPPER(self.t))

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported("strip of given characters")
        return SStr(STRIP(self.t))

    def startswith(self, p, *a):
        if a:
            raise Unsupported("startswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return wrap(z3.Or(*[z3.PrefixOf(term(q), self.t) for q in ps]))

    def endswith(self, p, *a):
        if a:
            raise Unsupported("endswith with bounds")
        ps = p if isinstance(p, tuple) else (p,)
        return wrap(z3.Or(*[z3.SuffixOf(term(q), self.t) for q in ps]))

    def __contains__(self, p):
        return bool(wrap(z3.Contains(self.t, term(p))))

    def __add__(self, o):
        return SStr(z3.Concat(self.t, term(o))) if isinstance(o, builtins.str) else NotImplemented

    def __radd__(self, o):
        return SStr(z3.Concat(term(o), self.t)) if isinstance(o, builtins.str) else NotImplemented

    def _head(self, sep):
        i = z3.IndexOf(self.t, term(sep), 0)
        return i, z3.SubString(self.t, 0, i), z3.SubString(self.t, i + z3.Length(term(sep)), z3.Length(self.t))

    def partition(self, sep):
        if self.__contains__(sep):
            i, a, b = self._head(sep)
            return SStr(a), sep, SStr(b)
        return self, "", ""

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split at whitespace of a symbolic string")
        if not self.__contains__(sep):
            return [self]
        i, a, b = self._head(sep)
        if maxsplit == 1:
            return [SStr(a), SStr(b)]
        if maxsplit > 1:
            return [SStr(a)] + SStr(b).split(sep, maxsplit - 1)
        return _Split([SStr(a)])

    def lstrip(self, chars=None):
        if not isinstance(chars, builtins.str) or isinstance(chars, SStr) or len(chars) != 1:
            raise Unsupported("lstrip of several characters")
        if not bool(self.startswith(chars)):
            return self
        t = SStr(z3.SubString(self.t, 1, z3.Length(self.t)))
        if bool(t.startswith(chars)):
            raise Unsupported("repeated leading characters")
        return t

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return SStr(z3.SubString(self.t, z3.Length(term(p)), z3.Length(self.t)))
        return self

    def __len__(self):
        raise Unsupported("length of a symbolic string")

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step is None and isinstance(k.stop, (int, type(None))) and (k.start is None or (isinstance(k.start, int) and k.start >= 0)) and (k.stop is None or k.stop >= 0):
            a = k.start or 0
            n = z3.Length(self.t) if k.stop is None else z3.IntVal(max(0, k.stop - a))
            return SStr(z3.SubString(self.t, a, n))
        raise Unsupported("indexing a symbolic string")


class _Split(list):
    """the pieces of a split of unknown count: only the first is known"""

    def __getitem__(self, k):
        if k == 0:
            return list.__getitem__(self, 0)
        raise Unsupported("later pieces of a split")

    def _no(self, *a, **k):
        raise Unsupported("pieces of a split")
    __len__ = __iter__ = __contains__ = __eq__ = __bool__ = _no


def _deny(n):
    def f(self, *a, **k):
        raise Unsupported(f"str.{n} of a symbolic string")
    return f


for _n in dir(builtins.str):
    if _n not in SStr.__dict__ and _n not in ("__new__", "__init__", "__class__", "__getattribute__", "__setattr__", "__delattr__", "__doc__", "__init_subclass__", "__subclasshook__", "__dir__", "__sizeof__", "__reduce__", "__reduce_ex__"):
        setattr(SStr, _n, _deny(_n))


# membership, subscripts and .get with an arbitrary string as key (dict and set lookups need no hash then)
def member(a, b):
    if isinstance(a, SStr) and isinstance(b, (set, frozenset, dict, type({}.keys()))):
        for k in b:
            if isinstance(k, builtins.str) and bool(a == k):
                return True
        return False
    return a in b


def nonmember(a, b):
    return not member(a, b)


def item(o, k):
    if isinstance(k, SStr) and isinstance(o, dict):
        for q in o:
            if isinstance(q, builtins.str) and bool(k == q):
                return o[q]
        raise KeyError(k)
    return o[k]


def dget(o, *a, **k):
    if isinstance(o, dict) and a and isinstance(a[0], SStr):
        try:
            return item(o, a[0])
        except KeyError:
            return a[1] if len(a) > 1 else k.get("default")
    return o.get(*a, **k)
