"""Text assembled from arbitrary strings: f-strings, str.join and list literals with starred symbolic sequences.  A Text is a
sequence of parts (constant strings and terms of the string theory, or a join of a symbolic-length sequence); it can only be
extended, compared by the contracts, and handed to a writer — inspecting it is refused."""
from __future__ import annotations
import builtins
import z3
from . import core, seq, strs
from .core import SVal, Unsupported
from .strs import SStr


class Joined:
    def __init__(self, sep, items):
        self.sep, self.items = sep, items       # items: SymSeq


class Text:
    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Text):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if type(q) is builtins.str and out and type(out[-1]) is builtins.str:
                    out[-1] += q
                elif type(q) is builtins.str and not q:
                    continue
                else:
                    out.append(q)
        self.parts = out

    def __add__(self, o):
        return Text([self, o]) if isinstance(o, (builtins.str, Text)) else NotImplemented

    def __radd__(self, o):
        return Text([o, self]) if isinstance(o, (builtins.str, Text)) else NotImplemented

    def __repr__(self):
        return f"Text({self.parts!r})"

    def __str__(self):
        return repr(self)

    def __format__(self, spec):
        return repr(self)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} of an assembled text")

    def _no(self, *a):
        raise Unsupported("inspection of an assembled text")
    __eq__ = __ne__ = __lt__ = __len__ = __getitem__ = __contains__ = __iter__ = __bool__ = _no
    __hash__ = None


class Splice:
    """the elements of a symbolic sequence inside an otherwise concrete list"""

    def __init__(self, s):
        self.s = s

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("an element of a list with a symbolic stretch")


def textual(v):
    return isinstance(v, (SStr, Text)) or getattr(type(v), "__dv_text__", False)


CONV = {-1: lambda v: v, 115: builtins.str, 114: builtins.repr, 97: builtins.ascii}


def fstr(*pieces):
    if not any(isinstance(p, tuple) and textual(p[0]) for p in pieces):
        out = []
        for p in pieces:
            out.append(format(CONV[p[1]](p[0]), p[2]) if isinstance(p, tuple) else p)
        return "".join(out)
    out = []
    for p in pieces:
        if not isinstance(p, tuple):
            out.append(p)
            continue
        v, c, spec = p
        if textual(v):
            if c == 115:
                c = -1
            if c != -1 or spec:
                out.append(Text([]) if False else _refuse(f"formatting of a symbolic string with {chr(c) if c > 0 else ''}:{spec}"))
            out.append(v)
        else:
            out.append(format(CONV[c](v), spec))
    return Text(out)


def _refuse(m):
    raise Unsupported(m)


def unsplice(xs):
    """a list with Splice elements as one symbolic sequence"""
    segs, cur = [], []
    for x in xs:
        if isinstance(x, Splice):
            if cur:
                segs.append(cur)
            segs.append(x.s)
            cur = []
        else:
            cur.append(x)
    if cur or not segs:
        segs.append(cur)
    s = seq.as_symseq(segs[0])
    for t in segs[1:]:
        s = s + t
    s.segments = segs
    return s


def spliced(xs):
    return isinstance(xs, list) and any(isinstance(x, Splice) for x in xs)


def join(sep, *a, **k):
    if k or len(a) != 1 or not isinstance(sep, (builtins.str, Text)):
        return sep.join(*a, **k)
    xs = a[0]
    if isinstance(sep, (SStr, Text)):
        raise Unsupported("join with a symbolic separator")
    if spliced(xs):
        return Text([Joined(sep, unsplice(xs))])
    if seq.is_symbolic(xs):
        return Text([Joined(sep, seq.as_symseq(xs))])
    xs = list(xs)
    if any(textual(x) for x in xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.append(sep)
            out.append(x)
        return Text(out)
    return sep.join(xs)


def extend(obj, *a, **k):
    if type(obj) is list and len(a) == 1 and not k and seq.is_symbolic(a[0]):
        obj.append(Splice(seq.as_symseq(a[0]).copy()))
        return None
    if isinstance(obj, seq.SymSeq) and len(a) == 1 and not k and type(a[0]) in (list, tuple):
        for x in a[0]:
            obj.append(x)
        return None
    return obj.extend(*a, **k)


def lst(*items):
    """list literal with starred parts: (False, x) or (True, iterable)"""
    out = []
    for star, x in items:
        if not star:
            out.append(x)
        elif seq.is_symbolic(x):
            out.append(Splice(seq.as_symseq(x).copy()))
        else:
            out.extend(x)
    return out


# ------------------------------------------------------------------ for contracts
def parts(x):
    """parts of a text value without symbolic joins: constants and terms"""
    if isinstance(x, SStr):
        return [x]
    if isinstance(x, builtins.str):
        return [x] if x else []
    if isinstance(x, Text):
        return x.parts
    raise Unsupported(f"text parts of {type(x).__name__}")


def contains(x, s):
    """the text x contains the string s (an SStr occurring as one of its parts, or a constant inside a constant part)"""
    for p in parts(x):
        if isinstance(p, SStr) and isinstance(s, SStr) and p.t.eq(s.t):
            return True
        if type(p) is builtins.str and not isinstance(s, SStr) and s in p:
            return True
    return False


class Undecided(Exception):
    pass


def at(P, items, k):
    """items[k] without exploring alternatives: Undecided if the path does not determine which one it is"""
    c = P.ctx
    old = c.branch

    def br(cond, *a):
        if c.entails(cond):
            return True
        if c.entails(z3.Not(cond)):
            return False
        raise Undecided()
    c.branch = br
    try:
        return items.elem(k)
    finally:
        c.branch = old
