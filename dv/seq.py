"""Symbolic-length ranges and sequences."""
from __future__ import annotations
import z3
from . import core
from .core import I, SVal, SInt, wrap, lift, Unsupported, mkand


def dterm(x):
    return z3.IntVal(x) if isinstance(x, int) else lift(x)


class SymIter:
    """An iterable whose number of elements is symbolic: element k for 0 <= k with in_range(k)."""

    def in_range(self, k):      # -> Bool term (k is a z3 Int)
        raise NotImplementedError

    def elem(self, k):          # python value at index k
        raise NotImplementedError

    def count(self):            # z3 Int term
        raise NotImplementedError

    def __iter__(self):
        n = wrap(z3.simplify(self.count()))
        if isinstance(n, int):
            return iter([self.elem(z3.IntVal(i)) for i in range(n)])
        raise Unsupported("native iteration over a symbolic-length sequence")

    def __dv_len__(self):
        return wrap(self.count())

    def __bool__(self):
        return core.ctx().branch(self.count() > 0)


class SRange(SymIter):
    def __init__(self, start, stop, step):
        self.a, self.b, self.s = dterm(start), dterm(stop), dterm(step)
        c = core.ctx()
        if z3.is_int_value(self.s):
            if self.s.as_long() == 0:
                raise ValueError("range() arg 3 must not be zero")
            self.up = self.s.as_long() > 0
        elif c.entails(self.s > 0):
            self.up = True
        elif c.branch(self.s == 0, "range step zero"):
            raise ValueError("range() arg 3 must not be zero")
        else:
            self.up = c.branch(self.s > 0, "range step positive")

    def elem(self, k):
        from . import sums
        return wrap(sums.canon(self.a + k * self.s))

    def in_range(self, k):
        e = self.a + k * self.s
        return z3.And(k >= 0, e < self.b if self.up else e > self.b)

    def count(self):
        from . import sums
        d = (self.b - self.a) if self.up else (self.a - self.b)
        st = self.s if self.up else -self.s
        if z3.is_int_value(self.s) and abs(self.s.as_long()) == 1:
            n = sums.canon(d)
        else:
            n = core.fdiv_int(d + st - 1, st)
        return n if core.ctx().entails(n >= 0) else core.mkif(n >= 0, n, z3.IntVal(0))

    def __getitem__(self, i):
        return self.elem(dterm(i))

    def __repr__(self):
        return f"SRange({self.a},{self.b},{self.s})"


class SymSeq(SymIter):
    """A list/tuple of symbolic length n with element function."""

    def __init__(self, n, fn, name="seq", rng=None):
        self.n, self.fn, self.name, self.rng = dterm(n), fn, name, rng

    def elem(self, k):
        return self.fn(k)

    def in_range(self, k):
        if self.rng is not None:
            return self.rng(k)
        return z3.And(k >= 0, k < self.n)

    def count(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("strided slice of a symbolic list")
            from .tensor import clamp_index
            a = clamp_index(i.start, self.n, z3.IntVal(0))
            b = clamp_index(i.stop, self.n, self.n)
            ln = b - a
            if not core.ctx().entails(ln >= 0):
                ln = core.mkif(ln >= 0, ln, z3.IntVal(0))
            from . import sums
            return SymSeq(wrap(sums.canon(ln)), lambda k: self.fn(sums.canon(a + k)), self.name)
        from .tensor import norm_int_index
        return self.fn(norm_int_index(i, self.n))

    def __add__(self, o):
        o = as_symseq(o)
        n1 = self.n
        from . import sums
        return SymSeq(wrap(sums.canon(n1 + o.n)), lambda k: pick(k < n1, lambda: self.fn(k), lambda: o.fn(sums.canon(k - n1))))

    def __radd__(self, o):
        return as_symseq(o) + self

    def append(self, x):
        n1, f = self.n, self.fn
        from . import sums
        self.n = sums.canon(n1 + 1)
        self.fn = lambda k: pick(k < n1, lambda: f(k), lambda: x)

    def copy(self):
        return SymSeq(wrap(self.n), self.fn, self.name)

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


def pick(c, a, b):
    if core.ctx().branch(c):
        return a()
    return b()


def as_symseq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, (list, tuple)):
        xs = list(x)

        def fn(k):
            if z3.is_int_value(k):
                return xs[k.as_long()]
            for i, v in enumerate(xs[:-1]):
                if core.ctx().branch(k == i):
                    return v
            return xs[-1]
        return SymSeq(len(xs), fn)
    if isinstance(x, SymIter):
        return SymSeq(wrap(x.count()), x.elem)
    if getattr(x, "__dv_tensor__", False):
        return SymSeq(x.__dv_len__(), lambda k: x[wrap(k)])
    raise Unsupported(f"as_symseq({type(x).__name__})")


def repeat(xs, n):
    xs = list(xs)
    if len(xs) == 1:
        m = wrap(core.mkif(n.t >= 0, n.t, z3.IntVal(0)) if not core.ctx().entails(n.t >= 0) else n.t)
        return SymSeq(m, lambda k: xs[0])
    raise Unsupported("list repeat")


def is_symbolic(it):
    """Iterable with a symbolic number of elements?"""
    if isinstance(it, SymIter):
        return not z3.is_int_value(z3.simplify(it.count()))
    if getattr(it, "__dv_tensor__", False):
        return it.ndim > 0 and not isinstance(it.__dv_len__(), int)
    return False


class FCase:
    """One way an element of a filtered sequence comes about (or does not: kept False): at indices ks, under hyps.  levels: for
    each loop around it, (indices so far, conditions on entry, facts on entry, range of its last index)."""

    def __init__(self, ks, hyps, ufacts, val, kept, births=(), levels=()):
        self.levels = list(levels)
        self.ks, self.hyps, self.ufacts, self.val, self.kept, self.births = tuple(ks), list(hyps), list(ufacts), val, kept, tuple(births)


class FiltSeq(SymSeq):
    """The kept elements, in order, of a loop or comprehension that keeps some of them.  The cases cover every iteration; each
    holds its own indices, the conditions under which it happens and the element it yields.  How many are kept is not known."""

    def __init__(self, cases, n=None):
        self.cases = list(cases)
        self.n = core.fresh("kept", I) if n is None else n
        if n is None:
            core.ctx().assume(self.n >= 0)
        self.fn, self.name, self.rng = self._pick, "filtered", None

    def _pick(self, j):
        """some kept element: one of the cases at some indices"""
        from . import loops
        kept = [c for c in self.cases if c.kept]
        if not kept:
            raise core.Infeasible()
        c = core.ctx()
        while len(kept) > 1 and not c.decide(None, "which way the element came about"):
            kept.pop(0)
        q = kept[0]
        sub = loops.renaming(q)
        for h in q.hyps:
            c.assume(z3.substitute(h, *sub))
        return loops.subst_value(q.val, sub)

    def append(self, x):
        raise Unsupported("append to a filtered sequence")

    def __add__(self, o):
        raise Unsupported("concatenation of a filtered sequence")
    __radd__ = __add__

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a filtered sequence")
        return SymSeq.__getitem__(self, i)

    def copy(self):
        return FiltSeq(self.cases, self.n)


def choose_case(fs):
    """(for contracts) an arbitrary case of a filtered sequence, with its conditions assumed"""
    c = core.ctx()
    cs = list(fs.cases)
    if not cs:
        raise core.Infeasible()
    while len(cs) > 1 and not c.decide(None, "case of the filtered sequence"):
        cs.pop(0)
    for u in cs[0].ufacts:
        c.add_ufact(u)
    for h in cs[0].hyps:
        c.assume(h)
    if c.check([], c.branch_ms) == z3.unsat:
        raise core.Infeasible()
    return cs[0]


def coverage(fs):
    """(for contracts) the loops behind a filtered sequence: [(indices, conditions on entry, facts, range)] without repetitions"""
    out, seen = [], set()
    for q in fs.cases:
        for ks, hyps, uf, rng in q.levels:
            key = (tuple(k.get_id() for k in ks), tuple(h.get_id() for h in hyps), rng.get_id())
            if key not in seen:
                seen.add(key)
                out.append((ks, hyps, uf, rng))
    return out


class SymSet:
    """the set of the elements (strings) of a symbolic sequence"""

    def __init__(self, s):
        self.s = s
        i = next(core._counter)
        S = z3.StringSort()
        self.IN, self.W = z3.Function(f"IN!{i}", S, core.B), z3.Function(f"AT!{i}", S, I)

    def __dv_len__(self):
        raise Unsupported("size of a set of symbolic elements")

    def __bool__(self):
        return core.ctx().branch(self.s.count() > 0)

    def __iter__(self):
        raise Unsupported("iteration over a set of symbolic elements")

    def __contains__(self, x):
        from . import strs
        c = core.ctx()
        t = strs.term(x)
        e, w = self.IN(t), self.W(t)
        c.assume(z3.Implies(e, z3.And(self.s.in_range(w), strs.term(self.s.elem(w)) == t)))
        c.add_ufact(core.UFact(1, lambda j: z3.Implies(z3.And(self.s.in_range(j), strs.term(self.s.elem(j)) == t), e)))
        return c.branch(e)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"set.{n} of symbolic elements")
