"""Polynomial normal form, unbounded sums and the equality prover.

A sum over a finite set of integer tuples is a z3 application  sum!k(free parameters)  whose definition
(bound variables, guard, body) is kept in a registry.  Equality of two expressions with sums is proved by
the rules listed in RULES (each is a theorem about finite sums; see /verif/lean/SumRules.lean), with every
side condition discharged by the SMT solver.
"""
from __future__ import annotations
import itertools, time
from fractions import Fraction
import z3
from . import core
from .core import I, R, B, mkif, mkand, toreal, fresh, occurs, subterms, Unsupported

RULES = ["pointwise congruence on equal guards", "zero terms", "linearity and products (distributivity)",
         "nested sums are iterated sums (Fubini)", "splitting a guard by cases", "substitution of a bound variable "
         "determined by its guard (delta elimination)", "shift of a bound integer variable", "re-enumeration of a "
         "masked index set", "Euclidean digit splitting of a flattened index equality"]

# --------------------------------------------------------------------------- polynomials
_ATOMS: dict[int, z3.ExprRef] = {}
_KEEP: list = []            # keeps terms alive so that ids stay valid
_pcache: dict[int, dict] = {}
ONE = ()


def _atom(t):
    i = t.get_id()
    if i not in _ATOMS:
        _ATOMS[i] = t
    return {(i,): Fraction(1)}


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) * len(q) > 4000:
        raise Unsupported("polynomial too large")
    r = {}
    for m1, k1 in p.items():
        for m2, k2 in q.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + k1 * k2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


_INV: dict[int, int] = {}   # atom id of x -> atom id of 1/x  (and back)


def exact_quotient(t, n):
    """t / n as an integer term when n is an atom factor of every monomial of t, else None"""
    return _divide(poly(t), [next(iter(poly(n)))[0]])


def _divide(p, atoms):
    out = {}
    for m, c in p.items():
        ms = list(m)
        for a in atoms:
            if a not in ms:
                return None
            ms.remove(a)
        if c.denominator != 1 or any(_ATOMS[x].sort() != I for x in ms):
            return None
        out[tuple(ms)] = c
    return build(out, I)


def exact_real_quotient(t, n, d):
    """k with t = k * n / d, or None"""
    inv = next(iter(poly(z3.RealVal(1) / toreal(d))))
    if len(inv) != 1:
        return None
    return _divide(poly(t), [next(iter(poly(n)))[0], inv[0]])


def _mono_mul(m1, m2):
    ms = list(m1) + list(m2)
    # cancel x * (1/x) only when x is known non-zero: recorded in _INV with flag (never automatic)
    return tuple(sorted(ms))


def poly(t):
    i = t.get_id()
    p = _pcache.get(i)
    if p is not None:
        return p
    p = _poly(t)
    _KEEP.append(t)
    _pcache[i] = p
    return p


def _poly(t):
    if z3.is_int_value(t):
        v = Fraction(t.as_long())
        return {ONE: v} if v else {}
    if z3.is_rational_value(t):
        v = t.as_fraction()
        return {ONE: Fraction(v)} if v else {}
    if not z3.is_app(t):
        return _atom(t)
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(ch[0]), -1)
    if k == z3.Z3_OP_MUL:
        r = {ONE: Fraction(1)}
        try:
            for c in ch:
                r = pmul(r, poly(c))
        except Unsupported:
            return _atom(t)
        return r
    if k == z3.Z3_OP_TO_REAL:
        return poly(ch[0])
    if k == z3.Z3_OP_TO_INT:
        p = poly(ch[0])
        # floor(integer part + rest) = integer part + floor(rest)
        ip, rp = {}, {}
        for m, c in p.items():
            if c.denominator == 1 and all(_ATOMS[a].sort() == I for a in m):
                ip[m] = c
            else:
                rp[m] = c
        if not rp:
            return ip
        rt = build(rp, R)
        return padd(ip, _atom(z3.ToInt(rt)))
    if k == z3.Z3_OP_DIV:
        q = poly(ch[1])
        if set(q) == {ONE}:
            return padd({}, poly(ch[0]), 1 / q[ONE])
        if len(q) == 1:
            # c*m : inverse of a monomial is the product of the inverses (also under total division with 1/0 fixed)
            (m, c), = q.items()
            inv = {ONE: 1 / c}
            for a in m:
                inv = pmul(inv, _atom(z3.RealVal(1) / toreal(_ATOMS[a])))
            return pmul(poly(ch[0]), inv)
        d = build(q, R)
        try:
            return pmul(poly(ch[0]), _atom(z3.RealVal(1) / d))
        except Unsupported:
            return _atom(t)
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
        a, b = canon(ch[0]), canon(ch[1])
        if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() > 0:
            v = a.as_long() // b.as_long() if k == z3.Z3_OP_IDIV else a.as_long() % b.as_long()
            return {ONE: Fraction(v)} if v else {}
        if z3.is_int_value(b) and b.as_long() > 0:
            m = b.as_long()
            p = poly(a)
            if all(c.denominator == 1 for c in p.values()):
                rp = {mm: Fraction(int(c) % m) for mm, c in p.items() if int(c) % m}
                qp = {mm: Fraction(int(c) // m) for mm, c in p.items() if int(c) // m}
                if qp or m == 1:
                    if not rp:
                        return qp if k == z3.Z3_OP_IDIV else {}
                    rt = build(rp, I)
                    if z3.is_int_value(rt):
                        return qp if k == z3.Z3_OP_IDIV else ({ONE: Fraction(rt.as_long())} if rt.as_long() else {})
                    return padd(qp, _atom(rt / b)) if k == z3.Z3_OP_IDIV else _atom(rt % b)
        return _atom(a / b if k == z3.Z3_OP_IDIV else a % b)
    if k == z3.Z3_OP_POWER:
        return _atom(t)
    if k == z3.Z3_OP_ITE:
        c, a, b = canonb(ch[0]), canon(ch[1]), canon(ch[2])
        if z3.is_true(c):
            return poly(a)
        if z3.is_false(c):
            return poly(b)
        if a.get_id() == b.get_id():
            return poly(a)
        return _atom(_ite(c, a, b))
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        args = [canon(c) if c.sort() != B else canonb(c) for c in ch]
        return _atom(t.decl()(*args))
    return _atom(t)


def _ite(c, a, b):
    """canonical conditional: min/max form, positive orientation of the condition"""
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    k = c.decl().kind() if z3.is_app(c) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT) and z3.is_app(c) and c.arg(0).sort() in (I, R) and a.sort() in (I, R):
        pc = poly(c.arg(0))
        pa, pb = poly(a), poly(b)
        d = padd(pa, pb, -1)
        if c.arg(0).sort() == I and d:
            # integer comparisons may carry +1 from strictness: p <= 0 or p+1 <= 0
            opts = (pc, padd(pc, {ONE: Fraction(1)}, -1))
        else:
            opts = (pc,)
        for q in opts:
            if d and set(d) == set(q):
                m0 = next(iter(q))
                r = d[m0] / q[m0]
                if all(d[m] == r * q[m] for m in q):
                    x, y = (a, b) if a.get_id() < b.get_id() else (b, a)
                    le = canonb(x <= y)
                    if z3.is_true(le):
                        return x if r > 0 else y
                    if z3.is_false(le):
                        return y if r > 0 else x
                    return z3.If(le, x, y) if r > 0 else z3.If(le, y, x)
        if k == z3.Z3_OP_LT:
            c2 = canonb(z3.Not(c))
            return z3.If(c2, b, a)
        if c.arg(0).sort() == I:
            lead = pc[min(pc, key=lambda m: (-len(m), m))]
            if lead < 0:
                return z3.If(canonb(z3.Not(c)), b, a)
    return z3.If(c, a, b)


def build(p, sort):
    """Rebuild a z3 term of the given sort from a polynomial."""
    if not p:
        return z3.IntVal(0) if sort == I else z3.RealVal(0)
    parts = []
    for m in sorted(p, key=lambda m: (len(m), m)):
        c = p[m]
        fs = []
        for a in m:
            t = _ATOMS[a]
            fs.append(toreal(t) if sort == R else t)
        if sort == I:
            if c.denominator != 1:
                raise Unsupported("non-integer coefficient")
            cv = z3.IntVal(c.numerator)
        else:
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
        if not fs:
            parts.append(cv)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            parts.append(t if c == 1 else cv * t)
    r = parts[0]
    for x in parts[1:]:
        r = r + x
    return r


def canon(t):
    if t.sort() == B:
        return canonb(t)
    if t.sort() not in (I, R):
        return t
    try:
        r = build(poly(t), t.sort())
    except Unsupported:
        return t
    _KEEP.append(r)
    return r


_bcache: dict[int, z3.BoolRef] = {}


def canonb(t):
    i = t.get_id()
    r = _bcache.get(i)
    if r is not None:
        return r
    r = _canonb(t)
    _KEEP.append(t)
    _KEEP.append(r)
    _bcache[i] = r
    return r


def _canonb(t):
    if z3.is_true(t) or z3.is_false(t) or not z3.is_app(t):
        return t
    k = t.decl().kind()
    ch = t.children()
    if k == z3.Z3_OP_AND:
        out = []
        for c in map(canonb, ch):
            if z3.is_false(c):
                return c
            if not z3.is_true(c):
                out.append(c)
        return mkand(*out)
    if k == z3.Z3_OP_OR:
        return core.mkor(*map(canonb, ch))
    if k == z3.Z3_OP_NOT:
        c = canonb(ch[0])
        if z3.is_true(c):
            return z3.BoolVal(False)
        if z3.is_false(c):
            return z3.BoolVal(True)
        if z3.is_not(c):
            return c.arg(0)
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_LE:
            return canonb(c.arg(0) > c.arg(1))
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_LT:
            return canonb(c.arg(0) >= c.arg(1))
        return z3.Not(c)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or \
            (k == z3.Z3_OP_EQ and ch[0].sort() in (I, R)):
        try:
            p = padd(poly(ch[0]), poly(ch[1]), -1)
        except Unsupported:
            return t
        if set(p) <= {ONE}:
            v = p.get(ONE, Fraction(0))
            return z3.BoolVal({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0,
                               z3.Z3_OP_EQ: v == 0}[k])
        allint = all(_ATOMS[a].sort() == I for m in p for a in m)
        if allint:
            den = 1
            for c in p.values():
                den = den * c.denominator // __import__("math").gcd(den, c.denominator)
            p = {m: c * den for m, c in p.items()}
        s = I if allint else R
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            p = padd({}, p, -1)
        if k == z3.Z3_OP_EQ:
            lead = p[min(p, key=lambda m: (-len(m), m))]
            if lead < 0:
                p = padd({}, p, -1)
            return build(p, s) == 0
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if allint and strict:
            p = padd(p, {ONE: Fraction(1)})
            strict = False
        e = build(p, s)
        return e < 0 if strict else e <= 0
    if k == z3.Z3_OP_EQ and ch[0].sort() == B:
        return canonb(ch[0]) == canonb(ch[1])
    if k == z3.Z3_OP_ITE:
        return z3.If(canonb(ch[0]), canonb(ch[1]), canonb(ch[2]))
    if k == z3.Z3_OP_IMPLIES:
        return core.mkor(canonb(z3.Not(ch[0])), canonb(ch[1]))
    if k == z3.Z3_OP_UNINTERPRETED and ch:
        return t.decl()(*[canon(c) for c in ch])
    return t


# --------------------------------------------------------------------------- sums
class SumDef:
    def __init__(self, bvars, formals, guard, body):
        self.bvars, self.formals, self.guard, self.body = bvars, formals, guard, body


SUMS: dict[str, SumDef] = {}
_sum_cons: dict = {}
_BV = [z3.Int(f"bv!!{i}") for i in range(64)]


def mk_sum(bvars, guard, body):
    """Sum of body over all integer tuples bvars satisfying guard (guard must bound them)."""
    guard = canonb(guard)
    body = toreal(body)
    if z3.is_false(guard):
        return z3.RealVal(0)
    body = canon(body)
    if z3.is_rational_value(body) and body.as_fraction() == 0:
        return z3.RealVal(0)
    if not bvars:
        return mkif(guard, body, z3.RealVal(0))
    core.undecided(bvars)
    nb = _BV[:len(bvars)]
    # formals: all free constants other than the bound ones
    fc = {}
    fc.update(core.free_consts(guard))
    fc.update(core.free_consts(body))
    bn = {b.decl().name() for b in bvars}
    formals = [fc[n] for n in sorted(fc) if n not in bn]
    # avoid capture: if some formal is a canonical bound constant, go through fresh formals
    sub = [(b, n) for b, n in zip(bvars, nb)]
    actuals = list(formals)
    forms = []
    for f in formals:
        if f.decl().name().startswith("bv!!"):
            g = fresh("p", f.sort())
            sub.append((f, g))
            forms.append(g)
        else:
            forms.append(f)
    # canonical again: the order of terms follows their identities, which the substitution changed
    g2 = canonb(z3.substitute(guard, *sub))
    b2 = canon(z3.substitute(body, *sub))
    key = (len(bvars), g2.get_id(), b2.get_id())
    d = _sum_cons.get(key)
    if d is None:
        name = f"sum!{len(SUMS)}"
        d = z3.Function(name, *([f.sort() for f in forms]), R) if forms else z3.Const(name, R)
        SUMS[name] = SumDef(list(nb), forms, g2, b2)
        _KEEP.extend([g2, b2])
        _sum_cons[key] = d
    return d(*actuals) if forms else d


def is_sum(t):
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in SUMS


def expand(app):
    d = SUMS[app.decl().name()]
    bs = [fresh("b") for _ in d.bvars]
    sub = list(zip(d.bvars, bs)) + list(zip(d.formals, app.children()))
    return bs, z3.substitute(d.guard, *sub), z3.substitute(d.body, *sub)


def has_sum(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if is_sum(x):
            return True
        stack.extend(x.children())
    return False


# --------------------------------------------------------------------------- entries
class Entry:
    __slots__ = ("bv", "g", "body")

    def __init__(self, bv, g, body):
        self.bv, self.g, self.body = list(bv), list(g), body

    def guard(self):
        return mkand(*self.g)

    def __repr__(self):
        return f"Sum[{self.bv} | {self.g}] {self.body}"


def conj(g):
    g = canonb(g)
    out, stack = [], [g]
    while stack:
        x = stack.pop()
        if z3.is_and(x):
            stack.extend(reversed(x.children()))
        elif z3.is_not(x) and z3.is_or(x.arg(0)):
            stack.extend(canonb(z3.Not(c)) for c in reversed(x.arg(0).children()))
        elif z3.is_true(x):
            pass
        else:
            y = split_minmax(x)
            if y is not None:
                stack.extend(y)
            else:
                out.append(x)
    return out


def _min_parts(t):
    """t == If(c,a,b) recognised as min (returns ('min',a,b)) or max."""
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = t.children()
    if a.sort() == B:
        return None
    if c.get_id() == canonb(a <= b).get_id() or c.get_id() == canonb(a < b).get_id():
        return ("min", a, b)
    if c.get_id() == canonb(b <= a).get_id() or c.get_id() == canonb(b < a).get_id():
        return ("max", a, b)
    nc = canonb(z3.Not(c))
    if nc.get_id() in (canonb(a <= b).get_id(), canonb(a < b).get_id()):
        return ("max", a, b)
    if nc.get_id() in (canonb(b <= a).get_id(), canonb(b < a).get_id()):
        return ("min", a, b)
    return None


def split_minmax(x):
    """e <= 0 with e = r - min(a,b)  ->  r-a<=0, r-b<=0   (and dually for +max)."""
    if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT)):
        return None
    e = x.arg(0)
    p = padd(poly(e), poly(x.arg(1)), -1)
    for m, c in p.items():
        if len(m) == 1 and c in (1, -1):
            mp = _min_parts(_ATOMS[m[0]])
            if mp and ((c == -1 and mp[0] == "min") or (c == 1 and mp[0] == "max")):
                rest = padd(p, {m: c}, -1)
                out = []
                for z in mp[1:]:
                    q = padd(rest, poly(z), c)
                    s = I if all(_ATOMS[a].sort() == I for mm in q for a in mm) else R
                    t = build(q, s)
                    out.append(canonb(t < 0 if x.decl().kind() == z3.Z3_OP_LT else t <= 0))
                return out
    return None


def _alts(t):
    """t and t with a min in it replaced by either argument"""
    out = [canon(t)]
    p = poly(t)
    for m, c in p.items():
        if len(m) == 1:
            mp = _min_parts(_ATOMS[m[0]])
            if mp:
                for z in mp[1:]:
                    out.append(build(padd(padd(p, {m: c}, -1), poly(z), c), I))
    return out


def _strict(x):
    """polynomial p with  x <=> p > 0  for an integer inequality, else None"""
    if not (z3.is_app(x) and x.num_args() == 2 and x.arg(0).sort() == I):
        return None
    k = x.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        return None
    p = padd(poly(x.arg(1)), poly(x.arg(0)), -1)
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        p = {m: -c for m, c in p.items()}
    return padd(p, {(): Fraction(1)}) if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else p


def _is_zero(t):
    return (z3.is_rational_value(t) and t.as_fraction() == 0) or (z3.is_int_value(t) and t.as_long() == 0)


def entries(term, bvs=(), guards=(), depth=0):
    if depth > 40:
        raise Unsupported("sum nesting")
    p = poly(toreal(term))
    out, plain = [], {}
    for m, c in p.items():
        pick = None
        for pos, a in enumerate(m):
            t = _ATOMS[a]
            if is_sum(t):
                pick = (pos, "sum")
                break
        if pick is None:
            for pos, a in enumerate(m):
                t = _ATOMS[a]
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() != B:
                    x, y = t.arg(1), t.arg(2)
                    if _is_zero(x) or _is_zero(y) or has_sum(x) or has_sum(y):
                        pick = (pos, "if")
                        break
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                    pass
        if pick is None:
            plain[m] = c
            continue
        pos, kind = pick
        restp = {m[:pos] + m[pos + 1:]: c}
        rest = build(restp, R)
        t = _ATOMS[m[pos]]
        if kind == "sum":
            bs, g, body = expand(t)
            out += entries(rest * body, list(bvs) + bs, list(guards) + conj(g), depth + 1)
        else:
            cnd, x, y = t.children()
            if not _is_zero(x):
                g = conj(cnd)
                if not any(z3.is_false(z) for z in g):
                    out += entries(rest * toreal(x), bvs, list(guards) + g, depth + 1)
            if not _is_zero(y):
                g = conj(z3.Not(cnd))
                if not any(z3.is_false(z) for z in g):
                    out += entries(rest * toreal(y), bvs, list(guards) + g, depth + 1)
    if plain:
        out.append(Entry(bvs, guards, build(plain, R)))
    return out


def subst_entry(e, pairs, drop=()):
    bv = [b for b in e.bv if all(b.get_id() != d.get_id() for d in drop)]
    g = []
    for x in e.g:
        g += conj(z3.substitute(x, *pairs))
    return Entry(bv, dedup(g), canon(z3.substitute(e.body, *pairs)))


def dedup(g):
    seen, out = set(), []
    for x in g:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    return out


# enumerations of masked index sets: decl name of component function -> Enum
class Enum:
    def __init__(self, comps, inv, count, sizes, guard):
        self.comps, self.inv, self.count, self.sizes, self.guard = comps, inv, count, sizes, guard


ENUMS: dict[str, tuple] = {}


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _parity(c):
    """condition  x % m == r  with a unit-coefficient atom n of x: (n, m, r, x - n)"""
    if not (z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).sort() == I):
        return None
    p = padd(poly(c.arg(0)), poly(c.arg(1)), -1)
    ks = [m for m in p if m != ONE]
    if len(ks) != 1 or len(ks[0]) != 1 or p[ks[0]] not in (1, -1):
        return None
    t = _ATOMS[ks[0][0]]
    if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1))):
        return None
    m = t.arg(1).as_long()
    r = int(-p.get(ONE, 0) / p[ks[0]])
    x = poly(t.arg(0))
    for mm, cc in x.items():
        if len(mm) == 1 and cc == 1 and not any(mm[0] in o for o in x if o != mm):
            n = _ATOMS[mm[0]]
            rest = build(padd(x, {mm: Fraction(1)}, -1), I)
            if not occurs(n, rest):
                return n, m, r, rest
    return None


def ites(t, out=None, seen=None):
    """conditionals inside t (not below sums)"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if t.get_id() in seen or not z3.is_app(t):
        return out
    seen.add(t.get_id())
    if is_sum(t):
        return out
    if t.decl().kind() == z3.Z3_OP_ITE:
        out.append(t)
        return out
    for c in t.children():
        ites(c, out, seen)
    return out


def all_ites(t):
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            out.append(x)
        stack.extend(x.children())
    return out


def resolve_ites(t, cond, val):
    """t with every conditional on `cond` (syntactically) replaced by its branch"""
    subs = []
    nc = canonb(z3.Not(cond))
    for x in all_ites(t):
        if True:
            if x.arg(0).get_id() == cond.get_id():
                subs.append((x, x.arg(1) if val else x.arg(2)))
            elif x.arg(0).get_id() == nc.get_id():
                subs.append((x, x.arg(2) if val else x.arg(1)))
    return z3.substitute(t, *subs) if subs else t


_SA: dict[int, tuple] = {}


def _real_apps(t):
    r = _SA.get(t.get_id())
    if r is None or not r[0].eq(t):
        r = _SA[t.get_id()] = (t, [a for a in core.subterms(t) if a.decl().name() in ("SQRT", "SIN", "COS", "EXP", "SINC")])
    return r[1]


def same_args(facts, neg):
    """applications of the real functions whose arguments are the same polynomial: pairs to identify them syntactically"""
    by, seen = {}, set()
    for t in itertools.chain(facts, neg):
        for a in _real_apps(t):
            if a.get_id() not in seen:
                seen.add(a.get_id())
                by.setdefault(a.decl().name(), []).append(a)
    out = []
    for n, apps in by.items():
        if len(apps) < 2:
            continue
        reps = {}
        for a in apps:
            try:
                key = frozenset(poly(a.arg(0)).items())
            except Unsupported:
                continue
            b = reps.setdefault(key, a)
            if b is not a:
                out.append((a, b))
    return out


_NL: dict[int, tuple] = {}


def nonlinear(t):
    """a product, quotient or power of non-constants occurs in t"""
    e = _NL.get(t.get_id())
    if e is not None:
        return e[1]
    seen, stack, r = set(), [t], False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if not z3.is_app(x):
            r = True
            break
        kd = x.decl().kind()
        if kd == z3.Z3_OP_MUL and sum(1 for y in x.children() if not (z3.is_rational_value(y) or z3.is_int_value(y))) > 1 or \
                kd in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))):
            r = True
            break
        stack.extend(x.children())
    if len(_NL) > 60000:
        _NL.clear()
    _NL[t.get_id()] = (t, r)
    return r


def patient(s, ms):
    """check; the cancellation of an earlier query that ran into its time limit may hit this one: an early unknown is repeated"""
    s.set("timeout", int(ms))
    for _ in range(4):
        t0 = time.time()
        r = s.check()
        if r != z3.unknown or time.time() - t0 > ms / 2000:
            break
    return r


def try_twice(s, ms):
    """A goal left open is tried from the linear hypotheses alone, then (the search depends on the identities of the terms)
    in fresh contexts with other strategies and seeds."""
    fs = list(s.assertions())       # before the search: it may rewrite them
    r = patient(s, 2500)
    if r != z3.unknown:
        return r
    lin = [f for f in fs if not nonlinear(f)]
    if len(lin) < len(fs):
        s3 = z3.Solver()
        s3.add(*lin)
        if patient(s3, 2000) == z3.unsat:
            return z3.unsat
    for seed, old in ((0, True), (0, False), (1, False), (2, False), (3, None)):
        c = z3.Context()
        s2 = z3.Solver(ctx=c) if old is None else z3.SimpleSolver(ctx=c)
        s2.set("random_seed", seed)
        if old:
            s2.set("arith.solver", 2)
        for f in fs:
            s2.add(f.translate(c))
        if patient(s2, (ms - 2500) / 5) == z3.unsat:
            return z3.unsat
    return z3.unknown


class Prover:
    def __init__(self, ctx, ms=8000, budget=120.0):
        self.ctx, self.ms = ctx, ms
        self.deadline = time.time() + budget
        self.queries = 0
        self.time = 0.0
        self.last_model = None
        self.last_reason = ""
        self.trace = []

    # -- raw SMT
    def check(self, neg, ms=None, cands=()):
        """sat/unsat of ctx.hyps + neg (list)."""
        self.queries += 1
        t0 = time.time()
        ms = int(min(ms or self.ms, max(200, (self.deadline - t0) * 1000)))
        ctx = self.ctx
        facts = core.instantiate(list(core.GLOBAL_FACTS) + ctx.hyps, list(neg), ctx.ufacts,
                                 list(ctx.cands) + list(cands))
        facts = facts + mul_lemmas(list(neg) + facts)
        same = same_args(facts, neg)
        if same:
            facts = [z3.substitute(f, *same) for f in facts]
            neg = [z3.substitute(f, *same) for f in neg]
        s = z3.Solver()
        s.set("timeout", ms)
        for f in facts:
            s.add(f)
        for n in neg:
            s.add(n)
        r = patient(s, ms) if ms <= 2500 else try_twice(s, ms)
        if r == z3.sat:
            try:
                self.last_model = s.model()
            except z3.Z3Exception:
                self.last_model = None
        self.last_reason = str(r) if r != z3.unknown else f"unknown ({s.reason_unknown()})"
        self.time += time.time() - t0
        return r

    def valid(self, goal, hyps=(), ms=None, cands=()):
        goal = canonb(goal)
        if z3.is_true(goal):
            return True
        hs = list(hyps)
        return self.check(hs + [z3.Not(goal)], ms, cands) == z3.unsat

    # -- entry simplification
    def euclid(self, p, guards, cands):
        """P == 0 (integer polynomial) -> list of polynomials all == 0, by digit splitting; None if not applicable."""
        degs = {}
        for m in p:
            for a in set(m):
                if len(m) >= 2:
                    degs[a] = degs.get(a, 0) + 1
        for a in sorted(degs, key=lambda a: -degs[a]):
            n = _ATOMS[a]
            if n.sort() != I:
                continue
            q, r = {}, {}
            for m, c in p.items():
                if a in m:
                    mm = list(m)
                    mm.remove(a)
                    q[tuple(mm)] = c
                else:
                    r[m] = c
            if not q or not r:
                if q and not r:
                    if self.valid(n != 0, guards, 1500, cands):
                        return [q]
                continue
            try:
                rt = build(r, I)
            except Unsupported:
                continue
            if self.valid(z3.And(rt < n, -n < rt), guards, 3000, cands):
                out = []
                for x in (q, r):
                    y = self.euclid(x, guards, cands)
                    out += y if y else [x]
                return out
        return None

    def simplify(self, e):
        changed = True
        rounds = 0
        while changed and rounds < 30:
            rounds += 1
            changed = False
            # guards
            g2 = []
            for x in e.g:
                g2 += conj(x)
            e.g = dedup(g2)
            if any(z3.is_false(x) for x in e.g):
                return None
            for x in list(e.g):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_EQ and x.arg(0).sort() in (I, R):
                    p = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
                    if not all(_ATOMS[a].sort() == I for m in p for a in m):
                        continue
                    if any(len(m) >= 2 for m in p):
                        others = [y for y in e.g if y.get_id() != x.get_id()]
                        parts = self.euclid(p, others, [tuple(e.bv)])
                        if parts and not (len(parts) == 1 and parts[0] == p):
                            e.g = others + [canonb(build(q, I) == 0) for q in parts]
                            changed = True
                            break
                    b = self._solve(p, e.bv)
                    if b is not None:
                        bvar, val = b
                        others = [y for y in e.g if y.get_id() != x.get_id()]
                        e = subst_entry(Entry(e.bv, others, e.body), [(bvar, val)], drop=[bvar])
                        changed = True
                        break
            if changed:
                continue
            r = self._enum_rule(e)
            if r is not None:
                e = r
                changed = True
        return e

    def _solve(self, p, bvs):
        for b in bvs:
            i = b.get_id()
            m = (i,)
            c = p.get(m)
            if c is None or c not in (1, -1):
                continue
            if any(i in mm for mm in p if mm != m):
                continue
            rest = padd(p, {m: c}, -1)
            if any(occurs(b, _ATOMS[a]) for mm in rest for a in mm):
                continue
            val = build(padd({}, rest, -c), I)   # b = -rest/c
            return b, val
        return None

    def _enum_rule(self, e):
        for b in e.bv:
            used = None
            ok = True
            apps = []
            for t in [e.body] + e.g:
                for a in subterms(t):
                    if a.decl().name() in ENUMS and a.num_args() >= 1 and a.arg(a.num_args() - 1).get_id() == b.get_id():
                        apps.append(a)
            if not apps:
                continue
            en = ENUMS[apps[0].decl().name()][0]
            # range guard of b must be exactly 0 <= b < count(params)
            params = apps[0].children()[:-1]
            xs = [fresh("x") for _ in en.comps]
            pairs = [(c(*params, b), x) for c, x in zip(en.comps, xs)]
            cnt = en.count(*params) if params else en.count
            rng = [canonb(b >= 0), canonb(b < cnt)]
            ids = {r.get_id() for r in rng}
            rest = [x for x in e.g if x.get_id() not in ids]
            if len(rest) != len(e.g) - 2:
                continue
            ne = subst_entry(Entry(e.bv, rest, e.body), pairs)
            if any(occurs(b, t) for t in [ne.body] + ne.g):
                continue
            ne.bv = [y for y in ne.bv if y.get_id() != b.get_id()] + xs
            g = list(ne.g)
            for x, s in zip(xs, en.sizes(*params)):
                g += conj(z3.And(x >= 0, x < s))
            g += conj(en.guard(*params, *xs))
            ne.g = dedup(g)
            return ne
        return None

    def singletons(self, e):
        """Eliminate bound variables whose range holds a single value."""
        changed = True
        while changed:
            changed = False
            for b in list(e.bv):
                i = b.get_id()
                lows, ups = [], []
                for x in e.g:
                    if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT)) or x.arg(0).sort() != I:
                        continue
                    p = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
                    c = p.get((i,))
                    if c not in (1, -1) or any(i in m for m in p if m != (i,)):
                        continue
                    rest = padd(p, {(i,): c}, -1)
                    if any(occurs(b, _ATOMS[a]) or any(occurs(y, _ATOMS[a]) for y in e.bv) for m in rest for a in m):
                        continue
                    (lows if c == -1 else ups).append(rest)
                for lo in lows:
                    lt = build(lo, I)
                    hit = False
                    for up in ups:
                        d = padd(lo, up)          # lo <= b <= -up
                        if not d or self.valid(lt + build(up, I) >= 0, [], 1500):
                            hit = True
                            break
                    if hit:
                        e = self.simplify(subst_entry(Entry(e.bv, [canonb(lt <= b)] and e.g, e.body), [(b, lt)], drop=[b]))
                        if e is None:
                            return None
                        changed = True
                        break
                if changed:
                    break
        return e

    def zero_based(self, e):
        """Shift every bound variable with a single lower bound (free of bound variables) so that it starts at 0."""
        for b in list(e.bv):
            i = b.get_id()
            lows = []
            for x in e.g:
                if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_LE) or x.arg(0).sort() != I:
                    continue
                p = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
                if p.get((i,)) != -1 or any(i in m for m in p if m != (i,)):
                    continue
                rest = padd(p, {(i,): -1}, -1)
                if any(occurs(y, _ATOMS[a]) for y in e.bv for m in rest for a in m):
                    continue
                lows.append(rest)
            if len(lows) != 1 or not lows[0]:
                continue
            nb = fresh("z")
            _reg(nb)
            ne = subst_entry(e, [(b, build(padd(lows[0], {(nb.get_id(),): 1}), I))])
            ne.bv = [nb if y.get_id() == i else y for y in ne.bv]
            s = self.simplify(ne)
            if s is None:
                return ne
            e = s
        return e

    # -- variants
    def shift_variants(self, e):
        out = []
        seen = set()
        bids = {b.get_id(): b for b in e.bv}
        def polys():
            for t in [e.body] + e.g:
                for a in subterms(t):
                    if is_sum(a):
                        continue
                    for c in a.children():
                        if c.sort() == I:
                            yield c
        for c in polys():
            p = poly(c)
            for i, b in bids.items():
                k = p.get((i,))
                if k in (1, -1) and (len(p) > 1 or k == -1) and not any(i in m for m in p if m != (i,)):
                    rest = padd(p, {(i,): k}, -1)
                    if any(occurs(b, _ATOMS[a]) for m in rest for a in m):
                        continue
                    if not all(_ATOMS[a].sort() == I for m in rest for a in m):
                        continue
                    key = (i, k, tuple(sorted(rest.items())))
                    if key in seen:
                        continue
                    seen.add(key)
                    nb = fresh("s")
                    # p = k*b + rest = nb  ->  b = (nb - rest)/k
                    val = build(padd({(nb.get_id(),): k}, rest, -k), I) if _reg(nb) else None
                    ne = subst_entry(e, [(b, val)])
                    ne.bv = [nb if y.get_id() == i else y for y in e.bv]
                    out.append((ne, nb, rest))
        return out

    def determined(self, e, rest=None):
        """Remove bound variables that no longer occur in the body but are determined by the guard (k = (i-a) div c)."""
        for k in list(e.bv):
            if occurs(k, e.body):
                continue
            gk = [x for x in e.g if occurs(k, x)]
            og = [x for x in e.g if not occurs(k, x)]
            cands = []
            for x in gk:
                if x.decl().kind() not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                    continue
                p = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
                ki = k.get_id()
                qk = {}
                r = {}
                for m, c in p.items():
                    if ki in m:
                        mm = list(m)
                        mm.remove(ki)
                        qk[tuple(mm)] = c
                    else:
                        r[m] = c
                if len(qk) != 1:
                    continue
                (m, c), = qk.items()
                if c <= 0:
                    continue     # want  c*k*d + r <= 0, i.e. k*d*c <= -r : lower-bound on index
                try:
                    d = build(qk, I)
                    num = build(padd({}, r, -1), I)
                except Unsupported:
                    continue
                cands.append((d, num))
            for d, num in cands:
                k0 = core.IDIV(num, d) if not z3.is_int_value(d) else (num / d)
                if not z3.is_int_value(d) and not self.valid(d > 0, og + gk, 2000):
                    continue
                if self.valid(k == k0, og + gk, 4000):
                    ne = Entry([b for b in e.bv if b.get_id() != k.get_id()], og + [], e.body)
                    g = list(og)
                    for x in gk:
                        g += conj(z3.substitute(x, (k, k0)))
                    ne.g = dedup(g)
                    return ne
        return None

    def variants(self, e, depth=2):
        yield e
        if depth == 0 or time.time() > self.deadline:
            return
        for ne, nb, rest in self.shift_variants(e):
            s = self.simplify(ne)
            if s is None:
                continue
            d = self.determined(s)
            if d is not None:
                d2 = self.simplify(d)
                if d2 is not None:
                    yield from self.variants(d2, depth - 1)
            yield from self.variants(s, depth - 1) if depth > 1 else [s]

    # -- matching
    def range_cands(self, e):
        """index tuples for universal facts over boxes: every position takes the variables known to be below its size"""
        us = [u for u in self.ctx.ufacts if u.sizes is not None and u.n > 1]
        if not us:
            return []
        ps, keys = [], set()
        for h in list(e.g) + list(self.ctx.hyps):
            for x in conj(canonb(h)):
                p = _strict(x)
                if p is not None:
                    f = frozenset(p.items())
                    if f not in keys:
                        keys.add(f)
                        ps.append(p)
        out = []
        for u in us:
            opts = []
            for B in u.sizes:
                c = {}
                for q in _alts(B):
                    pb = poly(q)
                    for p in ps:
                        x = padd(pb, p, -1)                    # x < B is known; keep x when x >= 0 is known too
                        if x and () != x and frozenset(padd(x, {(): Fraction(1)}).items()) in keys:
                            t = build(x, I)
                            c[t.get_id()] = t
                opts.append(list(c.values()))
            n = 1
            for o in opts:
                n *= len(o)
            if 0 < n <= 64:
                out += [t for t in itertools.product(*opts)]
        return out

    def feasible(self, e):
        return self.check(list(e.g), 2500, [tuple(e.bv)] + self.range_cands(e)) != z3.unsat

    def zero(self, e):
        if not e.g and not e.bv:
            return self.valid(e.body == 0)
        return self.check(list(e.g) + [e.body != 0], 4000, [tuple(e.bv)] + self.range_cands(e)) == z3.unsat

    def match(self, e1, e2):
        if len(e1.bv) != len(e2.bv):
            return False
        perms = list(itertools.permutations(range(len(e1.bv)))) if len(e1.bv) <= 4 else [tuple(range(len(e1.bv)))]
        best = []
        for perm in perms:
            pairs = [(e2.bv[perm[i]], e1.bv[i]) for i in range(len(perm))]
            b2 = canon(z3.substitute(e2.body, *pairs)) if pairs else e2.body
            g2 = [canonb(z3.substitute(x, *pairs)) for x in e2.g] if pairs else e2.g
            syn = canon(e1.body).get_id() == b2.get_id()
            if not syn and not padd(poly(e1.body), poly(b2), -1):
                syn = True
            best.append((0 if syn else 1, b2, g2))
        best.sort(key=lambda z: z[0])
        if best and best[0][0] == 0:
            best = [z for z in best if z[0] == 0]
        d1 = {a.decl().name() for a in subterms(e1.body)}
        for syn, b2, g2 in best:
            if time.time() > self.deadline:
                return False
            G1, G2 = mkand(*e1.g), mkand(*g2)
            cd = [tuple(e1.bv)]
            # guard equivalence
            if {x.get_id() for x in e1.g} != {x.get_id() for x in g2}:
                ids1 = {x.get_id() for x in e1.g}
                ids2 = {x.get_id() for x in g2}
                miss2 = [x for x in g2 if x.get_id() not in ids1]
                miss1 = [x for x in e1.g if x.get_id() not in ids2]
                if miss2 and not self.valid(mkand(*miss2), e1.g, None, cd):
                    continue
                if miss1 and not self.valid(mkand(*miss1), g2, None, cd):
                    continue
            if syn == 0:
                return True
            if self.body_eq(e1.body, b2, list(e1.g), cd):
                return True
        return False

    def body_eq(self, a, b, hyps, cands=()):
        if not padd(poly(a), poly(b), -1):
            return True
        if self.grouped(a, b, hyps, cands):
            return True
        if self.valid(a == b, hyps, min(self.ms, 4000), cands):
            return True
        return self.congr(a, b, hyps, cands)

    def grouped(self, a, b, hyps, cands=(), depth=0):
        """a == b by cases on the conditions of conditionals (innermost first; parity conditions are substituted), after
        cancelling provably non-zero divisors, then coefficientwise over the real-valued atoms."""
        a, b = canon(a), canon(b)
        d = padd(poly(a), poly(b), -1)
        if not d:
            return True
        if time.time() > self.deadline:
            return False
        its = [x for m in d for k in m for x in all_ites(_ATOMS[k])]
        inner = [x for x in its if not all_ites(x.arg(0))] or its
        if inner:
            if depth > 8:
                return False
            # parity conditions first
            par = [x for x in inner if _parity(x.arg(0)) is not None]
            c = (par or inner)[0].arg(0)
            if self.valid(c, hyps, 800, cands):
                return self.grouped(resolve_ites(a, c, True), resolve_ites(b, c, True), hyps, cands, depth + 1)
            if self.valid(z3.Not(c), hyps, 800, cands):
                return self.grouped(resolve_ites(a, c, False), resolve_ites(b, c, False), hyps, cands, depth + 1)
            for val in (True, False):
                hs = list(hyps) + [canonb(c if val else z3.Not(c))]
                a2, b2 = (resolve_ites(t, c, val) for t in (a, b))
                pv = _parity(c)
                if pv is not None:
                    n, m, r, rest = pv      # condition: n + rest = r (mod m)
                    if val or m == 2:
                        q = fresh("q")
                        _reg(q)
                        val_n = canon(m * q + (r if val else 1 - r) - rest)
                        a2, b2 = (canon(z3.substitute(canon(t), (n, val_n))) for t in (a2, b2))
                        hs = [canonb(z3.substitute(canonb(h), (n, val_n))) for h in hs] + [n == val_n]
                if not self.grouped(a2, b2, hs, cands, depth + 1):
                    return False
            return True
        d = self.cancel(d, hyps, cands)
        if not d:
            return True
        groups = {}
        for m, c in d.items():
            ints = tuple(x for x in m if _ATOMS[x].sort() == I)
            reals = tuple(x for x in m if _ATOMS[x].sort() != I)
            groups.setdefault(reals, {})[ints] = c
        ok = True
        for g in groups.values():
            if set(g) == {()}:
                ok = False      # a single real coefficient that did not cancel
                break
            den = 1
            for c in g.values():
                den = den * c.denominator // _gcd(den, c.denominator)
            try:
                t = build({m: c * den for m, c in g.items()}, I)
            except Unsupported:
                ok = False
                break
            if not self.valid(t == 0, hyps, 3000, cands):
                ok = False
                break
        if ok:
            return True
        return self.congr(build(d, R), z3.RealVal(0), hyps, cands)

    def cancel(self, d, hyps, cands=()):
        """x * (1/x) -> 1 for provably non-zero atoms x"""
        again = True
        while again and d:
            again = False
            for m in d:
                for k in m:
                    t = _ATOMS[k]
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
                        den = poly(t.arg(1))
                        if len(den) == 1:
                            (dm, dc), = den.items()
                            if len(dm) == 1 and dm[0] in m and self.valid(t.arg(1) != 0, hyps, 1500, cands):
                                nd = {}
                                for mm, c in d.items():
                                    ml = list(mm)
                                    while k in ml and dm[0] in ml:
                                        ml.remove(k)
                                        ml.remove(dm[0])
                                        c = c / dc
                                    nd = padd(nd, {tuple(ml): c})
                                d = nd
                                again = True
                                break
                if again:
                    break
        return d

    def congr(self, a, b, hyps, cands=(), depth=0):
        """Equality of polynomials up to provably equal atoms: unify differing atoms pairwise."""
        if depth > 6:
            return False
        d = padd(poly(a), poly(b), -1)
        if not d:
            return True
        atoms = []
        seen = set()
        for m in d:
            for x in m:
                if x not in seen:
                    seen.add(x)
                    atoms.append(_ATOMS[x])
        heads = {}
        for t in atoms:
            if z3.is_app(t) and t.num_args() > 0:
                key = (t.decl().name(), t.decl().kind(), t.num_args(), t.sort().name())
                heads.setdefault(key, []).append(t)
        for key, ts in heads.items():
            for x, y in itertools.combinations(ts, 2):
                if key[1] == z3.Z3_OP_UNINTERPRETED:
                    if is_sum(x):
                        ok = all(z3.eq(p, q) or self.valid(p == q, hyps, 3000, cands) for p, q in zip(x.children(), y.children()))
                    else:
                        ok = all(z3.eq(p, q) or self.valid(p == q, hyps, 3000, cands)
                                 for p, q in zip(x.children(), y.children()))
                elif key[1] == z3.Z3_OP_DIV:
                    ok = self.congr(x.arg(0), y.arg(0), hyps, cands, depth + 1) and \
                        self.congr(x.arg(1), y.arg(1), hyps, cands, depth + 1)
                elif key[1] in (z3.Z3_OP_ITE, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                    ok = self.valid(x == y, hyps, 3000, cands)
                else:
                    continue
                if ok:
                    a2 = canon(z3.substitute(a, (y, x)))
                    b2 = canon(z3.substitute(b, (y, x)))
                    if a2.get_id() == a.get_id() and b2.get_id() == b.get_id():
                        continue
                    return self.congr(a2, b2, hyps, cands, depth + 1)
        # conditionals: decide their conditions under the hypotheses
        for t in atoms:
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                if self.valid(c, hyps, 2000, cands):
                    r = t.arg(1)
                elif self.valid(z3.Not(c), hyps, 2000, cands):
                    r = t.arg(2)
                else:
                    continue
                return self.congr(canon(z3.substitute(a, (t, r))), canon(z3.substitute(b, (t, r))), hyps, cands, depth + 1)
        if depth > 0:
            return self.valid(a == b, hyps, None, cands)
        return False

    def prove_eq(self, a, b, hyps=()):
        a, b = toreal(a), toreal(b)
        if not padd(poly(a), poly(b), -1):
            return True
        if not (has_sum(a) or has_sum(b)):
            return self.body_eq(a, b, list(hyps))
        hs = list(hyps)
        saved = list(self.ctx.hyps)
        self.ctx.hyps = saved + hs
        try:
            return self._prove_eq(a, b)
        finally:
            self.ctx.hyps = saved

    def _prove_eq(self, a, b):
        d = build(padd(poly(a), poly(b), -1), R)
        # keep the sides apart (signs): entries of a and of b
        E1 = [x for x in (self.simplify(e) for e in entries(a)) if x is not None]
        E2 = [x for x in (self.simplify(e) for e in entries(b)) if x is not None]
        E1 = [x for x in E1 if not _is_zero(x.body)]
        E2 = [x for x in E2 if not _is_zero(x.body)]
        self.trace.append(("lhs", [str(x)[:2000] for x in E1]))
        self.trace.append(("rhs", [str(x)[:2000] for x in E2]))
        un1, left = [], list(E2)
        for e1 in E1:
            hit = None
            for e2 in left:
                if self.match(e1, e2):
                    hit = e2
                    break
            if hit is None:
                un1.append(e1)
            else:
                left.remove(hit)
        # infeasible / zero
        un1 = [e for e in un1 if not self.zero(e)]
        left = [e for e in left if not self.zero(e)]
        if un1 or left:
            un1 = [y for y in (self.singletons(e) for e in un1) if y is not None]
            left = [y for y in (self.singletons(e) for e in left) if y is not None]
            for e1 in list(un1):
                for e2 in left:
                    if self.match(e1, e2):
                        un1.remove(e1)
                        left.remove(e2)
                        break
        if un1 or left:
            un1 = [self.zero_based(e) for e in un1]
            left = [self.zero_based(e) for e in left]
            for e1 in list(un1):
                for e2 in left:
                    if self.match(e1, e2):
                        un1.remove(e1)
                        left.remove(e2)
                        break
        # transformed matching
        still = []
        for e1 in un1:
            hit = None
            for v1 in self.variants(e1):
                for e2 in left:
                    for v2 in itertools.islice(self.variants(e2, 1), 6):
                        if len(v1.bv) == len(v2.bv) and self.match(v1, v2):
                            hit = e2
                            break
                    if hit is not None:
                        break
                if hit is not None:
                    break
            if hit is None:
                still.append(e1)
            else:
                left.remove(hit)
        if not still and not left:
            return True
        # pointwise totals per number of bound variables
        def total(es, xs, perm_of):
            t = z3.RealVal(0)
            for e in es:
                pairs = [(e.bv[i], xs[j]) for j, i in enumerate(perm_of(e))]
                bd = z3.substitute(e.body, *pairs) if pairs else e.body
                g = z3.substitute(mkand(*e.g), *pairs) if pairs else mkand(*e.g)
                t = t + mkif(g, bd, z3.RealVal(0))
            return t
        ns = {len(e.bv) for e in still + left}
        for n in sorted(ns):
            xs = [fresh("x") for _ in range(n)]
            l1 = [e for e in still if len(e.bv) == n]
            l2 = [e for e in left if len(e.bv) == n]
            ident = lambda e: range(n)
            if self.valid(total(l1, xs, ident) == total(l2, xs, ident), (), None, [tuple(xs)]):
                still = [e for e in still if len(e.bv) != n]
                left = [e for e in left if len(e.bv) != n]
        self.trace.append(("unmatched lhs", [str(x)[:3000] for x in still]))
        self.trace.append(("unmatched rhs", [str(x)[:3000] for x in left]))
        return not still and not left


def _reg(t):
    _ATOMS.setdefault(t.get_id(), t)
    _KEEP.append(t)
    return True


def mul_lemmas(facts, cap=60):
    """Monotonicity instances for integer products with a common factor (true statements about integers)."""
    prods = {}
    seen, stack = set(), list(facts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and x.sort() == I:
                fs = [c for c in x.children() if not z3.is_int_value(c)]
                flat = []
                for f in fs:
                    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_MUL:
                        flat += [c for c in f.children() if not z3.is_int_value(c)]
                    else:
                        flat.append(f)
                if len(flat) == 2:
                    u, v = flat
                    if z3.is_app(u) and z3.is_app(v):
                        prods.setdefault(u.get_id(), (u, {}))[1][v.get_id()] = v
                        prods.setdefault(v.get_id(), (v, {}))[1][u.get_id()] = u
            stack.extend(x.children())
    out = []
    for d, xs in prods.values():
        xs = list(xs.values())
        for x, y in itertools.combinations(xs, 2):
            if len(out) > cap:
                return out
            out.append(z3.Implies(z3.And(d > 0, x < y), d * x + d <= d * y))
            out.append(z3.Implies(z3.And(d > 0, y < x), d * y + d <= d * x))
        for x in xs:
            if len(out) > cap:
                return out
            out.append(z3.Implies(z3.And(d > 0, x > 0), d * x >= d))
            out.append(z3.Implies(z3.And(d > 0, x < 0), d * x <= -d))
    return out
