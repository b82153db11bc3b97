"""Symbolic scalars, path exploration and the obligation prover.

Floats are mathematical reals, ints mathematical integers.  CPython itself executes the code under
verification; values whose content is not fixed are wrapped z3 terms.  A truth test of an undecided
condition becomes a path decision; all paths are explored by re-execution.
"""
from __future__ import annotations
import itertools, time
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 7)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(BaseException):
    """The code uses something the verifier has no semantics for: undecided, never 'proved'."""


class Infeasible(BaseException):
    """The current path has contradictory assumptions."""


class PathLimit(Unsupported):
    pass


class PathEnd(Infeasible):
    """The path ends here with its obligations recorded (preservation of a loop invariant)."""


# current loop iterations: (loop identity, index term, [draw count])
ITER: list = []
_DRAWS: dict = {}


class iteration:
    def __init__(self, site, k):
        self.e = (site, k, [0])

    def __enter__(self):
        ITER.append(self.e)

    def __exit__(self, *a):
        ITER.pop()


def draw(tag, lo, hi, sort=None):
    """An arbitrary value of [min(lo,hi), max(lo,hi)], fixed for this program point of this iteration of the surrounding loops."""
    sort = R if sort is None else sort
    args = [k for _, k, _ in ITER]
    cnt = ITER[-1][2] if ITER else _DRAWS.setdefault("#", [0])
    cnt[0] += 1
    key = (tag, tuple(s for s, _, _ in ITER), cnt[0], lo.get_id(), hi.get_id(), sort.name())
    ent = _DRAWS.get(key)
    if args and ent is None:
        own = {k.decl().name() for k in args if z3.is_app(k)}
        for b in (lo, hi):
            for a in subterms(b):
                n = a.decl().name()
                if n.startswith("h_") or n.startswith("H!") or ("!" in n and n.rsplit("!", 1)[-1].isdigit() and not n.startswith("draw:") and len(ITER) > 1 and
                                                                  int(n.rsplit("!", 1)[-1]) >= ctx().birth and n not in own):
                    raise Unsupported("range of a draw depends on loop-carried values")
    if ent is None:
        syms = [k for k in args]
        fact = lambda u, l, h: z3.And(u >= z3.If(l <= h, l, h), u <= z3.If(l <= h, h, l))
        if not args:
            u = fresh(tag, sort)
            ent = (None, u, (lo, hi))
        else:
            f = fresh_fn('draw:' + tag, len(args), sort)
            AXIOMS[f.name()] = lambda u: [fact(u, *(z3.substitute(x, *zip(syms, u.children())) for x in (lo, hi)))]
            ent = (f, None, (lo, hi, syms))
        _DRAWS[key] = ent
    if ent[0] is None:
        ctx().assume(z3.And(ent[1] >= z3.If(lo <= hi, lo, hi), ent[1] <= z3.If(lo <= hi, hi, lo)))
        return ent[1]
    return ent[0](*args)


# --------------------------------------------------------------------------- fresh names
_counter = itertools.count()


def fresh(name, sort=I):
    return z3.Const(f"{name}!{next(_counter)}", sort)


def fresh_fn(name, nargs, ran=R, dom=I):
    return z3.Function(f"{name}!{next(_counter)}", *([dom] * nargs), ran)


# --------------------------------------------------------------------------- attached axioms
AXIOMS: dict[str, callable] = {}   # decl name -> fn(app) -> list of BoolRef


def axiom_for(decl, gen):
    AXIOMS[decl.name()] = gen


SQRT = z3.Function("SQRT", R, R)
SIN = z3.Function("SIN", R, R)
COS = z3.Function("COS", R, R)
EXP = z3.Function("EXP", R, R)
SINC = z3.Function("SINC", R, R)
ATAN2 = z3.Function("ATAN2", R, R, R)
POW = z3.Function("POW", R, I, R)      # real base, integer exponent
POW2 = z3.Function("POW2", I, I)
BITLEN = z3.Function("BITLEN", I, I)
IDIV = z3.Function("IDIV", I, I, I)    # floor division, symbolic divisor
PI = z3.Real("PI")


def _ax_sqrt(a):
    x = a.arg(0)
    s = SQRT(x)
    return [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), z3.Implies(x > 0, s > 0)]


def _ax_sin(a):
    x = a.arg(0)
    return [SIN(x) * SIN(x) + COS(x) * COS(x) == 1, SIN(x) <= 1, SIN(x) >= -1, COS(x) <= 1, COS(x) >= -1,
            z3.Implies(x == 0, z3.And(SIN(x) == 0, COS(x) == 1))]


def _ax_pow(a):
    b, n = a.arg(0), a.arg(1)
    p = POW(b, n)
    return [z3.Implies(n == 0, p == 1), z3.Implies(n == 1, p == b),
            z3.Implies(z3.And(b >= 0, n >= 0), p >= 0),
            z3.Implies(z3.And(b >= 0, b <= 1, n >= 0), p <= 1),
            z3.Implies(z3.And(b == 0, n > 0), p == 0), z3.Implies(b == 1, p == 1)]


def _ax_pow2(a):
    n = a.arg(0)
    return [POW2(n) >= 1]


def _ax_bitlen(a):
    x = a.arg(0)
    b = BITLEN(x)
    return [b >= 0, z3.Implies(x >= 0, x < POW2(b)), z3.Implies(x == 0, b == 0),
            z3.Implies(x > 0, POW2(b) <= 2 * x)]


def _ax_idiv(a):
    x, d = a.arg(0), a.arg(1)
    q = IDIV(x, d)
    return [z3.Implies(d > 0, z3.And(d * q <= x, x < d * q + d)),
            z3.Implies(z3.And(d > 0, x >= 0), q >= 0)]


def _ax_exp(a):
    return [a > 0]


def _ax_sinc(a):
    return [a <= 1, z3.Implies(a.arg(0) == 0, a == 1)]


AXIOMS.update({"SQRT": _ax_sqrt, "SIN": _ax_sin, "COS": _ax_sin, "POW": _ax_pow, "POW2": _ax_pow2,
               "BITLEN": _ax_bitlen, "IDIV": _ax_idiv, "EXP": _ax_exp, "SINC": _ax_sinc})
GLOBAL_FACTS = [PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.14160")]


# --------------------------------------------------------------------------- term utilities
_apps_cache: dict[int, tuple] = {}


def subterms(t, acc=None):
    """All distinct uninterpreted applications in t (arity > 0), iteratively."""
    seen, out, stack = set(), [], [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            stack.extend(x.children())
    return out


def apps(t):
    """[(application, id, name)] of subterms(t), remembered (the entry keeps t alive, so its id stays its own)"""
    i = t.get_id()
    e = _apps_cache.get(i)
    if e is None:
        if len(_apps_cache) > 60000:
            _apps_cache.clear()
        e = _apps_cache[i] = (t, [(a, a.get_id(), a.decl().name()) for a in subterms(t)])
    return e[1]


def free_consts(t):
    seen, out, stack = set(), {}, [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.decl().name()] = x
            else:
                stack.extend(x.children())
    return out


def undecided(vs):
    """The generalisation over the constants vs is sound only if no decision on this path is about them."""
    names = {v.decl().name() for v in vs}
    c = ctx()
    for n, _ in c.notes[c.__dict__.get("notes_ok", 0):]:
        if n is not None and z3.is_expr(n) and names & _note_names(n):
            raise Unsupported("a path decision depends on a quantified variable")


_NN: dict = {}


def _note_names(t):
    r = _NN.get(t.get_id())
    if r is None or not r[0].eq(t):
        r = _NN[t.get_id()] = (t, set(free_consts(t)))
    return r[1]


def occurs(c, t):
    """Does constant/term c occur in t?"""
    cid = c.get_id()
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == cid:
            return True
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


def decl_occurs(decl, t):
    n = decl.name()
    return any(a.decl().name() == n for a in subterms(t))


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def realval(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def mkif(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.get_id() == b.get_id():
        return a
    return z3.If(c, a, b)


def mkand(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return z3.BoolVal(False)
            continue
        if z3.is_false(c):
            return c
        if z3.is_true(c):
            continue
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def mkor(*cs):
    out = []
    for c in cs:
        if z3.is_true(c):
            return c
        if z3.is_false(c):
            continue
        out.append(c)
    if not out:
        return z3.BoolVal(False)
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def toreal(t):
    if t.sort() == R:
        return t
    if t.sort() == B:
        return mkif(t, z3.RealVal(1), z3.RealVal(0))
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


def toint_floor(t):
    if t.sort() == I:
        return t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t):
        f = t.as_fraction()
        return z3.IntVal(f.numerator // f.denominator)
    if NAMED_DIV:
        from . import sums
        for n, d, w in NAMED_DIV:
            k = sums.exact_real_quotient(t, n, d)
            if k is not None:
                return w(k)
    for hook in FLOOR_HOOKS:
        r = hook(t)
        if r is not None:
            return r
    return z3.ToInt(t)


def term_eq_syn(a, b):
    return a.get_id() == b.get_id()


# --------------------------------------------------------------------------- universal facts
class UFact:
    """forall x1..xn (Int): fn(x1..xn).  Instantiated at prove time at candidate index tuples."""

    def __init__(self, n, fn, triggers=(), name="", sizes=None):
        self.n, self.fn, self.triggers, self.name, self.sizes = n, fn, tuple(triggers), name, sizes


# --------------------------------------------------------------------------- context
class Ctx:
    instantiating = False

    def __init__(self, prefix=(), branch_ms=1500):
        self.hyps: list = []
        self.ufacts: list[UFact] = []
        self.prefix = list(prefix)
        self.pos = 0
        self.pending: list = []          # alternative prefixes
        self.taken: list = []
        self.notes: list = []            # human-readable decisions
        self.safety: list = []           # (label, term) side obligations (e.g. non-zero divisors)
        self.frame: list = []            # writes to frozen storage
        self.branch_ms = branch_ms
        self._solver = None
        self._solver_n = 0
        self._insts: set = set()
        self.cands: list = []            # candidate index tuples for universal facts
        self.storages: list = []
        self.log: list = []              # ghost event log (effects)
        self.stats = {"branch_queries": 0}
        self.depth = 0
        self.birth = next(_counter)
        self.death = 1 << 60
        self.max_unroll = 12
        self.opts = {}

    # -- assumptions
    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.hyps.append(c)

    def add_ufact(self, u):
        self.ufacts.append(u)

    def oblige(self, label, goal):
        """Side obligation at this program point (checked with the assumptions made so far)."""
        g = sums_canonb(goal)
        if z3.is_true(g):
            return
        self.safety.append((label, goal, list(self.hyps), list(self.ufacts)))

    def solver_for(self, extra):
        """A solver holding hyps + extra + all axiom/ufact instances they trigger."""
        s = z3.Solver()
        if self.instantiating:
            facts = list(self.hyps)        # a fact being built asks a question: answer it from the plain hypotheses
        else:
            self.instantiating = True
            try:
                facts = instantiate(list(GLOBAL_FACTS) + self.hyps, extra, self.ufacts, self.cands)
            finally:
                self.instantiating = False
        ref, sol = s.ctx.ref(), s.solver
        for f in facts:
            if isinstance(f, z3.ExprRef):
                z3.Z3_solver_assert(ref, sol, f.as_ast())
            else:
                s.add(f)
        return s

    def check(self, extra, ms):
        self.stats["branch_queries"] += 1
        s = self.solver_for(extra)
        s.set("timeout", ms)
        for e in extra:
            s.add(e)
        return s.check()

    def entails(self, c, ms=None):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check([z3.Not(c)], ms or self.branch_ms) == z3.unsat

    def branch(self, c, note=""):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c0 = z3.simplify(c)
        if z3.is_true(c0):
            return True
        if z3.is_false(c0):
            return False
        rt = self.check([c], self.branch_ms)
        if rt == z3.unsat:
            rf = self.check([z3.Not(c)], self.branch_ms)
            if rf == z3.unsat:
                raise Infeasible()
            self.hyps.append(z3.Not(c))
            return False
        rf = self.check([z3.Not(c)], self.branch_ms)
        if rf == z3.unsat:
            self.hyps.append(c)
            return True
        return self.decide(c, note)

    def decide(self, c, note="", neg=None):
        """Unconditional binary decision: True assumes c, False assumes neg (default Not(c))."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.pending.append(self.taken + [False])
            if len(self.taken) > 400:
                raise PathLimit("too many decisions on one path")
        self.pos += 1
        self.taken.append(d)
        self.notes.append((c, d))
        if d:
            if c is not None:
                self.hyps.append(c)
        else:
            n = neg if neg is not None else (z3.Not(c) if c is not None else None)
            if n is not None:
                self.hyps.append(n)
        return d


def instantiate(base, extra, ufacts, cands, limit=4000):
    """base + attached-axiom instances + universal-fact instances (closure)."""
    out = list(base)
    work = list(base) + list(extra)
    seen_terms, seen_apps, seen_inst = set(), set(), set()
    rounds = 0
    cand_list = [tuple(c) for c in cands]
    for u in ufacts:
        for c in cand_list:
            if len(c) == u.n:
                key = (id(u), tuple(x.get_id() for x in c))
                if key not in seen_inst:
                    seen_inst.add(key)
                    f = u.fn(*c)
                    out.append(f)
                    work.append(f)
    trig = {}
    for u in ufacts:
        for (dn, pos) in u.triggers:
            trig.setdefault(dn, []).append((u, pos))
    while work and len(out) < limit:
        rounds += 1
        nxt = []
        for t in work:
            tid = t.get_id()
            if tid in seen_terms:
                continue
            seen_terms.add(tid)
            for a, aid, dn in apps(t):
                if aid in seen_apps:
                    continue
                seen_apps.add(aid)
                g = AXIOMS.get(dn)
                if g is not None:
                    for f in g(a):
                        out.append(f)
                        nxt.append(f)
                for (u, pos) in trig.get(dn, ()):
                    args = tuple(a.arg(p) for p in pos)
                    key = (id(u), tuple(x.get_id() for x in args))
                    if key in seen_inst:
                        continue
                    seen_inst.add(key)
                    f = u.fn(*args)
                    out.append(f)
                    nxt.append(f)
        work = nxt
        if rounds > 6:
            break
    return out


def sums_canonb(t):
    from . import sums
    return sums.canonb(t)


CTX: Ctx = Ctx()


def ctx() -> Ctx:
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------- scalars
def lift(x):
    """python/symbolic number -> z3 arithmetic or boolean term."""
    if isinstance(x, SVal):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"non-finite float constant {x}")
        return realval(x)
    if isinstance(x, z3.ExprRef):
        return x
    if hasattr(x, "__dv_scalar__"):
        return x.__dv_scalar__().t
    raise Unsupported(f"cannot lift {type(x).__name__}")


def wrap(t):
    s = t.sort()
    if s == I:
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if s == R:
        return SReal(t)
    if s == B:
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    raise Unsupported("sort")


def _arith(x):
    t = lift(x)
    if t.sort() == B:
        t = mkif(t, z3.IntVal(1), z3.IntVal(0))
    return t


def coerce2(a, b):
    a, b = _arith(a), _arith(b)
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    return a, b


FLOOR_HOOKS: list = []    # term -> Int term naming its floor (the case states the facts it is used through), or None
NAMED_DIV: list = []      # (numerator factor, divisor, W): floor(k * factor / divisor) is written W(k)


def named_div(a, b):
    from . import sums
    for n, d, w in NAMED_DIV:
        if b.get_id() == d.get_id() or sums.canon(b - d).get_id() == sums.canon(z3.IntVal(0)).get_id():
            try:
                pa = sums.canon(a)
                k = sums.exact_quotient(pa, n)
            except Unsupported:
                continue
            if k is not None:
                return w(k)
    return None


def fdiv_int(a, b):
    if NAMED_DIV:
        r = named_div(a, b)
        if r is not None:
            return r
    if z3.is_int_value(b):
        d = b.as_long()
        if d > 0:
            if z3.is_int_value(a):
                return z3.IntVal(a.as_long() // d)
            return a / b
        if d < 0:
            return (-a) / z3.IntVal(-d)
        raise ZeroDivisionError("integer division or modulo by zero")
    if CTX.entails(b > 0):
        return IDIV(a, b)
    if not CTX.branch(b != 0, "divisor non-zero"):
        raise ZeroDivisionError("integer division or modulo by zero")
    if CTX.branch(b > 0, "divisor positive"):
        return IDIV(a, b)
    return IDIV(-a, -b)


class SVal:
    __slots__ = ("t", "kind")

    def __init__(self, t, kind=None):
        self.t = t
        self.kind = kind     # None: finite; else Int term 0 finite, 1 +inf, 2 -inf, 3 nan

    def __repr__(self):
        return f"<{type(self).__name__} {str(self.t)[:60]}>"

    def __format__(self, spec):
        return f"<sym:{str(self.t)[:40]}>"

    def __str__(self):
        return f"<sym:{str(self.t)[:40]}>"

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _other_ok(o):
    return isinstance(o, (SVal, int, float))


def _kinds(a, b):
    ka = a.kind if isinstance(a, SVal) else None
    kb = b.kind if isinstance(b, SVal) else None
    return ka, kb


def _fkind(x):
    """(value term, kind term) for a scalar incl. python inf/nan."""
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return z3.RealVal(0), z3.IntVal(3 if x != x else (1 if x > 0 else 2))
    k = x.kind if isinstance(x, SVal) and x.kind is not None else z3.IntVal(0)
    return toreal(_arith(x)), k


def cmp_ext(op, a, b):
    """IEEE comparison of extended reals given as (value, kind)."""
    va, ka = a
    vb, kb = b
    nn = z3.And(ka != 3, kb != 3)
    both = z3.And(ka == 0, kb == 0)
    lt = z3.And(nn, z3.Or(z3.And(both, va < vb), z3.And(ka == 2, kb != 2), z3.And(kb == 1, ka != 1)))
    eq = z3.And(nn, z3.Or(z3.And(both, va == vb), z3.And(ka != 0, ka == kb)))
    if op == "<":
        return lt
    if op == "<=":
        return z3.Or(lt, eq)
    if op == "==":
        return eq
    if op == "!=":
        return z3.Not(eq)
    raise Unsupported(op)


def _cmp(a, b, op):
    ext = any(isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))) for x in (a, b)) or \
        any(isinstance(x, SVal) and x.kind is not None for x in (a, b))
    if ext:
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        return wrap(z3.simplify(cmp_ext(op, _fkind(a), _fkind(b))))
    x, y = coerce2(a, b)
    r = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
         "==": lambda: x == y, "!=": lambda: x != y}[op]()
    return wrap(z3.simplify(r)) if (z3.is_int_value(x) and z3.is_int_value(y)) else SBool(r)


class SNum(SVal):
    __slots__ = ()

    def _bin(self, o, f, swap=False):
        if hasattr(o, "__dv_tensor__"):
            return NotImplemented
        if not _other_ok(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        ka, kb = _kinds(a, b)
        x, y = coerce2(a, b)
        r = wrap(f(x, y))
        if (ka is not None or kb is not None) and isinstance(r, SVal):
            ka = ka if ka is not None else z3.IntVal(0)
            kb = kb if kb is not None else z3.IntVal(0)
            fk = fresh("kind")
            CTX.assume(z3.And(fk >= 0, fk <= 3, z3.Implies(z3.Or(ka == 3, kb == 3), fk == 3)))
            r.kind = z3.If(z3.And(ka == 0, kb == 0), z3.IntVal(0), fk)
        return r

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    def __radd__(self, o): return self._bin(o, lambda x, y: x + y, True)
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: x - y, True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        return self._bin(o, lambda x, y: x * y)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            from . import seq
            return seq.repeat(o, self)
        return self._bin(o, lambda x, y: x * y, True)

    def _truediv(self, o, swap):
        if hasattr(o, "__dv_tensor__") or not _other_ok(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = toreal(_arith(a)), toreal(_arith(b))
        if not z3.is_rational_value(y):
            if not CTX.branch(y != 0, "divisor non-zero"):
                raise ZeroDivisionError("division by zero")
        elif y.as_fraction() == 0:
            raise ZeroDivisionError("division by zero")
        return wrap(x / y)

    def __truediv__(self, o): return self._truediv(o, False)
    def __rtruediv__(self, o): return self._truediv(o, True)

    def _floordiv(self, o, swap):
        if hasattr(o, "__dv_tensor__") or not _other_ok(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = coerce2(a, b)
        if x.sort() == I:
            return wrap(fdiv_int(x, y))
        if not CTX.branch(y != 0, "divisor non-zero"):
            raise ZeroDivisionError("float floor division by zero")
        return wrap(toreal(toint_floor(x / y)))

    def __floordiv__(self, o): return self._floordiv(o, False)
    def __rfloordiv__(self, o): return self._floordiv(o, True)

    def _mod(self, o, swap):
        if hasattr(o, "__dv_tensor__") or not _other_ok(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        x, y = coerce2(a, b)
        if x.sort() == I:
            if z3.is_int_value(y) and y.as_long() > 0:
                return wrap(x % y)
            return wrap(x - y * fdiv_int(x, y))
        return wrap(x - y * toreal(toint_floor(x / y)))

    def __mod__(self, o): return self._mod(o, False)
    def __rmod__(self, o): return self._mod(o, True)
    def __neg__(self):
        r = wrap(-self.t)
        if self.kind is not None:
            r.kind = z3.If(self.kind == 1, z3.IntVal(2), z3.If(self.kind == 2, z3.IntVal(1), self.kind))
        return r
    def __pos__(self): return self
    def __abs__(self): return wrap(mkif(self.t >= 0, self.t, -self.t))

    def __pow__(self, o):
        if hasattr(o, "__dv_tensor__"):
            return NotImplemented
        return wrap(pow_term(_arith(self), lift(o)))

    def __rpow__(self, o):
        return wrap(pow_term(_arith(o), self.t))

    def __lt__(self, o): return _cmp(self, o, "<") if _other_ok(o) else NotImplemented
    def __le__(self, o): return _cmp(self, o, "<=") if _other_ok(o) else NotImplemented
    def __gt__(self, o): return _cmp(self, o, ">") if _other_ok(o) else NotImplemented
    def __ge__(self, o): return _cmp(self, o, ">=") if _other_ok(o) else NotImplemented
    def __eq__(self, o): return _cmp(self, o, "==") if _other_ok(o) else NotImplemented
    def __ne__(self, o): return _cmp(self, o, "!=") if _other_ok(o) else NotImplemented
    __hash__ = SVal.__hash__

    def __bool__(self):
        return CTX.branch(self.t != 0)


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        raise Unsupported("symbolic int used as a concrete index")

    def __int__(self):
        raise Unsupported("native int() of a symbolic int")

    def bit_length(self):
        return wrap(BITLEN(self.t))

    def __lshift__(self, o):
        return wrap(self.t * POW2(lift(o)))

    def __rlshift__(self, o):
        return wrap(z3.IntVal(o) * POW2(self.t) if o != 1 else POW2(self.t))

    def __rshift__(self, o):
        return wrap(fdiv_int(self.t, z3.IntVal(2 ** o))) if isinstance(o, int) else wrap(IDIV(self.t, POW2(lift(o))))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("bitwise and")

    def __round__(self, nd=None):
        return self

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self


class SReal(SNum):
    __slots__ = ()

    def __float__(self):
        raise Unsupported("native float() of a symbolic real")

    def __int__(self):
        raise Unsupported("native int() of a symbolic real")

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            f = toint_floor(self.t)
            d = self.t - toreal(f)
            half = realval(Fraction(1, 2))
            r = mkif(d < half, f, mkif(d > half, f + 1, mkif(f % 2 == 0, f, f + 1)))
            return wrap(r) if nd is None else wrap(toreal(r))
        raise Unsupported("round with digits")

    def is_integer(self):
        return SBool(toreal(toint_floor(self.t)) == self.t)

    def __trunc__(self): return trunc(self)
    def __floor__(self): return wrap(toint_floor(self.t))
    def __ceil__(self): return wrap(-toint_floor(-self.t))


class SBool(SVal):
    __slots__ = ()

    def __bool__(self):
        return CTX.branch(self.t)

    def _b(self, o, f):
        if isinstance(o, (SBool, bool)):
            return wrap(f(self.t, lift(o)))
        if isinstance(o, z3.BoolRef):
            return wrap(f(self.t, o))
        return NotImplemented

    def __and__(self, o): return self._b(o, lambda a, b: mkand(a, b))
    __rand__ = __and__
    def __or__(self, o): return self._b(o, lambda a, b: mkor(a, b))
    __ror__ = __or__
    def __invert__(self): return wrap(z3.Not(self.t))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(self.t == lift(o))
        if isinstance(o, (int, float, SNum)):
            return _cmp(SInt(_arith(self)), o, "==")
        return NotImplemented
    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(self.t != lift(o))
        return NotImplemented
    __hash__ = SVal.__hash__
    def _n(self): return SInt(_arith(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()


def pow_term(b, n):
    if z3.is_int_value(n) or (z3.is_rational_value(n) and n.as_fraction().denominator == 1):
        k = n.as_long() if z3.is_int_value(n) else int(n.as_fraction())
        if 0 <= k <= 8:
            if k == 0:
                return z3.IntVal(1) if b.sort() == I else z3.RealVal(1)
            r = b
            for _ in range(k - 1):
                r = r * b
            return r
        if -4 <= k < 0:
            return 1 / pow_term(toreal(b), z3.IntVal(-k))
    if z3.is_rational_value(n) and n.as_fraction() == Fraction(1, 2):
        return SQRT(toreal(b))
    if n.sort() == I:
        if z3.is_int_value(b) and b.as_long() == 2:
            return POW2(n)
        return POW(toreal(b), n)
    if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_TO_REAL:
        return POW(toreal(b), n.arg(0))
    raise Unsupported("pow with non-integer exponent")


def trunc(x):
    t = x.t
    if t.sort() == I:
        return x
    for hook in FLOOR_HOOKS:
        r = hook(t)
        if r is not None:
            return wrap(r)        # the case establishes t >= 0
    f = toint_floor(t)
    if CTX.entails(t >= 0):
        return wrap(f)
    return wrap(mkif(t >= 0, f, -toint_floor(-t)))


def sint(name, lo=None, hi=None):
    c = fresh(name)
    if lo is not None:
        CTX.assume(c >= lift(lo))
    if hi is not None:
        CTX.assume(c <= lift(hi))
    return SInt(c)


def sreal(name, pos=False, nonneg=False):
    c = fresh(name, R)
    if pos:
        CTX.assume(c > 0)
    if nonneg:
        CTX.assume(c >= 0)
    return SReal(c)


def sbool(name):
    return SBool(fresh(name, B))


def sext(name):
    """A float that may also be NaN or infinite."""
    k = fresh(name + "_kind")
    CTX.assume(z3.And(k >= 0, k <= 3))
    return SReal(fresh(name, R), k)
