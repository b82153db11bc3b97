"""C21: sampled and clamped positions.  random.Random.uniform(a, b) is external: any value between a and b."""
from dv.harness import *
from dv import core, sums, seq, tensor as T
import random as _random

ID = "C21"
S = "torchrir.geometry.sampling:"
FNS = {n: [S + n] for n in ("sample_positions", "sample_positions_with_z_range", "sample_positions_min_distance", "clamp_positions")}
ASSUMPTIONS = ["random.Random.uniform(a, b) returns a value between a and b", "float(x.item()) of a stored float is that number; storing a coordinate as float32 is exact"]


class Rng:
    """random.Random of the caller"""

    def __init__(self):
        self.draws = 0

    def uniform(self, a, b):
        a, b = toreal(lift(a)), toreal(lift(b))
        self.draws += 1
        return wrap(core.draw("uniform", a, b))

    def __getattr__(self, n):
        if hasattr(_random.Random, n):
            raise Unsupported(f"random.Random.{n}")
        raise AttributeError(n)


def room(P, dim, margin):
    s = P.tensor("room_size", [dim])
    L = [s.at(d) for d in range(dim)]
    for x in L:
        P.assume(x >= 2 * margin)
    return s, L


def margin_of(P, given):
    if not given:
        return z3.Q(1, 2), {}
    m = P.real("margin")
    return m.t, {"margin": m}


def inside(P, y, n, L, m, zr=None, extra=None):
    dim = len(L)
    P.shape_is("the requested number of positions", y, [n, dim])
    i = fresh("i")
    hyp = [z3.And(i >= 0, i < T.dterm(n))]
    fn = y.snapshot()
    p = [fn([i, z3.IntVal(d)]) for d in range(dim)]
    for d in range(dim):
        P.prove(f"axis {d} inside the room by the margin", z3.And(p[d] >= m, p[d] <= L[d] - m), hyps=hyp, cands=[(i,)])
    if zr is not None:
        lo, hi = zr
        P.prove("inside the height range when it is feasible", z3.Implies(z3.And(lo < hi, hi > m, lo < L[2] - m), z3.And(p[2] >= lo, p[2] <= hi)), hyps=hyp, cands=[(i,)])
    if extra is not None:
        extra(i, p, hyp)
    P.check("single-precision positions", y.dtype is T.float32)


def only_generator(P):
    P.check("only the generator passed in is used", not any(e[0] == "global_rng" for e in P.ctx.log))


def plain(dim, given, num=None):
    def run(P):
        f = P.fn(S + "sample_positions")
        m, kw = margin_of(P, given)
        s, L = room(P, dim, m)
        n = P.int("num", 1) if num is None else num
        rng = Rng()
        st, y = P.call(f, num=n, room_size=s, rng=rng, **kw)
        if st == "raise":
            return P.fail("positions are found in a feasible room", repr(y))
        inside(P, y, n, L, m)
        only_generator(P)
    return run


def zrange(dim, given, zgiven, num=None):
    def run(P):
        f = P.fn(S + "sample_positions_with_z_range")
        m, kw = margin_of(P, given)
        s, L = room(P, dim, m)
        n = P.int("num", 1) if num is None else num
        lo, hi = z3.Q(3, 2), z3.Q(9, 5)
        if zgiven:
            a, b = P.real("z_min"), P.real("z_max")
            lo, hi = a.t, b.t
            kw["z_range"] = (a, b)
        st, y = P.call(f, num=n, room_size=s, rng=Rng(), **kw)
        if st == "raise":
            return P.fail("positions are found in a feasible room", repr(y))
        inside(P, y, n, L, m, (lo, hi) if dim == 3 else None)
        only_generator(P)
    return run


def mindist(dim, given, zr):
    def run(P):
        f = P.fn(S + "sample_positions_min_distance")
        m, kw = margin_of(P, given)
        s, L = room(P, dim, m)
        n, tries = P.int("num", 1), P.int("max_attempts")
        c = P.tensor("center", [dim])
        dmin = P.real("min_distance")
        lo, hi = z3.Q(3, 2), z3.Q(9, 5)
        if zr == "given":
            a, b = P.real("z_min"), P.real("z_max")
            lo, hi = a.t, b.t
            kw["z_range"] = (a, b)
        elif zr is None:
            kw["z_range"] = None
        zfeasible = z3.And(lo < hi, hi > m, lo < L[2] - m) if dim == 3 and zr is not None else None

        def pred(v):
            v = [toreal(lift(x)) for x in v]
            out = [(f"axis {d} inside the room by the margin", z3.And(v[d] >= m, v[d] <= L[d] - m)) for d in range(dim)]
            if zfeasible is not None:
                out.append(("inside the height range when it is feasible", z3.Implies(zfeasible, z3.And(v[2] >= lo, v[2] <= hi))))
            q = sums.canon(sum((v[d] - c.at(d)) * (v[d] - c.at(d)) for d in range(dim)))
            out.append(("at least the minimum distance from the centre", core.SQRT(q) >= dmin.t))
            return out

        def make(name):
            N = P.ctx and fresh("collected")
            fs = [core.fresh_fn("coord", 1, R) for _ in range(dim)]
            core.ctx().assume(N >= 0)
            core.ctx().assume(N <= n.t)
            core.ctx().add_ufact(UFact(1, lambda k: z3.Implies(z3.And(k >= 0, k < N), z3.And(*[t for _, t in pred([wrap(g(k)) for g in fs])])),
                                       triggers=[("never", (0,))]))
            return seq.SymSeq(wrap(N), lambda k: [wrap(g(k)) for g in fs]), N

        def progress(scalars, lists):
            for name, (n0, n1) in lists.items():
                P.prove("never more than requested", n1 <= n.t, hyps=[n0 <= n.t])
            P.prove("every round counts as an attempt, below the limit",
                    z3.Or(*[z3.And(b == a + 1, a < tries.t) for a, b in scalars.values() if a.sort() == I] or [z3.BoolVal(False)]))
        P.collects(make, pred, progress)
        st, y = P.call(f, num=n, room_size=s, rng=Rng(), center=c, min_distance=dmin, max_attempts=tries, **kw)
        if st == "raise":
            return P.check("a failure is an error, not a wrong result", isinstance(y, (RuntimeError, ValueError)), repr(y))
        inside(P, y, n, L, m, (lo, hi) if zfeasible is not None else None,
               lambda i, p, hyp: P.prove("at least the minimum distance from the centre", core.SQRT(sums.canon(sum((p[d] - c.at(d)) * (p[d] - c.at(d)) for d in range(dim)))) >= dmin.t, hyps=hyp, cands=[(i,)]))
        only_generator(P)
    return run


def mindist_bad(P):
    f = P.fn(S + "sample_positions_min_distance")
    k = P.int("k", 0)
    P.assume(k.t != 3)
    st, y = P.call(f, num=2, room_size=P.tensor_const([5.0, 6.0, 7.0]), rng=Rng(), center=P.tensor("center", [k]), min_distance=1.0)
    P.check("a centre of another dimension is rejected", st == "raise" and isinstance(y, ValueError), repr(y))


def clamp(rank, given, pdt=T.float32, rdt=T.float32):
    def run(P):
        f = P.fn(S + "clamp_positions")
        m = P.real("margin") if given else None
        mt = m.t if given else z3.Q(1, 10)
        d = P.int("dim", 1)
        s = P.tensor("room_size", [d], rdt)
        P.assume_forall(1, lambda j: z3.Implies(z3.And(j >= 0, j < d.t), toreal(s.at(j)) >= 2 * mt), [(s.fun.name(), (0,))])
        dims = [P.int(f"n{k}", 0) for k in range(rank)] + [d]
        p = P.tensor("positions", dims, pdt)
        st, y = P.call(f, p, s, m) if given else P.call(f, p, s)
        if st == "raise":
            return P.fail("positions are clamped", repr(y))
        v = lambda *ix: toreal(p.at(*ix))
        lo, hi = mt, lambda j: toreal(s.at(j)) - mt
        P.tensor_eq("the nearest point inside the margins", y, dims, lambda *ix: z3.If(v(*ix) < lo, lo, z3.If(v(*ix) > hi(ix[-1]), hi(ix[-1]), v(*ix))))
    return run


CASES = []
for _d in (2, 3):
    for _g in (True, False):
        g = "margin given" if _g else "default margin"
        CASES.append(Case(f"uniform {_d}-D {g}", plain(_d, _g), FNS["sample_positions"]))
        for _z in (True, False):
            CASES.append(Case(f"height range {_d}-D {g} {'given' if _z else 'default'}", zrange(_d, _g, _z), FNS["sample_positions_with_z_range"] + FNS["sample_positions"]))
        for _z in ("given", "default", None):
            CASES.append(Case(f"minimum distance {_d}-D {g} height {_z}", mindist(_d, _g, _z), FNS["sample_positions_min_distance"], branch_ms=300))
    CASES += [Case(f"uniform {_d}-D {k} positions", plain(_d, True, k), FNS["sample_positions"]) for k in (1, 2)]
CASES.append(Case("minimum distance, wrong centre", mindist_bad, FNS["sample_positions_min_distance"]))
for _r in (0, 1, 2):
    for _g in (True, False):
        CASES.append(Case(f"clamp rank {_r + 1} {'given' if _g else 'default'} margin", clamp(_r, _g), FNS["clamp_positions"]))
CASES += [Case("clamp whole-number positions", clamp(1, True, T.int64), FNS["clamp_positions"]), Case("clamp whole-number room", clamp(1, True, T.float32, T.int64), FNS["clamp_positions"])]
