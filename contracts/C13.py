"""C13: orientations become unit vectors."""
from dv.harness import *
from dv import tensor as T, core

ID = "C13"
O = "torchrir.util.orientation:"
FNS = [O + "orientation_to_unit", O + "normalize_orientation"]
EPS = z3.Q(1, 10 ** 8)
cos, sin = core.COS, core.SIN


def unit_check(P, y, lead, idx, dim):
    """the result at a generic batch index has unit length"""
    fn = y.snapshot()
    ls = [T.dterm(x) for x in lead]
    ix = [fresh("b") for _ in ls]
    v = [fn(ix + [z3.IntVal(d)]) for d in range(dim)]
    P.prove("unit length", sum(x * x for x in v) == 1, hyps=[z3.And(i >= 0, i < s) for i, s in zip(ix, ls)])


def vector_case(dim, lead):
    def run(P):
        f = P.fn(O + "orientation_to_unit")
        ls = [P.int(f"n{k}", 1) for k in range(lead)]
        v = P.tensor("direction", ls + [dim])
        sq = lambda ix: sum(v.at(*ix, d) * v.at(*ix, d) for d in range(dim))
        st, y = P.call(f, v, dim)
        if st == "raise":
            return P.fail("a direction vector is accepted", repr(y))
        P.shape_is("shape of the batch", y, ls + [dim])
        ix = [fresh("b") for _ in ls]
        for i, s in zip(ix, ls):
            P.assume(z3.And(i >= 0, i < s.t))
        ln = core.SQRT(sq(ix))
        P.assume(ln >= EPS)                              # non-degenerate
        P.assume(z3.And(ln * ln == sq(ix), ln > 0))
        out = [y.snapshot()(ix + [z3.IntVal(d)]) for d in range(dim)]
        for d in range(dim):
            P.prove(f"component {d} is the direction's divided by its length", out[d] == v.at(*ix, d) / ln)
        q = [fresh("q", R) for _ in range(dim)]
        P.prove("unit length", z3.Implies(z3.And(*[q[d] == v.at(*ix, d) / ln for d in range(dim)]), sum(a * a for a in q) == 1))
    return run


def angle2_case(form):
    def run(P):
        f = P.fn(O + "orientation_to_unit")
        n, m = P.int("n", 1), P.int("m", 1)
        if form == "scalar":
            a = P.tensor("angle", [])
            dims, spec = [2], lambda d: z3.If(d == 0, cos(a.at()), sin(a.at()))
        elif form == "one":
            a = P.tensor("angle", [1])
            dims, spec = [2], lambda d: z3.If(d == 0, cos(a.at(0)), sin(a.at(0)))
        elif form == "list":
            P.assume(n.t != 2)
            a = P.tensor("angle", [n])
            P.assume(n.t != 1)
            dims, spec = [n, 2], lambda i, d: z3.If(d == 0, cos(a.at(i)), sin(a.at(i)))
        elif form == "column":
            a = P.tensor("angle", [n, 1])
            dims, spec = [n, 2], lambda i, d: z3.If(d == 0, cos(a.at(i, 0)), sin(a.at(i, 0)))
        else:
            a = P.tensor("angle", [n, m, 1])
            dims, spec = [n, m, 2], lambda i, j, d: z3.If(d == 0, cos(a.at(i, j, 0)), sin(a.at(i, j, 0)))
        st, y = P.call(f, a, 2)
        if st == "raise":
            return P.fail("an angle is accepted", repr(y))
        P.tensor_eq("angle a maps to (cos a, sin a)", y, dims, spec)
        unit_check(P, y, dims[:-1], None, 2)
    return run


def angle3_case(lead):
    def run(P):
        f = P.fn(O + "orientation_to_unit")
        ls = [P.int(f"n{k}", 1) for k in range(lead)]
        a = P.tensor("angles", ls + [2])

        def spec(*ix):
            *b, d = ix
            az, el = a.at(*b, 0), a.at(*b, 1)
            return z3.If(d == 0, cos(el) * cos(az), z3.If(d == 1, cos(el) * sin(az), sin(el)))
        # cos^2 + sin^2 = 1, twice, makes the length 1
        A, E = fresh("az", R), fresh("el", R)
        P.prove("an (azimuth, elevation) pair has unit length", z3.Implies(z3.And(cos(A) * cos(A) + sin(A) * sin(A) == 1, cos(E) * cos(E) + sin(E) * sin(E) == 1),
                (cos(E) * cos(A)) * (cos(E) * cos(A)) + (cos(E) * sin(A)) * (cos(E) * sin(A)) + sin(E) * sin(E) == 1))
        st, y = P.call(f, a, 3)
        if st == "raise":
            return P.fail("an (azimuth, elevation) pair is accepted", repr(y))
        P.shape_is("shape of the batch", y, ls + [3])
        ix = [fresh("b") for _ in ls]
        for i, s in zip(ix, ls):
            P.assume(z3.And(i >= 0, i < s.t))
        az, el = a.at(*ix, 0), a.at(*ix, 1)
        P.assume(z3.And((cos(el) * cos(az)) * (cos(el) * cos(az)) + (cos(el) * sin(az)) * (cos(el) * sin(az)) + sin(el) * sin(el) == 1))    # the lemma above
        for d in range(3):
            P.prove(f"component {d}", y.snapshot()(ix + [z3.IntVal(d)]) == spec(*ix, z3.IntVal(d)))
    return run


def reject_case(what):
    def run(P):
        f = P.fn(O + "orientation_to_unit")
        n, k = P.int("n", 1), P.int("k", 1)
        dim = 3 if what.startswith("3") else 2
        if what == "3-D scalar":
            x = P.tensor("x", [])
        elif what in ("3-D vector", "3-D batch"):
            P.assume(z3.And(k.t != 2, k.t != 3))
            x = P.tensor("x", [k] if what == "3-D vector" else [n, k])
        elif what == "2-D batch":
            P.assume(z3.And(k.t != 1, k.t != 2))
            x = P.tensor("x", [n, k])
        elif what == "dimension":
            x = P.tensor("x", [n, 3])
            dim = P.int("dim")
            P.assume(z3.And(dim.t != 2, dim.t != 3))
        st, y = P.call(f, x, dim)
        P.check(f"{what}: neither vector nor angle is rejected", st == "raise", repr(y))
    return run


CASES = [Case(f"{d}-D vector batch {l}", vector_case(d, l), FNS) for d in (2, 3) for l in (0, 1, 2)]
CASES += [Case("2-D angle " + f, angle2_case(f), FNS) for f in ("scalar", "one", "list", "column", "batch")]
CASES += [Case(f"3-D angles batch {l}", angle3_case(l), FNS) for l in (0, 1, 2)]
CASES += [Case("reject " + w, reject_case(w), FNS) for w in ("3-D scalar", "3-D vector", "3-D batch", "2-D batch", "dimension")]
