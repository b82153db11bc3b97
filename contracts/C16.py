"""C16: Sabine conversions."""
from dv.harness import *
from dv import core, tensor as T

ID = "C16"
A = "torchrir.util.acoustics:"
FNS = [A + n for n in ("estimate_beta_from_t60", "estimate_t60_from_beta", "attenuation_db_to_time_sabine", "estimate_image_counts_from_tmax")] + \
      ["torchrir.util.tensor:" + n for n in ("ensure_dim", "extend_size", "as_tensor", "ensure_floating")]
K = z3.Q(161, 1000)
CAP = z3.Q(999, 1000)


def room(P, dim, dtype=T.float32):
    s = P.tensor("size", [dim], dtype)
    l = [toreal(s.at(d)) for d in range(dim)]
    for x in l:
        P.assume(x > 0)
    return s, l


def sabine(l):
    """volume and area per wall pair"""
    if len(l) == 2:
        return l[0] * l[1], [l[1], l[0]]
    x, y, z = l
    return x * y * z, [y * z, x * z, x * y]


def positive_areas(P, l):
    V, a = sabine(l)
    for e in [V] + a:
        P.assume(e > 0)                   # products of positive sides (nonlinear facts handed to the solver)


def beta_case(dim, dtype):
    def run(P):
        f, g = P.fn(A + "estimate_beta_from_t60"), P.fn(A + "estimate_t60_from_beta")
        s, l = room(P, dim, dtype)
        positive_areas(P, l)
        t60 = P.real("t60")
        st, b = P.call(f, s, t60)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(b, ValueError), repr(b))
            return P.impossible("a positive T60 is accepted", [t60.t > 0], [])
        P.prove("only a positive T60 is accepted", t60.t > 0)
        V, a = sabine(l)
        P.shape_is("one coefficient per wall", b, [2 * dim])
        P.check("floating coefficients", b.dtype.kind == "f")
        bv = b.snapshot()
        v0 = bv([z3.IntVal(0)])
        for i in range(2 * dim):
            P.prove(f"wall {i} equals wall 0", bv([z3.IntVal(i)]) == v0)
        al = fresh("alpha", R)
        S = 2 * sum(a)
        P.assume(al * (t60.t * S) == K * V)
        P.assume(al > 0)
        # the code's own quotient is alpha (a quotient by a positive number)
        P.prove("squared coefficient is one minus the capped absorption", v0 * v0 == 1 - z3.If(al < CAP, al, CAP))
        P.prove("coefficient in [0, 1)", z3.And(v0 >= 0, v0 < 1))
        v = fresh("beta", R)
        P.assume(v == v0)
        st, t = P.call(g, s, b)
        if st == "raise":
            return P.fail("estimated coefficients convert back", repr(t))
        P.check("the result is a number", isinstance(t, (SReal, float)))
        if isinstance(t, float):
            return P.fail("finite T60 back", t)
        if t.kind is not None:
            P.prove("finite T60 back", t.kind == 0)
        P.prove("gives back the T60 (below the absorption cap)", t.t * ((1 - v0 * v0) * S) == K * V)
        e = fresh("e", R)
        P.prove("gives back the T60 (below the absorption cap), solved", z3.Implies(z3.And(al < CAP, e * (al * S) == K * V, al * S > 0), e == t60.t),
                hyps=[al * (t60.t * S) == K * V])
    return run


def t60_case(dim, dtype, nb=None):
    def run(P):
        g = P.fn(A + "estimate_t60_from_beta")
        s, l = room(P, dim, dtype)
        V, a = sabine(l)
        positive_areas(P, l)
        n = P.int("walls", 0)
        if nb:
            n = 2 * dim
        b = P.tensor("beta", [n])
        if not nb:
            st, t = P.call(g, s, b)
            if st == "raise":
                return P.impossible("one coefficient per wall is accepted", [n.t == 2 * dim], [])
            return P.prove("only one coefficient per wall is accepted", n.t == 2 * dim)
        bv = [b.at(i) for i in range(n)]
        for x in bv:
            P.assume(z3.And(x >= 0, x <= 1))
        al = [1 - x * x for x in bv]
        absorbed = sum(w * a[i // 2] for i, w in enumerate(al))
        for i, w in enumerate(al):
            P.assume(w >= 0)
            P.assume(z3.Implies(w > 0, w * a[i // 2] > 0))
            P.assume(w * a[i // 2] >= 0)
        st, t = P.call(g, s, b)
        if st == "raise":
            return P.fail("coefficients are accepted", repr(t))
        if isinstance(t, float):
            P.check("infinite", t == float("inf"))
            return P.prove("infinite only when nothing is absorbed", absorbed <= 0)
        P.prove("finite only when something is absorbed", absorbed > 0)
        P.prove_eq("Sabine with each wall weighted by its own area", t.t, K * V / absorbed)
    return run


def attenuation(P):
    f = P.fn(A + "attenuation_db_to_time_sabine")
    att, t60 = P.real("att_db"), P.real("t60")
    st, r = P.call(f, att, t60)
    if st == "raise":
        P.check("rejection is a ValueError", isinstance(r, ValueError), repr(r))
        return P.impossible("positive arguments are accepted", [att.t > 0, t60.t > 0], [])
    P.prove("only positive arguments are accepted", z3.And(att.t > 0, t60.t > 0))
    P.prove("linear in dB, 60 dB at T60", r.t * 60 == att.t * t60.t)


def counts(dim, dtype):
    def run(P):
        f = P.fn(A + "estimate_image_counts_from_tmax")
        s, l = room(P, dim, dtype)
        tmax, c = P.real("tmax"), P.real("c", pos=True)
        default = P.ctx.branch(fresh("default_speed", B), "default speed")
        st, n = P.call(f, tmax, s) if default else P.call(f, tmax, s, c)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(n, ValueError), repr(n))
            return P.impossible("a positive duration is accepted", [tmax.t > 0], [])
        P.prove("only a positive duration is accepted", tmax.t > 0)
        P.shape_is("one count per axis", n, [dim])
        P.check("whole numbers", n.dtype.kind == "i")
        cv = z3.RealVal(343) if default else c.t
        for d in range(dim):
            q = fresh("q", R)
            m = toreal(n.snapshot()([z3.IntVal(d)]))
            P.assume(q * l[d] == tmax.t * cv)
            P.prove(f"axis {d}: smallest integer at least duration * speed / side", z3.And(m >= q, m < q + 1))
    return run


def bad_rooms(P):
    f, g, h = (P.fn(A + n) for n in ("estimate_beta_from_t60", "estimate_t60_from_beta", "estimate_image_counts_from_tmax"))
    n = P.int("n", 0)
    P.assume(z3.And(n.t != 2, n.t != 3))
    s = P.tensor("size", [n])
    for name, c in (("coefficients", lambda: f(s, P.real("t", pos=True))), ("T60", lambda: g(s, P.tensor("beta", [6]))), ("counts", lambda: h(P.real("tm", pos=True), s))):
        st, e = P.call(c)
        P.check(f"{name}: only 2 or 3 sides", st == "raise" and isinstance(e, ValueError), repr(e))


CASES = []
for _dim in (2, 3):
    for _dt in (T.float32, T.int64):
        CASES += [Case(f"coefficients from T60 and back {_dim}-D {_dt.name}", beta_case(_dim, _dt), FNS),
                  Case(f"T60 from coefficients {_dim}-D {_dt.name}", t60_case(_dim, _dt, True), FNS),
                  Case(f"image counts {_dim}-D {_dt.name}", counts(_dim, _dt), FNS)]
    CASES.append(Case(f"coefficient count {_dim}-D", t60_case(_dim, T.float32), FNS))
CASES += [Case("attenuation", attenuation, FNS), Case("invalid rooms", bad_rooms, FNS)]
