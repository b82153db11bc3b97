"""C02: reflection gain = product over axes of lower^floor-type bounces x upper^bounces; choice of the coefficients."""
from ism import *

ID = "C02"
IM = AX + "images:_reflection_coefficients"
HB = AX + "helpers:_resolve_beta"
EB = "torchrir.util.acoustics:estimate_beta_from_t60"


def gain_case(dim):
    def case(P):
        f = P.fn(IM)
        K = P.int("K", 1)
        nv = P.tensor("n_vec", [K, dim], T.int64)
        beta = P.tensor("beta", [2 * dim])
        st, y = P.call(f, nv, beta)
        if st == "raise":
            return P.fail("gains are computed", repr(y))
        P.tensor_eq("gain = product of wall coefficients hit, in wall order", y, [K], lambda k: refl([nv.at(k, a) for a in range(dim)], beta.at))
    return case


def lemma_case(dim):
    """consequences of the gain formula for coefficients in [0,1]"""
    def case(P):
        P.fn(IM)
        lo = [P.real(f"b{w}") for w in range(2 * dim)]
        hi = [P.real(f"d{w}") for w in range(2 * dim)]
        ns = [P.int(f"n{a}") for a in range(dim)]
        for x, y in zip(lo, hi):
            P.assume(z3.And(x.t >= 0, x.t <= y.t, y.t <= 1))
        def factors(b):
            out = []
            for a, n in enumerate(ns):
                out += [POW(b[2 * a + 1].t, hits_hi(n)), POW(b[2 * a].t, hits_lo(n))]
            return out
        fl, fh = factors(lo), factors(hi)
        # integer powers are monotone in the base on [0,1]: induction over the exponent with POW(b,m+1) = b*POW(b,m)
        m, b, d = z3.Int("m"), z3.Real("b"), z3.Real("d")
        base = [b >= 0, b <= d, d <= 1]
        P.prove("power monotonicity: base case", POW(b, z3.IntVal(0)) <= POW(d, z3.IntVal(0)), base)
        P.prove("power monotonicity: step", POW(b, m + 1) <= POW(d, m + 1),
                base + [m >= 0, POW(b, m) <= POW(d, m), POW(b, m + 1) == b * POW(b, m), POW(d, m + 1) == d * POW(d, m)])
        for k, (p, q) in enumerate(zip(fl, fh)):
            P.prove(f"factor {k} in [0,1] and not larger for a smaller coefficient", z3.And(p >= 0, p <= q, q <= 1), [p <= q])
            P.prove(f"bounce count {k} non-negative", p.arg(1) >= 0)
        x, y, u, v = (z3.Real(c) for c in "xyuv")
        P.prove("products of ordered numbers of [0,1] stay ordered and in [0,1]",
                z3.Implies(z3.And(0 <= x, x <= y, y <= 1, 0 <= u, u <= v, v <= 1), z3.And(0 <= x * u, x * u <= y * v, y * v <= 1)))
        g = refl([z3.IntVal(0)] * dim, lambda w: core.fresh("b", R))
        P.prove("direct path has gain 1", g == 1)
    return case


def beta_case(dim, kind):
    def case(P):
        f = P.fn(HB)
        Room = P.fn("torchrir.models.room:Room")
        L = P.tensor("size", [dim])
        for k in range(dim):
            P.assume(L.at(k) > 0)
        kw = {}
        if kind == "beta":
            b = P.tensor("beta", [2 * dim])
            for k in range(2 * dim):
                P.assume(z3.And(b.at(k) >= 0, b.at(k) <= 1))
            kw["beta"] = b
        if kind == "t60":
            kw["t60"] = P.real("t60", pos=True)
        st, room = P.call(Room, size=L, fs=P.real("fs", pos=True), c=P.real("c", pos=True), **kw)
        if st == "raise":
            return P.fail("room is accepted", repr(room))
        st, y = P.call(f, room, L, device=T.as_device("cpu"), dtype=T.float32)
        if st == "raise":
            return P.fail("coefficients are resolved", repr(y))
        if kind == "beta":
            P.tensor_eq("explicit coefficients are used as given", y, [2 * dim], lambda w: b.at(w))
        elif kind == "none":
            P.tensor_eq("rigid walls by default", y, [2 * dim], lambda w: z3.RealVal(1))
        else:
            st, want = P.call(P.fn(EB), L, kw["t60"])
            if st == "raise":
                return P.fail("Sabine coefficients exist", repr(want))
            P.shape_is("one coefficient per wall", y, [2 * dim])
            P.same_tensor("coefficients estimated from T60", y, want)
    return case


CASES = []
for _d in (2, 3):
    CASES.append(Case(f"gain {_d}D", gain_case(_d), [IM]))
    CASES.append(Case(f"range and monotonicity {_d}D", lemma_case(_d), [IM], vacuity=False))
    for _k in ("beta", "t60", "none"):
        CASES.append(Case(f"coefficients {_d}D {_k}", beta_case(_d, _k), [HB, EB]))
