"""C12: directivity patterns."""
from dv.harness import *
from dv import tensor as T

ID = "C12"
D = "torchrir.sim.directivity:"
FNS = [D + "directivity_gain", D + "split_directivity"]
PATTERNS = {("omni", "omnidirectional"): lambda c: z3.RealVal(1), ("homni", "halfomni", "half-omni"): lambda c: z3.If(c > 0, z3.RealVal(1), z3.RealVal(0)),
            ("subcardioid", "subcard"): lambda c: z3.Q(3, 4) + c / 4, ("cardioid", "card"): lambda c: z3.Q(1, 2) + c / 2,
            ("hypercardioid", "hypcard"): lambda c: z3.Q(1, 4) + 3 * c / 4, ("bidir", "bidirectional", "figure8", "figure-8"): lambda c: c}
NAMES = {n: f for ns, f in PATTERNS.items() for n in ns}


def forms(n):
    return [n, n.upper(), n.title(), n.swapcase()[:1] + n[1:], "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(n))]


class AnyOther(str):
    """A name different from every name it is compared with: stands for all unknown names; records the comparisons."""
    seen: set

    def __new__(cls, kind="x"):
        o = str.__new__(cls, "\x00unknown")
        o.seen = set()
        return o

    def lower(self): return self
    def casefold(self): return self
    def upper(self): return self
    def strip(self, *a): return self
    def replace(self, *a): return self
    def __eq__(self, o):
        self.seen.add(str.__str__(o) if isinstance(o, str) else o)
        return self is o
    def __ne__(self, o): return not self == o
    def __hash__(self): return 7
    def __str__(self): return "unknown"
    def __format__(self, s): return "unknown"
    def __repr__(self): return "'unknown'"


def gain_case(name):
    def run(P):
        f = P.fn(D + "directivity_gain")
        spec = NAMES[name]
        for nm in forms(name):
            n, m = P.int("n", 1), P.int("m", 1)
            c = P.tensor("cos", [n, m])
            st, y = P.call(f, nm, c)
            if st == "raise":
                return P.fail(f"the name {nm!r} is accepted", repr(y))
            P.tensor_eq(f"gain of {nm!r}", y, [n, m], lambda i, j: spec(c.at(i, j)))
            P.check(f"dtype kept for {nm!r}", y.dtype is c.dtype)
        one = P.tensor("one_cos", [1])
        P.assume(z3.And(one.at(0) >= -1, one.at(0) <= 1))
        st, y = P.call(f, name, one)
        g = y.snapshot()([z3.IntVal(0)])
        P.prove("the gain never exceeds 1 in magnitude", z3.And(g <= 1, g >= -1))
        P.prove("the gain is 1 on axis", z3.Implies(one.at(0) == 1, g == 1))
    return run


def unknown_case(P):
    f = P.fn(D + "directivity_gain")
    u = AnyOther()
    st, y = P.call(f, u, P.tensor("cos", [P.int("n", 1)]))
    P.check("every unknown name is rejected with ValueError", st == "raise" and isinstance(y, ValueError), repr(y))
    P.check("no further name is recognised", all(x in NAMES for x in u.seen), str(sorted(map(str, u.seen - set(NAMES)))))
    for bad in ("", " ", "omni ", "card-ioid", "super", "omni-directional", "figure 8", "subcardioids", "bi"):
        st, y = P.call(f, bad, P.tensor("cos", [3]))
        P.check(f"unknown name {bad!r} is rejected", st == "raise" and isinstance(y, ValueError), repr(y))


def split_case(name):
    def run(P):
        f, g = P.fn(D + "split_directivity"), P.fn(D + "directivity_gain")
        other = "bidir" if name != "bidir" else "card"
        n = P.int("n", 1)
        c = P.tensor("cos", [n])
        omni = lambda s: s in ("omni", "omnidirectional")
        for nm in forms(name):
            for arg, want in ((nm, (name, name)), ((nm, other), (name, other)), ((other, nm), (other, name)), ([nm, other], (name, other))):
                st, y = P.call(f, arg)
                if st == "raise" or not isinstance(y, tuple) or len(y) != 2:
                    return P.fail(f"{arg!r} is split into a pair", repr(y))
                for got, w, side in zip(y, want, ("source", "microphone")):
                    P.check(f"{arg!r}: {side} pattern is treated as omnidirectional exactly when it is", (got == "omni") == omni(w), got)
                    st2, z = P.call(g, got, c)
                    if st2 == "raise":
                        P.fail(f"{arg!r}: {side} pattern is usable", repr(z))
                    else:
                        P.tensor_eq(f"{arg!r}: {side} gain", z, [n], lambda i, w=w: NAMES[w](c.at(i)))
    return run


def pair_case(P):
    f = P.fn(D + "split_directivity")
    for bad in ((), ("omni",), ("omni", "card", "omni"), [], ["card"], ("card",) * 4, ["omni", "omni", "omni"]):
        st, y = P.call(f, bad)
        P.check(f"a pair of {len(bad)} names is rejected", st == "raise" and isinstance(y, ValueError), repr(y))


CASES = [Case("gain " + n, gain_case(n), FNS) for n in NAMES] + [Case("split " + n, split_case(n), FNS) for n in NAMES]
CASES += [Case("unknown names", unknown_case, FNS), Case("wrongly sized pairs", pair_case, FNS)]
