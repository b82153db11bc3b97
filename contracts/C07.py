"""C07: reciprocity of omnidirectional responses.

From the code: both orders of the exchange give the C05 sum over the same image set (cases 'exchange').  From the
specification: the map n -> -n on even components (odd ones kept) is an involution of the image set that leaves the
reflection gain, the delay and the amplitude of the exchanged pair unchanged (cases 'lemma'), so both sums are rearrangements
of each other.  The contracts of the callees (C01, C02, omnidirectional C03) are re-proved here."""
from sim import *
from C04 import config
import C01, C02, C03

ID = "C07"


def sigma(n):
    return z3.If(n % 2 == 0, -n, n)


def lemma(dim):
    def case(P):
        n = [P.int(f"n{k}").t for k in range(dim)]
        for k, x in enumerate(n):
            y = sigma(x)
            P.prove(f"axis {k}: the map is an involution", sigma(y) == x)
            P.prove(f"axis {k}: the map keeps |n| (so every image set is mapped onto itself)", absi(y) == absi(x))
            P.prove(f"axis {k}: bounces off both walls are kept", z3.And(hits_hi(y) == hits_hi(x), hits_lo(y) == hits_lo(x)))
        L = [P.real(f"L{k}", pos=True).t for k in range(dim)]
        s = [P.real(f"s{k}").t for k in range(dim)]
        m = [P.real(f"m{k}").t for k in range(dim)]
        for k in range(dim):
            a = m[k] - img(n[k], L[k], s[k])
            b = s[k] - img(sigma(n[k]), L[k], m[k])
            P.prove(f"axis {k}: the exchanged path component has the same length", a * a == b * b)
        sq1, sq2 = [z3.Real(f"u{k}") for k in range(dim)], [z3.Real(f"v{k}") for k in range(dim)]
        P.prove("equal components give equal delay and amplitude", z3.Implies(mkand(*[x * x == y * y for x, y in zip(sq1, sq2)]), dist(sq1) == dist(sq2)))
    return case


def exchange(dim, wall, lut):
    def run(P):
        S = Sim(P, dim)
        f = P.fn(API + "simulate_rir")
        cfg, Lf, G = config(P, lut, image_chunk_size=P.int("image_chunk_size", 1), rir_hpf_enable=False)
        r = make_room(P, dim, wall)
        ns, nm, N, o = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("max_order", 0)
        a, b = P.tensor("a", [ns, dim]), P.tensor("b", [nm, dim])
        A = range(dim)
        Ls = [r["L"].at(k) for k in A]
        g = G if lut else z3.IntVal(0)
        args = []
        for lab, x, y, n1, n2 in (("source a, microphone b", a, b, ns, nm), ("source b, microphone a", b, a, nm, ns)):
            st, h = P.call(f, room=r["room"], sources=x, mics=y, max_order=o, nsample=N, config=cfg)
            if st == "raise":
                return P.fail("a valid scene is simulated", repr(h))
            P.tensor_eq(f"{lab}: sum over the image set of this pair's arrivals", h, [n1, n2, N],
                        lambda i, j, t: S.response(t, Lf, g, [x.at(i, k) for k in A], [y.at(j, k) for k in A], None, None, "omni", "omni", Ls, r["fs"], r["c"]))
            args.append((S.index_args, S.refl_args))
        (i1, r1), (i2, r2) = args
        P.prove("both use the same image set", z3.And(lift(i1["max_order"]) == lift(i2["max_order"]), z3.BoolVal(i1["nb_img"] is None and i2["nb_img"] is None)))
        P.same_tensor("both use the same coefficients", r1["beta"], r2["beta"])
    return run


CASES = []
for _d in (2, 3):
    CASES += [Case(f"lemma {_d}D", lemma(_d), [], vacuity=True), Case(f"exchange {_d}D", exchange(_d, "beta", True), [API + "simulate_rir"]),
              Case(f"exchange {_d}D default walls, direct", exchange(_d, "none", False), [API + "simulate_rir"])]


CASES += borrowed(C01, lambda n: "wrong" not in n) + borrowed(C02, lambda n: n.startswith("gain")) + borrowed(C03, lambda n: n.startswith("batch") and "omni/omni" in n)
