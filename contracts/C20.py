"""C20: array layouts."""
from dv.harness import *
from dv import core, sums, tensor as T
from C12 import AnyOther

ID = "C20"
A = "torchrir.geometry.arrays:"
FNS = {n: [A + n] for n in ("binaural_array", "linear_array", "circular_array", "polyhedron_array", "eigenmike_em32", "eigenmike_em64")}
ASSUMPTIONS = ["conversion of whole-number centres to floats is exact (below 2^24)"]


def centre(P, n, dtype=T.float32):
    c = P.tensor("center", [n], dtype)
    return c, lambda j: toreal(c.at(j))


def binaural(dtype, given):
    def run(P):
        f = P.fn(A + "binaural_array")
        d = P.int("dim", 1)
        c, C = centre(P, d, dtype)
        off = P.real("offset")
        st, y = P.call(f, c, offset=off) if given else P.call(f, c)
        if st == "raise":
            return P.fail("a pair is built", repr(y))
        o = off.t if given else z3.Q(8, 100)
        P.tensor_eq("a pair at -offset and +offset along x", y, [2, d], lambda i, j: C(j) + z3.If(j == 0, z3.If(i == 0, -o, o), z3.RealVal(0)))
    return run


def linear(kind, dtype=T.float32, num=None):
    def run(P):
        f = P.fn(A + "linear_array")
        d = P.int("dim", 1)
        c, C = centre(P, d, dtype)
        n = P.int("num") if num is None else num
        sp = P.real("spacing")
        nt = n.t if isinstance(n, SInt) else z3.IntVal(n)
        step = lambda i: (toreal(i) - toreal(nt - 1) / 2) * sp.t
        kw, scal = {}, [nt > 0, sp.t > 0]
        if kind == "axis":
            ax = P.int("axis")
            kw["axis"] = ax
            scal += [ax.t >= 0, ax.t < d.t]
            spec = lambda i, j: C(j) + step(i) * z3.If(j == ax.t, z3.RealVal(1), z3.RealVal(0))
        elif kind == "default":
            spec = lambda i, j: C(j) + step(i) * z3.If(j == 0, z3.RealVal(1), z3.RealVal(0))
        else:
            m = P.int("m", 1)
            v = P.tensor("direction", [m], dtype)
            kw["direction"] = v
            scal.append(m.t == d.t)
            ln = core.SQRT(sum_over([m], lambda k: toreal(v.at(k)) * toreal(v.at(k))))
            P.assume(ln > 0)
            spec = lambda i, j: C(j) + step(i) * (toreal(v.at(j)) / ln)
        st, y = P.call(f, c, num=n, spacing=sp, **kw)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(y, ValueError), repr(y))
            return P.impossible("valid requests are accepted", scal, [])
        for k, s in enumerate(scal):
            P.prove(f"only valid requests are accepted ({k})", s)
        P.tensor_eq("positions are equally spaced along the direction and centred", y, [n, d], spec)
    return run


dot = lambda a, b: sum(p * q for p, q in zip(a, b))


def unit_norm(P, v):
    """the length of a non-zero normal"""
    x = [v.at(i) for i in range(3)]
    N = fresh("N", R)
    P.assume(z3.And(N > 0, N * N == sum(a * a for a in x)))
    P.assume(core.SQRT(sums.canon(sum(a * a for a in x))) == N)
    return N


PLANES = {"xy": (0, 1), "xz": (0, 2), "yz": (1, 2)}


def circular(dim, how, dtype=T.float32):
    def run(P):
        f = P.fn(A + "circular_array")
        d = P.int("dim", 0) if dim is None else dim
        if dim is None:
            P.assume(z3.And(d.t != 2, d.t != 3))
        c, C = centre(P, d, dtype)
        n, r = P.int("num"), P.real("radius")
        kw, scal = {}, [n.t > 0, r.t > 0]
        B = None
        if dim is None:
            scal.append(z3.BoolVal(False))
        elif how == "normal" and dim == 3:
            if dtype is not T.float32:
                pass
            nv = P.tensor("normal", [3])
            kw["normal"] = nv
            N = unit_norm(P, nv)
            B = True
        elif isinstance(how, str) and how.lower() in PLANES:
            kw["plane"] = how
        elif how == "unknown":
            kw["plane"] = AnyOther(set(PLANES))
            if dim == 3:
                scal.append(z3.BoolVal(False))
        st, y = P.call(f, c, num=n, radius=r, **kw)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(y, ValueError), repr(y))
            return P.impossible("valid requests are accepted", scal, [])
        for k, s in enumerate(scal):
            P.prove(f"only valid requests are accepted ({k})", s)
        ang = lambda i: 2 * core.PI * toreal(i) / toreal(n.t)
        cs = lambda i: core.COS(sums.canon(ang(i)))
        sn = lambda i: core.SIN(sums.canon(ang(i)))
        if dim == 2:
            spec = lambda i, j: C(j) + r.t * z3.If(j == 0, cs(i), sn(i))
        elif B is not None:
            i = fresh("i")
            P.assume(z3.And(i >= 0, i < n.t))
            P.shape_is("one 3-D position per microphone", y, [n, 3])
            e = [sums.canon(y.snapshot()([i, z3.IntVal(j)]) - C(j)) for j in range(3)]
            nn = [nv.at(j) for j in range(3)]
            c_, s_ = cs(i), sn(i)
            P.field_eq("perpendicular to the normal", dot(e, nn), z3.RealVal(0), [(N * N, dot(nn, nn))])
            P.field_eq("at the radius", dot(e, e), r.t * r.t, [(N * N, dot(nn, nn)), (c_ * c_ + s_ * s_, z3.RealVal(1))])
            k = fresh("k")
            P.assume(z3.And(k >= 0, k < n.t))
            e2 = [sums.canon(y.snapshot()([k, z3.IntVal(j)]) - C(j)) for j in range(3)]
            c2, s2 = cs(k), sn(k)
            P.field_eq("the angle between two microphones is the difference of their angles", dot(e, e2), r.t * r.t * (c_ * c2 + s_ * s2),
                       [(N * N, dot(nn, nn)), (c_ * c_ + s_ * s_, z3.RealVal(1)), (c2 * c2 + s2 * s2, z3.RealVal(1))])
            x = [dot(a, nn) for a in ([e[1] * e2[2] - e[2] * e2[1], e[2] * e2[0] - e[0] * e2[2], e[0] * e2[1] - e[1] * e2[0]],)]
            P.field_eq("and turned by it, in size", x[0] * x[0], N * N * r.t * r.t * r.t * r.t * (c_ * s2 - s_ * c2) * (c_ * s2 - s_ * c2),
                       [(N * N, dot(nn, nn)), (c_ * c_ + s_ * s_, z3.RealVal(1)), (c2 * c2 + s2 * s2, z3.RealVal(1))])
            return
        else:
            a, b = PLANES[how.lower()] if isinstance(how, str) and how != "default" else (0, 1)
            spec = lambda i, j: C(j) + r.t * z3.If(j == a, cs(i), z3.If(j == b, sn(i), z3.RealVal(0)))
        P.tensor_eq("positions at the radius, at equal angles, in the requested plane", y, [n, d], spec)
    return run


COUNT = {"tetrahedron": 4, "cube": 8, "octahedron": 6, "dodecahedron": 20, "icosahedron": 12}
NEIGHBOURS = {"tetrahedron": 3, "cube": 3, "octahedron": 4, "dodecahedron": 3, "icosahedron": 5}


def at_radius(P, y, c, r, n):
    fn = y.snapshot()
    for i in range(n):
        e = [fn([z3.IntVal(i), z3.IntVal(j)]) - toreal(c.at(j)) for j in range(3)]
        P.prove(f"microphone {i} at the radius", sums.canon(sum(a * a for a in e)) == r * r)


def poly(kind, dtype=T.float32):
    def run(P):
        f = P.fn(A + "polyhedron_array")
        c, C = centre(P, 3, dtype)
        r = P.real("radius")
        kw = {} if kind == "default" else {"kind": kind}
        st, y = P.call(f, c, radius=r, **kw)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(y, ValueError), repr(y))
            return P.impossible("a positive radius is accepted", [r.t > 0], [])
        P.prove("only a positive radius is accepted", r.t > 0)
        k = "tetrahedron" if kind == "default" else kind.lower()
        P.shape_is("vertex count", y, [COUNT[k], 3])
        fn = y.snapshot()
        for i in range(COUNT[k]):
            s = [fresh("s", R) for _ in range(3)]
            e = [sums.canon(fn([z3.IntVal(i), z3.IntVal(j)]) - C(j)) for j in range(3)]
            P.prove(f"microphone {i} at the radius", sum(a * a for a in e) == r.t * r.t)
    return run


def poly_bad(P):
    f = P.fn(A + "polyhedron_array")
    r = P.real("radius", pos=True)
    st, y = P.call(f, P.tensor("center", [3]), kind=AnyOther(set(COUNT)), radius=r)
    P.check("an unknown kind is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    n = P.int("n", 0)
    P.assume(n.t != 3)
    for name, g in (("polyhedron_array", lambda f, c: f(c, radius=r)), ("eigenmike_em32", lambda f, c: f(c)), ("eigenmike_em64", lambda f, c: f(c))):
        st, y = P.call(g, P.fn(A + name), P.tensor("center", [n]))
        P.check(f"{name}: only 3-D centres", st == "raise" and isinstance(y, ValueError), repr(y))


def eigenmike(name, n, dtype=T.float32):
    def run(P):
        f = P.fn(A + name)
        c, C = centre(P, 3, dtype)
        r, off = P.real("radius"), P.real("azimuth_offset_deg")
        st, y = P.call(f, c, radius=r, azimuth_offset_deg=off)
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(y, ValueError), repr(y))
            return P.impossible("a positive radius is accepted", [r.t > 0], [])
        P.prove("only a positive radius is accepted", r.t > 0)
        P.shape_is("microphone count", y, [n, 3])
        fn = y.snapshot()
        for i in range(n):
            e = [sums.canon(fn([z3.IntVal(i), z3.IntVal(j)]) - C(j)) for j in range(3)]
            P.prove(f"microphone {i} at the radius", sum(a * a for a in e) == r.t * r.t)
    return run


CASES = [Case(f"binaural {d.name} {'given' if g else 'default'} offset", binaural(d, g), FNS["binaural_array"]) for d in (T.float32, T.int64) for g in (True, False)]
CASES += [Case(f"linear {k} {d.name}", linear(k, d), FNS["linear_array"]) for k in ("axis", "default", "direction") for d in (T.float32, T.int64) if not (k == "direction" and d is T.int64)]
CASES += [Case(f"linear {n} microphones", linear("axis", num=n), FNS["linear_array"]) for n in (1, 2, 3)]
CASES += [Case(f"circular {dim}-D {h} {d.name}", circular(dim, h, d), FNS["circular_array"]) for dim, h in ((2, "default"), (2, "xz"), (2, "unknown"), (3, "default"), (3, "xy"), (3, "xz"), (3, "yz"), (3, "XZ"), (3, "Yz"), (3, "normal"), (3, "unknown"), (None, "default")) for d in (T.float32, T.int64)]
CASES += [Case(f"{k}{' ' + d.name if d is T.int64 else ''}", poly(k, d), [A + "polyhedron_array", A + "_polyhedron_vertices"]) for k in list(COUNT) + ["default", "Cube"] for d in ((T.float32, T.int64) if k == "cube" else (T.float32,))]
CASES += [Case("invalid kinds and centres", poly_bad, FNS["polyhedron_array"] + FNS["eigenmike_em32"] + FNS["eigenmike_em64"])]
CASES += [Case(n, eigenmike(n, k), FNS[n] + [A + "_spherical_array_from_angles"]) for n, k in (("eigenmike_em32", 32), ("eigenmike_em64", 64))]
