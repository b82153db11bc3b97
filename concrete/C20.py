"""C20 runtime contracts: array layouts."""
import math
import numpy as np, torch

COUNT = {"tetrahedron": (4, 3), "cube": (8, 3), "octahedron": (6, 4), "dodecahedron": (20, 3), "icosahedron": (12, 5)}


def run(rt):
    G = "torchrir.geometry.arrays:"
    lin, cir, pol, e32, e64, bi = (rt.get(G + n) for n in ("linear_array", "circular_array", "polyhedron_array", "eigenmike_em32", "eigenmike_em64", "binaural_array"))
    mix = lambda n: "".join(c.upper() if rt.rng.random() < .4 else c for c in n)

    def centre(dim):
        c = rt.np.uniform(-8, 8, dim)
        form = rt.rng.choice(["t64", "t64", "t32", "list", "int", "intlist", "tuple"])
        if form.startswith("int"):
            c = np.round(c)
            return c, (torch.as_tensor(c).to(torch.int64) if form == "int" else [int(x) for x in c]), 3e-6
        if form == "t64":
            return c, torch.as_tensor(c), 1e-9
        return c.astype(np.float32).astype(float), (torch.as_tensor(c, dtype=torch.float32) if form == "t32" else (list if form == "list" else tuple)(c.astype(np.float32).tolist())), 3e-6

    def direction(dim):
        v = rt.np.standard_normal(dim)
        if rt.rng.random() < .4:
            v = np.zeros(dim)
            v[rt.rng.randrange(dim)] = rt.rng.choice([1, -1, 2, -.5])
        if rt.rng.random() < .1 and dim == 3:
            v = np.array([1.0, rt.rng.choice([0, 1e-3, 1e-2]), 0]) * rt.rng.choice([1, -1, 3])
        return v * rt.rng.choice([1, 1, .01, 50])

    def give(v):
        return torch.as_tensor(v) if rt.rng.random() < .5 else v.tolist()
    pos = lambda: rt.rng.choice([rt.rng.uniform(.005, .5), rt.rng.uniform(.5, 3), 1, 2])
    nonpos = lambda: rt.rng.choice([0, 0.0, -1, -.1, -1e-9])

    def sphere(y, c, r, n, tol):
        rt.require(tuple(y.shape) == (n, 3) and y.is_floating_point(), "microphone count", list(y.shape), [n, 3])
        p = y.double().numpy() - c
        rt.close(np.linalg.norm(p, axis=1), np.full(n, float(r)), "every microphone at the given radius", tol * 10, tol * 10)
        d = np.linalg.norm(p[:, None] - p[None], axis=-1) + np.eye(n) * 9e9
        return p, d
    for i in rt.rounds(1500, 15000):
        dim = rt.rng.choice([2, 3, 3])
        c, cg, tol = centre(dim)
        n, sp = rt.size(1, 12, [1, 2, 3], big=400), pos()
        k = i % 5
        rt.count((k, n, sp, str(cg)))
        if k == 0:
            how = rt.rng.choice(["axis", "axis", "direction", "default"])
            kw, u = {}, np.eye(dim)[0]
            if how == "axis":
                kw["axis"] = rt.rng.randrange(dim)
                u = np.eye(dim)[kw["axis"]]
            elif how == "direction":
                v = direction(dim)
                kw["direction"] = give(v)
                u = v / np.linalg.norm(v)
            rt.inputs(center=cg, num=n, spacing=sp, **kw)
            y = rt.ok("a linear array is built", lin, cg, num=n, spacing=sp, **kw)
            rt.close(y, c + (np.arange(n)[:, None] - (n - 1) / 2) * sp * u, "equally spaced along the direction, centred", tol, tol * 4 * max(1, sp * n))
            for ch, bad in (("num", rt.rng.choice([0, -1, -5])), ("spacing", nonpos()), ("axis", rt.rng.choice([dim, -1, dim + 3, -dim])), ("direction", [1.0] * (dim + rt.rng.choice([1, -1])))):
                rt.inputs(center=cg, **{"num": n, "spacing": sp, ch: bad})
                rt.rejects(f"an invalid {ch} is rejected", lin, cg, exc=ValueError, **{"num": n, "spacing": sp, ch: bad})
        elif k in (1, 2):
            kw = {}
            a = 2 * math.pi * np.arange(n) / n
            xy = np.stack([np.cos(a), np.sin(a)], 1)
            if dim == 2:
                want = c + sp * xy
            elif rt.rng.random() < .5:
                pl = rt.rng.choice(["xy", "xz", "yz", None])
                if pl:
                    kw["plane"] = mix(pl)
                want = np.zeros((n, 3))
                ax = ["xyz".index(q) for q in (pl or "xy")]
                want[:, ax] = sp * xy
                want = want + c
            else:
                v = direction(3)
                kw["normal"] = give(v)
                want = None
            rt.inputs(center=cg, num=n, radius=sp, **kw)
            y = rt.ok("a circular array is built", cir, cg, num=n, radius=sp, **kw)
            rt.require(y.is_floating_point() and tuple(y.shape) == (n, dim), "one floating position per microphone", y)
            if want is not None:
                rt.close(y, want, "at the radius, at equal angles, in the requested plane", tol, tol * 4 * max(1, sp))
            else:
                t2 = max(tol, 1e-6) * (1 if np.linalg.norm(np.cross(v / np.linalg.norm(v), [1, 0, 0])) > .1 else 200)
                p = y.double().numpy() - c
                rt.close(np.linalg.norm(p, axis=1), np.full(n, float(sp)), "at the radius", 20 * t2, 20 * t2)
                rt.close(p @ (v / np.linalg.norm(v)), np.zeros(n), "perpendicular to the normal", 0, 20 * t2 * max(1, sp))
                rt.close(p @ p.T, sp * sp * np.cos(a[:, None] - a[None]), "at equal angles", 40 * t2, 40 * t2 * max(1, sp * sp))
            for ch, bad in (("num", rt.rng.choice([0, -1])), ("radius", nonpos())) + ((("plane", rt.rng.choice(["zx", "x", "", "xyz", "ab"])), ("normal", [1.0, 0.0])) if dim == 3 else ()):
                rt.inputs(center=cg, **{"num": n, "radius": sp, ch: bad})
                rt.rejects(f"an invalid {ch} is rejected", cir, cg, exc=ValueError, **{"num": n, "radius": sp, ch: bad})
            bd = rt.rng.choice([1, 4, 5])
            rt.inputs(center=[0.0] * bd)
            rt.rejects("only 2-D and 3-D centres", cir, [0.0] * bd, num=n, radius=sp, exc=ValueError)
        elif k == 3:
            c, cg, tol = centre(3)
            kind = rt.rng.choice(list(COUNT))
            rt.inputs(center=cg, kind=kind, radius=sp)
            y = rt.ok("a polyhedron array is built", pol, cg, kind=mix(kind), radius=sp)
            p, d = sphere(y, c, sp, COUNT[kind][0], tol)
            m = d.min()
            near = (d < m * (1 + 1e-3) + 30 * tol).sum(1)
            rt.require(m > .2 * sp and bool((near == COUNT[kind][1]).all()), "vertices of the regular solid, no two at the same place", near.tolist(), COUNT[kind][1])
            rt.close(p.sum(0), np.zeros(3), "centred", 0, 100 * tol * max(1, sp))
            rt.inputs(center=cg, kind="?", radius=sp)
            rt.rejects("an unknown kind is rejected", pol, cg, kind=rt.rng.choice(["", "prism", "tetra", kind + "s", kind[:-1]]), radius=sp, exc=ValueError)
            rt.rejects("a non-positive radius is rejected", pol, cg, kind=kind, radius=nonpos(), exc=ValueError)
            rt.rejects("only 3-D centres", pol, [0.0] * rt.rng.choice([1, 2, 4]), kind=kind, radius=sp, exc=ValueError)
            if i % 2:
                c, cg, tol = centre(dim)
                off = rt.rng.choice([rt.rng.uniform(-.5, .5), .08, .1])
                rt.inputs(center=cg, offset=off)
                y = rt.ok("a pair is built", bi, cg, offset=off)
                rt.close(y, np.stack([c - off * np.eye(dim)[0], c + off * np.eye(dim)[0]]), "the pair sits at -offset and +offset along x", tol, 4 * tol)
                y = rt.ok("a pair is built", bi, cg)
                rt.close(y, np.stack([c - .08 * np.eye(dim)[0], c + .08 * np.eye(dim)[0]]), "the pair sits at -offset and +offset along x", tol, 4 * tol)
        else:
            c, cg, tol = centre(3)
            f, m = rt.rng.choice([(e32, 32), (e64, 64)])
            kw = {}
            if rt.rng.random() < .7:
                kw["radius"] = sp
            if rt.rng.random() < .5:
                kw["azimuth_offset_deg"] = rt.rng.uniform(-400, 400)
            rt.inputs(center=cg, mics=m, **kw)
            y = rt.ok("a spherical array is built", f, cg, **kw)
            r = kw.get("radius", .042)
            p, d = sphere(y, c, r, m, tol)
            rt.require(d.min() > .1 * r, "no two microphones at the same place", float(d.min()))
            z = rt.ok("a spherical array is built", f, cg, **{**kw, "azimuth_offset_deg": 0.0}).double().numpy() - c
            o = math.radians(kw.get("azimuth_offset_deg", 0.0))
            rt.close(p, z @ np.array([[math.cos(o), math.sin(o), 0], [-math.sin(o), math.cos(o), 0], [0, 0, 1]]), "the azimuth offset turns the array about z", 0, 1e-5 * max(1, r) + tol * 20)
            rt.rejects("a non-positive radius is rejected", f, cg, radius=nonpos(), exc=ValueError)
            rt.rejects("only 3-D centres", f, [0.0] * rt.rng.choice([1, 2, 4]), exc=ValueError)
