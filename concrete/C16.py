"""C16 runtime contracts: Sabine conversions."""
import math
from fractions import Fraction
import numpy as np, torch


def geometry(l):
    if len(l) == 2:
        return l[0] * l[1], [l[1], l[1], l[0], l[0]]
    x, y, z = l
    return x * y * z, [y * z, y * z, x * z, x * z, x * y, x * y]


def run(rt):
    A = "torchrir.util.acoustics:"
    f, g, h, cnt = (rt.get(A + n) for n in ("estimate_beta_from_t60", "estimate_t60_from_beta", "attenuation_db_to_time_sabine", "estimate_image_counts_from_tmax"))
    hint = [x for x in rt.floats if 0 < x < 1e6]

    def pos(lo, hi):
        return rt.rng.choice(hint) if hint and rt.rng.random() < .25 else math.exp(rt.rng.uniform(math.log(lo), math.log(hi)))
    for i in rt.rounds(1500, 15000):
        dim = 2 + i % 2
        l = [pos(.3, 60) for _ in range(dim)]
        form = rt.rng.choice(["f64", "f32", "int", "list", "f64"])
        if form == "int":
            l = [float(max(1, round(min(x, 1e5)))) for x in l]
            size = torch.tensor([int(x) for x in l])
        elif form == "list":
            size = l
        else:
            size = torch.tensor(l, dtype=torch.float64 if form == "f64" else torch.float32)
            l = size.double().tolist()
        tol = 1e-9 if form == "f64" else 2e-4
        V, a = geometry(l)
        S = sum(a)
        t60 = pos(.01, 8) if rt.rng.random() < .8 else .161 * V / S / rt.rng.choice([.999, .9, .5, .1, 1.2, .9989])
        rt.inputs(size=size, t60=t60)
        rt.count()
        b = rt.ok("a positive T60 is accepted", f, size, t60)
        rt.require(tuple(b.shape) == (2 * dim,) and b.is_floating_point(), "one floating coefficient per wall", b)
        alpha = min(.161 * V / (t60 * S), .999)
        rt.close(b.double(), np.full(2 * dim, math.sqrt(1 - alpha)), "coefficients from Sabine, equal on all walls", tol, tol)
        if alpha > 1e-3:
            rt.require(bool(((b >= 0) & (b < 1)).all()), "coefficients in [0, 1)", b)
        back = rt.ok("estimated coefficients convert back", g, size, b)
        want = .161 * V / (S * alpha)
        rt.close(np.array(float(back)), np.array(want), "the T60 comes back (within the absorption cap)", 1e-7 if form == "f64" else 1e-6 + 3e-6 / alpha, 0)
        nb = 2 * dim
        beta = torch.as_tensor(rt.np.choice([0.0, 1.0, .5, .9], nb) if rt.rng.random() < .4 else rt.np.uniform(0, 1, nb))
        if rt.rng.random() < .15:
            beta = torch.ones(nb, dtype=torch.float64)
        rt.inputs(size=size, beta=beta)
        t = rt.ok("coefficients convert", g, size, beta if rt.rng.random() < .7 else beta.tolist())
        ab = sum(x * (1 - y * y) for x, y in zip(a, beta.tolist()))
        if bool((beta == 1).all()):
            rt.require(t == math.inf, "infinite when nothing is absorbed", t, "inf")
        else:
            amax = min(1 - y * y for y in beta.tolist() if y < 1)
            if amax > 1e-4:
                rt.close(np.array(float(t)), np.array(.161 * V / ab), "Sabine with each wall weighted by its own area", 1e-9 if form == "f64" else 2e-3, 0)
        bad = rt.rng.choice([n for n in range(0, 9) if n != nb])
        rt.rejects("a wrong coefficient count is rejected", g, size, torch.full((bad,), .5), exc=ValueError)
        att = pos(.1, 200)
        rt.inputs(att_db=att, t60=t60)
        rt.close(np.array(float(rt.ok("positive arguments are accepted", h, att, t60))), np.array(att * t60 / 60), "attenuation to time", 1e-12, 0)
        neg = rt.rng.choice([0.0, -0.0, -1.0, -1e-9, -pos(.1, 100), 0, -3])
        rt.inputs(nonpositive=neg, size=size)
        rt.rejects("a non-positive attenuation is rejected", h, neg, t60, exc=ValueError)
        rt.rejects("a non-positive T60 is rejected", h, att, neg, exc=ValueError)
        rt.rejects("a non-positive T60 is rejected", f, size, neg, exc=ValueError)
        rt.rejects("a non-positive duration is rejected", cnt, neg, torch.tensor([3.0, 4.0, 5.0]), exc=ValueError)
        c = rt.rng.choice([343.0, 340.0, 345.5, pos(100, 2000)])
        k = [rt.rng.randint(1, 40) for _ in l]
        tmax = pos(.001, 2) if rt.rng.random() < .6 else k[0] * l[0] / c
        rt.inputs(tmax=tmax, size=size, c=c)
        n = rt.ok("a positive duration is accepted", cnt, tmax, size, c) if c != 343.0 or rt.rng.random() < .5 else rt.ok("a positive duration is accepted", cnt, tmax, size)
        rt.require(tuple(n.shape) == (dim,) and n.dtype is torch.int64, "one whole count per axis", n)
        q = np.array([tmax * c / x for x in l])
        near = np.abs(q - np.round(q)) < (1e-9 if form == "f64" else 1e-5) * np.maximum(q, 1)
        m = n.numpy()
        rt.require(bool(((m == np.ceil(q)) | near & (np.abs(m - q) <= 1.001)).all()), "smallest integer at least duration * speed / side", n, np.ceil(q))
        if i % 3 == 0:                      # exactly representable quotients leave no rounding: the count is exact
            ce, te = float(rt.rng.choice([256, 320, 340, 343, 352])), rt.rng.choice([.5, .25, .125, 1.0, .0625])
            le = [ce * te / rt.rng.choice([1, 2, 4, 8, 16, 32, 64]) * rt.rng.choice([1, 1, 1, 1.25, .75]) for _ in range(dim)]
            rt.inputs(tmax=te, size=le, c=ce)
            n = rt.ok("a positive duration is accepted", cnt, te, torch.tensor(le, dtype=rt.rng.choice([torch.float32, torch.float64])), ce)
            want = np.array([math.ceil(Fraction(te) * Fraction(ce) / Fraction(x)) for x in le])
            rt.require(bool((n.numpy() == want).all()), "smallest integer at least duration * speed / side, exact quotients included", n, want)
        b2 = rt.rng.choice([[3.0], [3.0, 4.0, 5.0, 6.0], [[3.0, 4.0, 5.0]], 3.0])
        rt.inputs(size=b2)
        rt.rejects("only 2 or 3 sides", f, torch.tensor(b2), t60, exc=ValueError)
        rt.rejects("only 2 or 3 sides", g, torch.tensor(b2), torch.full((6,), .5), exc=ValueError)
        rt.rejects("only 2 or 3 sides", cnt, tmax, torch.tensor(b2), exc=ValueError)
