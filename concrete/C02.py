"""C02 runtime contracts: reflection gains."""
import numpy as np, torch
from ismref import *


def run(rt):
    f = rt.get("torchrir.sim.ism.images:_reflection_coefficients", False)
    if f is not None:
        for i in rt.rounds(300, 4000, .3):
            dim = rt.rng.choice([2, 3])
            n = torch.as_tensor(rt.np.integers(-7, 8, (rt.size(1, 30), dim)))
            if rt.rng.random() < .3:
                n[0] = 0
            beta = torch.as_tensor([rt.rng.choice([rt.rng.random(), 0.0, 1.0]) for _ in range(2 * dim)], dtype=torch.float64)
            rt.inputs(n=n, beta=beta)
            rt.count()
            b0 = beta.clone()
            try:
                y = f(n, beta)
            except TypeError:
                rt.skipped.append("_reflection_coefficients (signature)")
                break
            rt.close(y, refl(n.numpy(), beta.numpy()), "gain = product of wall coefficients to the bounce counts", 1e-10, 1e-13)
            rt.require(bool(((y >= 0) & (y <= 1)).all()), "gains lie in [0, 1]", y)
            rt.require(torch.equal(beta, b0), "coefficients unchanged")
            # smaller coefficients never increase a gain
            y2 = f(n, beta * torch.rand(2 * dim, dtype=torch.float64))
            rt.require(bool((y2 <= y + 1e-12).all()), "gains never grow with a reduced coefficient", y2)
    for i in rt.rounds(200, 2500, .7):
        sc = scene(rt, max_order=4, patterns="omni", walls="beta", fdl=rt.rng.choice([21, 41]), nsample=rt.size(100, 600), ns=1, nm=1, nb="any")
        sc["beta"] = np.array([rt.rng.choice([rt.rng.random(), rt.rng.random(), 0.0, 1.0]) for _ in sc["beta"]])
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        agree(rt, static(rt, sc), want, tol, "each image weighted by the walls it hit, in wall order", 1e-8)
