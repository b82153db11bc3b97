"""C01 runtime contracts: the image set and the mirrored positions."""
import numpy as np, torch
from ismref import *

IM = "torchrir.sim.ism.images:"


def run(rt):
    idx, pos, posb = (rt.get(IM + n, False) for n in ("_image_source_indices", "_image_positions", "_image_positions_batch"))
    if idx is not None:
        for i in rt.rounds(120, 1500, .2):
            dim = rt.rng.choice([2, 3])
            order = rt.size(0, 7 if dim == 3 else 14, big=18 if dim == 3 else 70)
            nb = tuple(rt.size(0, 4, big=14 if dim == 3 else 40) for _ in range(dim)) if rt.rng.random() < .5 else None
            if i % 25 == 7:
                order = rt.rng.randint(8, 16 if dim == 3 else 40)
                nb = None if rt.rng.random() < .3 else tuple(rt.rng.randint(5, 13 if dim == 3 else 70) for _ in range(dim))
            rt.inputs(order=order, dim=dim, nb_img=nb)
            rt.count()
            nbv = nb if nb is None or rt.rng.random() < .5 else torch.tensor(nb)
            try:
                n = idx(order, dim, device=torch.device("cpu"), nb_img=nbv)
            except TypeError:
                rt.skipped.append("_image_source_indices (signature)")
                break
            got = sorted(map(tuple, n.tolist()))
            rt.require(got == sorted(map(tuple, lattice(order, dim, nb).tolist())), "index vectors: exactly the requested lattice set, once each", got[:50])
    if pos is not None or posb is not None:
        for i in rt.rounds(120, 1500, .2):
            dim = rt.rng.choice([2, 3])
            big = rt.rng.choice([9, 9, 40, 400, 70000])
            n = torch.as_tensor(rt.np.integers(-big, big + 1, (rt.size(1, 40), dim)))
            L = torch.as_tensor(rt.np.uniform(.5, 9, dim))
            S = torch.as_tensor(rt.np.uniform(0, 1, (rt.size(1, 4), dim))) * L
            rt.inputs(n=n, L=L, s=S)
            rt.count()
            want = np.stack([image(n.numpy(), L.numpy(), s.numpy()) for s in S])
            try:
                if posb is not None:
                    rt.close(posb(S, L, n), want, "image positions", 1e-12, 1e-10)
                if pos is not None:
                    rt.close(pos(S[0], L, n), want[0], "image positions", 1e-12, 1e-10)
            except TypeError:
                rt.skipped.append("_image_positions (signature)")
                break
    # through the public interface: with rigid walls every image appears in the response
    for i in rt.rounds(150, 2000, .6):
        sc = scene(rt, max_order=6, patterns="omni", walls="none", fdl=rt.rng.choice([21, 81]), nsample=rt.size(100, 600), ns=1, nm=1)
        if i % 10 == 4:                     # images very far away along one axis of a small room
            far(rt, sc)
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        agree(rt, static(rt, sc), want, tol, "every image of the requested set contributes once, from its mirrored position", 1e-8)
        if sc["nb"] is not None and i % 3 == 0:
            sc2 = dict(sc, nb=torch.tensor(sc["nb"]))
            agree(rt, static(rt, sc2), want, tol, "per-axis counts given as a tensor", 1e-8)
