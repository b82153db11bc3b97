"""C21 runtime contracts: sampled and clamped positions."""
import random
import numpy as np, torch


class Own(random.Random):
    pass


def run(rt):
    S = "torchrir.geometry.sampling:"
    plain, zr, md, clamp = (rt.get(S + n) for n in ("sample_positions", "sample_positions_with_z_range", "sample_positions_min_distance", "clamp_positions"))
    for i in rt.rounds(1200, 12000, .7):
        dim = rt.rng.choice([2, 3, 3])
        n = rt.size(1, 30, [1, 2, 3], big=400)
        m = rt.rng.choice([.5, .5, 0.0, .1, 1.0, rt.rng.uniform(0, 2)])
        L = np.array([2 * m + rt.rng.choice([0.0, rt.rng.uniform(.01, 10), rt.rng.uniform(1, 6)]) for _ in range(dim)])
        room = torch.as_tensor(L) if rt.rng.random() < .6 else torch.as_tensor(L, dtype=torch.float32)
        if rt.rng.random() < .2:
            L = np.ceil(L) + 1
            room = torch.as_tensor(L).to(torch.int64)
        L = room.double().numpy()
        if (L < 2 * m).any():
            continue
        kw = {} if m == .5 and rt.rng.random() < .7 else {"margin": m}
        lo, hi = 1.5, 1.8
        which = i % 3
        zgiven = rt.rng.random() < .6
        if which and zgiven:
            lo = rt.rng.uniform(-1, L[-1])
            hi = lo + rt.rng.choice([rt.rng.uniform(0, 2), rt.rng.uniform(0, 8), 0.0, -.2])
            kw["z_range"] = (lo, hi)
        none = which == 2 and rt.rng.random() < .2
        if none:
            kw["z_range"] = None
        seed = rt.rng.randrange(10 ** 9)
        state = (random.getstate(), torch.get_rng_state().clone(), np.random.get_state()[1].copy())
        f = (plain, zr, md)[which]
        if which == 2:
            kw["center"] = torch.as_tensor(rt.np.uniform(0, 1, dim) * L)
            kw["min_distance"] = rt.rng.choice([0.0, rt.rng.uniform(0, 1.2), rt.rng.uniform(0, .45) * float(np.linalg.norm(L))])
            if rt.rng.random() < .5:
                kw["max_attempts"] = rt.rng.choice([n, 1, 5, 50, 300, 0])
        rt.inputs(fn=f.__name__, num=n, room=room, seed=seed, **kw)
        rt.count()
        st, y = rt.call(f, num=n, room_size=room, rng=random.Random(seed), **kw)
        if st == "raise":
            if which != 2:
                rt.viol("positions are found in a feasible room", None, "positions", f"{type(y).__name__}: {y}")
            rt.require(isinstance(y, (RuntimeError, ValueError)), "a failure is an error", repr(y))
            if "max_attempts" not in kw and kw["min_distance"] == 0.0:
                rt.viol("positions are found in a feasible room", None, "positions", f"{type(y).__name__}: {y}")
            continue
        rt.require(tuple(y.shape) == (n, dim), "the requested number of positions", list(y.shape), [n, dim])
        p = y.double().numpy()
        e = 2e-6 * (1 + np.abs(L).max())
        rt.require(bool(((p >= m - e) & (p <= L - m + e)).all()), "inside the room by the margin", y)
        if which and dim == 3 and not none and lo < hi and hi > m + e and lo < L[2] - m - e:
            rt.require(bool(((p[:, 2] >= lo - e) & (p[:, 2] <= hi + e)).all()), "inside the height range when it is feasible", p[:, 2], [lo, hi])
        if which == 2:
            d = np.linalg.norm(p - kw["center"].numpy(), axis=1)
            rt.require(bool((d >= kw["min_distance"] - 5 * e).all()), "at least the minimum distance from the centre", d, kw["min_distance"])
        torch.manual_seed(rt.rng.randrange(1000)), random.seed(rt.rng.randrange(1000)), np.random.seed(rt.rng.randrange(1000))
        mid = (random.getstate(), torch.get_rng_state().clone(), np.random.get_state()[1].copy())
        z = rt.ok("the same generator gives the same positions", f, num=n, room_size=room, rng=random.Random(seed), **kw)
        rt.require(torch.equal(y, z), "they depend only on the generator passed in", z, y)
        rt.require(random.getstate() == mid[0] and torch.equal(torch.get_rng_state(), mid[1]) and (np.random.get_state()[1] == mid[2]).all(), "no other generator is used")
        if which == 2:
            bad = torch.zeros(rt.rng.choice([k for k in (1, 2, 3, 4) if k != dim]))
            rt.rejects("a centre of another dimension is rejected", f, num=n, room_size=room, rng=random.Random(1), exc=ValueError, **{**kw, "center": bad})
    for i in rt.rounds(1200, 12000, .3):
        dim = rt.rng.choice([1, 2, 3, 3])
        m = rt.rng.choice([.1, rt.rng.uniform(0, .5)])
        L = rt.np.uniform(1.1, 9, dim)
        room = torch.as_tensor(L) if rt.rng.random() < .7 else torch.as_tensor(np.ceil(L)).to(torch.int64)
        L = room.double().numpy()
        shp = tuple(rt.size(1, 6) for _ in range(rt.rng.choice([0, 1, 2, 3]))) + (dim,)
        p = rt.np.uniform(-3, 12, shp)
        near = rt.np.random(shp) < .3
        p = np.where(near, np.broadcast_to(rt.np.choice([m, -m, 0.0, .5], shp), shp), p)
        t = torch.as_tensor(p)
        if rt.rng.random() < .15:
            t = t.round().to(torch.int64)
            p = t.double().numpy()
        keep = t.clone()
        kw = {} if m == .1 and rt.rng.random() < .7 else {"margin": m}
        rt.inputs(positions=t, room=room, **kw)
        rt.count()
        y = rt.ok("positions are clamped", clamp, t, room, **kw)
        tol = 1e-12 if room.is_floating_point() else 1e-6
        rt.close(y, np.minimum(np.maximum(p, m), L - m), "the nearest point inside the margins", tol, tol)
        rt.require(torch.equal(t, keep), "the input is left alone")
