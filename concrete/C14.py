"""C14 runtime contracts: rooms, sources, microphones exist exactly when valid."""
import math
import numpy as np, torch

NAN, INF = float("nan"), float("inf")


def fin(t, lo=None, hi=None, strict=False):
    a = np.asarray(t, np.float64)
    ok = np.isfinite(a).all()
    if lo is not None:
        ok = ok and ((a > lo).all() if strict else (a >= lo).all())
    if hi is not None:
        ok = ok and (a <= hi).all()
    return bool(ok)


def same(got, want):
    return isinstance(got, torch.Tensor) and got.is_floating_point() and tuple(got.shape) == np.shape(want) and np.allclose(got.double().numpy(), np.asarray(want, np.float64), rtol=1e-6, atol=0)


def run(rt):
    from torchrir.models import Room, Source, MicrophoneArray
    bads = [NAN, INF, -INF, 0.0, -1.0, -1e-9]
    hint = [x for x in rt.floats + [float(i) for i in rt.ints] if abs(x) < 1e9]

    def scalar(ok_p=.85):
        if rt.rng.random() > ok_p:
            return rt.rng.choice(bads)
        if hint and rt.rng.random() < .3:
            return rt.rng.choice(hint)
        return rt.rng.choice([rt.rng.uniform(1e-3, 1e3), rt.rng.randint(1, 96000), 1e-6, 1e6])

    def give(a):
        """the same values as a tensor, list, tuple, array of some dtype"""
        a = np.asarray(a)
        whole = np.isfinite(a).all() and (a == np.round(a)).all() and np.abs(a).max(initial=0) < 1e6
        k = rt.rng.random()
        if k < .35:
            return torch.as_tensor(a.astype(np.float64))
        if k < .5:
            return torch.as_tensor(a.astype(np.float64)).to(torch.float32)
        if k < .75:
            return (a.astype(int).tolist() if whole and rt.rng.random() < .5 else a.tolist())
        if whole:
            return torch.as_tensor(a.astype(np.int64)).to(rt.rng.choice([torch.int64, torch.int32]))
        return torch.as_tensor(a.astype(np.float64))

    def as64(v):
        return np.asarray(v.double().numpy() if isinstance(v, torch.Tensor) else np.array(v, np.float64), np.float64)

    for i in rt.rounds(1500, 15000, .45):
        mode = i % 3
        k = rt.rng.choice([2, 3, 3, 2, 1, 4, 0, 5]) if mode == 0 else rt.rng.choice([2, 3])
        s = rt.np.integers(1, 12, k).astype(float) if rt.rng.random() < .4 else rt.np.uniform(.05, 30, k)
        if rt.rng.random() < .2 and k:
            s[rt.rng.randrange(k)] = rt.rng.choice(bads)
        if rt.rng.random() < .05:
            s = s.reshape(1, -1)
        fs, c = scalar(.92), scalar(.92)
        kw = {"fs": fs, "c": c}
        valid = s.ndim == 1 and k in (2, 3) and fin(s, 0, strict=True) and fin(fs, 0, strict=True) and fin(c, 0, strict=True)
        beta = t60 = None
        if mode == 1 or rt.rng.random() < .1:
            nb = 2 * k if rt.rng.random() < .8 else rt.rng.choice([0, 1, k, 4, 6, 2 * k + 1, max(2 * k - 1, 0)])
            beta = rt.np.choice([0.0, 1.0, .5, .999, 1e-12], nb) if rt.rng.random() < .4 else rt.np.uniform(0, 1, nb)
            if rt.rng.random() < .25 and nb:
                beta[rt.rng.randrange(nb)] = rt.rng.choice([NAN, INF, -INF, -1e-6, 1 + 1e-6, 2.0, -1.0])
            beta = give(beta)
            valid = valid and nb == 2 * k and fin(as64(beta), 0, 1)
            kw["beta"] = beta
        if mode == 2 or rt.rng.random() < .07:
            t60 = scalar(.75)
            valid = valid and fin(t60, 0, strict=True)
            kw["t60"] = t60
        if beta is not None and t60 is not None:
            valid = False
        size = give(s)
        sv = as64(size)
        valid = valid and fin(sv, 0, strict=True)
        rt.inputs(size=size, **kw)
        rt.count()
        via = rt.rng.choice(["Room", "shoebox", "replace"])
        f = {"Room": lambda: Room(size if isinstance(size, torch.Tensor) else torch.tensor(size), **kw), "shoebox": lambda: Room.shoebox(size, **kw),
             "replace": lambda: Room(torch.tensor([3.0, 4.0, 5.0]), fs=1000.0).replace(size=size if isinstance(size, torch.Tensor) else torch.tensor(size), **kw)}[via]
        if via != "shoebox" and isinstance(kw.get("beta"), (list, tuple)):
            kw["beta"] = torch.tensor(kw["beta"])
        if valid:
            r = rt.ok("a valid room is accepted", f)
            rt.require(same(r.size, sv), "the size is kept", r.size)
            rt.require(r.fs == fs and r.c == c and r.t60 == t60, "rate, speed and T60 are kept", (r.fs, r.c, r.t60))
            rt.require((r.beta is None) if beta is None else same(r.beta, as64(kw["beta"]).reshape(-1)), "the coefficients are kept", r.beta)
            # replacing one field re-validates
            j = rt.rng.choice(["fs", "c", "t60", "beta", "size"])
            bad = {"fs": rt.rng.choice(bads), "c": rt.rng.choice(bads), "t60": rt.rng.choice(bads), "beta": torch.full((2 * k,), rt.rng.choice([NAN, 1.5, -.1, INF])),
                   "size": torch.tensor([[1.0] * (k - 1) + [rt.rng.choice(bads)], [1.0], [1.0] * 4][rt.rng.randrange(3)])}[j]
            ch = {j: bad}
            if j == "beta":
                ch["t60"] = None
            if j == "t60":
                ch["beta"] = None
            rt.inputs(size=size, replaced=ch, **kw)
            rt.rejects("replacing fields re-validates", r.replace, exc=ValueError, **ch)
            if beta is None and t60 is None or rt.rng.random() < .5:
                ch = {"beta": torch.full((2 * k,), .5), "t60": .5}
                rt.inputs(size=size, replaced=ch)
                rt.rejects("coefficients together with T60 are rejected", r.replace, exc=ValueError, **ch)
            ok = r.replace(c=350.0)
            rt.require(ok.c == 350.0 and ok.fs == fs and same(ok.size, sv) and ok.t60 == t60 and (ok.beta is None) == (beta is None), "replacing keeps the other fields", ok)
        else:
            rt.rejects("an invalid room is rejected", f, exc=(ValueError, TypeError))
    for i in rt.rounds(2500, 20000, .5):
        C = (Source, MicrophoneArray)[i % 2]
        d = rt.rng.choice([2, 3, 2, 3, 2, 3, 1, 4, 0])
        n = rt.size(0, 7, [1, 1, 2, 3], big=150)
        rank = rt.rng.choice([1, 2, 2, 2, 2, 3, 0])
        shp = {0: (), 1: (d,), 2: (n, d), 3: (1, n, d)}[rank]
        p = rt.np.integers(-5, 9, shp).astype(float) if rt.rng.random() < .4 else rt.np.uniform(-4, 9, shp)
        p = np.asarray(p)
        huge = rt.rng.random() < .06 and p.size   # finite, but with overflowing squares and sums
        if huge:
            p = p / (np.abs(p).max() + 1e-3) * 1e308
        if rt.rng.random() < .12 and p.size:
            p.reshape(-1)[rt.rng.randrange(p.size)] = rt.rng.choice([NAN, INF, -INF])
        valid = rank in (1, 2) and d in (2, 3) and fin(p)
        cnt = 1 if rank == 1 else n
        ori = None
        if rt.rng.random() < .65:
            a, b = rt.rng.choice([(1,), (2,), (cnt,), (3,), (4,)]), rt.rng.choice([1, 2, 3, 4])
            os = rt.rng.choice([(), a, (cnt, b), (cnt, b), (cnt + 1, b), (1, b), (cnt, 1, b)])
            ori = np.asarray(rt.np.integers(-3, 4, os).astype(float) if rt.rng.random() < .3 else rt.np.uniform(-3, 3, os))
            if rt.rng.random() < .12 and ori.size:
                ori.reshape(-1)[rt.rng.randrange(ori.size)] = rt.rng.choice([NAN, INF, -INF])
            two = os == () or len(os) == 1 and os[0] in (1, 2, cnt) or len(os) == 2 and os[0] == cnt and os[1] in (1, 2)
            three = len(os) == 1 and os[0] in (2, 3) or len(os) == 2 and os[0] == cnt and os[1] in (2, 3)
            valid = valid and (two if d == 2 else three) and fin(ori)
        pg, og = torch.as_tensor(p) if huge else give(p), None if ori is None else give(ori)
        if p.size == 0 and isinstance(pg, list):
            pg = torch.as_tensor(p)
        if ori is not None and ori.size == 0 and isinstance(og, list):
            og = torch.as_tensor(ori)
        pv, ov = as64(pg).reshape(p.shape), None if ori is None else as64(og).reshape(ori.shape)
        rt.inputs(cls=C.__name__, positions=pg, orientation=og)
        rt.count()
        via = rt.rng.choice(["new", "from", "replace"])
        T = lambda v: v if v is None or isinstance(v, torch.Tensor) else torch.tensor(v)
        f = {"new": lambda: C(T(pg), T(og)), "from": lambda: C.from_positions(pg, orientation=og),
             "replace": lambda: C(torch.tensor([[1.0, 2.0, 3.0]])).replace(positions=T(pg), orientation=T(og))}[via]
        if valid:
            e = rt.ok("valid positions are accepted", f)
            rt.require(same(e.positions, pv.reshape(1, -1) if rank == 1 else pv), "the positions are kept", e.positions)
            rt.require(e.orientation is None if ori is None else same(e.orientation, ov), "the orientation is kept", e.orientation)
            if n:
                rt.rejects("replacing re-validates", e.replace, positions=torch.full((2, 3), NAN), exc=ValueError)
                rt.rejects("replacing re-validates", e.replace, orientation=torch.zeros(e.positions.shape[0] + 1, 7), exc=ValueError)
        else:
            rt.rejects("invalid positions or orientation are rejected", f, exc=(ValueError, TypeError))
