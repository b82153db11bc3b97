"""C15 runtime contracts: a scene exists exactly when its parts agree; the deprecated scene converts without loss."""
import warnings
import numpy as np, torch

NAN, INF = float("nan"), float("inf")


def run(rt):
    from torchrir.models import Room, Source, MicrophoneArray, StaticScene, DynamicScene, Scene
    warnings.simplefilter("ignore")
    hint = [i for i in rt.ints if 0 <= i <= 12]

    def n(special=(1, 1, 2, 3)):
        return rt.rng.choice(hint) if hint and rt.rng.random() < .2 else rt.rng.choice(list(special) + [rt.rng.randint(0, 7)])

    def wobble(v):
        return v if rt.rng.random() < .88 else max(0, v + rt.rng.choice([-1, 1, 2, -2]))

    for i in rt.rounds(1200, 15000, .9):
        dim = rt.rng.choice([2, 3])
        ds, dm = (dim if rt.rng.random() < .93 else 5 - dim for _ in range(2))
        ns, nm = n(), n()
        room = Room(size=torch.as_tensor(rt.np.uniform(2, 8, dim)), fs=16000.0)
        src = Source(torch.as_tensor(rt.np.uniform(.1, 2, (ns, ds))))
        mic = MicrophoneArray(torch.as_tensor(rt.np.uniform(.1, 2, (nm, dm))))
        T = n((1, 2, 4, 5))

        def traj(count, other=None):
            steps = wobble(T)
            r = rt.rng.choices([3, 2, 1, 0, 4], [8, 4, .4, .3, .4])[0]
            c, d = wobble(count), (dim if rt.rng.random() < .95 else 5 - dim)
            shape = {0: (), 1: (d,), 2: (steps, d), 3: (steps, c, d), 4: (steps, c, d, 1)}[r]
            a = rt.np.uniform(0, 2, shape)
            if a.size and rt.rng.random() < .1:
                a.flat[rt.rng.randrange(a.size)] = rt.rng.choice([NAN, INF, -INF])
            fin = bool(np.isfinite(a).all())
            ok = fin and ((r == 2 and count == 1 and d == dim) or (r == 3 and c == count and d == dim))
            return torch.as_tensor(a, dtype=rt.rng.choice([torch.float32, torch.float64])) if r else torch.tensor(float(a)), ok, (shape[0] if r else -1)

        base_ok = ds == dim and dm == dim
        a, oka, ta = traj(ns)
        b, okb, tb = traj(nm)
        mode = i % 6
        inp = dict(dim=dim, source_positions=tuple(src.positions.shape), mic_positions=tuple(mic.positions.shape), src_traj=tuple(a.shape), mic_traj=tuple(b.shape), finite=[bool(torch.isfinite(a).all()), bool(torch.isfinite(b).all())])
        if mode == 0:
            cls, kw, valid = StaticScene, {}, base_ok
        elif mode == 1:
            cls, kw, valid = Scene, {}, base_ok
        elif mode == 2:
            cls, kw, valid = Scene, ({"src_traj": a} if rt.rng.random() < .5 else {"mic_traj": b}), False
        elif mode == 3:
            cls, kw, valid = Scene, dict(src_traj=a, mic_traj=b), base_ok and oka and okb and ta == tb
        else:
            cls, kw, valid = DynamicScene, dict(src_traj=a, mic_traj=b), base_ok and oka and okb and ta == tb
        rt.inputs(scene=cls.__name__, given=sorted(kw), **inp)
        rt.count()
        keep = (a.clone(), b.clone())
        if not valid:
            rt.rejects(f"{cls.__name__}: inconsistent parts are rejected", cls, room=room, sources=src, mics=mic, exc=(ValueError, TypeError), **kw)
            continue
        sc = rt.ok(f"{cls.__name__}: consistent parts are accepted", cls, room=room, sources=src, mics=mic, **kw)
        if sc is None:
            continue

        def whole(label, q, dyn):
            rt.require(q.room is room and q.sources is src and q.mics is mic, f"{label}: the parts are kept", repr(q)[:300], "the given room, sources and microphones")
            if dyn:
                rt.require(torch.equal(q.src_traj, keep[0]) and torch.equal(q.mic_traj, keep[1]) and q.src_traj.dtype == keep[0].dtype, f"{label}: the trajectories are kept", repr(q.src_traj)[:300], repr(keep[0])[:300])
            rt.require(q.is_dynamic() == dyn, f"{label}: dynamic exactly with trajectories", q.is_dynamic(), dyn)
            rt.ok(f"{label}: an accepted scene validates", q.validate)

        dyn = bool(kw)
        whole(cls.__name__, sc, dyn)
        if cls is Scene:
            good, bad = (sc.to_dynamic_scene, sc.to_static_scene) if dyn else (sc.to_static_scene, sc.to_dynamic_scene)
            rt.rejects("conversion to the other kind is rejected", bad, exc=(ValueError, TypeError))
            q = rt.ok("conversion to the matching kind", good)
            if q is not None:
                rt.require(type(q) is (DynamicScene if dyn else StaticScene), "conversion gives the matching kind", type(q).__name__, "DynamicScene" if dyn else "StaticScene")
                whole("converted scene", q, dyn)
        if i % 50 == 0:
            for args in ((src, src, mic), (room, mic, mic), (room, src, src), (None, src, mic), (room, None, mic), (room, src, None)):
                rt.rejects(f"{cls.__name__}: a part of the wrong kind is rejected", cls, *args, exc=Exception, **kw)
