"""C13 runtime contracts: orientations to unit vectors."""
import math
import numpy as np, torch


def expected(o, dim):
    o = np.asarray(o, np.float64)
    if dim == 2:
        if o.ndim == 0:
            return np.array([math.cos(o), math.sin(o)])
        if o.shape[-1] == 2:
            return o / np.linalg.norm(o, axis=-1, keepdims=True)
        a = o if (o.ndim == 1 and o.shape[0] > 2) else o[..., 0]
        return np.stack([np.cos(a), np.sin(a)], -1)
    if o.shape[-1] == 2:
        az, el = o[..., 0], o[..., 1]
        return np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)], -1)
    return o / np.linalg.norm(o, axis=-1, keepdims=True)


def run(rt):
    f = rt.get("torchrir.util.orientation:orientation_to_unit")
    nrm = rt.get("torchrir.util.orientation:normalize_orientation", False)
    special = [0.0, math.pi / 2, math.pi, -math.pi / 2, 2 * math.pi, -math.pi, 3.5 * math.pi, 100.0, 1e-9] + [x for x in rt.floats if abs(x) < 1e4]
    ang = lambda *s: np.where(rt.np.random(s) < .3, rt.np.choice(special, s), rt.np.uniform(-8, 8, s))

    def vec(*s):
        v = rt.np.standard_normal(s)
        v = v * np.where(rt.np.random(s) < .75, 1, 0)
        v[..., 0] += np.where(np.linalg.norm(v, axis=-1) < .05, rt.rng.choice([1.0, -1.0]), 0)
        return v * 10.0 ** rt.np.uniform(-2, 3)
    for i in rt.rounds(1500, 10000):
        dim = 2 + i % 2
        n, m = rt.size(1, 9, [1, 2, 3], big=300), rt.size(1, 5, [1, 2, 3])
        if dim == 2:
            o = rt.rng.choice([lambda: ang(), lambda: ang(1), lambda: ang(n + 2), lambda: ang(n, 1), lambda: ang(n, m, 1), lambda: vec(2), lambda: vec(n, 2), lambda: vec(n, m, 2)])()
        else:
            o = rt.rng.choice([lambda: ang(2), lambda: ang(n, 2), lambda: ang(n, m, 2), lambda: vec(3), lambda: vec(n, 3), lambda: vec(n, m, 3)])()
        dt = rt.rng.choice([torch.float64, torch.float64, torch.float32])
        t = torch.as_tensor(np.asarray(o)).to(dt)
        if rt.rng.random() < .2 and t.ndim >= 2:
            t = torch.stack([t, torch.zeros_like(t)], -1)[..., 0]      # non-contiguous view
        rt.inputs(orientation=t, dim=dim)
        rt.count()
        keep = t.clone()
        want = expected(t.double().numpy(), dim)
        y = rt.ok("an orientation is converted", f, t, dim)
        tol = 1e-9 if dt is torch.float64 else 3e-5
        rt.close(y, want, "orientation to unit vector", tol, tol)
        rt.require(bool((y.double().pow(2).sum(-1) - 1).abs().max() < max(tol, 1e-9)), "unit length", y)
        rt.require(torch.equal(t, keep), "the input is left alone", t)
        if nrm is not None and t.ndim and t.shape[-1] == dim:
            st, y = rt.call(nrm, t)
            if st == "ok":
                rt.close(y, want, "a vector divided by its length", tol, tol)
        # neither angles nor vectors
        bad = rt.rng.choice([(3, ()), (3, (1,)), (3, (4,)), (3, (n, 1)), (3, (n, 4)), (2, (n, 3)), (2, (n, 4)), (2, (n, m, 3)), (3, (n, m, 4)), (3, (n, 5)), (3, (0,)), (2, (0,)), (2, (n, 0))])
        if bad[0] == 2 and bad[1] == (0,):
            continue
        b = torch.as_tensor(rt.np.standard_normal(bad[1]))
        rt.inputs(orientation=b, dim=bad[0])
        rt.rejects("an input that is neither is rejected", f, b, bad[0])
        d = rt.rng.choice([0, 1, 4, 5, -2])
        rt.inputs(orientation=t, dim=d)
        rt.rejects("only 2-D and 3-D", f, t, d, exc=ValueError)
