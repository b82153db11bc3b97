"""C22 runtime contracts: linear trajectories."""
import numpy as np, torch


def run(rt):
    f = rt.get("torchrir.geometry:linear_trajectory", False) or rt.get("torchrir.geometry.trajectories:linear_trajectory")
    for i in rt.rounds(1500, 10000):
        shp = tuple(rt.size(1, 5) for _ in range(rt.rng.choice([0, 1, 1, 2, 3])))
        if i % 61 == 9:
            shp = shp[:1]
        T = rt.size(500, 9000, (1024, 4096)) if i % 61 == 9 else rt.size(1, 300, [1, 2, 3], big=5000) if i % 5 else rt.size(1, 6)
        dt = rt.rng.choice([torch.float64, torch.float64, torch.float32])
        a, b = (torch.as_tensor(rt.np.uniform(-10, 10, shp)).to(dt) for _ in range(2))
        if rt.rng.random() < .2:
            a, b = a.round(), b.round()
        if rt.rng.random() < .1:
            b = a.clone()
        if rt.rng.random() < .12:
            a, b = a.round().to(torch.int64), b.round().to(torch.int64)
        tol = 1e-10 if a.dtype is torch.float64 else 3e-5
        rt.inputs(start=a, end=b, steps=T)
        rt.count()
        ka, kb = a.clone(), b.clone()
        y = rt.ok("a trajectory exists", f, a, b, T)
        s, e = a.double().numpy(), b.double().numpy()
        k = np.arange(T).reshape((T,) + (1,) * len(shp))
        rt.close(y, s + (e - s) * k / (T - 1) if T > 1 else s[None], "position k is start + (end - start) k/(T-1)", tol, tol)
        rt.close(y[0], s, "begins at the start", 0 if dt is torch.float64 else 1e-7, 0)
        rt.close(y[-1], e if T > 1 else s, "ends at the end", tol, tol)
        rt.require(torch.equal(a, ka) and torch.equal(b, kb), "the inputs are left alone")
