"""C04 runtime contracts: windowed-sinc deposits."""
import numpy as np, torch
from ismref import *
from torchrir.config import SimulationConfig


def run(rt):
    acc = rt.get("torchrir.sim.ism.accumulate:_accumulate_rir_batch", False)
    if acc is not None:
        for i in rt.rounds(500, 8000, .5):
            ns, nm, ni, n = rt.size(1, 3), rt.size(1, 3), rt.size(1, 40, (1,), big=5000), rt.size(1, 300, (1, 2, 40, 81), big=5000)
            fdl = rt.rng.choice([81, 81, 21, 5, 3, 1, 41, 161, rt.size(0, 30) * 2 + 1])
            gran = rt.rng.choice([None, 20, 1, 7, 64, rt.size(1, 50)])
            dt = rt.rng.choice([torch.float64, torch.float64, torch.float32])
            p = rt.np.uniform(-fdl - 5, n + fdl + 5, (ns, nm, ni))
            if rt.rng.random() < .4:
                q = rt.np.random((ns, nm, ni)) < .3
                p = np.where(q, np.round(p), p)          # exactly on a sample
            if rt.rng.random() < .2:
                p = np.round(p * 20) / 20
            p = torch.as_tensor(p, dtype=dt)
            a = torch.as_tensor(rt.np.standard_normal((ns, nm, ni)), dtype=dt)
            cfg = SimulationConfig(use_lut=gran is not None, sinc_lut_granularity=gran or 20, frac_delay_length=fdl, accumulate_chunk_size=rt.rng.choice([4096, 1, 2, 5, ni, ni + 1]))
            r0 = torch.as_tensor(rt.np.standard_normal((ns, nm, n)) * (rt.rng.random() < .5), dtype=dt)
            r = r0.clone()
            rt.inputs(sample=p, amplitude=a, fdl=fdl, granularity=gran, nsample=n, chunk=cfg.accumulate_chunk_size)
            rt.count((ns, nm, ni, n, fdl, gran, str(dt), i))
            try:
                acc(r, p.clone(), a.clone(), cfg)
            except TypeError:
                rt.skipped.append("_accumulate_rir_batch (signature)")
                break
            want = r0.numpy().astype(np.float64)
            tol = np.zeros_like(want)
            for s in range(ns):
                for m in range(nm):
                    deposit(want[s, m], tol[s, m], p[s, m].numpy().astype(np.float64), a[s, m].numpy().astype(np.float64), fdl, gran, 1e-12)
            f = 1e-9 if dt is torch.float64 else 1e-4
            # single arrivals falling on the table's grid may use either neighbour: the interpolation is continuous there
            rt.close(r, want, "arrivals deposit exactly their windowed-sinc taps", f, f * 5)
    for i in rt.rounds(150, 2000, .5):
        sc = scene(rt, max_order=1, patterns="omni", nb=None, ns=1, nm=rt.size(1, 2), nsample=rt.size(1, 300, (1, 2, 30, 45)))
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        agree(rt, static(rt, sc), want, tol, "public response: windowed-sinc taps of the arrivals", 1e-8)
