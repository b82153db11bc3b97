"""C08 runtime contracts: the diffuse tail."""
import math
import numpy as np, torch
from ismref import *


def sabine(L, beta):
    beta = np.asarray(beta, float)
    if len(L) == 2:
        vol, s = L[0] * L[1], [L[1], L[1], L[0], L[0]]
    else:
        vol, s = L[0] * L[1] * L[2], [L[1] * L[2]] * 2 + [L[0] * L[2]] * 2 + [L[0] * L[1]] * 2
    a = float(np.sum(np.array(s) * (1 - beta ** 2)))
    return math.inf if a <= 0 else .161 * vol / a


def run(rt):
    from torchrir.sim import simulate_rir
    for i in rt.rounds(250, 3000):
        sc = scene(rt, max_order=2, nsample=rt.size(2, 400, (2, 3, 200)), fdl=rt.rng.choice([81, 21, 41]), dtype=torch.float64 if i % 5 else torch.float32)
        room, args, src, mic = build(sc)
        n, fs = sc["nsample"], float(sc["fs"])
        tmax = (n + rt.rng.choice([0, 0, 10, 500])) / fs
        td = rt.rng.choice([rt.rng.uniform(0, n) / fs, rt.rng.uniform(0, n) / fs, 0.0, .5 / fs, (n - .5) / fs, (n + 3) / fs, -1 / fs, rt.rng.randrange(n) / fs])
        seed = rt.rng.choice([None, 0, 1, rt.rng.randrange(10 ** 6)])
        cfg = args.pop("config").replace(seed=seed)
        if rt.rng.random() < .5:
            # by duration only
            args.pop("nsample")
            n = int(math.ceil(tmax * fs))
        rt.inputs(tdiff=td, tmax=tmax, seed=seed, nsample=n, **{k: v for k, v in describe(sc).items() if k != "nsample"})
        rt.count()
        base = rt.ok("simulated", simulate_rir, room=room, sources=src, mics=mic, config=cfg, tmax=tmax, **args)
        g0 = torch.get_rng_state()
        y = rt.ok("a tail is added", simulate_rir, room=room, sources=src, mics=mic, config=cfg, tmax=tmax, tdiff=td, **args)
        rt.require(torch.equal(g0, torch.get_rng_state()), "the process-wide random state is untouched")
        rt.require(y.shape == base.shape and y.dtype is base.dtype, "shape and dtype kept", list(y.shape))
        k = min(n - 1, int(math.floor(td * fs)))
        if not td < tmax or k <= 0:
            rt.close(y, base, "a start at or before the first sample (or not below the duration) changes nothing", 0, 0)
            continue
        rt.close(y[..., :k], base[..., :k], "samples before the start are unchanged", 0, 0)
        t = np.arange(n - k) / fs
        t60 = sabine(sc["L"], sc["beta"])
        dec = np.exp(-3 * t) if math.isinf(t60) else np.exp(-6.9078 * t / t60)
        noise = torch.randn(y[..., k:].shape, dtype=y.dtype, generator=torch.Generator().manual_seed(seed or 0)).numpy()
        sc1 = np.abs(base[..., k - 1:k].numpy()) + 1e-8
        f = 1e-8 if y.dtype is torch.float64 else 1e-3
        rt.close(y[..., k:], noise * dec * sc1, "tail: seeded Gaussian noise, Sabine decay, scaled by the pair's last early sample", f, 1e-12)
        torch.manual_seed(rt.rng.randrange(99)); torch.randn(3)
        z = rt.ok("again", simulate_rir, room=room, sources=src, mics=mic, config=cfg, tmax=tmax, tdiff=td, **args)
        rt.close(z, y, "equal seeds give equal tails whatever happened in between", 0, 0)
