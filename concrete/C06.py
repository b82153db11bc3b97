"""C06 runtime contracts: each step of a dynamic simulation is the static simulation there."""
import numpy as np, torch
from ismref import *


def run(rt):
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    for i in rt.rounds(200, 2500):
        sc = scene(rt, max_order=3, nsample=rt.size(1, 300, (64, 100)))
        T = rt.size(1, 6, (1, 2, 3), big=80)
        if i % 50 == 11:                    # many steps: cheap settings
            T = rt.rng.randint(81, 330)
            sc["order"], sc["nb"], sc["nsample"] = min(sc["order"], 1), None, min(sc["nsample"], 150)
            sc["ichunk"], sc["achunk"] = 2048, 4096
        room, args, src, mic = build(sc)
        L = torch.as_tensor(sc["L"])
        st = torch.rand(T, *src.shape, dtype=torch.float64, generator=torch.Generator().manual_seed(rt.rng.randrange(10 ** 9))) * L
        mt = torch.rand(T, *mic.shape, dtype=torch.float64, generator=torch.Generator().manual_seed(rt.rng.randrange(10 ** 9))) * L
        st[0], mt[-1] = src, mic
        if rt.rng.random() < .3:
            mt[:] = mic
        rt.inputs(steps=T, src_traj=st, mic_traj=mt, **describe(sc))
        rt.count()
        if rt.rng.random() < .3:
            args["config"] = args["config"].replace(rir_hpf_enable=True) if sc["nsample"] > 40 else args["config"]
        s_in = st[:, 0] if st.shape[1] == 1 and rt.rng.random() < .5 else st
        m_in = mt[:, 0] if mt.shape[1] == 1 and rt.rng.random() < .5 else mt
        y = rt.ok("an admissible trajectory is simulated", simulate_dynamic_rir, room=room, src_traj=s_in, mic_traj=m_in, **args)
        rt.require(tuple(y.shape) == (T, src.shape[0], mic.shape[0], sc["nsample"]), "shape (steps, sources, microphones, samples)", list(y.shape))
        for k in range(T):
            z = rt.ok("static", simulate_rir, room=room, sources=st[k], mics=mt[k], **args)
            rt.close(y[k], z, "step k equals the static simulation at its positions", 1e-9, 1e-9)
