"""C12 runtime contracts: directivity patterns."""
import numpy as np, torch
from ismref import *


def run(rt):
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    g = rt.get("torchrir.sim.directivity:directivity_gain", False) or rt.get("torchrir.sim:directivity_gain")
    sp = rt.get("torchrir.sim.directivity:split_directivity", False)
    rnd = lambda n: rt.rng.choice([n, n.upper(), n.title(), "".join(c.upper() if rt.rng.random() < .5 else c for c in n)])
    for i in rt.rounds(300, 3000, .3):
        name = NAMES[i % len(NAMES)]
        c = torch.as_tensor(rt.np.uniform(-1, 1, (rt.size(1, 20, big=5000), 3)), dtype=rt.rng.choice([torch.float64, torch.float32]))
        c[0] = torch.tensor([1.0, -1.0, 0.0])
        nm = rnd(name)
        rt.inputs(pattern=nm, cos=c)
        rt.count()
        y = rt.ok("a known name is accepted", g, nm, c)
        rt.close(y, gain(name, c.numpy().astype(np.float64)), "gain matches its definition", 1e-6, 1e-7)
        rt.require(y.dtype is c.dtype and float(y.abs().max()) <= 1 + 1e-6 and bool((y[0, 0] == 1)), "on axis 1, magnitude at most 1", y)
        bad = rt.rng.choice(["", "super", "supercardioid", name + "x", name + " ", " " + name, "x" + name, "omni-directional", "cardioide", "figure 8", "half_omni"])
        rt.inputs(pattern=bad)
        rt.rejects("an unknown name is rejected", g, bad, c, exc=ValueError)
    if sp is not None:
        for i in rt.rounds(100, 500, .1):
            a, b = rnd(rt.rng.choice(NAMES)), rnd(rt.rng.choice(NAMES))
            c = torch.linspace(-1, 1, 21, dtype=torch.float64)
            for spec, w in ((a, (a, a)), ((a, b), (a, b)), ([a, b], (a, b))):
                rt.inputs(directivity=spec)
                p = rt.ok("split", sp, spec)
                for x, y in zip(p, w):
                    rt.close(rt.ok("usable", g, x, c), gain(y, c.numpy()), "the pair keeps (source, microphone) order and meaning", 1e-9, 1e-12)
            for bad in ((), (a,), (a, b, a), [a, b, a, b]):
                rt.inputs(directivity=bad)
                rt.rejects("a wrongly sized pair is rejected", sp, bad, exc=ValueError)
    for i in rt.rounds(200, 2000, .6):
        sc = scene(rt, max_order=2, fdl=rt.rng.choice([21, 41]), nsample=rt.size(60, 400), nb=None)
        p = rnd(rt.rng.choice(NAMES))
        q = p if rt.rng.random() < .4 else rnd(rt.rng.choice(NAMES))
        sc["patterns"] = (p, q)
        room, args, src, mic = build(sc)
        args["directivity"] = rt.rng.choice([(p, q), [p, q]]) if p != q else rt.rng.choice([p, (p, q)])
        args["orientation"] = (torch.as_tensor(sc["sdir"]), torch.as_tensor(sc["mdir"]))
        rt.inputs(directivity=args["directivity"], **{k: v for k, v in describe(sc).items() if k != "patterns"})
        rt.count()
        want, tol = respond(sc)
        y = rt.ok("a known name is simulated", simulate_rir, room=room, sources=src, mics=mic, **args)
        agree(rt, y, want, tol, "names given to a simulation mean their patterns", 1e-8)
        y = rt.ok("a known name is simulated", simulate_dynamic_rir, room=room, src_traj=src[None], mic_traj=mic[None], **args)
        agree(rt, y[0], want, tol, "names given to a dynamic simulation mean their patterns", 1e-8)
        bad = rt.rng.choice([("omni",), ("omni", "card", "card"), "nosuch", ("omni", "nosuch"), ("nosuch", "card")])
        rt.rejects("a bad specification is rejected", simulate_rir, room=room, sources=src, mics=mic, exc=ValueError, **{**args, "directivity": bad})
