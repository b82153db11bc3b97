"""C07 runtime contracts: reciprocity of omnidirectional responses."""
import numpy as np, torch
from ismref import *


def run(rt):
    from torchrir.sim import simulate_rir
    for i in rt.rounds(300, 4000):
        sc = scene(rt, max_order=4, patterns="omni", nsample=rt.size(1, 500, (256,)))
        if i % 8 == 3:
            far(rt, sc)
        room, args, src, mic = build(sc)
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        y = rt.ok("simulated", simulate_rir, room=room, sources=src, mics=mic, **args)
        z = rt.ok("simulated", simulate_rir, room=room, sources=mic, mics=src, **args)
        agree(rt, z.transpose(0, 1), y.numpy(), 2 * tol, "exchanging source and microphone leaves the response unchanged", 1e-8)
