"""C05 runtime contracts: the static response against an independent image-source reference."""
import numpy as np, torch
from ismref import *


def run(rt):
    for i in rt.rounds(220, 3000, .6):
        dt = torch.float32 if i % 6 == 5 else torch.float64
        sc = scene(rt, max_order=3, inside=False, dtype=dt, nsample=rt.size(1, 500, (64, 200, 81)))
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        y = static(rt, sc)
        agree(rt, y, want, tol, "response = sum of the pair's arrivals over the image set, shape (sources, microphones, samples)", 1e-8 if dt is torch.float64 else 3e-4)
        rt.require(y.dtype is dt, "dtype kept")
    for i in rt.rounds(60, 800, .4):
        sc = scene(rt, max_order=3, ns=rt.size(2, 4), nm=rt.size(2, 4), fdl=rt.rng.choice([81, 21]))
        rt.inputs(**describe(sc))
        rt.count()
        y = static(rt, sc)
        # a pair simulated alone, and other chunk sizes
        s, m = rt.rng.randrange(len(sc["src"])), rt.rng.randrange(len(sc["mic"]))
        one = dict(sc, src=sc["src"][s:s + 1], mic=sc["mic"][m:m + 1], sdir=sc["sdir"][s:s + 1], mdir=sc["mdir"][m:m + 1])
        rt.close(static(rt, one)[0, 0], y[s, m], "a pair's response does not depend on other sources and microphones", 1e-9, 1e-10)
        for ic, ac in ((1, 1), (3, 5), (2048, 4096), (10 ** 6, 10 ** 6)):
            rt.close(static(rt, dict(sc, ichunk=ic, achunk=ac)), y, "the response does not depend on chunk sizes", 1e-9, 1e-10)
