"""C03 runtime contracts: arrival delays and amplitudes in all three forms."""
import numpy as np, torch
from ismref import *

CO = "torchrir.sim.ism.contributions:"


def want_of(sc, S, M, i, j, n, r):
    vec = M[None] - image(n, sc["L"], S)
    raw = np.linalg.norm(vec, axis=1)
    d = np.maximum(raw, 1e-6)
    u = vec / np.maximum(raw[:, None], 1e-8)
    g = r.copy()
    for p, c in ((sc["patterns"][0], u @ sc["sdir"][i]), (sc["patterns"][1], -(u @ sc["mdir"][j]))):
        if CANON[p.lower()] != "omni":
            g = g * gain(p, np.where(np.abs(c) < 1e-12, 0, c))
    return d / sc["c"] * sc["fs"] + (sc["fdl"] - 1) // 2, g / d


def run(rt):
    one, bat, tim = (rt.get(CO + n, False) for n in ("_compute_image_contributions", "_compute_image_contributions_batch", "_compute_image_contributions_time_batch"))
    for i in rt.rounds(250, 4000, .4):
        sc = scene(rt, max_order=2, inside=False, nb=None)
        sc["patterns"] = tuple({"omni": "omni"}.get(CANON[p.lower()], p.lower()) for p in sc["patterns"])
        room, args, src, mic = build(sc)
        n = torch.as_tensor(lattice(sc["order"], sc["dim"]))
        r = torch.as_tensor(refl(n.numpy(), sc["beta"]))
        L = torch.as_tensor(sc["L"])
        sd, md = torch.as_tensor(sc["sdir"]), torch.as_tensor(sc["mdir"])
        sp, mp = sc["patterns"]
        h2 = (sc["fdl"] - 1) // 2
        # the directions need not be unit vectors
        sd, md = sd * rt.rng.choice([1.0, 1.0, 3.0]), md * rt.rng.choice([1.0, 1.0, .25])
        rt.inputs(**describe(sc))
        rt.count()
        kw = dict(src_pattern=sp, mic_pattern=mp)
        try:
            W = [[want_of(sc, sc["src"][a], sc["mic"][b], a, b, n.numpy(), r.numpy()) for b in range(len(mic))] for a in range(len(src))]
            ws, wa = np.array([[x[0] for x in row] for row in W]), np.array([[x[1] for x in row] for row in W])
            if bat is not None:
                s, a = bat(src, mic, L, n, r, room, h2, src_dirs=sd, mic_dir=md, **kw)
                rt.close(s, ws, "delay of every image, source and microphone", 1e-10, 1e-9)
                rt.close(a, wa, "amplitude of every image, source and microphone", 1e-7, 1e-10)
                if len(mic) > 1 or True:
                    s, a = bat(src, mic, L, n, r, room, h2, src_dirs=sd, mic_dir=md[0], **kw)
                    W1 = [[want_of(dict(sc, mdir=np.repeat(sc["mdir"][:1], len(mic), 0)), sc["src"][x], sc["mic"][b], x, b, n.numpy(), r.numpy())[1] for b in range(len(mic))] for x in range(len(src))]
                    rt.close(a, np.array(W1), "one common microphone direction", 1e-7, 1e-10)
            if one is not None:
                for k in range(len(src)):
                    s, a = one(src[k], mic, L, n, r, room, h2, src_dir=sd[k], mic_dir=md, **kw) if len(mic) == 1 or mp == "omni" else (None, None)
                    if s is not None:
                        rt.close(s, ws[k], "single-source form: delay", 1e-10, 1e-9)
                        rt.close(a, wa[k], "single-source form: amplitude", 1e-7, 1e-10)
            if tim is not None:
                st = torch.stack([src, src.flip(0), src])
                mt = torch.stack([mic, mic, mic.flip(0)])
                s, a = tim(st, mt, L, n, r, room, h2, src_dirs=sd, mic_dir=md, **kw)
                for t in range(3):
                    X = np.array([[want_of(sc, st[t, x].numpy(), mt[t, b].numpy(), x, b, n.numpy(), r.numpy()) for b in range(len(mic))] for x in range(len(src))])
                    rt.close(s[t], X[:, :, 0], "trajectory form: delay", 1e-10, 1e-9)
                    rt.close(a[t], X[:, :, 1], "trajectory form: amplitude", 1e-7, 1e-10)
        except TypeError:
            rt.skipped.append("contribution functions (signature)")
            break
    # public: a single image (the direct path) and a few, with directivities
    for i in rt.rounds(200, 2500, .5):
        sc = scene(rt, max_order=2, inside=False, fdl=rt.rng.choice([21, 41, 81]), nb=None, walls="none", nsample=rt.size(80, 500))
        if i % 2:
            sc["order"] = 0
        rt.inputs(**describe(sc))
        rt.count()
        want, tol = respond(sc)
        agree(rt, static(rt, sc), want, tol, "arrivals at distance*fs/c with gain directivity/distance", 1e-8)
