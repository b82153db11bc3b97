"""Independent numpy reference of the image-source model (written from the property texts), and random scenes."""
import itertools, math
import numpy as np, torch

CANON = {"omni": "omni", "omnidirectional": "omni", "homni": "half", "halfomni": "half", "half-omni": "half", "subcardioid": "sub", "subcard": "sub",
         "cardioid": "card", "card": "card", "hypercardioid": "hyp", "hypcard": "hyp", "bidir": "fig", "bidirectional": "fig", "figure8": "fig", "figure-8": "fig"}
NAMES = sorted(CANON)


def gain(name, c):
    k = CANON[name.lower()]
    return {"omni": np.ones_like(c), "half": (c > 0).astype(float), "sub": .75 + .25 * c, "card": .5 + .5 * c, "hyp": .25 + .75 * c, "fig": c}[k]


def lattice(order, dim, nb=None):
    if nb is not None:
        return np.array(list(itertools.product(*[range(-int(b), int(b) + 1) for b in nb])), dtype=int).reshape(-1, dim)
    return np.array([v for v in itertools.product(range(-order, order + 1), repeat=dim) if sum(map(abs, v)) <= order], dtype=int).reshape(-1, dim)


def image(n, L, s):
    """n (I,D), L (D,), s (D,)"""
    return np.where(n % 2 == 0, n * L + s, (n + 1) * L - s)


def refl(n, beta):
    """beta: lower/upper per axis"""
    out = np.ones(len(n))
    for i, v in enumerate(n):
        for d, k in enumerate(v):
            a = abs(int(k))
            hi, lo = ((a + 1) // 2, a // 2) if k >= 0 else (a // 2, (a + 1) // 2)
            out[i] *= float(beta[2 * d]) ** lo * float(beta[2 * d + 1]) ** hi
    return out


def sinc(x):
    return np.sinc(x)


def table_sinc(t, gran):
    g0 = np.floor(t * gran)
    f = t * gran - g0
    return np.sinc(g0 / gran) * (1 - f) + np.sinc((g0 + 1) / gran) * f


def hann(L):
    if L == 1:
        return np.ones(1)
    return .5 - .5 * np.cos(2 * np.pi * np.arange(L) / (L - 1))


def deposit(out, tol, p, a, fdl, gran, eps):
    """adds the taps of arrivals (p, a) (1-D arrays) to out (1-D); tol collects what rounding of p by eps may change"""
    n = out.shape[0]
    k = np.arange(fdl)
    h2 = (fdl - 1) // 2
    w = hann(fdl)
    fl = np.floor(p)
    fr = p - fl
    t = k[None] - h2 - fr[:, None]
    h = sinc(t) if gran is None else table_sinc(t, gran)
    v = a[:, None] * w[None] * h
    tgt = fl[:, None].astype(int) - h2 + k[None]
    ok = (tgt >= 0) & (tgt < n)
    np.add.at(out, tgt[ok], v[ok])
    # slope of the taps, and the jump at integer positions
    np.add.at(tol, tgt[ok], (np.abs(a)[:, None] * np.ones((1, fdl)) * eps * 4)[ok])
    amb = (fr < eps * 2) | (fr > 1 - eps * 2)
    for i in np.nonzero(amb)[0]:
        lo = max(0, int(fl[i]) - h2 - 1)
        hi = max(0, min(n, int(fl[i]) + h2 + 3))
        tol[lo:hi] += abs(a[i]) * (1.0 if fdl < 9 else 8.0 / (fdl - 1))


def unit(v):
    v = np.asarray(v, float)
    return v / np.maximum(np.linalg.norm(v, axis=-1, keepdims=True), 1e-8)


def contributions(sc, S, M):
    """sample positions (without the centre offset) and amplitudes of source position S, microphone position M"""
    n = lattice(sc["order"], sc["dim"], sc["nb"])
    img = image(n, sc["L"], S)
    vec = M[None] - img
    d = np.maximum(np.linalg.norm(vec, axis=1), 1e-6)
    return n, img, vec, d


def respond(sc, src=None, mic=None):
    src = sc["src"] if src is None else src
    mic = sc["mic"] if mic is None else mic
    ns = sc["nsample"]
    out = np.zeros((len(src), len(mic), ns))
    tol = np.zeros_like(out)
    h2 = (sc["fdl"] - 1) // 2
    sp, mp = sc["patterns"]
    for i, S in enumerate(src):
        n, img, _, _ = contributions(sc, S, mic[0])
        r = refl(n, sc["beta"])
        for j, M in enumerate(mic):
            _, _, vec, d = contributions(sc, S, M)
            g = r.copy()
            amb = np.zeros(len(g))
            u = vec / np.maximum(np.linalg.norm(vec, axis=1, keepdims=True), 1e-8)
            if CANON[sp.lower()] != "omni":
                c = u @ sc["sdir"][i]
                amb = amb + (np.abs(c) < sc["eps"] * 10) * (CANON[sp.lower()] == "half")
                g = g * gain(sp, c)
            if CANON[mp.lower()] != "omni":
                c = -(u @ sc["mdir"][j])
                amb = amb + (np.abs(c) < sc["eps"] * 10) * (CANON[mp.lower()] == "half")
                g = g * gain(mp, c)
            p = d / sc["c"] * sc["fs"] + h2
            deposit(out[i, j], tol[i, j], p, g / d, sc["fdl"], sc["gran"], sc["eps"] * (1 + p.max()))
            if amb.any():
                tol[i, j] += (amb * np.abs(r) / d).sum()
    return out, tol


# --------------------------------------------------------------------------- random scenes
def scene(rt, dim=None, max_order=4, patterns="any", nb="any", ns=None, nm=None, fdl=None, gran="any", inside=True, walls="any", nsample=None, dtype=torch.float64):
    r = rt.rng
    dim = dim or r.choice([2, 3, 3])
    L = np.array([r.choice([r.uniform(1, 9), float(r.randint(1, 8))]) for _ in range(dim)])
    sc = dict(dim=dim, L=L, fs=r.choice([8000.0, 16000.0, 1000.0, 44100.0, 16000, 2048.0, r.uniform(500, 20000), r.randint(500, 20000)]), c=r.choice([343.0, 343.0, 340.0, 1500.0, r.uniform(100, 600)]))
    ns, nm = ns or rt.size(1, 3), nm or rt.size(1, 3)
    pos = lambda k: np.array([[r.uniform(.02, .98) * L[d] if r.random() < .9 else L[d] / 2 for d in range(dim)] for _ in range(k)])
    sc["src"], sc["mic"] = pos(ns), pos(nm)
    if not inside and r.random() < .3:
        sc["mic"][0] = sc["src"][0] if r.random() < .5 else sc["mic"][0] + L
    sc["order"] = rt.size(0, max_order, (0, 1, 2, 3))
    sc["nb"] = tuple(rt.size(0, 3) for _ in range(dim)) if (nb == "any" and r.random() < .3) or nb is True else None
    w = r.choice(["beta", "beta", "beta", "t60", "none"]) if walls == "any" else walls
    sc["walls"] = w
    faces = 2 * dim
    sc["t60"] = None
    if w == "beta":
        sc["beta"] = np.array([r.choice([r.random(), r.random(), 0.0, 1.0, .5]) for _ in range(faces)])
    elif w == "t60":
        sc["t60"] = r.uniform(.1, 2)
        lz = L[2] if dim == 3 else 1.0
        vol = L[0] * L[1] * lz
        surf = 2 * (L[0] * L[1] + L[1] * lz + L[0] * lz) if dim == 3 else 2 * (L[0] + L[1])
        al = min(.161 * vol / (sc["t60"] * surf), .999)
        sc["beta"] = np.full(faces, math.sqrt(1 - al))
    else:
        sc["beta"] = np.ones(faces)
    sc["fdl"] = fdl or r.choice([81, 81, 41, 21, 5, 3, 1, 161])
    sc["gran"] = r.choice([None, 20, 1, 7, 64]) if gran == "any" else gran
    sc["nsample"] = nsample or rt.size(1, 700, (1, 40, 41, 81, 256, 512))
    if patterns == "omni":
        sc["patterns"] = (r.choice(["omni", "omnidirectional", "OMNI"]),) * 2 if r.random() < .3 else ("omni", "omni")
    else:
        sc["patterns"] = (r.choice(NAMES), r.choice(NAMES))
        if r.random() < .3:
            sc["patterns"] = tuple(p.upper() if r.random() < .5 else p.title() for p in sc["patterns"])
    sc["sdir"] = unit(rt.np.standard_normal((ns, dim)))
    sc["mdir"] = unit(rt.np.standard_normal((nm, dim)))
    sc["dtype"] = dtype
    sc["eps"] = 1e-9 if dtype is torch.float64 else 3e-5
    sc["ichunk"] = r.choice([2048, 1, 2, 7, 64, 10 ** 6])
    sc["achunk"] = r.choice([4096, 1, 3, 16, 10 ** 6])
    return sc


def build(sc):
    """(Room, kwargs for the simulation calls)"""

    from torchrir.models import Room
    from torchrir.config import SimulationConfig
    dt = sc["dtype"]
    t = lambda v: torch.as_tensor(np.asarray(v), dtype=dt)
    kw = {}
    if sc["walls"] == "beta":
        kw["beta"] = t(sc["beta"])
    if sc["walls"] == "t60":
        kw["t60"] = sc["t60"]
    room = Room(size=t(sc["L"]), fs=sc["fs"], c=sc["c"], **kw)
    cfg = SimulationConfig(use_lut=sc["gran"] is not None, sinc_lut_granularity=sc["gran"] or 20, frac_delay_length=sc["fdl"], image_chunk_size=sc["ichunk"],
                           accumulate_chunk_size=sc["achunk"], rir_hpf_enable=False)
    args = dict(max_order=sc["order"], nsample=sc["nsample"], config=cfg)
    if sc["nb"] is not None:
        args["nb_img"] = sc["nb"]
    sp, mp = sc["patterns"]
    if (sp, mp) != ("omni", "omni"):
        args["directivity"] = (sp, mp) if sp != mp else sp
        args["orientation"] = (t(sc["sdir"]), t(sc["mdir"]))
    return room, args, t(sc["src"]), t(sc["mic"])


def describe(sc):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else (str(v) if isinstance(v, torch.dtype) else v)) for k, v in sc.items()}


def agree(rt, y, want, tol, label, scale=1e-9, key=None):
    """|y - want| <= tol + scale * (1 + max|want|), same shape"""
    x = y.detach().cpu().numpy().astype(np.float64)
    rt.contracts[label] = rt.contracts.get(label, 0) + 1
    if x.shape != want.shape:
        return rt.viol(label, None, {"shape": list(want.shape)}, {"shape": list(x.shape)}, key)
    bad = ~(np.abs(x - want) <= tol + scale * (1 + np.abs(want).max()))
    if bad.any():
        i = tuple(int(v[0]) for v in np.nonzero(bad))
        return rt.viol(label, None, {"index": list(i), "value": float(want[i])}, {"index": list(i), "value": float(x[i]), "wrong_entries": int(bad.sum())}, key)
    return True


def static(rt, sc, **over):
    from torchrir.sim import simulate_rir
    room, args, src, mic = build(sc)
    args.update(over)
    return rt.ok("an admissible scene is simulated", simulate_rir, room=room, sources=src, mics=mic, **args)


def far(rt, sc):
    """Turns the scene into a small room whose images along one axis lie many room lengths away, all within the response."""
    ax = rt.rng.randrange(sc["dim"])
    if rt.rng.random() < .5:
        sc["nb"] = tuple(rt.rng.choice([20, 60, 140, 300]) if k == ax else rt.rng.choice([0, 0, 1]) for k in range(sc["dim"]))
    else:
        sc["nb"], sc["order"] = None, rt.rng.randint(8, 30 if sc["dim"] == 2 else 12)
    k = rt.rng.uniform(.05, .4) / sc["L"].min()
    for f in ("L", "src", "mic"):
        sc[f] = sc[f] * k
    sc["fs"], sc["c"], sc["nsample"] = rt.rng.choice([8000.0, 16000.0, 44100.0]), 343.0, rt.rng.randint(800, 6000)
    if sc["walls"] == "t60":
        sc["walls"], sc["t60"] = "beta", None
    if rt.rng.random() < .5 and sc["walls"] == "beta":
        sc["beta"] = 1 - (1 - sc["beta"]) * .02
    sc["ichunk"], sc["achunk"] = rt.rng.choice([2048, 64]), rt.rng.choice([4096, 512])
