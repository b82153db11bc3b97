"""C11 runtime contracts: inputs unchanged, generators untouched, repeated calls equal after any history."""
import copy, dataclasses, random
import numpy as np, torch
from ismref import scene, build, static


def same(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.dtype == b.dtype and a.shape == b.shape and a.device == b.device and \
            bool(((a == b) | ((a != a) & (b != b))).all())
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b, equal_nan=True)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, random.Random):
        return a.getstate() == b.getstate()
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, BaseException):
        return str(a) == str(b)
    if isinstance(a, float) and a != a:
        return b != b
    try:
        return bool(a == b)
    except Exception:
        return True


def tensors(o, out):
    if torch.is_tensor(o):
        out.append(o)
    elif isinstance(o, dict):
        [tensors(v, out) for v in o.values()]
    elif isinstance(o, (list, tuple)):
        [tensors(v, out) for v in o]
    elif dataclasses.is_dataclass(o) and not isinstance(o, type):
        [tensors(getattr(o, f.name), out) for f in dataclasses.fields(o)]
    return out


def shrink(o):
    """short form of an argument for the replay file"""
    if torch.is_tensor(o):
        return {"shape": list(o.shape), "dtype": str(o.dtype), "values": o.flatten()[:12].tolist()}
    if isinstance(o, dict):
        return {str(k): shrink(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [shrink(v) for v in o[:8]]
    return repr(o)[:300]


def ops(rt):
    r = rt.rng
    u = lambda *s: torch.as_tensor(rt.np.uniform(-1, 1, s))
    dt = r.choice([torch.float32, torch.float64])
    out = []

    def sim():
        from torchrir.sim import simulate_rir
        from torchrir.models import Source, MicrophoneArray
        sc = scene(rt, max_order=3, dtype=dt)
        room, args, src, mic = build(sc)
        k = r.random()
        args["config"] = dataclasses.replace(args["config"], rir_hpf_enable=k < .3 and sc["nsample"] > 60 and sc["fs"] > 100, seed=r.choice([None, 3, 9]))
        if k > .7 and not args.get("orientation"):
            src, mic = Source(src, None), MicrophoneArray(mic, None)
        elif k > .7:
            o = args.pop("orientation")
            src, mic = Source(src, o[0]), MicrophoneArray(mic, o[1])
        if r.random() < .4:
            args["tmax"] = sc["nsample"] / sc["fs"]
            args["tdiff"] = r.uniform(0, 1.2) * args["tmax"]
        if args.get("nb_img") is not None and r.random() < .5:
            args["nb_img"] = torch.tensor(args["nb_img"])
        return simulate_rir, (), dict(room=room, sources=src, mics=mic, **args)

    def dyn():
        from torchrir.sim import simulate_dynamic_rir
        sc = scene(rt, max_order=2, dtype=dt)
        room, args, src, mic = build(sc)
        t = r.randint(1, 3)
        return simulate_dynamic_rir, (), dict(room=room, src_traj=src[None].repeat(t, 1, 1) + .001 * u(t, 1, 1).to(dt), mic_traj=mic[None].repeat(t, 1, 1), **args)

    def simulator():
        from torchrir.sim import ISMSimulator
        from torchrir.models import Source, MicrophoneArray, StaticScene, DynamicScene
        sc = scene(rt, max_order=2, dtype=dt)
        room, args, src, mic = build(sc)
        cfg = args.pop("config")
        args.pop("nb_img", None)
        o = args.pop("orientation", None)
        s, m = Source(src, o and o[0]), MicrophoneArray(mic, o and o[1])
        d = args.pop("directivity", None)
        cfg = dataclasses.replace(cfg, directivity=d)
        sm = ISMSimulator(**args)
        if r.random() < .5:
            return sm.simulate, (StaticScene(room, s, m), cfg), {}
        return sm.simulate, (DynamicScene(room, s, m, src[None].repeat(2, 1, 1), mic[None].repeat(2, 1, 1)), cfg), {}

    def conv():
        from torchrir.signal import convolve_rir, fft_convolve, DynamicConvolver
        k = r.randrange(5)
        n, l = r.randint(1, 60), r.randint(1, 30)
        if k == 0:
            return fft_convolve, (u(n).to(dt), u(l).to(dt)), {}
        s, m, t = r.randint(1, 3), r.randint(1, 3), r.randint(1, 5)
        sig = u(s, n).to(dt)
        if k == 1:
            return convolve_rir, (sig, u(s, m, l).to(dt)), {}
        if k == 2:
            return DynamicConvolver(mode="hop", hop=r.randint(1, 20)).convolve, (sig, u(t, s, m, l).to(dt)), {}
        kw = {}
        if k == 4:
            kw = dict(timestamps=torch.cumsum(torch.cat([torch.zeros(1), torch.as_tensor(rt.np.uniform(.001, .01, t - 1), dtype=torch.float32)]), 0), fs=1000.0)
        return DynamicConvolver(mode="trajectory", **kw).convolve, (sig, u(t, s, m, l).to(dt)), {}

    def geometry():
        from torchrir import geometry as g
        from torchrir.geometry import trajectories
        f = r.choice(["binaural_array", "linear_array", "circular_array", "polyhedron_array", "eigenmike_em32", "eigenmike_em64", "linear_trajectory", "clamp_positions"])
        c = (u(3) * 3).to(dt)
        if r.random() < .3:
            c = c.tolist()
        if f == "linear_array":
            kw = dict(num=r.randint(1, 9), spacing=.05)
            kw.update(direction=u(3).tolist() if r.random() < .5 else u(3).to(dt)) if r.random() < .5 else kw.update(axis=r.randrange(3))
            return g.linear_array, (c,), kw
        if f == "circular_array":
            kw = dict(num=r.randint(1, 9), radius=.1)
            if r.random() < .5:
                kw["normal"] = u(3).to(dt)
            return g.circular_array, (c,), kw
        if f == "polyhedron_array":
            return g.polyhedron_array, (c,), dict(kind=r.choice(["tetrahedron", "cube", "octahedron", "icosahedron", "dodecahedron"]), radius=r.choice([.1, .2]))
        if f == "linear_trajectory":
            return g.linear_trajectory, (u(2, 3).to(dt), u(2, 3).to(dt), r.randint(1, 6)), {}
        if f == "clamp_positions":
            return g.clamp_positions, ((u(4, 3) * 9).to(dt), torch.tensor([4.0, 5.0, 3.0], dtype=dt), .1), {}
        return getattr(g, f), (c,), {} if r.random() < .5 else {"dtype": r.choice([torch.float32, torch.float64])}

    def sampling():
        from torchrir import geometry as g
        R = random.Random(r.randrange(100))
        room = torch.tensor([r.uniform(3, 8) for _ in range(r.choice([2, 3]))], dtype=dt)
        if room.numel() == 3:
            room[2] = max(float(room[2]), 3.0)
        if r.random() < .5:
            return g.sample_positions, (), dict(num=r.randint(1, 5), room_size=room, rng=R)
        return g.sample_positions_min_distance, (), dict(num=r.randint(1, 4), room_size=room, rng=R, center=room / 2, min_distance=.3)

    def utils():
        from torchrir import util
        from torchrir.sim.directivity import directivity_gain, split_directivity
        k = r.randrange(8)
        size = torch.tensor([r.uniform(2, 8) for _ in range(3)], dtype=dt)
        if k == 0:
            return util.estimate_beta_from_t60, (size if r.random() < .6 else size.tolist(), r.uniform(.1, 2)), {}
        if k == 1:
            return util.estimate_t60_from_beta, (size, torch.as_tensor(rt.np.uniform(0, 1, 6), dtype=dt)), {}
        if k == 2:
            return util.estimate_image_counts_from_tmax, (.3, size), {}
        if k == 3:
            return directivity_gain, (r.choice(["omni", "cardioid", "homni", "bidir", "Subcardioid", "hypercardioid"]), u(3, 4).to(dt)), {}
        if k == 4:
            return split_directivity, (["Omni", "cardioid"],), {}
        if k == 5:
            d = r.choice([2, 3])
            return util.orientation_to_unit, (u(3, r.choice([d, d if d == 2 else 2])).to(dt), d), {}
        if k == 6:
            return util.normalize_orientation, (u(3, 3).to(dt),), {}
        return util.extend_size, (size[:2].clone(), 3), {}

    def meta():
        from torchrir.io import build_metadata
        from torchrir.models import Room, Source, MicrophoneArray
        room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=16000, beta=[.5] * 6)
        n, m, t = r.randint(1, 3), r.randint(1, 3), r.randint(1, 4)
        kw = dict(room=room, sources=Source(u(n, 3).abs(), u(n, 3)), mics=MicrophoneArray(u(m, 3).abs(), None), rirs=u(t, n, m, 50))
        if r.random() < .6:
            kw.update(src_traj=u(t, n, 3), mic_traj=u(t, m, 3))
            if r.random() < .5:
                kw["timestamps"] = torch.arange(t, dtype=torch.float32)
        kw.update(signal_len=r.choice([None, 400]), source_info=[{"a": [1, 2]}], extra={"x": u(3), "y": {"z": (1, 2)}})
        return build_metadata, (), kw

    def collate():
        from torchrir.datasets import collate_dataset_items, DatasetItem
        items = [DatasetItem(audio=u(r.randint(1, 9)).to(dt), sample_rate=8000, utterance_id=str(i)) for i in range(r.randint(1, 4))]
        return collate_dataset_items, (items,), {}

    return r.choice([sim, sim, dyn, simulator, conv, conv, geometry, sampling, utils, meta, collate])()


def rngs():
    s = np.random.get_state()
    return random.getstate(), torch.get_rng_state().clone(), (s[0], s[1].copy(), s[2], s[3], s[4])


def runop(f, a, k):
    try:
        return "ok", f(*a, **k)
    except Exception as e:
        return "raise", e


def cast(o, frm, to):
    """the same arguments in another precision"""
    if torch.is_tensor(o):
        return o.to(to) if o.dtype is frm else o
    if o is frm:
        return to
    if isinstance(o, dict):
        return {k: cast(v, frm, to) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and type(o) in (list, tuple):
        return type(o)(cast(v, frm, to) for v in o)
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        try:
            return dataclasses.replace(o, **{f.name: cast(getattr(o, f.name), frm, to) for f in dataclasses.fields(o) if f.init})
        except Exception:
            return o
    return o


def tweak(rt, o):
    """the same arguments with one other setting"""
    from torchrir.config import SimulationConfig
    if isinstance(o, SimulationConfig):
        ch = rt.rng.choice([dict(sinc_lut_granularity=o.sinc_lut_granularity + 7), dict(frac_delay_length=o.frac_delay_length + 2), dict(use_lut=not o.use_lut), dict(seed=(o.seed or 0) + 5),
                            dict(rir_hpf_fc=o.rir_hpf_fc * 1.5), dict(rir_hpf_kwargs={"n": 1, "type": "butter"}), dict(accumulate_chunk_size=3), dict(image_chunk_size=5)])
        return dataclasses.replace(o, **ch)
    if isinstance(o, dict):
        return {k: tweak(rt, v) for k, v in o.items()}
    if type(o) in (list, tuple):
        return type(o)(tweak(rt, v) for v in o)
    return o


def sibling(rt, f, a, k):
    me = getattr(f, "__self__", None)
    frm, to = rt.rng.choice([(torch.float64, torch.float32), (torch.float32, torch.float64)])
    if rt.rng.random() < .6:
        a, k = cast(a, frm, to), cast(k, frm, to)
        if "dtype" in k:
            k["dtype"] = to if k["dtype"] is frm else frm
    else:
        a, k = tweak(rt, a), tweak(rt, k)
    runop(f, a, k)


def run(rt):
    pool = []
    for i in rt.rounds(900, 12000, 1.0):
        f, a, k = ops(rt)
        name = getattr(f, "__qualname__", str(f))
        keep = (copy.deepcopy(a), copy.deepcopy(k))
        grng = name.startswith("sample")
        random.seed(rt.rng.randrange(9)); torch.manual_seed(rt.rng.randrange(9)); np.random.seed(rt.rng.randrange(9))
        st = rngs()
        me = getattr(f, "__self__", None)
        mine = copy.deepcopy(me)
        rt.inputs(operation=name, args=shrink(keep[0]), kwargs=shrink(keep[1]))
        rt.count()
        kind, y = runop(f, a, k)
        now = rngs()
        rt.require(same(st[0], now[0]) and same(st[1], now[1]) and same(st[2], now[2]), f"{name}: the process-wide generators stay as they were", "advanced")
        kk = {x: v for x, v in k.items() if not isinstance(v, random.Random)}
        rt.require(same(list(a), list(keep[0])) and same(kk, {x: keep[1][x] for x in kk}) and (me is None or same(me, mine)), f"{name}: arguments are left unchanged", shrink([a, k]), shrink(keep))
        res = copy.deepcopy(y)
        if kind == "ok":
            owned = {t.untyped_storage().data_ptr() for t in tensors([a, k], [])}
            for t in tensors(y, []):
                if t.untyped_storage().data_ptr() not in owned and t.numel() and t.dtype.is_floating_point and not t.is_inference():
                    try:
                        t.fill_(float("nan"))
                    except RuntimeError:
                        pass
        # equal arguments again, other calls in between
        if len(pool) < 60:
            pool.append((f, keep, kind, res, name))
        else:
            pool[rt.rng.randrange(60)] = (f, keep, kind, res, name)
        for _ in range(1):
            f2, kp, kd, r2, nm = pool[rt.rng.randrange(len(pool))] if rt.rng.random() < .6 else pool[-1]
            if rt.rng.random() < .4:
                sibling(rt, f2, *copy.deepcopy(kp))
            a2, k2 = copy.deepcopy(kp)
            kind2, y2 = runop(f2, a2, k2)
            if not (kind2 == kd and same(y2, r2)):
                # summation order of threads may differ: ask for agreement to rounding
                t1, t2 = tensors(r2, []), tensors(y2, [])
                eps = lambda x: 1e-5 if x.dtype is torch.float32 else 1e-11
                ok = kind2 == kd and kd == "ok" and t1 and len(t1) == len(t2) and all(
                    x.shape == z.shape and x.dtype == z.dtype and torch.allclose(x.double(), z.double(), rtol=eps(x), atol=eps(x) * (1 + float(x.double().abs().nan_to_num(0, 0, 0).max()) if x.numel() else 1), equal_nan=True)
                    for x, z in zip(t1, t2))
                rt.inputs(operation=nm, args=shrink(kp[0]), kwargs=shrink(kp[1]))
                rt.require(ok, f"{nm}: equal arguments give an equal result whatever came between", shrink([y2]), shrink([r2]))
