"""C10 runtime contracts: settings resolution and rejection."""
import math, warnings
import numpy as np, torch
from ismref import *


def run(rt):
    from torchrir.sim import simulate_rir, simulate_dynamic_rir, ISMSimulator
    from torchrir.config import SimulationConfig, default_config
    from torchrir.models import Source, MicrophoneArray, StaticScene, DynamicScene
    none = object()
    for i in rt.rounds(250, 3000, .5):
        sc = scene(rt, max_order=2, fdl=21, nsample=50)
        room, args, src, mic = build(sc)
        dyn = rt.rng.random() < .5
        base = args.pop("config")
        for k in ("max_order", "nsample", "directivity", "orientation"):
            args.pop(k, None)
        eo, co = rt.rng.choice([None, 0, 1, 2]), rt.rng.choice([None, 0, 1, 3])
        fs = sc["fs"]
        dur = lambda: rt.rng.choice([rt.rng.randint(1, 120) / fs, rt.rng.uniform(.5, 120) / fs, .003])
        et, ct, en = rt.rng.choice([None, dur()]), rt.rng.choice([None, dur()]), rt.rng.choice([None, None, rt.rng.randint(1, 90)])
        ed, cd = rt.rng.choice([None, "omni", "cardioid", ("bidir", "omni"), "homni"]), rt.rng.choice([None, "subcard", "omni", ("omni", "figure8")])
        ori = (torch.as_tensor(sc["sdir"]), torch.as_tensor(sc["mdir"]))
        cfg = SimulationConfig(**{**base.__dict__, "max_order": co, "tmax": ct, "directivity": cd})
        rt.inputs(dynamic=dyn, order=eo, config_order=co, tmax=et, config_tmax=ct, nsample=en, directivity=ed, config_directivity=cd, fs=fs)
        rt.count()
        f = simulate_dynamic_rir if dyn else simulate_rir
        io = dict(src_traj=src[None], mic_traj=mic[None]) if dyn else dict(sources=src, mics=mic)
        kw = dict(room=room, max_order=eo, tmax=et, nsample=en, orientation=ori, config=cfg, **io, **args)
        if ed is not None:
            kw["directivity"] = ed
        o = eo if eo is not None else co
        n = en if en is not None else (None if (et is None and ct is None) else int(math.ceil((et if et is not None else ct) * fs)))
        if o is None or n is None:
            rt.rejects("a missing order or length is rejected", f, exc=ValueError, **kw)
            continue
        y = rt.ok("valid settings are accepted", f, **kw)
        rt.require(y.shape[-1] == n, "number of samples: explicit, else ceil(duration x rate)", y.shape[-1], n)
        d = ed if ed is not None else (cd if cd is not None else "omni")
        d = d if isinstance(d, tuple) else (d, d)
        want, tol = respond(dict(sc, order=o, nsample=n, patterns=d))
        agree(rt, y[0] if dyn else y, want, tol, "order and directivity: explicit, else configured, else default", 1e-8)
    # invalid settings
    bad = [("max_order", -1), ("max_order", -3), ("tmax", 0.0), ("tmax", -1.0), ("seed", -1), ("frac_delay_length", 0), ("frac_delay_length", 80), ("frac_delay_length", -81), ("frac_delay_length", 2),
           ("sinc_lut_granularity", 0), ("sinc_lut_granularity", -5), ("image_chunk_size", 0), ("image_chunk_size", -1), ("accumulate_chunk_size", 0), ("accumulate_chunk_size", -7), ("rir_hpf_fc", 0.0),
           ("rir_hpf_fc", -10.0), ("fs", 0.0), ("fs", -16000.0), ("rir_hpf_kwargs", {"n": 0}), ("rir_hpf_kwargs", {"n": -2})]
    for i in rt.rounds(60, 300, .3):
        sc = scene(rt, max_order=1, patterns="omni", fdl=21, nsample=30, nb=None)
        room, args, src, mic = build(sc)
        cfg = args.pop("config")
        for name, v in bad if i < 3 else [rt.rng.choice(bad)]:
            c2 = SimulationConfig(**{**cfg.__dict__, name: v})
            rt.inputs(setting=name, value=v)
            rt.count((name, str(v)))
            rt.rejects("an invalid setting is rejected", simulate_rir, room=room, sources=src, mics=mic, config=c2, exc=ValueError, **args)
            rt.rejects("an invalid setting is rejected", simulate_dynamic_rir, room=room, src_traj=src[None], mic_traj=mic[None], config=c2, exc=ValueError, **args)
            rt.rejects("replace() re-validates", cfg.replace, exc=ValueError, **{name: v})
        for k, v in (("max_order", -1), ("nsample", 0), ("nsample", -3), ("tmax", -.1), ("tmax", 0.0)):
            a = dict(args)
            if k == "tmax":
                a.pop("nsample")
            a[k] = v
            rt.inputs(argument=k, value=v)
            rt.rejects("an invalid argument is rejected", simulate_rir, room=room, sources=src, mics=mic, config=cfg, exc=ValueError, **a)
            rt.rejects("an invalid argument is rejected", simulate_dynamic_rir, room=room, src_traj=src[None], mic_traj=mic[None], config=cfg, exc=ValueError, **a)
    # the simulator object
    for i in rt.rounds(150, 1500, .4):
        sc = scene(rt, max_order=2, fdl=21, nsample=rt.size(50, 80))
        room, args, src, mic = build(sc)
        cfg = args.pop("config")
        o, n, fs = sc["order"], sc["nsample"], float(sc["fs"])
        tm = n / fs
        d = sc["patterns"] if "directivity" in args else None
        so, mo = (torch.as_tensor(sc["sdir"]), torch.as_tensor(sc["mdir"]))
        dyn = rt.rng.random() < .4
        if dyn:
            d = rt.rng.choice([None, "omni"])
        co, ct = rt.rng.choice([None, o, o + 1]), rt.rng.choice([None, tm, tm * 2, tm + rt.rng.choice([1e-12, 1e-9, 1e-7, 1e-5, 1e-4, 1e-3]), float(np.nextafter(tm, 9))])
        cfg2 = SimulationConfig(**{**cfg.__dict__, "max_order": co, "tmax": ct})
        given = rt.rng.choice(["tmax", "nsample", "both"])
        sk = dict(max_order=o, nb_img=sc["nb"], directivity=d)
        if given != "nsample":
            sk["tmax"] = tm
        if given != "tmax":
            sk["nsample"] = n
        S, M = Source(src, so), MicrophoneArray(mic, mo)
        rt.inputs(order=o, config_order=co, tmax=sk.get("tmax"), config_tmax=ct, nsample=sk.get("nsample"), directivity=d, dynamic=dyn)
        rt.count()
        T = rt.size(1, 3)
        L = torch.as_tensor(sc["L"])
        st, mt = torch.rand(T, *src.shape, dtype=torch.float64) * L, torch.rand(T, *mic.shape, dtype=torch.float64) * L
        scn = DynamicScene(room=room, sources=S, mics=M, src_traj=st, mic_traj=mt) if dyn else StaticScene(room=room, sources=S, mics=M)
        sim = rt.ok("a valid simulator is built", ISMSimulator, **sk)
        clash = (co is not None and co != o) or (ct is not None and "tmax" in sk and ct != tm)
        if clash:
            rt.rejects("a simulator contradicting the configuration refuses to run", sim.simulate, scn, cfg2, exc=ValueError)
            continue
        res = rt.ok("the simulator runs", sim.simulate, scn, cfg2)
        fk = dict(room=room, max_order=o, nb_img=sc["nb"], nsample=sk.get("nsample"), tmax=sk.get("tmax"), directivity=d, config=cfg2)
        want = simulate_dynamic_rir(src_traj=st, mic_traj=mt, **fk) if dyn else simulate_rir(sources=S, mics=M, **fk)
        rt.close(res.rirs, want, "the simulator returns what the functional interface returns", 0, 0)
        rt.require(res.config is cfg2 and res.seed == cfg2.seed, "the result names its configuration and seed")
    for kw in (dict(max_order=-1, tmax=.1), dict(max_order=1), dict(max_order=1, tmax=0.0), dict(max_order=1, tmax=-1.0), dict(max_order=1, nsample=0), dict(max_order=1, nsample=-5), dict(max_order=1, nsample=10, tmax=-.5)):
        rt.inputs(**kw)
        rt.rejects("an invalid simulator is rejected", ISMSimulator, exc=ValueError, **kw)
