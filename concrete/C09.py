"""C09 runtime contracts: high-pass filtering."""
import numpy as np, torch
from scipy.signal import iirfilter, sosfiltfilt
from ismref import *


def run(rt):
    from torchrir.config import SimulationConfig
    f = rt.get("torchrir.sim.ism.hpf:apply_rir_hpf")
    for i in rt.rounds(300, 4000, .6):
        shape = tuple(rt.size(1, 3) for _ in range(rt.rng.choice([0, 1, 2, 3]))) + (rt.size(60, 300),)
        dt = rt.rng.choice([torch.float64, torch.float32])
        fs = rt.rng.choice([8000.0, 16000, 1000.0, 44100.0])
        fc = rt.rng.choice([10.0, 10.0, rt.rng.uniform(5, fs * .45), fs * .25])
        kw = rt.rng.choice([None, None, {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"}, {"n": 1, "type": "butter"}, {"n": 3, "rp": 1.0, "type": "cheby1"}, {"type": "butter"},
                            {"n": 2, "rs": 40.0, "ftype": "cheby2"}, {"n": 4, "ftype": "butter"}, {"n": 2},
                            {"n": rt.size(1, 12), "type": rt.rng.choice(["butter", "bessel"])}, {"n": rt.size(1, 12), "ftype": "butter"}])
        ck = dict(rir_hpf_fc=fc)
        if kw is not None:
            ck["rir_hpf_kwargs"] = dict(kw)
        on = rt.rng.random() < .8
        cfg = SimulationConfig(rir_hpf_enable=on, **ck)
        x = rt.tensor(*shape, dtype=dt)
        x0 = x.clone()
        rt.inputs(shape=list(shape), dtype=str(dt), fs=fs, enabled=on, **ck)
        rt.count((shape, str(dt), fs, fc, str(kw), on))
        y = rt.ok("filters", f, x, fs, cfg)
        rt.require(torch.equal(x, x0), "the input is unchanged")
        rt.require(y.shape == x.shape and y.dtype is x.dtype and y.device == x.device, "shape, dtype and device kept", [list(y.shape), str(y.dtype)])
        if not on:
            rt.close(y, x, "disabled: returned unchanged", 0, 0)
            continue
        d = dict(kw if kw is not None else {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"})
        n = d.pop("n", 2)
        ft = d.pop("type", d.pop("ftype", "butter"))
        sos = iirfilter(n, 2 * fc / fs, btype="highpass", output="sos", ftype=ft, **d)
        flat = x.numpy().astype(np.float64).reshape(-1, shape[-1])
        want = np.stack([sosfiltfilt(sos, r) for r in flat]).reshape(shape)
        rt.close(y, want, "each response zero-phase filtered along time on its own", *( (1e-8, 1e-8) if dt is torch.float64 else (1e-4, 1e-4 * (1 + np.abs(want).max()))))
        rt.require(cfg.rir_hpf_kwargs == (kw if kw is not None else {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"}), "design parameters unchanged", cfg.rir_hpf_kwargs)
        bad = rt.rng.choice([fs / 2, fs / 2 + 1, fs * 3, fs / 2 * 1.0000001])
        rt.inputs(fs=fs, rir_hpf_fc=bad)
        rt.rejects("a cutoff outside (0, fs/2) is rejected", f, x, fs, SimulationConfig(rir_hpf_enable=True, rir_hpf_fc=bad), exc=ValueError)
        rt.rejects("a cutoff outside (0, fs/2) is rejected", f, x, fs, SimulationConfig(rir_hpf_enable=True, rir_hpf_fc=rt.rng.choice([0.0, -1.0])), exc=ValueError)
    from torchrir.sim import simulate_rir, simulate_dynamic_rir
    for i in rt.rounds(80, 800, .4):
        sc = scene(rt, max_order=2, nsample=rt.size(60, 300))
        room, args, src, mic = build(sc)
        rt.inputs(**describe(sc))
        rt.count()
        cfg = args.pop("config")
        off = rt.ok("off", simulate_rir, room=room, sources=src, mics=mic, config=cfg, **args)
        fc = rt.rng.choice([10.0, 50.0])
        on = rt.ok("on", simulate_rir, room=room, sources=src, mics=mic, config=cfg.replace(rir_hpf_enable=True, rir_hpf_fc=fc), **args)
        sos = iirfilter(2, 2 * fc / sc["fs"], btype="highpass", output="sos", ftype="butter", rp=5.0, rs=60.0)
        rt.close(on, sosfiltfilt(sos, off.numpy(), axis=-1), "simulated responses are filtered when enabled", 1e-8, 1e-9)
        d = rt.ok("dynamic", simulate_dynamic_rir, room=room, src_traj=src[None], mic_traj=mic[None], config=cfg.replace(rir_hpf_enable=True, rir_hpf_fc=fc), **args)
        rt.close(d[0], on, "dynamic responses are filtered likewise", 1e-8, 1e-9)
