"""C24 runtime contracts: scene metadata."""
import json, math, pathlib
import numpy as np, torch


def run(rt):
    from torchrir.models import Room, Source, MicrophoneArray
    from torchrir.io import build_metadata, save_metadata_json
    save_scene = rt.get("torchrir.io:save_scene_metadata", False) or rt.get("torchrir.io.outputs:save_scene_metadata", False)
    tmp = pathlib.Path(rt.tmpdir())
    arr = lambda v: np.asarray(v, np.float64)
    hint = [i for i in rt.ints if 1 <= i <= 40]

    for i in rt.rounds(500, 6000, .9):
        dim = rt.rng.choice([2, 3])
        dt = rt.rng.choice([torch.float32, torch.float64, torch.float64])
        L = torch.as_tensor(rt.np.uniform(2, 9, dim)).to(dt)
        fs = rt.rng.choice([8000, 16000.0, 44100, 22050.0, rt.rng.uniform(100, 96000)])
        wall = rt.rng.choice(["beta", "t60", None])
        rk = {"beta": torch.as_tensor(rt.np.uniform(0, 1, 2 * dim)).to(dt)} if wall == "beta" else {"t60": rt.rng.uniform(.05, 2)} if wall else {}
        room = Room(size=L, fs=fs, c=rt.rng.uniform(300, 360), **rk)
        ns, nm = rt.size(1, 5, [1, 2]), rt.rng.choice([1, 2, 3, 4, 8, 26, 32] + hint)
        base = rt.np.uniform(1, 2, dim)
        mp = base + rt.np.uniform(-.2, .2, (nm, dim)) * rt.rng.choice([1, 1, .01])
        if nm > 2 and rt.rng.random() < .3:
            mp[nm - 1] = mp[0]
        if nm > 1 and rt.rng.random() < .1:
            mp[:] = mp[0]
        od = 2 if dim == 2 else 3
        so = torch.as_tensor(rt.np.standard_normal((ns, od))).to(dt) if rt.rng.random() < .4 else None
        mo = torch.as_tensor(rt.np.standard_normal((nm, od))).to(dt) if rt.rng.random() < .4 else None
        src = Source(torch.as_tensor(rt.np.uniform(.3, 2, (ns, dim))).to(dt), so)
        mic = MicrophoneArray(torch.as_tensor(mp).to(dt), mo)
        T = rt.rng.choice([1, 2, 3, 5, 7])

        def traj(n):
            k = rt.rng.random()
            if k < .35:
                return None
            t = T if rt.rng.random() < .85 else rt.rng.choice([1, T + 1, max(T - 1, 1)])
            if rt.rng.random() < .3:
                return torch.as_tensor(rt.np.uniform(.3, 2, (t, dim))).to(dt)
            return torch.as_tensor(rt.np.uniform(.3, 2, (t, n, dim))).to(rt.rng.choice([dt, torch.float32]))
        st, mt = traj(ns), traj(nm)
        n = rt.rng.choice([0, 1, 7, 40])
        rirs = torch.zeros(*rt.rng.choice([(ns, nm, n), (2, ns, nm, n), (n,)]))
        kw, sl = {}, None
        m = rt.rng.randrange(4)
        if m == 1:
            kw["timestamps"] = torch.as_tensor(np.sort(rt.np.uniform(0, 3, T))).to(dt)
        if m >= 2:
            sl = kw["signal_len"] = rt.rng.choice([0, 1, 2, 1000, 48001])
        if rt.rng.random() < .4:
            kw["extra"] = {"t": torch.arange(3), "p": pathlib.Path("a/b"), "l": [1, (2.5, None)], "d": {"x": torch.tensor(2.0), "y": [torch.tensor([True])]}, "s": "é"}
            kw["source_info"] = rt.rng.choice([["u1", "u2"], ({"id": 1},), "text", {"k": pathlib.Path("z")}])
        rt.inputs(size=L, fs=fs, walls=wall, sources=src.positions, mics=mic.positions if nm < 6 else f"{nm} microphones, seed round {i}", src_traj=None if st is None else tuple(st.shape), mic_traj=None if mt is None else tuple(mt.shape), rirs=tuple(rirs.shape), kw=sorted(kw), signal_len=sl)
        rt.count()
        S = st.double().numpy() if st is not None else src.positions.double().numpy()[None]
        M = mt.double().numpy() if mt is not None else mic.positions.double().numpy()[None]
        S = S[:, None] if S.ndim == 2 else S
        M = M[:, None] if M.ndim == 2 else M
        steps = max(len(S), len(M))
        if not (len(S) == len(M) or len(S) == 1 or len(M) == 1):
            rt.rejects("mismatched step counts are rejected", build_metadata, room=room, sources=src, mics=mic, rirs=rirs, src_traj=st, mic_traj=mt, exc=(ValueError,), **kw)
            continue
        md = rt.ok("metadata is built", build_metadata, room=room, sources=src, mics=mic, rirs=rirs, src_traj=st, mic_traj=mt, **kw)
        if md is None:
            continue
        S, M = np.broadcast_to(S, (steps,) + S.shape[1:]), np.broadcast_to(M, (steps,) + M.shape[1:])

        def same(label, got, want, tol=0.0):
            if want is None:
                return rt.require(got is None, label, got, None)
            w = arr(want)
            ok = got is not None and np.shape(got) == w.shape
            rt.require(bool(ok and np.allclose(arr(got), w, rtol=tol, atol=tol)), label, got, want)
        same("room size", md["room"]["size"], L.double().numpy())
        same("wall coefficients", md["room"]["beta"], rk["beta"].double().numpy() if wall == "beta" else None)
        same("T60", md["room"]["t60"], rk.get("t60"))
        same("rate and speed", [md["room"]["fs"], md["room"]["c"], md["time_axis"]["fs"]], [room.fs, room.c, room.fs])
        same("source positions", md["sources"]["positions"], src.positions.double().numpy())
        same("source orientation", md["sources"]["orientation"], None if so is None else so.double().numpy())
        same("microphone positions", md["mics"]["positions"], mic.positions.double().numpy())
        same("microphone orientation", md["mics"]["orientation"], None if mo is None else mo.double().numpy())
        rt.require(md["rirs_shape"] == list(rirs.shape) and md["time_axis"]["nsample"] == rirs.shape[-1], "response shape", md["rirs_shape"], list(rirs.shape))
        same("sample k at k/fs", md["time_axis"]["t"], np.arange(rirs.shape[-1]) / float(fs), 1e-6)
        rt.require(md["dynamic"] is (steps > 1), "dynamic exactly with more than one step", md["dynamic"], steps > 1)
        same("source trajectory", md["trajectories"]["sources"], S if steps > 1 else None)
        same("microphone trajectory", md["trajectories"]["mics"], M if steps > 1 else None)
        v = S[:, :, None] - M[:, None]
        tol = 1e-9 if dt is torch.float64 and all(t is None or t.dtype is torch.float64 for t in (st, mt)) else 2e-4
        az = np.arctan2(v[..., 1], v[..., 0])
        got = arr(md["doa"]["azimuth"])
        far = np.hypot(v[..., 0], v[..., 1]) > 1e-2
        if rt.require(got.shape == az.shape, "azimuth for every step, source and microphone", got.shape, az.shape):
            d = np.angle(np.exp(1j * (got - az)))
            rt.require(bool((np.abs(d)[far] < tol * 10).all()), "azimuth", got, az)
        el = np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])) if dim == 3 else np.zeros_like(az)
        got = arr(md["doa"]["elevation"])
        rt.require(bool(got.shape == el.shape and (np.abs(got - el)[np.linalg.norm(v, axis=-1) > 1e-2] < tol * 10).all()), "elevation", got, el)
        if m == 1:
            same("the given timestamps", md["timestamps"], kw["timestamps"].double().numpy())
        elif sl is not None and steps > 1:
            same("timestamps spread over the signal", md["timestamps"], np.linspace(0, max(0, (sl - 1) / float(fs)), steps), 1e-5)
        elif steps == 1 or sl is None:
            rt.require(md["timestamps"] is None, "no timestamps", md["timestamps"])
        p = mic.positions.double().numpy()
        same("array centre", md["array"]["center"], p.mean(0), 1e-5 if dt is torch.float32 else 1e-12)
        D = np.linalg.norm(p[:, None] - p[None], axis=-1)
        D = D[D > 0]
        if D.size:
            same("array spacing is the smallest non-zero distance", md["array"]["spacing"], D.min(), 1e-5 if dt is torch.float32 else 1e-9)
        else:
            rt.require(md["array"]["spacing"] is None, "no spacing", md["array"]["spacing"])
        same("array positions", md["array"]["positions"], p)
        text = rt.ok("metadata is valid JSON", json.dumps, md, allow_nan=False)
        if text is not None:
            rt.require(json.loads(text) == md, "JSON text carries exactly the metadata", text[:300])
        if "extra" in kw:
            rt.require(md.get("extra") == {"t": [0, 1, 2], "p": "a/b", "l": [1, [2.5, None]], "d": {"x": 2.0, "y": [[True]]}, "s": "é"}, "extra fields kept", md.get("extra"))
            w = {list: lambda q: q, tuple: list, str: str, dict: lambda q: {"k": "z"}}[type(kw["source_info"])](kw["source_info"])
            rt.require(md.get("source_info") == w, "source information kept", md.get("source_info"), w)
        if i % 7 == 0 and text is not None:
            f = tmp / f"d{i % 5}" / "x" / "meta.json"
            rt.ok("metadata is saved", save_metadata_json, f, md)
            rt.require(f.exists() and json.loads(f.read_text(encoding="utf-8")) == md, "the file carries the metadata", f.exists())
            if save_scene is not None:
                r = rt.ok("scene metadata is saved", save_scene, out_dir=tmp / "s", metadata_name="m.json", room=room, sources=src, mics=mic, rirs=rirs, src_traj=st, mic_traj=mt, **kw)
                rt.require(r == md and json.loads((tmp / "s" / "m.json").read_text(encoding="utf-8")) == md, "the saved scene metadata is the built one")
