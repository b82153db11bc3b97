"""C30 runtime contracts: generated scenes, seen through the builder's metadata (and the placement helpers when present)."""
import os, pathlib, shutil
import numpy as np
import dynscene as ds


def check_scene(rt, m, L, mar, steps, ns, nm, a, b, v0, v1, dur, random_centre, fixed, edge):
    e = m.get("extra", m)
    tol = 1e-6
    mic = np.asarray(m["mics"]["positions"])
    c = mic.mean(axis=0)
    start = np.asarray(m["sources"]["positions"])
    rt.require(start.shape == (ns, 3), "one source per requested source", list(start.shape), [ns, 3])
    if random_centre:
        rt.require(bool((mic >= -tol).all() and (mic <= L + tol).all()), "a random array centre keeps the whole array in the room", mic.tolist(), L.tolist())
    else:
        rt.close(c, fixed, "the given array centre is used", 1e-6, 1e-6)
    rt.close(np.asarray(e["mic_center_xyz_m"]), c, "the reported centre is the array's centre", 1e-6, 1e-6)
    tr = m["trajectories"]["sources"]
    T = steps if steps > 1 else 1
    tr = np.asarray(tr) if tr is not None else np.broadcast_to(start, (T, ns, 3))
    rt.require(tr.shape == (T, ns, 3), "one position per step and source", list(tr.shape), [T, ns, 3])
    rt.close(tr[0], start, "trajectories begin at the source positions", 1e-6, 1e-6)
    mt = m["trajectories"]["mics"]
    if mt is not None:
        rt.close(np.asarray(mt), np.broadcast_to(mic, (T,) + mic.shape), "the array does not move", 1e-6, 1e-6)
    idx = e["moving_source_indices"]
    rt.require(len(idx) == nm and len(set(idx)) == nm and all(0 <= i < ns for i in idx), "exactly the requested number of sources move", idx, nm)
    lo, hi = mar, L - mar
    rt.require(bool((tr >= lo - tol).all() and (tr <= hi + tol).all()), "all sources stay inside the margins at all steps", [tr.min(axis=(0, 1)).tolist(), tr.max(axis=(0, 1)).tolist()], [lo.tolist(), hi.tolist()])
    d = start[:, :2] - c[:2]
    rad = np.hypot(d[:, 0], d[:, 1])
    rt.require(bool((rad >= 1.8 - 1e-6).all()), "sources start at least the minimum distance from the centre", rad.tolist(), 1.8)
    rt.require(bool((np.hypot(*(tr[..., :2] - c[:2]).transpose(2, 0, 1)) >= 1.8 - 1e-6).all()), "sources keep the minimum distance", rad.tolist(), 1.8)
    az = np.arctan2(d[:, 1], d[:, 0])
    k = np.sort((az - az[0]) % (2 * np.pi) / (2 * np.pi / ns))
    k = np.sort(np.where(k > ns - .5, k - ns, k))
    rt.close(k, np.arange(ns), "sources start at equally spaced azimuths", 1e-5, 1e-5)
    if T == 1:
        return
    t = np.linspace(0, 1, T)
    vel = np.asarray(e["source_velocity_mps"])
    w = np.asarray(e["angular_velocity_rad_s"])
    alpha = np.clip((t - a) / (b - a), 0, 1)
    for s in range(ns):
        if s not in idx:
            rt.close(tr[:, s], np.broadcast_to(start[s], (T, 3)), "the other sources never move", 0, 1e-9)
            rt.require(vel[s] == 0 and w[s] == 0, "a static source has no speed", [vel[s], w[s]], [0, 0])
            continue
        rt.require(v0 - 1e-9 <= vel[s] <= v1 + 1e-9, "speed in the requested range", float(vel[s]), [v0, v1])
        rt.close(abs(w[s]) * rad[s], vel[s], "angular velocity is speed over radius", 1e-6, 1e-9)
        th = az[s] + w[s] * dur * (b - a) * alpha
        exp = np.stack([c[0] + rad[s] * np.cos(th), c[1] + rad[s] * np.sin(th), np.full(T, start[s, 2])], 1)
        rt.close(tr[:, s], exp, "a moving source follows a circular arc around the centre, at constant height and speed, inside its time window", 1e-6, 1e-6)
    for i, item in enumerate(e.get("source_info", m.get("source_info", [])) or []):
        rt.require(item["is_moving"] == (i in idx), "the source info tells which sources move", item["is_moving"], i in idx)


def run(rt):
    build = rt.get("torchrir.datasets:build_dynamic_cmu_arctic_dataset", True)
    top = pathlib.Path(rt.tmpdir())
    rate = 800
    cmu = top / "cmu"
    for s in ds.SPK:
        ds.speaker(cmu, s, rate, [30, 47, 90], .1, rt.np)

    for i in rt.rounds(110, 900, .5):
        out = top / "o"
        shutil.rmtree(out, ignore_errors=True)
        ns = rt.size(1, 6, [1, 2, 3])
        nm = rt.rng.randint(0, ns)
        L = np.round(rt.np.uniform([4.5, 4.5, 2], rt.rng.choice([[9, 9, 4], [9, 9, 4], [16, 6, 4], [6, 16, 4]])), 3)
        mar = np.round(rt.np.uniform(.05, .5, 3), 3)
        edge = rt.rng.choice([.1, .3, 1.0])
        rc = rt.rng.random() < .6
        fixed = L / 2 + rt.np.uniform(-.3, .3, 3)
        steps = rt.rng.choice([1, 2, 3, 7, 8, 20, 40])
        a, b = sorted(rt.np.uniform(0, 1, 2).round(2).tolist())
        if rt.rng.random() < .4:
            a, b = rt.rng.choice([(0.0, 1.0), (0.0, .5), (.5, 1.0), (.35, .65)])
        if a == b:
            b = a + .01 if a < .99 else (a, a := a - .01)[0]
        v0 = rt.rng.uniform(*rt.rng.choice([(.05, 1), (.05, 1), (5, 60)]))
        v1 = v0 + rt.rng.choice([0, .5, 5])
        dur = rt.rng.choice([.1, .2, .5])
        seed = rt.rng.randrange(1000)
        kw = dict(speakers=ds.SPK, n_scenes=rt.rng.choice([1, 1, 2]), n_sources=ns, n_moving_sources=nm, duration_sec=dur, room_size=L.tolist(), mic_center=fixed.tolist(), octa_edge_m=edge, source_margin=mar.tolist(),
                  trajectory_steps=steps, randomize_mic_center=rc, move_start_ratio=a, move_end_ratio=b, moving_speed_min=v0, moving_speed_max=v1, seed=seed, max_order=0, rir_samples=16)
        rt.inputs(**kw)
        rt.count()
        try:
            ds.build(build, cmu, out, **kw)
        except ValueError as e:
            # is it really infeasible?  the sufficient condition: generous room around the centre
            half = np.minimum(L[:2] / 2 - mar[:2], L[:2] / 2).min() - .45
            rt.require(not (half >= 1.85 + edge and L[2] > 2 * mar[2] + .01 and L[2] > 2 * edge) or "clip" in str(e), "feasible scenes are built", repr(e)[:200], "no error", key="feasible")
            continue
        for sc in ds.scenes(out):
            m = sc["meta"]
            m.setdefault("source_info", sc["info"])
            check_scene(rt, m, L, mar, steps, ns, nm, a, b, v0, v1, dur, rc, fixed, edge)

    bad = [dict(n_moving_sources=3), dict(n_moving_sources=-1), dict(n_sources=0, n_moving_sources=0), dict(move_start_ratio=.6, move_end_ratio=.6), dict(move_start_ratio=-.1), dict(move_end_ratio=1.1), dict(move_start_ratio=.7, move_end_ratio=.2),
           dict(moving_speed_min=0.0), dict(moving_speed_min=-1.0), dict(moving_speed_min=1.0, moving_speed_max=.5), dict(room_size=(3.0, 3.0, 3.0)), dict(source_margin=(2.5, .5, .3)), dict(source_margin=(.5, .5, 1.5)), dict(mic_center=(.7, 3.0, 1.5), randomize_mic_center=False), dict(duration_sec=0.0)]
    for kw in bad:
        for sd in (1, 2):
            shutil.rmtree(top / "b", ignore_errors=True)
            rt.inputs(**kw)
            rt.count()
            try:
                ds.build(build, cmu, top / "b", speakers=ds.SPK, duration_sec=kw.get("duration_sec", .1), seed=sd, **{k: v for k, v in kw.items() if k != "duration_sec"})
                ok = None
            except ValueError as e:
                ok = e
            rt.require(ok is not None, "infeasible or contradictory requests raise an error", "no error", "ValueError", key=f"bad {sorted(kw)}")
