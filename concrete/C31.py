"""C31 runtime contracts: generated audio files and the output directory guard, on real builds in a scratch directory."""
import json, os, pathlib, shutil
import numpy as np
import soundfile as sf
import dynscene as ds

LSB = 1 / 32768


def run(rt):
    build = rt.get("torchrir.datasets:build_dynamic_cmu_arctic_dataset", True)
    top = pathlib.Path(rt.tmpdir())
    seen = 0

    for i in rt.rounds(45, 700, .6):
        work = top / "w"
        shutil.rmtree(work, ignore_errors=True)
        rate = rt.rng.choice([500, 800, 1000])
        ns = rt.size(1, 4, [1, 2, 3])
        dur = rt.rng.choice([.05, .11, .2])
        dc = rt.rng.choice([0, 0, .9, -.9])
        amp = rt.rng.choice([.02, .3, .9, .999])
        lengths = [[rt.rng.randint(8, 90) for _ in range(rt.rng.randint(1, 4))] for _ in ds.SPK]
        amps = [amp * rt.rng.choice([1, 1, 1, .3, .02]) for _ in ds.SPK]
        st = rt.rng.choice(["PCM_16", "PCM_16", "FLOAT"])
        state = rt.rng.getrandbits(32)
        for name, g in (("ref", 1e-3), ("cmu", 1.0)):
            r = np.random.default_rng(state)
            for s, ls, am in zip(ds.SPK, lengths, amps):
                ds.speaker(work / name, s, rate, ls, am * g, r, "DOUBLE" if name == "ref" else st, dc)
        kw = dict(speakers=ds.SPK, n_scenes=rt.rng.choice([1, 2]), n_sources=ns, n_moving_sources=rt.rng.randint(0, ns), duration_sec=dur, trajectory_steps=rt.rng.choice([1, 2, 6]), rir_samples=rt.rng.choice([16, 24, 64]),
                  max_order=rt.rng.choice([0, 1, 2]), seed=rt.rng.randrange(999), rt60=rt.rng.choice([.05, .3]), octa_edge_m=rt.rng.choice([.05, 1.0]))
        rt.inputs(amplitude=amps, offset=dc, rate=rate, utterances=lengths[:3], subtype=st, **kw)
        rt.count()
        res = ds.build(build, work / "cmu", work / "out", **kw)
        rt.require(tuple(res) == (rate, 6), "the builder returns the rate and the number of microphones", list(res), [rate, 6])
        got = ds.scenes(work / "out")
        rt.require(len(got) == kw["n_scenes"], "the requested number of scenes", len(got), kw["n_scenes"])
        # the same scenes from inaudible copies of the recordings: no scaling there, so they show the unscaled signals
        import torchrir.datasets.dynamic_cmu_arctic as mod
        quiet = None
        if hasattr(mod, "sf"):
            keep = {}
            real = mod.sf

            class Tap:
                def __getattr__(self, n):
                    return getattr(real, n)

                def write(self, p, data, *a, **k):
                    keep[(pathlib.Path(p).parent.name, pathlib.Path(p).name)] = np.array(data, dtype=np.float64)
                    return real.write(p, data, *a, **k)
            mod.sf = Tap()
            try:
                ds.build(build, work / "ref", work / "quiet", **kw)
            finally:
                mod.sf = real
            quiet = keep
        n = int(float(dur) * rate)
        for sc in got:
            name = sc["dir"].name
            rt.require(len(sc["stems"]) == ns, "one file per source", len(sc["stems"]), ns)
            shapes = {x.shape for x, _ in sc["stems"] + [sc["mix"]]}
            rates = {r for _, r in sc["stems"] + [sc["mix"]]}
            rt.require(len(shapes) == 1 and rates == {rate}, "source files and mixture share length, rate and channel count", [sorted(map(list, shapes)), sorted(rates)], [rate])
            rt.require(all(s[1] == 6 and s[0] >= n for s in shapes), "six channels, the whole duration", sorted(map(list, shapes)), [n, 6])
            if len(shapes) != 1:
                continue
            S = np.stack([x for x, _ in sc["stems"]])
            mix = sc["mix"][0]
            tol = (ns + 1) * LSB
            err = float(np.abs(mix - S.sum(0)).max())
            rt.require(err <= tol, "the mixture is the sum of the source files up to quantisation", err, tol, key="sum")
            peak = max(float(np.abs(S).max()), float(np.abs(mix).max()))
            rt.require(peak <= 1 - 2 * LSB, "no file clips", peak, "below full scale", key="clip")
            if quiet and all((name, f"source_{j:02d}.wav") in quiet for j in range(ns)):
                Q = np.stack([quiet[(name, f"source_{j:02d}.wav")] for j in range(ns)])
                if Q.shape == S.shape and np.abs(Q).max() > 0:
                    g = float((Q * S).sum() / (Q * Q).sum())
                    res_ = float(np.abs(S - g * Q).max())
                    # recordings are quantised to 16 bits in the loud copy
                    slack = LSB * (2 + 4 * kw["rir_samples"] ** .5) if st == "PCM_16" else 2 * LSB
                    rt.require(res_ <= slack + 1e-4 * peak, "all sources of a scene are scaled by one common factor", res_, slack, key="common")
                    full = max(np.abs(Q).max(), np.abs(Q.sum(0)).max()) * 1e3
                    if full <= .98:
                        off = float(np.abs(S - 1e3 * Q).max())
                        rt.require(off <= slack + 1e-4 * peak, "the factor is 1 when nothing would exceed the limit", off, slack, key="unit")
                    elif full >= 1.02:
                        rt.require(np.abs(g * Q).max() > .2 / ns, "the scaling is not excessive", float(np.abs(g * Q).max()), "about the limit", key="low")
                        seen += 1
            info = sc["info"]
            rt.require(len(info) == ns and len({x["speaker"] for x in info}) == ns, "distinct speakers", [x["speaker"] for x in info], ns)

    for i in range(12 if rt.tier == "quick" else 60):
        work = top / "w"
        shutil.rmtree(work, ignore_errors=True)
        for s in ds.SPK[:2]:
            ds.speaker(work / "cmu", s, 500, [40, 60], .2, rt.np)
        out = work / "out"
        what = ["file tree", "empty", "previous", "absent"][i % 4]
        if what != "absent":
            out.mkdir(parents=True)
        if what == "file tree":
            (out / "keep").write_text("precious")
            (out / "sub").mkdir()
            (out / "sub" / "x.wav").write_bytes(b"123")
        if what == "previous":
            (out / "scene_0000").mkdir()
            (out / "scene_0000" / "mixture.wav").write_bytes(b"old")
        over = (i // 4) % 3
        before = ds.snapshot(work)
        kw = dict(speakers=ds.SPK[:2], duration_sec=.05, seed=i, max_order=0, rir_samples=16, trajectory_steps=2)
        if over == 1:
            kw["overwrite"] = False
        if over == 2:
            kw["overwrite"] = True
        rt.inputs(existing=what, **kw)
        rt.count()
        err = None
        try:
            ds.build(build, work / "cmu", out, **kw)
        except Exception as e:
            err = e
        after = ds.snapshot(work)
        if what != "absent" and over != 2:
            rt.require(isinstance(err, FileExistsError), "existing output is refused unless overwriting was requested", repr(err)[:200], "FileExistsError", key="refuse")
            rt.require(after == before and out.is_dir(), "existing output is never deleted or overwritten unless requested", sorted(set(before) ^ set(after))[:4], "unchanged", key="kept")
        else:
            rt.require(err is None and len(ds.scenes(out)) == 1, "the data set is built", repr(err)[:200], "built", key="built")
            if over == 2:
                left = [k for k in after if k.startswith("out/") and before.get(k) == after[k]]
                rt.require(not left, "overwriting replaces the old data set", left[:4], [], key="replace")
        rt.require(all(after.get(k) == v for k, v in before.items() if k.startswith("cmu/")), "the corpus is not touched", None, None, key="corpus")
        # arguments that are refused do not delete anything either
        if what == "file tree":
            bad = rt.rng.choice([dict(n_scenes=0), dict(n_sources=0), dict(n_moving_sources=5), dict(duration_sec=0.0), dict(trajectory_steps=0)])
            before = ds.snapshot(work)
            rt.inputs(existing=what, overwrite=False, **bad)
            rt.count()
            try:
                ds.build(build, work / "cmu", out, **{**kw, "overwrite": False, **bad})
                err = None
            except (ValueError, FileExistsError) as e:
                err = e
            rt.require(err is not None and ds.snapshot(work) == before, "a refused request deletes nothing", repr(err)[:100], "error, unchanged", key="badargs")
