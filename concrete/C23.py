"""C23 runtime contracts: audio files on disk."""
import pathlib, warnings
import numpy as np, torch


def run(rt):
    import soundfile as sf
    io = rt.get("torchrir.io", True) if False else __import__("torchrir.io", fromlist=["x"])
    au = __import__("torchrir.io.audio", fromlist=["x"])
    tmp = pathlib.Path(rt.tmpdir())
    SAVE = {"io.save_wav": io.save_wav, "io.save_audio": io.save_audio, "io.save": io.save, "audio.save": au.save, "audio.save_audio": au.save_audio, "save_audio_data": io.save_audio_data}
    LOAD = {"io.load_wav": io.load_wav, "io.load_audio": io.load_audio, "io.load": io.load, "audio.load": au.load, "audio.load_audio": au.load_audio, "load_audio_data": io.load_audio_data}
    INFO = {"io.info_wav": io.info_wav, "io.info_audio": io.info_audio, "io.info": io.info, "audio.info_audio": au.info_audio}
    TOL = {"FLOAT": 1e-7, "DOUBLE": 1e-7, "PCM_32": 1e-7, "PCM_24": 3e-7, "PCM_16": 6.2e-5, None: 6.2e-5}

    def quiet(f, *a, **k):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            y = f(*a, **k)
        return y, [x for x in w if issubclass(x.category, RuntimeWarning)]

    for i in rt.rounds(500, 6000, .55):
        rank = rt.rng.choice([1, 1, 2, 2])
        n = rt.rng.choice([1, 2, 7, 8, 9, 20, 100, 777] + [k for k in rt.ints if 1 <= k <= 4000])
        ch = rt.rng.choice([1, 2, 3, 4, 6, 8])
        dims = (n,) if rank == 1 else (ch, n)
        kind = rt.rng.choice(["normal", "normal", "zero", "tiny", "huge", "negative peak", "one sample", "int"])
        a = rt.np.standard_normal(dims)
        if kind == "zero":
            a[:] = 0
        if kind == "tiny":
            a *= 1e-6
        if kind == "huge":
            a *= 1e5
        if kind == "negative peak":
            a = -np.abs(a) * .3
            a.flat[rt.rng.randrange(a.size)] = -2.5
        if kind == "one sample":
            a[:] = 0
            a.flat[rt.rng.randrange(a.size)] = rt.rng.choice([-.4, .7])
        dt = rt.rng.choice([torch.float32, torch.float32, torch.float64, torch.int16])
        if kind == "int" or dt is torch.int16:
            dt, a = torch.int16, np.round(a * 7)
        x = torch.as_tensor(a).to(dt)
        if rank == 2 and rt.rng.random() < .3:          # non-contiguous
            x = x.t().contiguous().t()
        if dt.is_floating_point and rt.rng.random() < .3:
            x.requires_grad_(True)
        norm = rt.rng.random() < .6
        peak = rt.rng.choice([1.0, 1.0, .5, .99, .1, rt.rng.uniform(.01, 1)])
        sub = rt.rng.choice([None, "FLOAT", "FLOAT", "PCM_16", "PCM_24", "PCM_32", "DOUBLE"])
        name = rt.rng.choice(list(SAVE))
        fs = rt.rng.choice([8000, 16000, 44100, 22050, 48000, 11025] + [k for k in rt.ints if 1000 <= k <= 96000])
        ext = rt.rng.choice([".wav", ".WAV", ".Wav"])
        if name in ("io.save_audio", "audio.save_audio", "save_audio_data") and rt.rng.random() < .25:
            ext, sub = ".flac", rt.rng.choice([None, "PCM_16", "PCM_24"])
        p = tmp / f"a{i % 50}{ext}"
        rt.inputs(entry=name, shape=dims, dtype=str(dt), kind=kind, normalize=norm, peak=peak, subtype=sub, fs=fs, ext=ext)
        rt.count()
        before = x.detach().clone()
        kw = dict(normalize=norm, peak=peak)
        stored = None
        if name == "save_audio_data":
            stored = rt.rng.choice([None, "PCM_24", "PCM_16"])
            args = (p, io.AudioData(audio=x, sample_rate=fs, format="WAV", subtype=stored))
        else:
            args = (p, x, fs)
        if sub is not None:
            kw["subtype"] = sub
        if not norm and rt.rng.random() < .3:
            kw["peak"] = rt.rng.choice([0.0, -1.0])
        try:
            quiet(SAVE[name], *args, **kw)
        except Exception as e:                           # noqa: BLE001
            rt.require(False, "audio is saved", repr(e), "a file")
            continue
        rt.require(bool(torch.equal(x.detach(), before)) and x.dtype is dt, "the caller's audio is not altered", x, before)
        inf = sf.info(str(p))
        y, r = sf.read(str(p), dtype="float64", always_2d=True)
        want_sub = sub or stored or "PCM_16"
        rt.require(r == fs and inf.subtype == want_sub, "rate and subtype of the file", (r, inf.subtype), (fs, want_sub))
        ref = before.double().numpy()
        m = np.abs(ref).max() if ref.size else 0
        if norm and m > 0:
            ref = ref / m * peak
        ref = ref[:, None] if rank == 1 else ref.T
        rt.require(y.shape == ref.shape, "channels and frames of the file", y.shape, ref.shape)
        if want_sub in ("PCM_16", "PCM_24", "PCM_32"):
            ref = np.clip(ref, -1, 1)
        if y.shape == ref.shape:
            rt.close(y, ref, "the values are the audio scaled to the peak" if norm else "the values are unchanged", 2e-6, TOL[want_sub] + (1e-6 if want_sub != "PCM_16" else 1e-6))
        # reading
        ln = rt.rng.choice([k for k in LOAD if ext.lower() == ".wav" or k in ("io.load_audio", "audio.load_audio", "load_audio_data")])
        res = rt.ok(f"{ln} reads the file", quiet, LOAD[ln], p)
        if res is None:
            continue
        out, w = res
        au_t, rr = (out.audio, out.sample_rate) if ln == "load_audio_data" else out
        rt.require(rr == fs and au_t.ndim == 1 and au_t.dtype.is_floating_point and len(au_t) == len(y), f"{ln}: rate, shape and type", (rr, tuple(au_t.shape), au_t.dtype), (fs, (len(y),)))
        rt.close(au_t.double(), y[:, 0].astype(np.float32), f"{ln}: channel 0", 1e-6, 1e-7)
        rt.require(bool(w) == (y.shape[1] > 1), f"{ln}: a warning exactly when channels are dropped", [str(k.message) for k in w], y.shape)
        if ln == "load_audio_data":
            rt.require((out.format, out.subtype) == (inf.format, inf.subtype), "format and subtype of the file", (out.format, out.subtype), (inf.format, inf.subtype))
            p2 = tmp / "again.wav" if ext.lower() == ".wav" else tmp / "again.flac"
            quiet(io.save_audio_data, p2, out, normalize=False)
            rt.require(sf.info(str(p2)).subtype == out.subtype, "the stored subtype is used", sf.info(str(p2)).subtype, out.subtype)
        iname = rt.rng.choice([k for k in INFO if ext.lower() == ".wav" or k in ("io.info_audio", "audio.info_audio")])
        res = rt.ok("info of the file", quiet, INFO[iname], p)
        if res is not None:
            f = res[0]
            rt.require((f.sample_rate, f.num_frames, f.num_channels, f.format, f.subtype) == (fs, len(y), y.shape[1], inf.format, inf.subtype) and abs(f.duration - len(y) / fs) < 1e-9, f"{iname}", f, (fs, y.shape, inf.subtype))
    # a tensor with its own subtype
    for given in (None, "PCM_16"):
        x = torch.zeros(5)
        x._torchrir_subtype = "PCM_24"
        rt.inputs(stored="PCM_24", given=given)
        rt.count()
        io.save_audio(tmp / "s.wav", x, 8000, subtype=given)
        rt.require(sf.info(str(tmp / "s.wav")).subtype == (given or "PCM_24"), "a subtype stored on the tensor is used unless one is given", sf.info(str(tmp / "s.wav")).subtype, given or "PCM_24")

    # gates
    touched = []
    real = {k: getattr(sf, k) for k in ("read", "write", "info")}
    wavfile, other = tmp / "good.wav", tmp / "good.flac"
    sf.write(str(wavfile), np.zeros(4), 8000)
    sf.write(str(other), np.zeros(4), 8000)
    gates = [(io.load_wav, "load", True), (io.load, "load", True), (au.load, "load", False), (io.info_wav, "info", True), (io.info, "info", True), (io.save_wav, "save", True), (io.save, "save", True), (au.save, "save", False)]
    try:
        for k in real:
            setattr(sf, k, lambda *a, k=k, **kw: (touched.append(k), real[k](*a, **kw))[1])
        for i in rt.rounds(300, 1500, .3):
            f, kind, takes = rt.rng.choice(gates)
            suf = rt.rng.choice(["", ".wav", ".WAV", ".wave", ".Wave", ".flac", ".ogg", ".mp3", ".wavx", ".aiff", ".wa", ".w", ".wav.flac", ".flac.wav", ".waves", ".rf64", ".w64"] + [s for s in rt.strs if s.startswith(".") and "/" not in s and len(s) < 9 and s.isprintable() and s.lower() != ".raw"])
            d = tmp / "gate"
            d.mkdir(exist_ok=True)
            for q in d.iterdir():
                q.unlink()
            p = d / ("f" + suf)
            fmt = rt.rng.choice([None, None, "wav", "WAV", "wave", "flac", "ogg", "mp3", "wavx", ".wav", "FLAC"]) if takes else None
            eff = (fmt or p.suffix.lstrip(".")).lower()
            good = eff in ("wav", "wave")
            if kind != "save":
                p.write_bytes(wavfile.read_bytes())
            elif good and p.suffix.lower() != ".wav":
                continue                                   # soundfile itself chooses the container by the name
            rt.inputs(entry=f"{f.__module__}.{f.__name__}", path=p.name, format=fmt)
            rt.count()
            touched.clear()
            kw = {} if fmt is None else {"format": fmt}
            a = (p, torch.zeros(4), 8000) if kind == "save" else (p,)
            try:
                quiet(f, *a, **kw)
                ok = True
            except ValueError:
                ok = False
            except Exception as e:                         # noqa: BLE001
                rt.require(False, "a rejection is a ValueError", repr(e), "ValueError")
                continue
            rt.require(ok == good, "exactly wav files pass the wav-only entry points", ok, good)
            if not good:
                rt.require(not touched and (kind != "save" or not p.exists()), "other formats are rejected before touching the disk", touched, [])
        for name, f, a in [("load_wav", io.load_wav, (wavfile,)), ("load_audio", io.load_audio, (other,)), ("info_wav", io.info_wav, (wavfile,)), ("info_audio", io.info_audio, (other,)),
                           ("load", io.load, (wavfile,)), ("info", io.info, (wavfile,)),
                           ("save_wav", io.save_wav, (tmp / "no1.wav", torch.zeros(3), 8000)), ("save_audio", io.save_audio, (tmp / "no2.flac", torch.zeros(3), 8000)), ("save", io.save, (tmp / "no3.wav", torch.zeros(3), 8000))]:
            for b in ["SoundFile", "sox", "soundfile ", "ffmpeg", "torchaudio", "default"] + [s for s in rt.strs if s and s != "soundfile"][:5]:
                rt.inputs(entry=name, backend=b)
                rt.count()
                touched.clear()
                rt.rejects("unknown back-ends are rejected", lambda: quiet(f, *a, backend=b), exc=(ValueError,))
                rt.require(not touched, "nothing is read or written for an unknown back-end", touched, [])
            rt.ok("soundfile is accepted", lambda: quiet(f, *a, backend="soundfile") and True)
        for b in ("sox", "SOUNDFILE", ""):
            rt.inputs(set_backend=b)
            rt.count()
            rt.rejects("unknown back-ends are rejected", io.set_audio_backend, b, exc=(ValueError,))
            rt.require(io.get_audio_backend() == "soundfile", "a rejected name leaves the default", io.get_audio_backend(), "soundfile")
        for bad in (0.0, -1.0, -.5):
            for name, f in SAVE.items():
                p = tmp / "peak.wav"
                a = (p, io.AudioData(audio=torch.ones(4), sample_rate=8000)) if name == "save_audio_data" else (p, torch.ones(4), 8000)
                rt.inputs(entry=name, peak=bad)
                rt.count()
                rt.rejects("a non-positive peak is rejected", lambda: quiet(f, *a, peak=bad), exc=(ValueError,))
                rt.require(not p.exists(), "nothing is written then", True, False)
    finally:
        for k, v in real.items():
            setattr(sf, k, v)
