"""C23: what audio files are handed, and what is returned from them.  soundfile is external: a file is its channels, frames,
rate, format and subtype; read returns frame t of channel c as a floating value, write stores the array it is given."""
from sim import *
from dv import core, harness, strs
from dv.strs import SStr, LOWER
import itertools, types, warnings

ID = "C23"
AU, IO = "torchrir.io.audio:", "torchrir.io:"
TRUSTED = ["soundfile.info / read / write: the file's samples, rate, format and subtype are returned, respectively stored, as given (quantisation and encoding are the library's)"]
ASSUMPTIONS = ["lower-casing a suffix leaves its leading dot", "a back-end name, where given, is not the empty string",
               "a (channels, samples) array has at most 8 channels and more than 8 samples are never channels (the documented layout rule)"]
CONTENT = core.fresh_fn("CONTENT", 2, R)
FILES = []


class Log:
    def __init__(self):
        self.events = []


LOG = Log()


def _info(file, verbose=False):
    LOG.events.append(("info", file))
    m = LOG.meta
    return types.SimpleNamespace(samplerate=m["rate"], frames=m["frames"], channels=m["channels"], format=m["format"], subtype=m["subtype"], duration=m["duration"], name=file)


def _read(file, frames=-1, start=0, stop=None, dtype="float64", always_2d=False, fill_value=None, out=None, **kw):
    LOG.events.append(("read", file))
    if frames != -1 or start != 0 or stop is not None or fill_value is not None or out is not None or kw:
        raise core.Unsupported("soundfile.read of a part of a file")
    if dtype not in ("float32", "float64"):
        raise core.Unsupported("soundfile.read as integers")
    m = LOG.meta
    one = not always_2d and bool(m["channels"] == 1)
    dims = [m["frames"]] if one else [m["frames"], m["channels"]]
    data = STensor.new([T.dterm(q) for q in dims], lambda ix: CONTENT(ix[0], z3.IntVal(0) if one else ix[1]), T.float32 if dtype == "float32" else T.float64)
    LOG.data = data
    return data, m["rate"]


def _write(file, data, samplerate, subtype=None, endian=None, format=None, closefd=True, **kw):
    LOG.events.append(("write", file, data, samplerate, subtype, format))
    if endian is not None or kw:
        raise core.Unsupported("soundfile.write options")


sf = types.ModuleType("soundfile")
sf.info, sf.read, sf.write = _info, _read, _write
sf.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else core.Unsupported(f"soundfile.{n}"))
harness.SHIMS.update({"soundfile": sf})


class APath:
    """a path whose suffix is arbitrary"""

    def __init__(self, P, suffix=None):
        self.name = "file"
        if suffix is not None:
            self.suffix = suffix
            return
        s = SStr("suffix")
        P.assume(z3.Or(s.t == z3.StringVal(""), z3.And(z3.PrefixOf(z3.StringVal("."), s.t), z3.Not(z3.PrefixOf(z3.StringVal(".."), s.t)))))
        tail = z3.SubString(s.t, 1, z3.Length(s.t))
        P.assume(z3.Implies(s.t != z3.StringVal(""), LOWER(s.t) == z3.Concat(z3.StringVal("."), LOWER(tail))))
        P.assume(LOWER(z3.StringVal("")) == z3.StringVal(""))
        self.suffix, self.tail = s, tail

    def __str__(self):
        return "<the path>"

    __fspath__ = __str__


def fresh_log(P, rate=True):
    global LOG
    LOG = Log()
    m = dict(rate=P.int("rate", 1), frames=P.int("frames", 0), channels=P.int("channels", 1), format=SStr("format"), subtype=SStr("file_subtype"), duration=P.real("duration"))
    LOG.meta = m
    return m


def in_(t, names):
    return z3.Or(*[t == z3.StringVal(n) for n in names])


def written(P, what, log, x, rank, dims, rate, peak, normalize, subtype):
    """exactly one write: the given rate and subtype; the array in the file's layout, scaled"""
    ws = [e for e in log.events if e[0] == "write"]
    P.check(f"{what}: one file is written, at the path given", len(ws) == 1 and str(ws[0][1]) == "<the path>" and len(log.events) == 1, repr(log.events)[:300])
    if len(ws) != 1:
        return
    _, _, d, r, st, fm = ws[0]
    P.check(f"{what}: format is left to the path", fm is None)
    P.prove_eq(f"{what}: the sampling rate is the one given", toreal(lift(r)), toreal(lift(rate)))
    P.check(f"{what}: the subtype is passed on", (st is subtype) or (isinstance(st, SStr) and isinstance(subtype, SStr) and st.t.eq(subtype.t)), f"{st!r} instead of {subtype!r}")
    if not isinstance(d, STensor):
        return P.fail(f"{what}: an array is written", type(d).__name__)
    snap = d.snapshot()
    n = dims[-1]
    if rank == 1:
        if d.ndim == 2:
            P.shape_is(f"{what}: frames and channels", d, [n, 1])
            at = lambda i: snap(full(d, [i[0], z3.IntVal(0)]))
        else:
            P.shape_is(f"{what}: frames", d, [n])
            at = lambda i: snap(full(d, [i[0]]))
    else:
        P.shape_is(f"{what}: frames and channels", d, [n, dims[0]])
        at = lambda i: snap(full(d, [i[1], i[0]]))
    xs = x.snapshot()
    orig = lambda i: toreal(xs(full(x, i)))
    idx = lambda: [fresh("i") for _ in range(rank)]
    inside = lambda i: z3.And(*[z3.And(k >= 0, k < T.dterm(m)) for k, m in zip(i, dims)])
    i, j = idx(), idx()
    P.check(f"{what}: floating samples", d.dtype.kind == "f", repr(d.dtype))
    with P.given(inside(i)) as live:
        if live:
            wi, xi = toreal(at(i)), orig(i)
            if not normalize:
                P.prove_eq(f"{what}: values unchanged", wi, xi)
                return
            pk = toreal(lift(peak))
            cands = witnesses(P)
            P.prove(f"{what}: within the peak", z3.And(wi <= pk, wi >= -pk), cands=[tuple(c) for c in cands])
            P.prove(f"{what}: silence stays silence", z3.Implies(xi == 0, wi == 0))
            P.prove(f"{what}: signs are kept", wi * xi >= 0)
            with P.given(inside(j)) as live2:
                if live2:
                    P.prove_eq(f"{what}: one common factor", wi * orig(j), toreal(at(j)) * xi)
            # some sample reaches the peak unless all are silent
            goals = []
            for w in itertools.product(cands_flat(cands), repeat=rank):
                goals.append(z3.And(inside(w), z3.Or(toreal(at(list(w))) == pk, toreal(at(list(w))) == -pk)))
            P.prove(f"{what}: the largest magnitude is the peak, unless the audio is silent", z3.Or(*([xi == 0] + goals)))


def full(t, ix):
    """the multi-index of the storage dimensions for one index per axis"""
    out = []
    for k, comp in zip(ix, t._d):
        out += T.split_flat(k, [c.size for c in comp])
    return out


def witnesses(P):
    names = {}
    for h in P.ctx.hyps:
        for n, t in core.free_consts(h).items():
            if n.startswith("arg") and t.sort() == I:
                names[n] = t
    return [[t] for t in names.values()]


def cands_flat(c):
    return [x[0] for x in c][:6]


def save_case(entry, rank, normalize, subtype, dtype=T.float32, rk=None):
    def run(P):
        f = P.fn(entry)
        fresh_log(P)
        dims = [P.int("samples", 0)] if rank == 1 else [P.int("channels_given", 1, 8), P.int("samples", 0)]
        x = P.tensor("audio", dims, dtype)
        rate, peak = P.int("fs", 1), P.real("peak")
        kw = {"normalize": normalize, "peak": peak}
        sub = None
        if subtype != "none":
            sub = kw["subtype"] = SStr("given_subtype")
            P.assume(sub.t != z3.StringVal(""))
        path = APath(P, "." + ("wav" if "wav" in entry or entry.endswith(":save") else "flac"))
        if "save_audio_data" in entry:
            st = SStr("stored_subtype") if subtype in ("none", "both") and rk != "unknown" else None
            D = P.fn(AU + "AudioData")
            data = D(audio=x, sample_rate=rate, format="WAV", subtype=st)
            want = sub if sub is not None else st
            args = (path, data)
        else:
            want = sub
            args = (path, x, rate)
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            st_, y = P.call(f, *args, **kw)
        ok = P.ctx.entails(peak.t > 0) if normalize else True
        if normalize:
            if st_ == "raise":
                P.check("rejection is a ValueError", isinstance(y, ValueError), repr(y))
                P.prove("only a non-positive peak is rejected", peak.t <= 0)
                P.check("nothing is written then", not LOG.events, repr(LOG.events))
                return
            P.prove("a non-positive peak is rejected", peak.t > 0)
        elif st_ == "raise":
            return P.fail("audio is saved", repr(y))
        written(P, "save", LOG, x, rank, dims, rate, peak, normalize, want)
    return run


def defaults_case(entry):
    """without options: normalised to 1, subtype left to the library"""
    def run(P):
        f = P.fn(entry)
        fresh_log(P)
        n = P.int("samples", 0)
        x = P.tensor("audio", [n])
        path = APath(P, ".wav")
        rate = P.int("fs", 1)
        with warnings.catch_warnings(record=True):
            warnings.simplefilter("always")
            if "data" in entry:
                st, y = P.call(f, path, P.fn(AU + "AudioData")(audio=x, sample_rate=rate))
            else:
                st, y = P.call(f, path, x, rate)
        if st == "raise":
            return P.fail("audio is saved", repr(y))
        written(P, entry.split(":")[1] + " by default", LOG, x, 1, [n], rate, 1.0, True, None)
    return run


def stored_case(P):
    """a tensor that carries its own subtype is written with it unless one is given"""
    f = P.fn(AU + "save_audio")
    for given in (None, "PCM_24"):
        fresh_log(P)
        n = P.int("samples", 0)
        x = P.tensor("audio", [n])
        x._torchrir_subtype = "FLOAT"
        st, y = P.call(f, APath(P, ".wav"), x, P.int("fs", 1), subtype=given)
        ws = [e for e in LOG.events if e[0] == "write"]
        P.check("the stored subtype is passed unless one is given", st == "ok" and len(ws) == 1 and ws[0][4] == (given or "FLOAT"), repr((st, y, ws))[:200])


def loaded(P, what, m, x, rate, w):
    P.prove(f"{what}: the file's rate", lift(rate) == lift(m["rate"]))
    if not isinstance(x, STensor):
        return P.fail(f"{what}: a tensor is returned", repr(x))
    P.shape_is(f"{what}: one sample per frame", x, [m["frames"]])
    P.check(f"{what}: floating samples", x.dtype.kind == "f", repr(x.dtype))
    i = fresh("i")
    with P.given(i >= 0, i < m["frames"].t) as live:
        if live:
            P.prove_eq(f"{what}: channel 0", toreal(x.snapshot()(full(x, [i]))), CONTENT(i, z3.IntVal(0)))
    many = m["channels"].t > 1
    P.prove(f"{what}: a warning exactly when channels are dropped", many if any(issubclass(q.category, RuntimeWarning) for q in w) else z3.Not(many))


def load_case(entry, explicit=None):
    def run(P):
        f = P.fn(entry)
        m = fresh_log(P)
        path = APath(P, None if explicit is None else explicit)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            st, y = P.call(f, path)
        if st == "raise":
            return P.fail("a readable file is loaded", repr(y))
        if entry.endswith("load_audio_data"):
            loaded(P, "load", m, y.audio, y.sample_rate, w)
            P.check("load: format and subtype of the file", y.format is m["format"] and y.subtype is m["subtype"], repr((y.format, y.subtype)))
        else:
            loaded(P, "load", m, y[0], y[1], w)
        P.check("only that file is read", all(str(e[1]) == "<the path>" and e[0] in ("info", "read") for e in LOG.events), repr(LOG.events)[:200])
    return run


def gate_case(entry, kind, fmt):
    """the wav-only entry points: any path, any format argument"""
    def run(P):
        f = P.fn(entry)
        m = fresh_log(P)
        path = APath(P)
        kw = {}
        wav = in_(LOWER(path.suffix.t), (".wav", ".wave"))
        if fmt:
            kw["format"] = SStr("fmt")
            P.assume(kw["format"].t != z3.StringVal(""))
            wav = in_(LOWER(kw["format"].t), ("wav", "wave"))
        n = P.int("samples", 0)
        x = P.tensor("audio", [n])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            st, y = P.call(f, path, x, 16000, normalize=False, **kw) if kind == "save" else P.call(f, path, **kw)
        if st == "raise":
            P.check("a rejection is a ValueError", isinstance(y, ValueError), repr(y))
            P.prove("wav files are accepted", z3.Not(wav))
            P.check("other formats are rejected before touching the disk", not LOG.events, repr(LOG.events))
            return
        P.prove("other formats are rejected", wav)
        if kind == "save":
            written(P, "save", LOG, x, 1, [n], 16000, None, False, None)
        elif kind == "load":
            loaded(P, "load", m, y[0], y[1], w)
        else:
            P.check("info: of that file", [e[:2] for e in LOG.events] == [("info", path.__str__())] or all(e[0] in ("info", "read") for e in LOG.events))
            info_is(P, m, y)
    return run


def info_is(P, m, y):
    for k, v in (("sample_rate", "rate"), ("num_frames", "frames"), ("num_channels", "channels")):
        P.prove(f"info: {k}", lift(getattr(y, k)) == lift(m[v]))
    P.prove("info: duration", toreal(lift(y.duration)) == toreal(lift(m["duration"])))
    P.check("info: format and subtype", y.format is m["format"] and y.subtype is m["subtype"])


def info_case(entry):
    def run(P):
        f = P.fn(entry)
        m = fresh_log(P)
        st, y = P.call(f, APath(P))
        P.fail("info of a readable file", repr(y)) if st == "raise" else info_is(P, m, y)
    return run


def backend_case(which):
  """any back-end name: soundfile works, every other name is rejected before touching the disk"""
  def run(P):
    f = P.fn(IO + which)
    fresh_log(P)
    b = SStr("backend")
    P.assume(b.t != z3.StringVal(""))
    a = (APath(P, ".wav"),) + ((P.tensor("audio", [P.int("n", 0)]), 8000) if 'save' in which else ())
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        st, y = P.call(f, *a, backend=b)
    known = b.t == z3.StringVal("soundfile")
    if st == "raise":
        P.check("a rejection is a ValueError", isinstance(y, ValueError), repr(y))
        P.prove("soundfile is accepted", z3.Not(known))
        P.check("nothing is read or written for unknown back-ends", not LOG.events)
    else:
        P.prove("unknown back-ends are rejected", known)
        P.check("soundfile does the work", len(LOG.events) >= 1)
  return run


def default_backend_case(P):
    mod = P.mod("torchrir.io")
    s = P.fn(IO + "set_audio_backend")
    g = P.fn(IO + "get_audio_backend")
    b = SStr("backend")
    st, y = P.call(s, b)
    known = b.t == z3.StringVal("soundfile")
    if st == "raise":
        P.check("a rejection is a ValueError", isinstance(y, ValueError), repr(y))
        P.prove("soundfile is accepted", z3.Not(known))
        P.check("a rejected name leaves the default", g() == "soundfile")
    else:
        P.prove("unknown back-ends are rejected", known)
        P.prove("the default is the one set", strs.term(g()) == strs.term(b))
    P.check("available back-ends", P.fn(IO + "list_audio_backends")() == ["soundfile"])


FSAVE = [AU + "_save_audio"]
FLOAD = [AU + "_load_audio_data", AU + "_load_audio"]
CASES = []
for rank in (1, 2):
    for norm in (True, False):
        for sub in ("none", "given"):
            CASES.append(Case(f"save rank {rank} normalize {norm} subtype {sub}", save_case(AU + "_save_audio" if False else AU + "save_audio", rank, norm, sub), FSAVE + [AU + "save_audio"]))
for e in (AU + "save", IO + "save_wav", IO + "save_audio", IO + "save"):
    CASES.append(Case(f"{e}", save_case(e, 1, True, "given"), [e]))
    CASES.append(Case(f"{e} unchanged", save_case(e, 2, False, "none"), [e]))
for sub in ("none", "given", "both"):
    CASES.append(Case(f"save_audio_data subtype {sub}", save_case(AU + "save_audio_data", 1, False, sub), FSAVE + [AU + "save_audio_data"]))
CASES.append(Case("save_audio_data without subtype", save_case(AU + "save_audio_data", 2, True, "none", rk="unknown"), FSAVE + [AU + "save_audio_data"]))
CASES += [Case(f"save {d}", save_case(AU + "save_audio", 1, True, "none", d), FSAVE) for d in (T.float64, T.int64)]
CASES += [Case(f"defaults of {e}", defaults_case(e), FSAVE + [e]) for e in (AU + "save", AU + "save_audio", IO + "save_wav", IO + "save_audio", IO + "save", AU + "save_audio_data")]
CASES += [Case("stored on the tensor", stored_case, FSAVE)]
CASES += [Case(f"load {e}", load_case(e, x), FLOAD + [e]) for e, x in ((AU + "load_audio", None), (AU + "load_audio_data", None), (IO + "load_audio", None), (AU + "load", ".wav"), (IO + "load_wav", ".WAV"))]
CASES += [Case(f"gate {e}{' with a format' if fm else ''}", gate_case(e, k, fm), [e]) for e, k, fm in (
    (AU + "load", "load", False), (AU + "save", "save", False), (IO + "load_wav", "load", False), (IO + "load_wav", "load", True), (IO + "save_wav", "save", False), (IO + "save_wav", "save", True),
    (IO + "info_wav", "info", False), (IO + "info_wav", "info", True), (IO + "load", "load", False), (IO + "save", "save", False), (IO + "info", "info", False))]
CASES += [Case(f"info {e}", info_case(e), [e]) for e in (AU + "info_audio", IO + "info_audio")]
CASES += [Case(f"any back-end name for {w}", backend_case(w), [IO + w, IO + "_resolve_backend"]) for w in
          ("load_wav", "load_audio", "save_wav", "save_audio", "info_wav", "info_audio", "load", "save", "info")]
CASES += [Case("default back-end", default_backend_case, [IO + "set_audio_backend", IO + "get_audio_backend", IO + "list_audio_backends"])]
