"""C31: the audio of generated scenes.  The builder itself is executed symbolically; what it calls (corpus, placement,
simulation, convolution, layout pictures, metadata) is replaced by contracts that return arbitrary signals; the file
system, soundfile and numpy's generator are external and record what they are told to do."""
from sim import *
from dv import harness, shim_np, seq
import types, C30

ID = "C31"
D = "torchrir.datasets.dynamic_cmu_arctic:"
FB = [D + n for n in ("build_dynamic_cmu_arctic_dataset", "_normalize_sources", "_to_time_channel_audio")]
TRUSTED = ["soundfile.write(path, data, rate) stores data (time x channels) with quantisation, exactly inside [-1, 1]", "shutil.rmtree, pathlib.Path.exists / mkdir"]
ASSUMPTIONS = ["the convolved signals have more samples than there are microphones (6)", "the convolver returns one row per microphone (C18)", "float arithmetic is real arithmetic"]
BOUNDED = ["the number of sources is 1, 2 or 3 and the number of scenes 1 or 2; every signal, length, rate and level is arbitrary"]
np = shim_np.np
harness.SHIMS["numpy"] = np
LIMIT = z3.Q(99, 100)


class Root:
    """the data set directory (or a path below it)"""

    def __init__(self, W, parts=()):
        self.W, self.p = W, parts

    def __truediv__(self, o):
        return Root(self.W, self.p + (str(o),))
    joinpath = __truediv__

    def exists(self):
        if self.p:
            raise core.Unsupported("existence of a path below the output directory")
        return self.W.removed is False and self.W.exists or self.W.made
    is_dir = exists

    def mkdir(self, *a, **k):
        self.W.log.append(("mkdir", self.p))
        self.W.made = True

    def open(self, mode="r", **k):
        if "w" in mode:
            self.W.log.append(("open", self.p))
        return File()

    def write_text(self, *a, **k):
        self.W.log.append(("open", self.p))

    def iterdir(self):
        raise core.Unsupported("listing of the output directory")

    def __str__(self):
        return "/out/" + "/".join(self.p)
    __fspath__ = __str__

    @property
    def name(self):
        return self.p[-1] if self.p else "out"

    @property
    def parent(self):
        return Root(self.W, self.p[:-1])

    def __eq__(self, o):
        return isinstance(o, Root) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else core.Unsupported(f"Path.{n}")


class File:
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def write(self, *a): return 0


class World:
    pass


def world(P, exists):
    W = World()
    W.P, W.log, W.exists, W.made, W.removed = P, [], exists, False, False
    mod = P.mod(D[:-1])
    W.root = Root(W)
    W.rate = P.int("sample_rate", 1)

    def rmtree(p, *a, **k):
        W.log.append(("rmtree", p.p if isinstance(p, Root) else str(p)))
        if isinstance(p, Root) and not p.p:
            W.removed, W.made = True, False
    sh = types.ModuleType("shutil")
    sh.rmtree = rmtree
    sh.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else core.Unsupported(f"shutil.{n}"))
    sf = types.ModuleType("soundfile")
    sf.write = lambda file, data, samplerate, subtype=None, endian=None, format=None, closefd=True: W.log.append(("write", file.p if isinstance(file, Root) else str(file), data, samplerate, subtype))
    sf.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n) if n.startswith("__") else core.Unsupported(f"soundfile.{n}"))
    js = types.ModuleType("json")
    js.dump, js.dumps = lambda *a, **k: None, lambda *a, **k: "{}"
    for n, v in (("shutil", sh), ("sf", sf), ("json", js)):
        if n in mod.__dict__:
            mod.__dict__[n] = v
    np.random.default_rng = lambda seed=None: C30.Gen()

    class Sentence:
        utterance_id, text = "u", "t"

    class Corpus:
        def __init__(self, root, speaker="bdl", download=False):
            W.log.append(("corpus", root, speaker, download))
            self.speaker = speaker

        def available_sentences(self):
            return [Sentence()]

        def load_audio(self, u):
            return P.tensor("utterance", [P.int("utt_len", 1)]), W.rate
    mod.CmuArcticDataset = Corpus
    W.dry, W.rirs, W.conv = [], [], []

    def fixed(real):
        def f(dataset, *, target_samples, rng_py):
            t = P.tensor(f"dry{len(W.dry)}", [target_samples])
            W.dry.append((t, dataset.speaker))
            return t, ["u"]
        return f
    P.stub("_load_fixed_length_signal", fixed)

    def positions(real):
        def f(**k):
            n = k["n_sources"]
            t = lambda nm, *d: P.tensor(nm, list(d), T.float64, frozen=False)
            return t("starts", n, 3), t("ends", n, 3), t("saz", n), t("eaz", n), t("vel", n), t("ang", n), P.tensor("turn", [n], T.int64, frozen=False), list(range(k["n_moving_sources"] if isinstance(k["n_moving_sources"], int) else n))
        return f
    P.stub("_build_constrained_source_positions", positions)
    P.stub("_build_source_trajectory", lambda real: lambda **k: P.tensor("src_traj", [k["n_steps"], k["starts"].shape[0], 3], T.float64))
    P.stub("_sample_random_mic_center", lambda real: lambda **k: P.tensor("mic_center", [3], T.float64))
    P.stub("_build_layout_annotation_lines", lambda real: lambda **k: ["line"])
    for n in ("save_scene_metadata", "save_scene_layout_images", "save_scene_videos"):
        P.stub(n, lambda real, n=n: lambda *a, **k: W.log.append((n, k)))

    def sim(real):
        def f(*, room, src_traj, mic_traj, max_order, nsample, **k):
            t = P.tensor(f"rirs{len(W.rirs)}", [src_traj.shape[0], src_traj.shape[1], mic_traj.shape[1], nsample], T.float64)
            W.rirs.append(t)
            return t
        return f
    P.stub("simulate_dynamic_rir", sim)

    class Convolver:
        def __init__(self, *a, **k):
            self.k = k

        def convolve(self, sig, rirs, *a, **k):
            n = P.int(f"conv_len{len(W.conv)}", 7)
            if W.conv:
                P.assume(n.t == W.conv[0][2].t)
            t = P.tensor(f"conv{len(W.conv)}", [rirs.shape[2], n], T.float64)
            W.conv.append((sig, rirs, n, t))
            return t
        __call__ = convolve
    mod.DynamicConvolver = Convolver
    return W


class Log:
    def __getattr__(self, n):
        return lambda *a, **k: None


def scene_case(ns, scenes, first=0, **kw):
    def run(P):
        W = world(P, False)
        f = P.fn(FB[0])
        dur = P.real("duration", pos=True)
        speakers = ["bdl", "slt", "clb", "rms"]
        st, y = P.call(f, cmu_root=Root(W, ("cmu",)), dataset_root=W.root, speakers=speakers, n_scenes=scenes, n_sources=ns, n_moving_sources=min(1, ns), duration_sec=dur, trajectory_steps=4, rir_samples=5, save_layout_mp4=False,
                       save_layout_images=False, randomize_mic_center=False, logger=Log(), **kw)
        if st == "raise":
            P.check("only a too short duration is refused here", isinstance(y, ValueError) and "too small" in str(y), repr(y))
            P.prove("the duration holds no sample", dur.t * toreal(W.rate.t) < 1)
            return
        P.check("rate and number of microphones are returned", isinstance(y, tuple) and len(y) == 2, repr(y))
        P.prove("the corpus's rate is returned", lift(y[0]) == W.rate.t)
        writes = [e for e in W.log if e[0] == "write"]
        P.check("the files of every scene, once each", sorted(w[1] for w in writes) == sorted((f"scene_{q:04d}", n) for q in range(scenes) for n in ["mixture.wav"] + [f"source_{j:02d}.wav" for j in range(ns)]), repr([w[1] for w in writes]))
        P.check("one convolution per source and scene", len(W.conv) == ns * scenes and len(W.dry) == ns * scenes, f"{len(W.conv)}")
        for q in range(scenes):
            sp = [s for _, s in W.dry[q * ns:(q + 1) * ns]]
            P.check("distinct speakers", len(set(sp)) == ns, repr(sp))
            got = {w[1][1]: w for w in writes if w[1][0] == f"scene_{q:04d}"}
            t, m = fresh("t"), fresh("m")
            n = W.conv[0][2]
            with P.given(t >= 0, t < n.t, m >= 0, m < 6) as live:
                if not live:
                    return
                val = {}
                for name, w in got.items():
                    P.prove("the corpus's rate is written", lift(w[3]) == W.rate.t)
                    P.check("default 16-bit (or wider) files", w[4] in (None, "PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE"), repr(w[4]))
                    if not P.shape_is("all files have the same length and six channels", w[2], [n, 6]):
                        return
                    val[name] = w[2].at(t, m)
                dry = [W.dry[q * ns + j][0] for j in range(ns)]
                raw = []
                for j in range(ns):
                    sig, rirs, _, out = W.conv[q * ns + j]
                    i, k = fresh("i"), fresh("k")
                    P.tensor_eq(f"source {j} convolves its own dry signal", sig, [1, dry[j].shape[0]], lambda z, x, j=j: dry[j].at(x))
                    P.tensor_eq(f"source {j} convolves its own impulse responses", rirs, [4, 1, 6, 5], lambda a, z, b, c, j=j: W.rirs[q].at(a, z3.IntVal(j), b, c))
                    raw.append(out.at(m, t))
                stems = [val[f"source_{j:02d}.wav"] for j in range(ns)]
                P.prove_eq("the mixture is the sum of the sources", val["mixture.wav"], sum(stems[1:], stems[0]))
                for nm in sorted(val):
                    P.prove(f"{nm[:6]} does not clip", z3.And(val[nm] <= 1, val[nm] >= -1), cands=[(t, m), (m, t)])
                # one factor: what is written is raw*g for one g
                gs = factor(P, stems, raw)
                if gs is None:
                    return P.fail("the sources of a scene are scaled by one common factor", str(stems[0])[:300])
                g = gs
                for j in range(ns):
                    P.prove_eq(f"source {j} is its convolution times the common factor", stems[j], raw[j] * g)
                P.prove("the factor does not amplify or invert", z3.And(g > 0, g <= 1))
                P.impossible("the factor is 1 when nothing would exceed the limit", [g != 1], within_limit(P, W, q, ns), cands=peak_witnesses(P))
    return run


def factor(P, stems, raw):
    """the coefficient of raw[0] in stems[0]"""
    s = sums.canon(stems[0])
    a, b = sums.canon(z3.substitute(s, (raw[0], z3.RealVal(1)))), sums.canon(z3.substitute(s, (raw[0], z3.RealVal(0))))
    return sums.canon(a - b)


def within_limit(P, W, q, ns):
    out = []
    fs = [W.conv[q * ns + j][3] for j in range(ns)]
    n = W.conv[0][2]
    inr = lambda m, t: z3.And(m >= 0, m < 6, t >= 0, t < n.t)
    b = lambda v: z3.And(v <= LIMIT, v >= -LIMIT)
    for f in fs:
        out.append((2, lambda m, t, f=f: z3.Implies(inr(m, t), b(f.at(m, t))), [(f.fun.name(), (0, 1))]))
    out.append((2, lambda m, t: z3.Implies(inr(m, t), b(sum([f.at(m, t) for f in fs[1:]], fs[0].at(m, t)))), [(fs[0].fun.name(), (0, 1))]))
    return out


def peak_witnesses(P):
    names = {}
    for h in P.ctx.hyps:
        for n, t in core.free_consts(h).items():
            if n.startswith("arg") and t.sort() == I:
                names[n] = t
    return [(a, b) for a in names.values() for b in names.values() if a is not b]


def guard_case(exists, over):
    """what happens to an existing output directory"""
    def run(P):
        W = world(P, exists)
        f = P.fn(FB[0])
        kw = {} if over is None else {"overwrite": over}
        ints = {n: P.int(n) for n in ("n_moving_sources", "trajectory_steps", "rir_samples")}
        dur = P.real("duration")
        P.stub("_to_time_channel_audio", lambda real: stop)
        st, y = P.call(f, cmu_root=Root(W, ("cmu",)), dataset_root=W.root, speakers=["bdl", "slt"], n_scenes=1, n_sources=1, duration_sec=dur, save_layout_mp4=False, save_layout_images=False, randomize_mic_center=False, logger=Log(), **ints, **kw)
        changes = [e for e in W.log if e[0] != "corpus"]
        bad = z3.Or(ints["n_moving_sources"].t < 0, ints["n_moving_sources"].t > 1, ints["trajectory_steps"].t <= 0, ints["rir_samples"].t <= 0, dur.t <= 0)
        if exists and not over:
            P.check("existing output is refused", st == "raise" and isinstance(y, (FileExistsError, ValueError)), repr(y))
            if isinstance(y, ValueError):
                P.prove("a ValueError only for an invalid request", bad)
            P.check("existing output is not touched", not changes, repr(changes))
            P.check("nothing is fetched either", not W.log, repr(W.log))
            return
        if st == "raise" and isinstance(y, ValueError) and not isinstance(y, Reached) and not W.log:
            P.prove("a ValueError only for an invalid request", bad)
            return
        rm = [e for e in W.log if e[0] == "rmtree"]
        P.check("the old directory is removed only on request", rm == ([("rmtree", ())] if exists else []), repr(rm))
        P.check("every change is below the output directory", all(e[1] == () or e[1][0].startswith("scene_") for e in changes if e[0] in ("mkdir", "open", "rmtree")), repr([e[:2] for e in changes]))
        if isinstance(y, Reached):
            P.prove("only valid requests are carried out", z3.Not(bad))
    return run


class Reached(ValueError):
    pass


def stop(*a, **k):
    raise Reached("audio stage")


CASES = [Case(f"{ns} sources, {sc} scene{'s' * (sc > 1)}", scene_case(ns, sc), FB) for ns, sc in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2))] + \
        [Case(f"output directory {'exists' if e else 'is new'}, overwrite={o}", guard_case(e, o), FB[:1]) for e in (False, True) for o in (None, False, True)]
