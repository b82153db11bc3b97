"""C10: explicit settings win over the configuration, which wins over the defaults; invalid settings are rejected; the
simulator object runs the functional interface with exactly its own settings or refuses."""
from sim import *
from dv import tensor as T
import warnings as _w

ID = "C10"
VA = AX + "validate:"
FNS = [VA + n for n in ("_resolve_config", "_validate_static_args", "_validate_dynamic_args")] + ["torchrir.config:SimulationConfig.validate", "torchrir.config:default_config",
       API + "simulate_rir", API + "simulate_dynamic_rir", "torchrir.util.device:resolve_device", "torchrir.util.device:DeviceSpec.resolve"]
SIMF = ["torchrir.sim.simulators:ISMSimulator.simulate", "torchrir.sim.simulators:ISMSimulator.__post_init__", "torchrir.sim.simulators:_ensure_no_conflict", "torchrir.sim.simulators:_normalize_scene"]


def inputs(P, dyn, ns=2, nm=3, device="cpu"):
    if dyn:
        return API + "simulate_dynamic_rir", dict(src_traj=P.tensor("src", [P.int("steps", 1), ns, 3], device=device), mic_traj=P.tensor("mic", [P.hints["steps"], nm, 3], device=device))
    return API + "simulate_rir", dict(sources=P.tensor("src", [ns, 3], device=device), mics=P.tensor("mic", [nm, 3], device=device))


def ceil_mul(a, b):
    x = a * b
    return -z3.ToInt(-x)


def settings_case(dyn, e_order, c_order, e_len, c_tmax, cfgd=True, fdl=True):
    """e_*: explicit argument given; c_*: set in the configuration"""
    def run(P):
        S = Sim(P, 3)
        r = make_room(P, 3)
        C = P.fn("torchrir.config:SimulationConfig")
        fn, io = inputs(P, dyn)
        f = P.fn(fn)
        eo, co = P.int("explicit_order", 0), P.int("config_order", 0)
        et, ct, en = P.real("explicit_tmax", pos=True), P.real("config_tmax", pos=True), P.int("explicit_nsample", 1)
        kw, ck = {}, dict(rir_hpf_enable=False)
        if c_order:
            ck["max_order"] = co
        if c_tmax:
            ck["tmax"] = ct
        cfg = C(**ck) if cfgd else None
        if e_len in ("nsample", "both"):
            kw["nsample"] = en
        if e_len in ("tmax", "both"):
            kw["tmax"] = et
        if not cfgd:
            P.stub("apply_rir_hpf", lambda real: (lambda rir, fs, config: rir))
        st, y = P.call(f, room=r["room"], max_order=eo if e_order else None, config=cfg, **io, **kw)
        has_len = bool(e_len) or c_tmax
        has_ord = e_order or c_order
        if not (has_len and has_ord):
            P.check("a missing order or length is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
            return
        if st == "raise":
            return P.fail("valid settings are accepted", repr(y))
        want = (en.t if e_len in ("nsample", "both") else ceil_mul((et if e_len else ct).t, r["fs"]))
        P.prove("number of samples = explicit count, else ceil(duration x rate) with the explicit duration first", y.sizes[-1] == want)
        P.prove("order = explicit, else configured", lift(S.index_args["max_order"]) == (eo if e_order else co).t)
    return run


def direct_case(dyn, given, conf):
    """directivity: explicit, else configured, else omni"""
    def run(P):
        S = Sim(P, 3)
        r = make_room(P, 3)
        C = P.fn("torchrir.config:SimulationConfig")
        fn, io = inputs(P, dyn)
        f = P.fn(fn)
        so, mo = P.tensor("so", [3]), P.tensor("mo", [3])
        seen = []
        for nm_ in ("_compute_image_contributions_batch", "_compute_image_contributions_time_batch"):
            def wrapc(real):
                sig = inspect.signature(real)

                def spec(*a, **k):
                    b = bind(sig, a, k)
                    seen.append((b["src_pattern"], b["mic_pattern"], b["src_dirs"], b["mic_dir"]))
                    raise StopIteration
                return spec
            for m in P.ld.modules.values():
                if nm_ in m.__dict__:
                    m.__dict__[nm_] = wrapc(inspect_real(P, nm_))
        cfg = C(rir_hpf_enable=False, directivity=conf)
        kw = {} if given == "absent" else {"directivity": given}
        st, y = P.call(f, room=r["room"], max_order=1, nsample=8, config=cfg, orientation=(so, mo), **io, **kw)
        want = (None if given == "absent" else given) or conf or "omni"
        want = tuple(want) if isinstance(want, (tuple, list)) else (want, want)
        P.check("the directivity used is the explicit one, else the configured one, else omni", bool(seen) and canonical(seen[0][:2]) == canonical(want), f"{seen[:1]} vs {want}; {y!r}")
    return run


ALIAS = {}
for _n, _al in {"omni": ("omni", "omnidirectional"), "homni": ("homni", "halfomni", "half-omni"), "subcardioid": ("subcardioid", "subcard"), "cardioid": ("cardioid", "card"),
                "hypercardioid": ("hypercardioid", "hypcard"), "bidir": ("bidir", "bidirectional", "figure8", "figure-8")}.items():
    for _x in _al:
        ALIAS[_x] = _n


def canonical(p):
    return tuple(ALIAS.get(str(x).lower(), x) for x in p)


def inspect_real(P, name):
    def f(src_pos=None, mic_pos=None, room_size=None, n_vec=None, refl=None, room=None, fdl2=None, *, src_pattern=None, mic_pattern=None, src_dirs=None, mic_dir=None):
        pass
    return f


def device_case(dyn, explicit, conf, tensors, cuda):
    def run(P):
        T.CUDA_AVAILABLE = cuda
        S = Sim(P, 3)
        r = make_room(P, 3)
        C = P.fn("torchrir.config:SimulationConfig")
        fn, io = inputs(P, dyn, device=tensors)
        f = P.fn(fn)
        cfg = C(rir_hpf_enable=False, device=conf)
        with _w.catch_warnings(record=True):
            st, y = P.call(f, room=r["room"], max_order=P.int("o", 0), nsample=P.int("n", 1), config=cfg, device=explicit, **io)
        if st == "raise":
            return P.fail("a valid device request is accepted", repr(y))
        ask = explicit if explicit is not None else conf
        if ask is None:
            want = tensors
        elif ask == "auto":
            want = "cuda" if cuda else "cpu"
        elif ask.startswith("cuda"):
            want = ask if cuda else "cpu"
        else:
            want = ask
        P.check("device: explicit, else configured, else that of the inputs", str(y.device).split(":")[0] == want.split(":")[0], f"{y.device} vs {want}")
    return run


INVALID = {"fs": ("real", lambda v: v <= 0), "max_order": ("int", lambda v: v < 0), "tmax": ("real", lambda v: v <= 0), "seed": ("int", lambda v: v < 0),
           "frac_delay_length": ("int", lambda v: z3.Or(v <= 0, v % 2 == 0)), "sinc_lut_granularity": ("int", lambda v: v <= 0), "image_chunk_size": ("int", lambda v: v <= 0),
           "accumulate_chunk_size": ("int", lambda v: v <= 0), "rir_hpf_fc": ("real", lambda v: v <= 0)}


def invalid_case(dyn, field):
    def run(P):
        S = Sim(P, 3)
        r = make_room(P, 3)
        C = P.fn("torchrir.config:SimulationConfig")
        fn, io = inputs(P, dyn)
        f = P.fn(fn)
        kind, bad = INVALID[field]
        v = P.int(field) if kind == "int" else P.real(field)
        P.assume(bad(v.t))
        st, cfg = P.call(C, **{field: v})
        if st == "ok":
            st, y = P.call(f, room=r["room"], max_order=P.int("o", 0), nsample=P.int("n", 1), config=cfg, **io)
        P.check(f"a configuration with an invalid {field} is rejected", st == "raise", "accepted")
        good = C(rir_hpf_enable=False)
        st, y = P.call(lambda: good.replace(**{field: v}))
        P.check(f"replace with an invalid {field} is rejected", st == "raise", "accepted")
    return run


def hpf_order_case(P):
    C = P.fn("torchrir.config:SimulationConfig")
    n = P.int("order")
    P.assume(n.t <= 0)
    st, cfg = P.call(C, rir_hpf_kwargs={"n": n})
    if st == "ok":
        st, y = P.call(cfg.validate)
    P.check("a non-positive high-pass order is rejected", st == "raise", "accepted")


def valid_case(P):
    """every field valid: accepted"""
    C = P.fn("torchrir.config:SimulationConfig")
    kw = {}
    for k, (kind, bad) in INVALID.items():
        v = P.int(k) if kind == "int" else P.real(k)
        P.assume(z3.Not(bad(v.t)))
        kw[k] = v
    st, cfg = P.call(C, **kw)
    if st == "ok":
        st, y = P.call(cfg.validate)
    P.check("a configuration with valid fields is accepted", st == "ok", "rejected")
    st, d = P.call(P.fn("torchrir.config:default_config"))
    P.check("the default configuration is valid", st == "ok", repr(d))


def invalid_arg_case(dyn, what):
    def run(P):
        S = Sim(P, 3)
        r = make_room(P, 3)
        fn, io = inputs(P, dyn)
        f = P.fn(fn)
        C = P.fn("torchrir.config:SimulationConfig")
        cfg = C(rir_hpf_enable=False)
        kw = dict(max_order=P.int("o", 0), nsample=P.int("n", 1))
        if what == "negative order":
            kw["max_order"] = P.int("bad_order", None, -1)
        elif what == "non-positive count":
            kw["nsample"] = P.int("bad_n", None, 0)
        elif what == "non-positive duration":
            t = P.real("bad_t")
            P.assume(t.t <= 0)
            kw.pop("nsample")
            kw["tmax"] = t
        elif what == "room is not a Room":
            io["room"] = object()
        io.setdefault("room", r["room"])
        st, y = P.call(f, config=cfg, **io, **kw)
        P.check(f"{what} is rejected", st == "raise" and isinstance(y, (ValueError, TypeError)), repr(y))
    return run


# ------------------------------------------------------------------------------------------------ simulator object
def scene_of(P, dyn, dim=3, wrapper=False):
    M = lambda n: P.fn("torchrir.models:" + n)
    r = make_room(P, dim)
    ns, nm = P.int("n_src", 1), P.int("n_mic", 1)
    src, mic = M("Source")(P.tensor("sp", [ns, dim])), M("MicrophoneArray")(P.tensor("mp", [nm, dim]))
    if dyn:
        K = P.int("steps", 1)
        st, mt = P.tensor("st", [K, ns, dim]), P.tensor("mt", [K, nm, dim])
        with _w.catch_warnings(record=True):
            sc = M("Scene" if wrapper else "DynamicScene")(room=r["room"], sources=src, mics=mic, src_traj=st, mic_traj=mt)
        return r, sc, dict(src_traj=st, mic_traj=mt)
    with _w.catch_warnings(record=True):
        sc = M("Scene" if wrapper else "StaticScene")(room=r["room"], sources=src, mics=mic)
    return r, sc, dict(sources=src, mics=mic)


def record(store, name):
    def mk(real):
        sig = inspect.signature(real)

        def spec(*a, **k):
            store.append((name, bind(sig, a, k)))
            return ("the response", name)
        return spec
    return mk


def run_case_(dyn, wrapper, order_conf, tmax_conf, withcfg=True, given=()):
    def run(P):
        P.mod("torchrir.sim.simulators")
        calls = []
        P.stub("simulate_rir", record(calls, "static"))
        P.stub("simulate_dynamic_rir", record(calls, "dynamic"))
        r, sc, parts = scene_of(P, dyn, wrapper=wrapper)
        Sm = P.fn("torchrir.sim.simulators:ISMSimulator")
        C = P.fn("torchrir.config:SimulationConfig")
        o, co, t, ct, n = P.int("order", 0), P.int("config_order", 0), P.real("tmax", pos=True), P.real("config_tmax", pos=True), P.int("nsample", 1)
        nb = P.tensor("nb", [3], T.int64)
        kw = dict(max_order=o)
        if "tmax" in given:
            kw["tmax"] = t
        if "nsample" in given:
            kw["nsample"] = n
        if "rest" in given:
            kw.update(directivity=("cardioid", "bidir"), nb_img=nb, device="cpu", dtype=T.float64)
        ck = {}
        if order_conf:
            ck["max_order"] = co
        if tmax_conf:
            ck["tmax"] = ct
        cfg = C(**ck, seed=P.int("seed", 0)) if withcfg else None
        s = Sm(**kw)
        with _w.catch_warnings(record=True):
            st, y = P.call(s.simulate, sc, cfg) if withcfg else P.call(s.simulate, sc)
        clash = mkor(z3.BoolVal(False), *([o.t != co.t] if order_conf and withcfg else []), *([t.t != ct.t] if tmax_conf and "tmax" in given and withcfg else []))
        if P.ctx.branch(clash):
            P.check("a contradicting order or duration is refused", st == "raise" and isinstance(y, ValueError) and not calls, repr(y))
            return
        if st == "raise":
            return P.fail("a consistent simulator runs", repr(y))
        P.check("the functional interface of the scene's kind is called once", [c[0] for c in calls] == ["dynamic" if dyn else "static"], str([c[0] for c in calls]))
        if not calls:
            return
        b = calls[0][1]
        P.check("the result is exactly what it returned", y.rirs == ("the response", calls[0][0]))
        P.check("scene's room", b["room"] is r["room"])
        for k, v in parts.items():
            P.check(f"scene's {k}", b[k] is v)
        P.prove("order", lift(b["max_order"]) == o.t)
        for k, v in (("tmax", t), ("nsample", n)):
            if k in given:
                P.prove(k, toreal(lift(b[k])) == toreal(v.t))
            else:
                P.check(k + " left to the configuration", b[k] is None)
        rest = "rest" in given
        P.check("directivity (none: left to the configuration)", b["directivity"] == (("cardioid", "bidir") if rest else None))
        P.check("per-axis counts", (b["nb_img"] is nb) if rest else b["nb_img"] is None)
        P.check("device", b["device"] == ("cpu" if rest else None))
        P.check("dtype", b["dtype"] is (T.float64 if rest else None))
        P.check("no diffuse tail, no extra orientation", b.get("tdiff") is None and b.get("orientation") is None)
        if withcfg:
            P.check("configuration", b["config"] is cfg and y.config is cfg)
            P.prove("seed recorded", lift(y.seed) == lift(cfg.seed))
        P.check("scene kind of the result", y.scene.is_dynamic() == dyn and y.scene.room is r["room"])
    return run


def ctor_case(what):
    def run(P):
        Sm = P.fn("torchrir.sim.simulators:ISMSimulator")
        kw = dict(max_order=P.int("o", 0), tmax=P.real("t", pos=True), nsample=P.int("n", 1))
        if what == "negative order":
            kw["max_order"] = P.int("bad", None, -1)
        elif what == "no length":
            kw.pop("tmax"), kw.pop("nsample")
        elif what == "non-positive duration":
            kw["tmax"] = P.real("bad")
            P.assume(kw["tmax"].t <= 0)
        elif what == "non-positive count":
            kw["nsample"] = P.int("bad", None, 0)
        st, y = P.call(Sm, **kw)
        if what == "valid":
            P.check("a valid simulator can be built", st == "ok", repr(y))
        else:
            P.check(f"{what} is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


def notscene_case(P):
    P.mod("torchrir.sim.simulators")
    Sm = P.fn("torchrir.sim.simulators:ISMSimulator")
    st, y = P.call(Sm(max_order=1, tmax=P.real("t", pos=True)).simulate, object())
    P.check("something that is not a scene is rejected", st == "raise" and isinstance(y, TypeError), repr(y))


CASES = []
for _dyn in (False, True):
    _n = "dynamic " if _dyn else "static "
    for _eo in (True, False):
        for _co in (True, False):
            for _el in ("", "nsample", "tmax", "both"):
                for _ct in (True, False):
                    CASES.append(Case(f"{_n}explicit order {_eo}, configured {_co}; explicit {_el or 'no length'}, configured duration {_ct}", settings_case(_dyn, _eo, _co, _el, _ct), FNS))
    CASES.append(Case(_n + "no configuration", settings_case(_dyn, True, False, "tmax", False, cfgd=False), FNS))
    CASES.append(Case(_n + "no configuration, no order", settings_case(_dyn, False, False, "tmax", False, cfgd=False), FNS))
    for _g in ("absent", None, "cardioid", ("bidir", "hypercardioid")):
        for _c in (None, "subcardioid", ("card", "homni")):
            CASES.append(Case(f"{_n}directivity {_g} configured {_c}", direct_case(_dyn, _g, _c), FNS))
    for _e, _c, _t, _cu in ((None, None, "cpu", False), (None, None, "cuda", True), ("cpu", "cuda", "cuda", True), ("cuda", "cpu", "cpu", True), (None, "cuda", "cpu", True),
                            (None, "cpu", "cuda", True), ("cuda", None, "cpu", False), (None, "cuda", "cpu", False), ("auto", "cpu", "cpu", True), (None, "auto", "cpu", True)):
        CASES.append(Case(f"{_n}device {_e} configured {_c} tensors {_t} cuda {_cu}", device_case(_dyn, _e, _c, _t, _cu), FNS))
    for _f in INVALID:
        CASES.append(Case(f"{_n}invalid {_f}", invalid_case(_dyn, _f), FNS))
    for _wh in ("negative order", "non-positive count", "non-positive duration", "room is not a Room"):
        CASES.append(Case(f"{_n}argument {_wh}", invalid_arg_case(_dyn, _wh), FNS))
    for _wr in (False, True):
        for _oc in (False, True):
            for _tc in (False, True):
                for _g in (("tmax",), ("nsample",), ("tmax", "nsample", "rest")):
                    CASES.append(Case(f"{_n}simulator{' deprecated scene' if _wr else ''} order configured {_oc} duration configured {_tc} given {'+'.join(_g)}",
                                      run_case_(_dyn, _wr, _oc, _tc, True, _g), SIMF))
    CASES.append(Case(_n + "simulator without configuration", run_case_(_dyn, False, False, False, False, ("tmax",)), SIMF))
CASES += [Case("high-pass order", hpf_order_case, FNS), Case("valid configuration", valid_case, FNS), Case("not a scene", notscene_case, SIMF)]
CASES += [Case("simulator " + w, ctor_case(w), SIMF) for w in ("valid", "negative order", "no length", "non-positive duration", "non-positive count")]
