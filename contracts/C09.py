"""C09: RIR high-pass filtering.  scipy's filter design and zero-phase filtering are external: iirfilter is a function of its
normalised arguments, sosfiltfilt acts on every row of the last axis on its own and linearly (for a given length and design)."""
from sim import *
from dv import harness, shim_np, shim_torch
import types

ID = "C09"
HP = AX + "hpf:"
ASSUMPTIONS = ["scipy.signal.iirfilter depends only on its (normalised) arguments", "scipy.signal.sosfiltfilt filters each row along axis -1 independently and linearly"]
HMAT = core.fresh_fn("FILTFILT", 3, R)


class Design:
    def __init__(self, args):
        self.args = args


def _iirfilter(N, Wn, rp=None, rs=None, btype="band", analog=False, ftype="butter", output="ba", fs=None):
    if fs is not None:
        Wn = 2 * Wn / fs
    return Design(dict(N=N, Wn=Wn, rp=rp, rs=rs, btype=btype.lower(), analog=analog, ftype=ftype, output=output))


def _sosfiltfilt(sos, x, axis=-1, padtype="odd", padlen=None):
    if not isinstance(sos, Design) or sos.args["output"] != "sos":
        raise ValueError("sos array must be 2D")
    nd = x.ndim
    if axis not in (-1, nd - 1):
        raise core.Unsupported("filtering along another axis")
    if padtype != "odd" or padlen is not None:
        raise core.Unsupported("other padding")
    snap = x.snapshot()
    comps = [[c.size for c in d] for d in x._d]
    n = x.dim_size(nd - 1)
    _LAST.append((sos, x))

    def fn(ix):
        pos = sum(len(c) for c in comps[:-1])
        t = join_flat(ix[pos:], comps[-1])
        return sum_over([wrap(n)], lambda j: HMAT(n, t, j) * toreal(snap(list(ix[:pos]) + T.split_flat(j, comps[-1]))))
    return STensor.new(comps, fn, T.float64, x.device)


_LAST = []
sig_mod = types.ModuleType("scipy.signal")
sig_mod.iirfilter, sig_mod.sosfiltfilt = _iirfilter, _sosfiltfilt
scipy = types.ModuleType("scipy")
scipy.signal = sig_mod
harness.SHIMS.update({"numpy": shim_np.np, "scipy": scipy, "scipy.signal": sig_mod})


def same(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str) or isinstance(a, bool):
        return z3.BoolVal(a is b or a == b)
    return toreal(lift(a)) == toreal(lift(b))


def filter_case(rank, kind, dtype):
    def run(P):
        P.mod(AX + "hpf")
        f = P.fn(HP + "apply_rir_hpf")
        C = P.fn("torchrir.config:SimulationConfig")
        fs, fc = P.real("fs", pos=True), P.real("fc", pos=True)
        P.assume(2 * fc.t < fs.t)
        kw = dict(rir_hpf_fc=fc)
        want = {"N": 2, "rp": 5.0, "rs": 60.0, "ftype": "butter"}
        if kind == "type":
            n = P.int("order", 1)
            kw["rir_hpf_kwargs"] = {"n": n, "type": "cheby1", "rp": 1.5}
            want = {"N": n, "rp": 1.5, "rs": None, "ftype": "cheby1"}
        if kind == "ftype":
            rs = P.real("rs", pos=True)
            kw["rir_hpf_kwargs"] = {"ftype": "cheby2", "rs": rs}
            want = {"N": 2, "rp": None, "rs": rs, "ftype": "cheby2"}
        if kind == "empty":
            kw["rir_hpf_kwargs"] = {}
            want = {"N": 2, "rp": None, "rs": None, "ftype": "butter"}
        st, cfg = P.call(C, **kw)
        if st == "raise":
            return P.fail("the configuration is accepted", repr(cfg))
        before = dict(cfg.rir_hpf_kwargs)
        dims = [P.int(f"d{k}", 1) for k in range(rank)]
        x = P.tensor("rir", dims, dtype)
        del _LAST[:]
        st, y = P.call(f, x, fs, cfg)
        if st == "raise":
            return P.fail("responses are filtered", repr(y))
        P.tensor_eq("each response is filtered along time on its own", y, dims,
                    lambda *i: sum_over([dims[-1]], lambda j: HMAT(dims[-1].t, i[-1], j) * x.at(*i[:-1], j)))
        P.check("dtype and device are kept", y.dtype is x.dtype and y.device == x.device)
        P.check("filtered once", len(_LAST) == 1)
        a = _LAST[0][0].args
        P.prove("cutoff", toreal(lift(a["Wn"])) == 2 * fc.t / fs.t)
        P.check("high-pass, digital, second-order sections", a["btype"] in ("highpass", "high", "hp", "h") and a["analog"] is False)
        for k, v in want.items():
            P.prove(f"design parameter {k}", same(a[k], v))
        P.check("the configured parameters are not altered", dict(cfg.rir_hpf_kwargs) == before or all(cfg.rir_hpf_kwargs.get(k) is v for k, v in before.items()))
        P.check("filtering runs in double precision", _LAST[0][1].dtype is T.float64)
    return run


def off_case(P):
    f = P.fn(HP + "apply_rir_hpf")
    C = P.fn("torchrir.config:SimulationConfig")
    st, cfg = P.call(C, rir_hpf_enable=False, rir_hpf_fc=P.real("fc"))
    x = P.tensor("rir", [P.int("a", 1), P.int("b", 1), P.int("n", 1)])
    st, y = P.call(f, x, P.real("fs", pos=True), cfg)
    if st == "raise":
        return P.fail("disabled filtering returns the responses", repr(y))
    P.same_tensor("disabled: responses unchanged", y, x)


def range_case(P):
    f = P.fn(HP + "apply_rir_hpf")
    C = P.fn("torchrir.config:SimulationConfig")
    fs, fc = P.real("fs", pos=True), P.real("fc")
    P.assume(z3.Or(fc.t <= 0, 2 * fc.t >= fs.t))
    st, cfg = P.call(C, rir_hpf_fc=fc)
    if st == "raise":
        return P.check("a bad cutoff is rejected", isinstance(cfg, ValueError), repr(cfg))
    st, y = P.call(f, P.tensor("rir", [P.int("a", 1), P.int("n", 1)]), fs, cfg)
    P.check("a cutoff not strictly between 0 and half the rate is rejected", st == "raise" and isinstance(y, ValueError), repr(y))


def order_case(P):
    C = P.fn("torchrir.config:SimulationConfig")
    n = P.int("n")
    P.assume(n.t <= 0)
    st, cfg = P.call(C, rir_hpf_kwargs={"n": n})
    if st == "ok":
        st, cfg = P.call(cfg.validate)
    P.check("a non-positive filter order is rejected", st == "raise" and isinstance(cfg, ValueError), repr(cfg))


def wired_case(dyn):
    """the entry points filter exactly the simulated response with the room's rate"""
    def run(P):
        S = Sim(P, 3)
        seen = []

        def hpf(real):
            sig = inspect.signature(real)

            def spec(*a, **k):
                b = bind(sig, a, k)
                seen.append(b)
                r = b["rir"]
                return STensor.new([[c.size for c in d] for d in r._d], lambda ix: core.fresh_fn("filtered", len(ix), R)(*ix), r.dtype, r.device)
            return spec
        P.stub("apply_rir_hpf", hpf)
        f = P.fn(API + ("simulate_dynamic_rir" if dyn else "simulate_rir"))
        from C04 import config
        cfg, Lf, G = config(P, True)
        r = make_room(P, 3)
        TT, ns, nm, N = P.int("steps", 1), P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1)
        s, m = P.tensor("src", [TT, ns, 3] if dyn else [ns, 3]), P.tensor("mic", [TT, nm, 3] if dyn else [nm, 3])
        kw = dict(src_traj=s, mic_traj=m) if dyn else dict(sources=s, mics=m)
        st, y = P.call(f, room=r["room"], max_order=P.int("o", 0), nsample=N, config=cfg, **kw)
        if st == "raise":
            return P.fail("a scene is simulated", repr(y))
        P.check("filtered exactly once", len(seen) == 1)
        if not seen:
            return
        b = seen[0]
        P.prove("with the room's sampling rate", toreal(lift(b["fs"])) == r["fs"])
        P.check("with the given configuration", b["cfg"] is cfg)
        A = range(3)
        Ls = [r["L"].at(k) for k in A]
        if dyn:
            P.tensor_eq("the filter input is the simulated response", b["rir"], [TT, ns, nm, N], lambda t, i, j, q: S.response(q, Lf, G, [s.at(t, i, k) for k in A],
                        [m.at(t, j, k) for k in A], None, None, "omni", "omni", Ls, r["fs"], r["c"]))
        else:
            P.tensor_eq("the filter input is the simulated response", b["rir"], [ns, nm, N], lambda i, j, q: S.response(q, Lf, G, [s.at(i, k) for k in A],
                        [m.at(j, k) for k in A], None, None, "omni", "omni", Ls, r["fs"], r["c"]))
    return run


FN = [HP + "apply_rir_hpf", HP + "_design_hpf_sos"]
CASES = [Case(f"filter {k} {n}-D", filter_case(r, k, d), FN) for k, r, n, d in (("default", 3, 3, T.float32), ("default", 4, 4, T.float64), ("type", 3, 3, T.float32), ("ftype", 3, 3, T.float64), ("empty", 3, 3, T.float32))]
CASES += [Case("disabled", off_case, FN), Case("cutoff range", range_case, FN), Case("filter order", order_case, ["torchrir.config:SimulationConfig.validate"]),
          Case("wired static", wired_case(False), [API + "simulate_rir"]), Case("wired dynamic", wired_case(True), [API + "simulate_dynamic_rir"])]
