"""C08: diffuse tail."""
from sim import *
from C04 import config
from dv.shim_torch import RANDN

ID = "C08"
DF = AX + "diffuse:_apply_diffuse_tail"
EXP = core.EXP
ASSUMPTIONS = ["torch.randn with a torch.Generator is a function of the generator's seed, the draw number and the shape; a generator is independent of the process-wide one"]


def sabine_contract(state):
    """T60 from coefficients: a positive number or infinite (C16)"""
    def mk(real):
        sig = inspect.signature(real)

        def spec(*a, **k):
            b = bind(sig, a, k)
            state["args"] = b
            c = core.ctx()
            if c.decide(z3.Bool("t60_infinite"), "T60 infinite"):
                state["t60"] = None
                return float("inf")
            state["t60"] = z3.Real("T60_sabine")
            c.assume(state["t60"] > 0)
            return wrap(state["t60"])
        return spec
    return mk


def tail_case(dim, seed):
    def run(P):
        P.mod(AX + "diffuse")
        st8 = {}
        P.stub("estimate_t60_from_beta", sabine_contract(st8))
        f = P.fn(DF)
        r = make_room(P, dim)
        S, M, N = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1)
        rir = P.tensor("rir", [S, M, N], frozen=False)
        before = rir.snapshot()
        td, tm = P.real("tdiff"), P.real("tmax", pos=True)
        P.assume(td.t < tm.t)
        sd = P.int("seed", 0) if seed else None
        n0 = len(P.ctx.log)
        st, y = P.call(f, rir, r["room"], r["beta"], td, tm, seed=sd)
        if st == "raise":
            return P.fail("a tail is applied", repr(y))
        P.check("the process-wide random state is not used", not [e for e in P.ctx.log[n0:] if "rng" in str(e)])
        d = z3.ToInt(td.t * r["fs"])
        d = z3.If(d < N.t - 1, d, N.t - 1)
        if P.ctx.branch(d <= 0):
            P.tensor_eq("a start at or before the first sample changes nothing", y, [S, M, N], lambda i, j, t: before([i, j, t]))
            return
        P.shape_is("shape", y, [S, M, N])
        i, j, t = fresh("i"), fresh("j"), fresh("t")
        g = [i >= 0, i < S.t, j >= 0, j < M.t, t >= 0, t < N.t]
        val = y.snapshot()([i, j, t])
        saved = list(P.ctx.hyps)
        P.ctx.hyps += g + [t < d]
        P.prove_eq("samples before the start are unchanged", val, before([i, j, t]))
        P.ctx.hyps = saved + g + [t >= d]
        if st8.get("t60") is not None:
            n = S.t * M.t * (N.t - d)
            noise = RANDN(sd.t if seed else z3.IntVal(0), z3.IntVal(0), n, (i * M.t + j) * (N.t - d) + (t - d))
            last = before([i, j, d - 1])
            decay = EXP(-(toreal(t - d) / r["fs"]) / (st8["t60"] / z3.RealVal("6.9078")))
            P.prove_eq("later samples: seeded noise x exponential decay at T60 x |last early sample of the pair|", val,
                       noise * decay * (z3.If(last >= 0, last, -last) + z3.RealVal("1e-8")))
            b = st8["args"]
            P.check("T60 is that of the room's size and coefficients", b["size"] is r["room"].size and b["beta"] is r["beta"])
        P.ctx.hyps = saved
    return run


def gate_case(mode):
    """simulate_rir applies the tail exactly when tdiff < tmax, with the configured seed, to the un-tailed response"""
    def run(P):
        S = Sim(P, 3)
        seen = []

        def tail(real):
            sig = inspect.signature(real)

            def spec(*a, **k):
                b = bind(sig, a, k)
                b["snap"] = b["rir"].snapshot()
                seen.append(b)
                return b["rir"]
            return spec
        P.stub("_apply_diffuse_tail", tail)
        f = P.fn(API + "simulate_rir")
        sd = P.int("seed", 0)
        cfg, Lf, G = config(P, True, rir_hpf_enable=False, seed=sd)
        r = make_room(P, 3)
        ns, nm, N = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1)
        s, m = P.tensor("src", [ns, 3]), P.tensor("mic", [nm, 3])
        td, tm = P.real("tdiff"), P.real("tmax", pos=True)
        kw = {"on": dict(tdiff=td, tmax=tm), "off": dict(tdiff=td, tmax=tm), "none": dict(tmax=tm)}[mode]
        P.assume(td.t < tm.t if mode == "on" else td.t >= tm.t)
        st, y = P.call(f, room=r["room"], sources=s, mics=m, max_order=P.int("o", 0), nsample=N, config=cfg, **kw)
        if st == "raise":
            return P.fail("a scene is simulated", repr(y))
        if mode != "on":
            P.check("no tail is added", not seen)
            return
        P.check("the tail is applied once", len(seen) == 1)
        if not seen:
            return
        b = seen[0]
        P.prove("configured seed", lift(b["seed"]) == sd.t)
        P.prove("given start", toreal(lift(b["tdiff"])) == td.t)
        P.check("room of the simulation", b["room"] is r["room"])
        Ls = [r["L"].at(k) for k in range(3)]
        rir = b["rir"]
        P.tensor_eq("it is applied to the response without tail", rir, [ns, nm, N], lambda i, j, t: S.response(t, Lf, G, [s.at(i, k) for k in range(3)],
                    [m.at(j, k) for k in range(3)], None, None, "omni", "omni", Ls, r["fs"], r["c"]))
    return run


CASES = [Case(f"tail {d}D {'seeded' if s else 'default seed'}", tail_case(d, s), [DF]) for d in (2, 3) for s in (True, False)] + \
        [Case(f"gate {m}", gate_case(m), [API + "simulate_rir"]) for m in ("on", "off", "none")]
