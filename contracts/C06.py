"""C06: every time step of a dynamic simulation equals the static simulation at that step's positions."""
from sim import *
from C04 import config
from C05 import unit_of

ID = "C06"
FNS = [API + "simulate_dynamic_rir", AX + "prepare:_prepare_dynamic_tensors", AX + "prepare:_split_orientation", AX + "helpers:_resolve_beta", AX + "validate:_validate_traj_shapes"]


def dyn_case(dim, sflat=False, mflat=False, wall="beta", sp="omni", mp="omni", oshape=2, single_ori=False, lut=True):
    def run(P):
        S = Sim(P, dim)
        f = P.fn(API + "simulate_dynamic_rir")
        cfg, Lf, G = config(P, lut, image_chunk_size=P.int("image_chunk_size", 1), rir_hpf_enable=False)
        r = make_room(P, dim, wall)
        TT, ns, nm, N, o = P.int("steps", 1), P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("max_order", 0)
        if sflat:
            P.assume(ns.t == 1)
        if mflat:
            P.assume(nm.t == 1)
        src = P.tensor("src_traj", [TT, dim] if sflat else [TT, ns, dim])
        mic = P.tensor("mic_traj", [TT, dim] if mflat else [TT, nm, dim])
        A = range(dim)
        sat = lambda t, i: [src.at(t, k) if sflat else src.at(t, i, k) for k in A]
        mat = lambda t, j: [mic.at(t, k) if mflat else mic.at(t, j, k) for k in A]
        so = mo = None
        kw = {}
        if sp != "omni":
            so = P.tensor("src_orientation", [dim] if oshape == 1 else [ns, dim])
        if mp != "omni":
            mo = P.tensor("mic_orientation", [dim] if oshape == 1 else [nm, dim])
        if single_ori:
            mo = so
            kw["orientation"] = so
        elif so is not None or mo is not None:
            kw["orientation"] = (so, mo)
        st, y = P.call(f, room=r["room"], src_traj=src, mic_traj=mic, max_order=o, nsample=N, config=cfg, directivity=(sp, mp), **kw)
        if st == "raise":
            return P.fail("a valid dynamic scene is simulated", repr(y))
        Ls = [r["L"].at(k) for k in A]
        g = G if lut else z3.IntVal(0)

        def spec(t, i, j, q):
            return S.response(q, Lf, g, sat(t, i), mat(t, j), unit_of(so, i, dim) if sp != "omni" else None,
                              unit_of(mo, j, dim) if mp != "omni" else None, sp, mp, Ls, r["fs"], r["c"])
        P.tensor_eq("rirs[k,s,m,t] = the static response with the positions of step k", y, [TT, ns, nm, N], spec)
        ia = S.index_args
        P.prove("image set of the requested order", lift(ia["max_order"]) == o.t)
        b = S.refl_args["beta"]
        for k in range(2 * dim):
            P.prove_eq(f"wall {k} coefficient", b.at(k), r["beta"].at(k) if wall == "beta" else z3.RealVal(1))
    return run


def wrong_case(which):
    def run(P):
        S = Sim(P, 3)
        f = P.fn(API + "simulate_dynamic_rir")
        cfg, Lf, G = config(P, True, rir_hpf_enable=False)
        r = make_room(P, 3)
        TT, T2, ns, nm, N, d = P.int("steps", 1), P.int("steps2", 1), P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("d", 1)
        P.assume(mkand(T2.t != TT.t, d.t != 3))
        st, y = P.call(f, room=r["room"], src_traj=P.tensor("s", [TT, ns, d if which == "source dimension" else 3]),
                       mic_traj=P.tensor("m", [T2 if which == "step count" else TT, nm, d if which == "microphone dimension" else 3]), max_order=P.int("o", 0), nsample=N, config=cfg)
        P.check(f"a wrong {which} is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


CASES = []
for _d in (2, 3):
    CASES += [Case(f"{_d}D omni", dyn_case(_d), FNS), Case(f"{_d}D omni one entity each, default walls", dyn_case(_d, True, True, "none", lut=False), FNS),
              Case(f"{_d}D one source", dyn_case(_d, True, False), FNS), Case(f"{_d}D one microphone", dyn_case(_d, False, True), FNS),
              Case(f"{_d}D directional", dyn_case(_d, sp="cardioid", mp="bidir"), FNS),
              Case(f"{_d}D one direction for all", dyn_case(_d, sp="bidir", mp="subcardioid", oshape=1), FNS),
              Case(f"{_d}D one orientation argument", dyn_case(_d, sp="bidir", mp="subcardioid", oshape=1, single_ori=True), FNS)]
CASES += [Case("wrong " + w, wrong_case(w), FNS) for w in ("source dimension", "microphone dimension", "step count")]
CASES += image_contracts("time")
