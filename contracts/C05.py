"""C05: the static response is the superposition of all images, pair by pair."""
from sim import *
from C04 import config

ID = "C05"
FNS = [API + "simulate_rir", AX + "prepare:_prepare_static_tensors", AX + "helpers:_prepare_entities", AX + "helpers:_resolve_beta", AX + "validate:_resolve_config", AX + "validate:_validate_static_args"]


def entities(P, cls, name, n, dim, form, odim=None, oshape=None):
    """positions given as a (n,dim) tensor, a single (dim,) tensor, or an entity object"""
    pos = P.tensor(name, [dim] if form == "one" else [n, dim])
    ori = None
    if odim is not None:
        ori = P.tensor(name + "_orientation", [odim] if oshape == 1 else [n, odim])
    at = lambda i, k: pos.at(k) if form == "one" else pos.at(i, k)
    if form == "object":
        C = P.fn("torchrir.models.room:" + cls)
        st, obj = P.call(C, pos, ori)
        if st == "raise":
            raise obj
        return obj, at, ori
    return pos, at, ori


def unit_of(ori, i, dim):
    v = [ori.at(k) if ori.ndim == 1 else ori.at(i, k) for k in range(dim)]
    return unit(v)


def static_case(dim, sform="tensor", mform="tensor", wall="beta", sp="omni", mp="omni", omode="none", oshape=2, lut=True):
    def run(P):
        S = Sim(P, dim)
        f = P.fn(API + "simulate_rir")
        ic = P.int("image_chunk_size", 1)
        cfg, Lf, G = config(P, lut, image_chunk_size=ic, rir_hpf_enable=False)
        r = make_room(P, dim, wall)
        ns, nm, N, o = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("max_order", 0)
        if sform == "one":
            P.assume(ns.t == 1)
        if mform == "one":
            P.assume(nm.t == 1)
        if omode != "none" and sp != "omni" and dim == 2:
            pass
        src, sat, so = entities(P, "Source", "src", ns, dim, sform, dim if sp != "omni" else None, oshape)
        mic, mat, mo = entities(P, "MicrophoneArray", "mic", nm, dim, mform, dim if mp != "omni" else None, oshape)
        if dim == 2 and oshape == 1:
            pass
        kw = {}
        if sp != "omni" or mp != "omni":
            kw["directivity"] = (sp, mp)
        if omode == "pair":
            kw["orientation"] = (so, mo)
        st, y = P.call(f, room=r["room"], sources=src, mics=mic, max_order=o, nsample=N, config=cfg, **kw)
        if st == "raise":
            return P.fail("a valid static scene is simulated", repr(y))
        A = range(dim)
        Ls = [r["L"].at(k) for k in A]
        g = G if lut else z3.IntVal(0)

        def spec(i, j, t):
            s, m = [sat(i, k) for k in A], [mat(j, k) for k in A]
            sd = unit_of(so, i, dim) if so is not None else None
            md = unit_of(mo, j, dim) if mo is not None else None
            return S.response(t, Lf, g, s, m, sd, md, sp, mp, Ls, r["fs"], r["c"])
        P.tensor_eq("rir[s,m,t] = sum over the whole image set of the pair's arrivals", y, [ns, nm, N], spec)
        ia = S.index_args
        P.check("the image set is requested once for the given order", ia is not None and ia["nb_img"] is None)
        P.prove("image set of the requested order", lift(ia["max_order"]) == o.t)
        b = S.refl_args["beta"]
        for k in range(2 * dim):
            if wall == "beta":
                P.prove_eq(f"wall {k} uses the room's coefficient", b.at(k), r["beta"].at(k))
            elif wall == "none":
                P.prove_eq(f"wall {k} reflects fully by default", b.at(k), z3.RealVal(1))
    return run


def nb_case(dim):
    def run(P):
        S = Sim(P, dim)
        f = P.fn(API + "simulate_rir")
        cfg, Lf, G = config(P, True, rir_hpf_enable=False)
        r = make_room(P, dim)
        ns, nm, N, o = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("max_order", 0)
        nb = P.tensor("nb_img", [dim], T.int64)
        st, y = P.call(f, room=r["room"], sources=P.tensor("src", [ns, dim]), mics=P.tensor("mic", [nm, dim]), max_order=o, nb_img=nb, nsample=N, config=cfg)
        if st == "raise":
            return P.fail("a valid static scene is simulated", repr(y))
        P.check("per-axis image counts are handed to the image set", S.index_args["nb_img"] is nb)
        P.shape_is("shape", y, [ns, nm, N])
    return run


def wrong_case(which):
    def run(P):
        S = Sim(P, 3)
        f = P.fn(API + "simulate_rir")
        cfg, Lf, G = config(P, True, rir_hpf_enable=False)
        r = make_room(P, 3)
        ns, nm, N, o = P.int("n_src", 1), P.int("n_mic", 1), P.int("nsample", 1), P.int("max_order", 0)
        d = P.int("d", 1)
        P.assume(d.t != 3)
        st, y = P.call(f, room=r["room"], sources=P.tensor("src", [ns, d if which == "src" else 3]), mics=P.tensor("mic", [nm, d if which == "mic" else 3]), max_order=o, nsample=N, config=cfg)
        P.check(f"{which} positions of another dimension are rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


CASES = []
for _d in (2, 3):
    CASES += [Case(f"{_d}D omni tensors", static_case(_d), FNS), Case(f"{_d}D omni objects default walls", static_case(_d, "object", "object", "none"), FNS),
              Case(f"{_d}D single positions direct sinc", static_case(_d, "one", "one", lut=False), FNS),
              Case(f"{_d}D directional objects", static_case(_d, "object", "object", sp="cardioid", mp="bidir", omode="none"), FNS),
              Case(f"{_d}D directional pair argument", static_case(_d, "tensor", "tensor", sp="cardioid", mp="hypercardioid", omode="pair"), FNS),
              Case(f"{_d}D one direction for all", static_case(_d, "tensor", "tensor", sp="bidir", mp="subcardioid", omode="pair", oshape=1), FNS),
              Case(f"{_d}D per-axis counts", nb_case(_d), FNS)]
CASES += [Case("wrong source dimension", wrong_case("src"), FNS), Case("wrong microphone dimension", wrong_case("mic"), FNS)]
CASES += image_contracts("batch")
