"""C03: arrival time and amplitude of every image, in the single, batch and trajectory forms."""
from ism import *

ID = "C03"
CO = AX + "contributions:"
HC = AX + "helpers:_cos_between"
NO = "torchrir.util.orientation:normalize_orientation"


def gain_fn(name):
    return z3.Function(f"D_{name}", R, R)


def directivity_contract(real):
    """directivity_gain(pattern, cos) is applied entrywise (its formulas are C12)"""
    import inspect
    sig = inspect.signature(real)

    def spec(*a, **k):
        pat, c = list(sig.bind(*a, **k).arguments.values())[:2]
        f = gain_fn(pat.lower())
        snap = c.snapshot()
        return STensor.new([[x.size for x in d] for d in c._d], lambda idx: f(snap(idx)), c.dtype, c.device)
    return spec


def fdl2_room(P, dim):
    Room = P.fn("torchrir.models.room:Room")
    L = P.tensor("room_size", [dim])
    for k in range(dim):
        P.assume(L.at(k) > 0)
    fs, c = P.real("fs", pos=True), P.real("c", pos=True)
    st, room = P.call(Room, size=L, fs=fs, c=c)
    return L, fs.t, c.t, room


def spec_entry(nvk, L, s, m, gamma, fs, c, h, sdir, mdir, sp, mp):
    """(sample, amplitude) of one image/source/microphone triple; sequences are per axis"""
    im = [img(n, l, x) for n, l, x in zip(nvk, L, s)]
    vec = [a - b for a, b in zip(m, im)]
    d = dist(vec)
    amp = gamma
    if sp != "omni":
        amp = amp * gain_fn(sp)(dot(unit(vec), unit(sdir)))
    if mp != "omni":
        amp = amp * gain_fn(mp)(dot(unit([-v for v in vec]), unit(mdir)))
    return d * fs / c + toreal(h), amp / d


def case(dim, form, sp, mp, micdim):
    def run(P):
        P.mod("torchrir.sim.ism.contributions")
        P.stub("directivity_gain", directivity_contract)
        name = {"single": "_compute_image_contributions", "batch": "_compute_image_contributions_batch", "time": "_compute_image_contributions_time_batch"}[form]
        f = P.fn(CO + name)
        L, fs, c, room = fdl2_room(P, dim)
        K, S, M, TT = P.int("K", 1), P.int("n_src", 1), P.int("n_mic", 1), P.int("steps", 1)
        h = P.int("fdl2", 0)
        nv, gm = P.tensor("n_vec", [K, dim], T.int64), P.tensor("refl", [K])
        ss = {"single": [dim], "batch": [S, dim], "time": [TT, S, dim]}[form]
        ms = [TT, M, dim] if form == "time" else [M, dim]
        s, m = P.tensor("src", ss), P.tensor("mic", ms)
        sd = P.tensor("src_dir", [dim] if form == "single" else [S, dim]) if sp != "omni" else None
        md = P.tensor("mic_dir", [dim] if micdim == 1 else [M, dim]) if mp != "omni" else None
        kw = dict(src_pattern=sp, mic_pattern=mp, mic_dir=md)
        kw["src_dir" if form == "single" else "src_dirs"] = sd
        if form == "single" and mp != "omni" and micdim == 2:
            # the single form takes one direction for all microphones or one per microphone broadcast over images
            return
        st, y = P.call(f, s, m, L, nv, gm, room, h, **kw)
        if st == "raise":
            return P.fail("arrivals are computed", repr(y))
        A = range(dim)

        def entry(t, i, j, k, which):
            sv = [s.at(a) if form == "single" else (s.at(i, a) if form == "batch" else s.at(t, i, a)) for a in A]
            mv = [m.at(t, j, a) if form == "time" else m.at(j, a) for a in A]
            sdv = [sd.at(a) if form == "single" else sd.at(i, a) for a in A] if sd is not None else None
            mdv = [md.at(a) if micdim == 1 else md.at(j, a) for a in A] if md is not None else None
            return spec_entry([nv.at(k, a) for a in A], [L.at(a) for a in A], sv, mv, gm.at(k), fs, c, h.t, sdv, mdv, sp, mp)[which]
        for w, lab in enumerate(("arrival sample = distance*fs/c + filter centre", "amplitude = reflection x directivities / distance")):
            if form == "single":
                P.tensor_eq(lab, y[w], [M, K], lambda j, k: entry(0, 0, j, k, w))
            elif form == "batch":
                P.tensor_eq(lab, y[w], [S, M, K], lambda i, j, k: entry(0, i, j, k, w))
            else:
                P.tensor_eq(lab, y[w], [TT, S, M, K], lambda t, i, j, k: entry(t, i, j, k, w))
    return run


def missing_case(form, which):
    def run(P):
        name = {"single": "_compute_image_contributions", "batch": "_compute_image_contributions_batch", "time": "_compute_image_contributions_time_batch"}[form]
        f = P.fn(CO + name)
        dim = 3
        L, fs, c, room = fdl2_room(P, dim)
        s = P.tensor("src", {"single": [dim], "batch": [P.int("S", 1), dim], "time": [P.int("T", 1), P.int("S", 1), dim]}[form])
        m = P.tensor("mic", [s.sizes[0] if False else (wrap(s.sizes[0]) if form == "time" else P.int("M", 1))] + ([P.int("M2", 1)] if form == "time" else []) + [dim])
        K = P.int("K", 1)
        kw = dict(src_pattern="cardioid" if which == "src" else "omni", mic_pattern="cardioid" if which == "mic" else "omni", mic_dir=None)
        kw["src_dir" if form == "single" else "src_dirs"] = None
        st, y = P.call(f, s, m, L, P.tensor("n_vec", [K, dim], T.int64), P.tensor("refl", [K]), room, P.int("fdl2", 0), **kw)
        P.check("a directional pattern without orientation is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


CASES = []
for _d in (2, 3):
    for _f in ("single", "batch", "time"):
        for _sp, _mp, _md in (("omni", "omni", 1), ("cardioid", "omni", 1), ("omni", "bidir", 1), ("omni", "bidir", 2), ("hypercardioid", "subcardioid", 2)):
            if _f == "single" and _md == 2:
                _md = 1
                if _sp == "omni":
                    continue
            CASES.append(Case(f"{_f} {_d}D {_sp}/{_mp} micdir{_md}", case(_d, _f, _sp, _mp, _md),
                              [CO + {"single": "_compute_image_contributions", "batch": "_compute_image_contributions_batch", "time": "_compute_image_contributions_time_batch"}[_f], HC, NO]))
for _f in ("single", "batch", "time"):
    for _w in ("src", "mic"):
        CASES.append(Case(f"{_f} missing {_w} orientation", missing_case(_f, _w), [CO]))
