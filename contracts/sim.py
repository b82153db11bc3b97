"""Contracts of the image-source building blocks as seen by the simulation entry points.

C01..C04 discharge these contracts on the real functions; the entry points are checked against them.  RESP(p, t, L, G) is the
value one unit arrival at real position p leaves at sample t (C04's tap formula), GAMMA(n...) the reflection gain (C02)."""
from ism import *
import inspect
from C03 import gain_fn, directivity_contract, spec_entry

API = AX + "api:"
RESP = z3.Function("RESP", R, I, I, I, R)      # position, sample, filter length, granularity (0 = direct sinc)


def bind(sig, a, k):
    ba = sig.bind(*a, **k)
    ba.apply_defaults()
    return ba.arguments


class Sim:
    """Installs the contracts; self.calls records what the entry point passed where that is part of an obligation."""

    def __init__(self, P, dim):
        self.P, self.dim = P, dim
        self.K = P.int("n_images", 1)
        self.nv = core.fresh_fn("n_vec", 2, I)
        self.gamma = core.fresh_fn("GAMMA", 1, R)
        self.index_args = self.refl_args = None
        P.mod("torchrir.sim.ism.api")
        P.stub("_image_source_indices", self.indices)
        P.stub("_reflection_coefficients", self.reflections)
        P.stub("_compute_image_contributions_batch", self.contrib_batch)
        P.stub("_compute_image_contributions_time_batch", self.contrib_time)
        P.stub("_accumulate_rir_batch", self.accumulate)

    def indices(self, real):
        sig = inspect.signature(real)

        def spec(*a, **k):
            self.index_args = bind(sig, a, k)
            if self.index_args["dim"] != self.dim:
                raise ValueError("dimension")
            return STensor.new([[self.K.t], [z3.IntVal(self.dim)]], lambda ix: self.nv(*ix), T.int64, T.as_device(self.index_args["device"]))
        return spec

    def reflections(self, real):
        sig = inspect.signature(real)

        def spec(*a, **k):
            b = bind(sig, a, k)
            self.refl_args = b
            nv, beta = b["n_vec"], b["beta"]
            c = core.ctx()
            # C02's precondition: the rows handed over are the image rows, one coefficient per wall
            c.oblige("reflection coefficients are asked for the image set", rows_are(nv, self.nv, self.K.t, self.dim))
            c.oblige("one coefficient per wall", z3.BoolVal(True) if beta.ndim == 1 and is_size(beta, 0, 2 * self.dim) else z3.BoolVal(False))
            return STensor.new([[nv.dim_size(0)]], lambda ix: self.gamma(*ix), beta.dtype, nv.device)
        return spec

    def _entry(self, b, i, s, m, sd, md):
        """sample, amplitude of image row i (index into the chunk handed over)"""
        L = [b["room_size"].at(k) for k in range(self.dim)]
        nvk = [b["n_vec"].at(i, k) for k in range(self.dim)]
        return spec_entry(nvk, L, s, m, b["refl"].at(i), toreal(lift(b["room"].fs)), toreal(lift(b["room"].c)), lift(b["fdl2"]), sd, md, b["src_pattern"], b["mic_pattern"])

    def contrib_batch(self, real):
        sig = inspect.signature(real)
        A = range(self.dim)

        def spec(*a, **k):
            b = bind(sig, a, k)
            s, m, nv = b["src_pos"], b["mic_pos"], b["n_vec"]
            sp, mp, sd, md = b["src_pattern"], b["mic_pattern"], b["src_dirs"], b["mic_dir"]
            if (sp != "omni" and sd is None) or (mp != "omni" and md is None):
                raise ValueError("orientation required")
            dims = [[s.dim_size(0)], [m.dim_size(0)], [nv.dim_size(0)]]

            def fn(w):
                def f(ix):
                    i, j, q = ix
                    sv, mv = [s.at(i, x) for x in A], [m.at(j, x) for x in A]
                    sdv = [sd.at(i, x) for x in A] if sp != "omni" else None
                    mdv = None
                    if mp != "omni":
                        mdv = [md.at(x) for x in A] if md.ndim == 1 else [md.at(bc(md, j), x) for x in A]
                    return self._entry(b, q, sv, mv, sdv, mdv)[w]
                return f
            return tuple(STensor.new(dims, fn(w), s.dtype, s.device) for w in (0, 1))
        return spec

    def contrib_time(self, real):
        sig = inspect.signature(real)
        A = range(self.dim)

        def spec(*a, **k):
            b = bind(sig, a, k)
            s, m, nv = b["src_traj"], b["mic_traj"], b["n_vec"]
            sp, mp, sd, md = b["src_pattern"], b["mic_pattern"], b["src_dirs"], b["mic_dir"]
            if (sp != "omni" and sd is None) or (mp != "omni" and md is None):
                raise ValueError("orientation required")
            dims = [[s.dim_size(0)], [s.dim_size(1)], [m.dim_size(1)], [nv.dim_size(0)]]

            def fn(w):
                def f(ix):
                    t, i, j, q = ix
                    sv, mv = [s.at(t, i, x) for x in A], [m.at(t, j, x) for x in A]
                    sdv = [sd.at(i, x) for x in A] if sp != "omni" else None
                    mdv = None
                    if mp != "omni":
                        mdv = [md.at(x) for x in A] if md.ndim == 1 else [md.at(bc(md, j), x) for x in A]
                    return self._entry(b, q, sv, mv, sdv, mdv)[w]
                return f
            return tuple(STensor.new(dims, fn(w), s.dtype, s.device) for w in (0, 1))
        return spec

    def accumulate(self, real):
        sig = inspect.signature(real)

        def spec(*a, **k):
            b = bind(sig, a, k)
            rir, smp, amp, cfg = b["rir"], b["sample"], b["amplitude"], b["cfg"]
            fs, fa = smp.snapshot(), amp.snapshot()
            cs, ca = [[c.size for c in d] for d in smp._d], [[c.size for c in d] for d in amp._d]
            K = smp.dim_size(2)
            L, G = lift(cfg.frac_delay_length), self.gran(cfg)

            def delta(ix):
                rs = [[c.size for c in d] for d in rir._d]
                parts, pos = [], 0
                for comps in rs:
                    parts.append(list(ix[pos:pos + len(comps)]))
                    pos += len(comps)
                t = join_flat(parts[2], rs[2])

                def body(j):
                    def at(fn, comps):
                        flat = []
                        for d in (0, 1):
                            same = len(comps[d]) == len(rs[d]) and all(sums.canon(x - y).get_id() == sums.canon(z3.IntVal(0)).get_id() for x, y in zip(comps[d], rs[d]))
                            flat += parts[d] if same else T.split_flat(join_flat(parts[d], rs[d]), comps[d])
                        return fn(flat + T.split_flat(j, comps[2]))
                    return at(fa, ca) * RESP(at(fs, cs), t, L, G)
                return sum_over([wrap(K)], body)
            d = STensor.new([[c.size for c in dd] for dd in rir._d], delta, rir.dtype, rir.device)
            rir.add_(d)
        return spec

    def gran(self, cfg):
        return lift(cfg.sinc_lut_granularity) if cfg.use_lut else z3.IntVal(0)

    def response(self, t, L, G, s, m, sd, md, sp, mp, Ls, fs, c):
        """C05: sum over the whole image set of the arrivals of one pair at sample t"""
        h = (L - 1) / 2

        def body(q):
            nvk = [self.nv(q, z3.IntVal(k)) for k in range(self.dim)]
            p, a = spec_entry(nvk, Ls, s, m, self.gamma(q), fs, c, h, sd, md, sp, mp)
            return a * RESP(p, t, L, G)
        return sum_over([self.K], body)


def bc(t, j):
    return z3.IntVal(0) if is_size(t, 0, 1) else j


def is_size(t, d, n):
    s = sums.canon(t.dim_size(d))
    return z3.is_int_value(s) and s.as_long() == n


def join_flat(ix, comps):
    v = z3.IntVal(0)
    for x, c in zip(ix, comps):
        v = v * c + x
    return v


def rows_are(nv, f, K, dim):
    i = fresh("row")
    eq = [toreal(lift(nv.at(i, k))) == toreal(f(i, z3.IntVal(k))) for k in range(dim)]
    return mkand(nv.dim_size(0) == K, z3.Implies(z3.And(i >= 0, i < K), mkand(*eq)))


def make_room(P, dim, wall="beta", nf=False):
    Room = P.fn("torchrir.models.room:Room")
    L = P.tensor("room_size", [dim])
    for k in range(dim):
        P.assume(L.at(k) > 0)
    fs, c = P.real("fs", pos=True), P.real("c", pos=True)
    kw = {}
    beta = t60 = None
    if wall == "beta":
        beta = P.tensor("beta", [2 * dim])
        for k in range(2 * dim):
            P.assume(z3.And(beta.at(k) >= 0, beta.at(k) <= 1))
        kw["beta"] = beta
    elif wall == "t60":
        t60 = P.real("t60", pos=True)
        kw["t60"] = t60
    st, room = P.call(Room, size=L, fs=fs, c=c, **kw)
    if st == "raise":
        raise room
    return dict(room=room, L=L, fs=fs.t, c=c.t, beta=beta, t60=t60)


def borrowed(mod, keep=lambda n: True):
    """the obligations of a contract this property's proof relies on, discharged again by its check"""
    return [Case(f"{mod.ID} {c.name}", c.fn, c.functions, **c.opts) for c in mod.CASES if keep(c.name)]


def image_contracts(form):
    import C01, C02, C03, C04
    return (borrowed(C01, lambda n: "wrong" not in n and "positions" not in n) + borrowed(C02, lambda n: n.startswith("gain"))
            + borrowed(C03, lambda n: n.startswith(form)) + borrowed(C04))
