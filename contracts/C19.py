"""C19: hop convolution: consecutive hop-sized frames, overlap-added at k*hop."""
from dv.harness import *
from dv import core, sums, tensor as T
import C17
from C17 import fft_contract
from C18 import shapes, DY

ID = "C19"
FNS = [DY + n for n in ("DynamicConvolver.convolve", "_convolve_dynamic_hop", "_convolve_dynamic_rir_hop")] + ["torchrir.signal.internal:_ensure_signal", "torchrir.signal.internal:_ensure_dynamic_rirs"]


def frames_of(P, N, hop, TT):
    """F = min(ceil(N/hop), T) by its defining inequalities"""
    c = P.int("full_frames", 1)
    P.assume(z3.And((c.t - 1) * hop.t < N.t, N.t <= c.t * hop.t))
    return c


def case(rdim, sdim, one=False):
    def run(P):
        P.mod("torchrir.signal.dynamic")
        P.stub("fft_convolve", fft_contract)
        C = P.fn(DY + "DynamicConvolver")
        N, L, TT, ns, nm, x, h, X, H = shapes(P, rdim, sdim, one)
        hop = P.int("hop", 1)
        c = frames_of(P, N, hop, TT)
        # the code's ceil(n_samples / hop) is this c (defining inequalities: lemma case)
        def hook(t):
            if sums.exact_real_quotient(t, N.t, hop.t) is not None and not sums.poly(sums.canon(t - toreal(N.t) / toreal(hop.t))):
                return None
            if not sums.poly(sums.canon(t + toreal(N.t) / toreal(hop.t))):
                return -c.t
            return None
        core.FLOOR_HOOKS.append(hook)
        st, y = P.call(C(mode="hop", hop=hop).convolve, x, h)
        if st == "raise":
            return P.fail("matching shapes are accepted", repr(y))
        F = z3.If(c.t <= TT.t, c.t, TT.t)
        spec = lambda m, i: sum_over([wrap(F), ns, N, L], lambda k, s, a, b: X(s, a) * H(k, s, m, b),
                                     lambda k, s, a, b: z3.And(a + b == i, k * hop.t <= a, a < k * hop.t + hop.t))
        out = wrap(sums.canon(F * hop.t + L.t - 1))
        if P.ctx.branch(nm.t == 1):
            P.tensor_eq("one microphone: every frame convolved with its response and added at k*hop", y, [out], lambda i: spec(z3.IntVal(0), i))
        else:
            P.tensor_eq("every frame convolved with its response and added at k*hop", y, [nm, out], spec)
    return run


def lemma_case(P):
    N, h = P.int("N", 1).t, P.int("hop", 1).t
    q = toreal(N) / toreal(h)
    c = -z3.ToInt(-q)
    P.prove("ceil(N/hop): defining inequalities", z3.Implies(toreal(N) == q * toreal(h), z3.And(toreal(c - 1) < q, q <= toreal(c))))
    u, p = fresh("u"), fresh("p", R)
    P.prove("scaled by hop", z3.Implies(z3.And(p * toreal(h) == toreal(N), toreal(u) - 1 < p, p <= toreal(u)),
                                        z3.And((toreal(u) - 1) * toreal(h) < toreal(N), toreal(N) <= toreal(u) * toreal(h))))


def reject_case(what):
    def run(P):
        P.mod("torchrir.signal.dynamic")
        P.stub("fft_convolve", fft_contract)
        C = P.fn(DY + "DynamicConvolver")
        N, L, TT, ns, nm, x, h, X, H = shapes(P, 4, 2)
        kw = dict(mode="hop", hop=P.int("hop", 1))
        if what == "missing hop":
            kw["hop"] = None
        elif what == "non-positive hop":
            kw["hop"] = P.int("bad_hop")
            P.assume(kw["hop"].t <= 0)
        elif what == "wrong source count":
            k = P.int("signals", 2)
            P.assume(k.t != ns.t)
            x = P.tensor("x", [k, N])
        elif what == "unknown mode":
            kw["mode"] = "other"
        st, y = P.call(C(**kw).convolve, x, h)
        P.check(f"{what} is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


CASES = [Case("ceil lemma", lemma_case, FNS)]
for _r, _s, _o in ((4, 2, False), (4, 2, True), (4, 1, False), (3, 2, False), (3, 1, False), (2, 1, False)):
    CASES.append(Case(f"rirs{_r}d signal{_s}d{'x1' if _o else ''}", case(_r, _s, _o), FNS, budget=500))
for _w in ("missing hop", "non-positive hop", "wrong source count", "unknown mode"):
    CASES.append(Case(_w, reject_case(_w), FNS))
ASSUMPTIONS = ["fft_convolve is used through its contract (discharged under C17)"]
CASES += [Case("C17 " + c.name, c.fn, c.functions, **c.opts) for c in C17.CASES if c.name == "fft_convolve"]
