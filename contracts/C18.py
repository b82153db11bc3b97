"""C18: trajectory convolution: segment partition, one response per segment, looped and batched paths alike."""
from dv.harness import *
from dv import core, sums, tensor as T
import C17
from C17 import fft_contract, conv_term

ID = "C18"
DY = "torchrir.signal.dynamic:"
FNS = [DY + n for n in ("DynamicConvolver.convolve", "_convolve_dynamic_trajectory", "_convolve_dynamic_rir_trajectory")] + ["torchrir.signal.internal:_ensure_signal", "torchrir.signal.internal:_ensure_dynamic_rirs"]
BFNS = FNS + [DY + "_convolve_dynamic_rir_trajectory_batched"]


def traj_spec(X, H, w, N, TT, ns, L, m, i):
    """sum over segments k, sources s, samples a of segment k and taps b with a + b = i"""
    return sum_over([TT, ns, N, L], lambda k, s, a, b: X(s, a) * H(k, s, m, b),
                    lambda k, s, a, b: z3.And(a + b == i, w(k) <= a, a < w(k + 1)))


def shapes(P, rdim, sdim, one=False, device="cpu"):
    N, L, TT, ns, nm = P.int("n_samples", 1), P.int("rir_len", 1), P.int("steps", 1), P.int("n_src", 1), P.int("n_mic", 1)
    x = P.tensor("signal", [N] if sdim == 1 else [1 if one else ns, N], device=device)
    h = P.tensor("rirs", {2: [TT, L], 3: [TT, nm, L], 4: [TT, ns, nm, L]}[rdim], device=device)
    if rdim < 4:
        P.assume(ns.t == 1)
    if rdim < 3:
        P.assume(nm.t == 1)
    X = lambda s, a: x.at(a) if sdim == 1 else x.at(z3.IntVal(0) if one else s, a)
    H = {2: lambda k, s, m, b: h.at(k, b), 3: lambda k, s, m, b: h.at(k, m, b), 4: lambda k, s, m, b: h.at(k, s, m, b)}[rdim]
    return N, L, TT, ns, nm, x, h, X, H


def starts(P, N, TT):
    """W(k) = floor(k*N/T), used through its (separately discharged) lemmas only"""
    W = core.fresh_fn("START", 1, I)
    core.NAMED_DIV.append((N.t, TT.t, W))

    def ax(a):
        k = a.arg(0)
        out = [z3.Implies(z3.And(k >= 0, k < TT.t), z3.And(a >= 0, a < N.t)), z3.Implies(k == 0, a == 0), z3.Implies(k == TT.t, a == N.t)]
        p = sums.poly(k)
        if p.get(sums.ONE, 0) >= 1:
            j = sums.canon(k - 1)
            out.append(z3.Implies(z3.And(j >= 0, k <= TT.t), W(j) <= a))
        return out
    core.AXIOMS[W.name()] = ax
    return W


def lemma_case(P):
    """floor(k*N/T) is a partition of [0, N): the facts START is used through, and each sample lies in exactly one segment"""
    N, TT = P.int("N", 1).t, P.int("T", 1).t
    k, a, b, n = fresh("k"), fresh("a"), fresh("b"), fresh("n")
    fl = lambda q, j: z3.And(q * TT <= j * N, j * N < q * TT + TT)       # q = floor(j*N/T)
    P.prove("0 <= start < N", z3.Implies(z3.And(fl(a, k), k >= 0, k < TT), z3.And(a >= 0, a < N)))
    P.prove("start of segment 0 is 0", z3.Implies(fl(a, z3.IntVal(0)), a == 0))
    P.prove("start of segment T is N", z3.Implies(fl(a, TT), a == N))
    P.prove("starts are non-decreasing", z3.Implies(z3.And(fl(a, k), fl(b, k + 1)), a <= b))
    q = fresh("q")
    # the segment of sample n is ((n+1)*T - 1) div N
    P.prove("every sample lies in a segment", z3.Implies(z3.And(n >= 0, n < N, q * N <= (n + 1) * TT - 1, (n + 1) * TT - 1 < q * N + N, fl(a, q), fl(b, q + 1)),
            z3.And(q >= 0, q < TT, a <= n, n < b)))
    k2, a2, b2 = fresh("k2"), fresh("a2"), fresh("b2")
    P.prove("no sample lies in two segments", z3.Implies(z3.And(fl(a, k), fl(b, k + 1), fl(a2, k2), k2 >= k + 1), b <= a2))


def stamps_lemma_case(P):
    fs, a, b = P.real("fs", pos=True).t, fresh("ts_k", R), fresh("ts_k1", R)
    N, TT, k = P.int("N", 1).t, P.int("T", 1).t, fresh("k")
    P.prove("starts lie in the signal", z3.Implies(z3.And(a >= 0, a * fs <= toreal(N)), z3.And(a * fs >= 0, z3.ToInt(a * fs) >= 0, z3.ToInt(a * fs) <= N)))
    P.prove("starts are non-decreasing", z3.Implies(z3.And(a >= 0, a <= b), z3.ToInt(a * fs) <= z3.ToInt(b * fs)))
    # any non-decreasing starts with S(0) = 0 and S(T) = N: every sample lies in exactly one segment (induction over the number of segments)
    S = core.fresh_fn("S", 1, I)
    n, m, w = fresh("n"), fresh("m"), fresh("w")
    found = lambda mm, x: z3.And(x >= 0, x < mm, S(x) <= n, n < S(x + 1))
    P.prove("induction start: no sample lies before segment 0", z3.Implies(S(z3.IntVal(0)) == 0, z3.Not(z3.And(n >= 0, n < S(z3.IntVal(0))))))
    P.prove("induction step: a sample before S(m+1) lies in one of the first m+1 segments",
            z3.Implies(z3.And(m >= 0, n < S(m + 1), z3.Implies(n < S(m), found(m, w))), z3.Or(found(m + 1, w), found(m + 1, m))))
    P.prove("no sample lies in two segments", z3.Implies(z3.And(S(k + 1) <= S(m), S(k) <= n, n < S(k + 1)), z3.Not(z3.And(S(m) <= n, n < S(m + 1)))))


def case(rdim, sdim, one=False, stamps=False, device="cpu"):
    def run(P):
        T.CUDA_AVAILABLE = True
        P.mod("torchrir.signal.dynamic")
        P.stub("fft_convolve", fft_contract)
        C = P.fn(DY + "DynamicConvolver")
        N, L, TT, ns, nm, x, h, X, H = shapes(P, rdim, sdim, one, device)
        if stamps:
            ts, fs = P.tensor("timestamps", [TT], T.float64), P.real("fs", pos=True)
            # W(k) = floor(timestamp_k * fs); timestamps non-negative, non-decreasing and inside the signal give (lemma case)
            # exactly the facts below
            W = core.fresh_fn("STAMP", 1, I)
            P.assume(ts.at(0) == 0)

            def hook(t):
                for m in sums.poly(t):
                    for f in m:
                        f = sums._ATOMS[f]
                        if z3.is_app(f) and f.decl().name() == ts.fun.name():
                            if not sums.poly(sums.canon(t - f * fs.t)):
                                return W(f.arg(0))
                return None
            core.FLOOR_HOOKS.append(hook)

            def ax(a):
                k = a.arg(0)
                out = [z3.Implies(z3.And(k >= 0, k < TT.t), z3.And(a >= 0, a <= N.t)), z3.Implies(k == 0, a == 0)]
                if sums.poly(k).get(sums.ONE, 0) >= 1:
                    j = sums.canon(k - 1)
                    out.append(z3.Implies(z3.And(j >= 0, k < TT.t), W(j) <= a))
                return out
            core.AXIOMS[W.name()] = ax
            w = lambda k: z3.If(k < TT.t, W(k), N.t)
            conv = C(timestamps=ts, fs=fs)
        else:
            W = starts(P, N, TT)
            w = lambda k: z3.If(k < TT.t, W(k), N.t)
            conv = C()
        st, y = P.call(conv.convolve, x, h)
        if st == "raise":
            return P.fail("matching shapes are accepted", repr(y))
        spec = lambda m, i: traj_spec(X, H, w, N, TT, ns, L, m, i)
        out = wrap(sums.canon(N.t + L.t - 1))
        if P.ctx.branch(nm.t == 1):
            P.tensor_eq("one microphone: every segment convolved with its response, at its place", y, [out], lambda i: spec(z3.IntVal(0), i))
        else:
            P.tensor_eq("every segment convolved with its response, at its place", y, [nm, out], spec)
    return run


def reject_case(what):
    def run(P):
        P.mod("torchrir.signal.dynamic")
        P.stub("fft_convolve", fft_contract)
        C = P.fn(DY + "DynamicConvolver")
        N, L, TT, ns, nm, x, h, X, H = shapes(P, 4, 2)
        ts = P.tensor("timestamps", [TT], T.float64)
        fs = P.real("fs", pos=True)
        kw = dict(timestamps=ts, fs=fs)
        if what == "missing rate":
            kw["fs"] = None
        elif what == "non-zero first timestamp":
            P.assume(ts.at(0) != 0)
        elif what == "wrong timestamp count":
            K = P.int("count", 1)
            P.assume(K.t != TT.t)
            kw["timestamps"] = P.tensor("stamps", [K], T.float64)
        elif what == "wrong source count":
            kw = {}
            k = P.int("signals", 2)
            P.assume(k.t != ns.t)
            x = P.tensor("x", [k, N])
        elif what == "unknown mode":
            kw = dict(mode="other")
        st, y = P.call(C(**kw).convolve, x, h)
        P.check(f"{what} is rejected", st == "raise" and isinstance(y, ValueError), repr(y))
    return run


CASES = [Case("partition lemma", lemma_case, FNS), Case("timestamp lemma", stamps_lemma_case, FNS)]
CASES.append(Case("looped timestamps", case(4, 2, stamps=True), FNS, budget=500))
for _r, _s, _o in ((4, 2, False), (4, 2, True), (4, 1, False), (3, 2, False), (3, 1, False), (2, 1, False)):
    CASES.append(Case(f"looped rirs{_r}d signal{_s}d{'x1' if _o else ''}", case(_r, _s, _o), FNS, budget=500))
for _w in ("missing rate", "non-zero first timestamp", "wrong timestamp count", "wrong source count", "unknown mode"):
    CASES.append(Case(_w, reject_case(_w), FNS))
ASSUMPTIONS = ["fft_convolve is used through its contract (discharged under C17)"]
BOUNDED = ["_convolve_dynamic_rir_trajectory_batched (accelerator path): executed on random shapes (up to 40 steps, chunk sizes 1 to 9, up to "
           "4 sources and microphones) against the same specification, not proved"]
CASES += [Case("C17 " + c.name, c.fn, c.functions, **c.opts) for c in C17.CASES if c.name == "fft_convolve"]
