"""C17: static convolution."""
import z3
from dv.harness import *

ID = "C17"
F = "torchrir.signal.static:fft_convolve"
G = "torchrir.signal.static:convolve_rir"


def conv_term(x, h, nx, nh, i):
    """sum_{a+b=i} x(a) h(b)"""
    return sum_over([nx, nh], lambda a, b: x(a) * h(b), lambda a, b: a + b == i)


def fft_case(P):
    f = P.fn(F)
    n, m = P.int("n", 1), P.int("m", 1)
    x, h = P.tensor("x", [n]), P.tensor("h", [m])
    st, y = P.call(f, x, h)
    if st == "raise":
        return P.fail("fft_convolve accepts two 1-D tensors", repr(y))
    P.tensor_eq("fft_convolve: full linear convolution", y, [n + m - 1], lambda i: conv_term(lambda a: x.at(a), lambda b: h.at(b), n, m, i))
    P.check("fft_convolve: dtype kept", y.dtype is x.dtype)


def fft_contract(real):
    """contract of fft_convolve used at call sites: requires 1-D inputs with at least one sample each"""
    import inspect
    sig = inspect.signature(real)

    def spec(*a, **k):
        ba = sig.bind(*a, **k)
        x, h = list(ba.arguments.values())[:2]
        c = core.ctx()
        if x.ndim != 1 or h.ndim != 1:
            raise ValueError("fft_convolve expects 1D tensors")
        n, m = x.dim_size(0), h.dim_size(0)
        if not c.entails(n + m - 1 >= 1) and not c.branch(n + m - 1 >= 1):
            raise RuntimeError("Invalid number of data points specified")
        fx, fh = x.snapshot(), h.snapshot()
        cx, ch = [q.size for q in x._d[0]], [q.size for q in h._d[0]]
        return STensor.new([[sums.canon(n + m - 1)]], lambda idx: sum_over(
            [n, m], lambda a, b: toreal(fx(T.split_flat(a, cx))) * toreal(fh(T.split_flat(b, ch))), lambda a, b: a + b == idx[0]),
            T.promote(x.dtype, h.dtype), x.device)
    return spec


def static_case(sdim, rdim, single):
    def case(P):
        P.mod("torchrir.signal.static")
        if P.opts.get("stub", True):
            P.stub("fft_convolve", fft_contract)
        f = P.fn(G)
        ns, nm, L, N = P.int("n_src", 1), P.int("n_mic", 1), P.int("rir_len", 1), P.int("n_samples", 1)
        x = P.tensor("signal", [N] if sdim == 1 else [1 if single else ns, N])
        h = P.tensor("rirs", {1: [L], 2: [nm, L], 3: [ns, nm, L]}[rdim])
        S = ns if rdim == 3 else 1
        M = nm if rdim >= 2 else 1
        if sdim == 2 and not single and rdim < 3:
            P.assume(ns.t == 1)
        st, y = P.call(f, x, h)
        if st == "raise":
            return P.fail("convolve_rir accepts matching shapes", repr(y))
        X = lambda s, a: x.at(a) if sdim == 1 else x.at(0 if single else s, a)
        H = lambda s, m, b: h.at(b) if rdim == 1 else (h.at(m, b) if rdim == 2 else h.at(s, m, b))
        spec = lambda m, i: sum_over([S, N, L], lambda s, a, b: X(s, a) * H(s, m, b), lambda s, a, b: a + b == i)
        out = sums.canon(T.dterm(N) + T.dterm(L) - 1)
        one = P.ctx.branch(T.dterm(M) == 1)
        if one:
            P.tensor_eq("one microphone: y[i] = sum of convolutions over sources", y, [wrap(out)], lambda i: spec(z3.IntVal(0), i))
        else:
            P.tensor_eq("y[m, i] = sum over sources of the convolution with that source's RIR", y, [M, wrap(out)], spec)
        P.check("dtype kept", y.dtype is x.dtype)
    return case


def mismatch_case(P):
    f = P.fn(G)
    k, ns, nm, L, N = P.int("k", 2), P.int("n_src", 1), P.int("n_mic", 1), P.int("rir_len", 1), P.int("n_samples", 1)
    P.assume(k.t != ns.t)
    st, y = P.call(f, P.tensor("signal", [k, N]), P.tensor("rirs", [ns, nm, L]))
    P.check("a source count that does not match is rejected with ValueError", st == "raise" and isinstance(y, ValueError), repr(y))


CASES = [Case("fft_convolve", fft_case, [F])]
for _s in (1, 2):
    for _r in (1, 2, 3):
        for _one in ((True, False) if _s == 2 else (True,)):
            CASES.append(Case(f"convolve_rir signal{_s}d{'x1' if _one else ''} rirs{_r}d", static_case(_s, _r, _one), [G, "torchrir.signal.internal:_ensure_signal", "torchrir.signal.internal:_ensure_static_rirs"]))
CASES.append(Case("convolve_rir mismatch", mismatch_case, [G]))
