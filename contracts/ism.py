"""Specification functions of the image-source model, written over z3 terms from the property statements."""
from dv.harness import *
from dv import core, sums, tensor as T
from dv.core import I, R, SQRT, SINC, COS, SIN, POW, toreal

AX = "torchrir.sim.ism."


def iv(x):
    return x if isinstance(x, z3.ExprRef) else lift(x)


def parity_even(n):
    return iv(n) % 2 == 0


def img(n, L, s):
    """mirror image coordinate"""
    n = iv(n)
    return z3.If(n % 2 == 0, toreal(n) * L + s, toreal(n + 1) * L - s)


def hits_hi(n):
    n = iv(n)
    return z3.If(n >= 0, (n + 1) / 2, (-n) / 2)


def hits_lo(n):
    n = iv(n)
    return z3.If(n >= 0, n / 2, (-n + 1) / 2)


def refl(nv, beta):
    """prod_axis hi^hits_hi * lo^hits_lo; beta: function of the flat wall index (lower/upper per axis)"""
    r = z3.RealVal(1)
    for a, n in enumerate(nv):
        r = r * POW(toreal(beta(z3.IntVal(2 * a + 1))), hits_hi(n)) * POW(toreal(beta(z3.IntVal(2 * a))), hits_lo(n))
    return r


def absi(n):
    n = iv(n)
    return z3.If(n >= 0, n, -n)


def l1(nv):
    r = z3.IntVal(0)
    for n in nv:
        r = r + absi(n)
    return r


def lattice_sum(dim, order, body, nb=None):
    """Sum over the requested image set"""
    xs = [fresh("n") for _ in range(dim)]
    if nb is None:
        o = T.dterm(order)
        g = mkand(*[z3.And(x >= -o, x <= o) for x in xs], l1(xs) <= o)
    else:
        g = mkand(*[z3.And(x >= -b, x <= b) for x, b in zip(xs, nb)])
    return sums.mk_sum(xs, g, toreal(iv(body(*xs))))


def norm(vs):
    s = z3.RealVal(0)
    for v in vs:
        s = s + v * v
    return SQRT(s)


def dist(vs):
    d = norm(vs)
    return z3.If(d < z3.RealVal("1e-6"), z3.RealVal("1e-6"), d)


def dot(a, b):
    s = z3.RealVal(0)
    for x, y in zip(a, b):
        s = s + x * y
    return s


def unit(vs):
    n = norm(vs)
    n = z3.If(n < z3.RealVal("1e-8"), z3.RealVal("1e-8"), n)
    return [v / n for v in vs]


PATTERNS = {"omni": lambda c: z3.RealVal(1), "homni": lambda c: z3.If(c > 0, z3.RealVal(1), z3.RealVal(0)),
            "subcardioid": lambda c: z3.RealVal("3/4") + c / 4, "cardioid": lambda c: (1 + c) / 2,
            "hypercardioid": lambda c: z3.RealVal("1/4") + 3 * c / 4, "bidir": lambda c: c}


# ---------------------------------------------------------------- fractional-delay taps
def window(k, L):
    """symmetric Hann window of length L (1 for L = 1)"""
    return z3.If(L == 1, z3.RealVal(1), (1 - COS(2 * core.PI * toreal(k) / toreal(L - 1))) / 2)


def lut_at(p, L, G):
    """table entry: sinc on the grid of step 1/G spanning +-((L-1)/2+1)"""
    return SINC(-toreal((L - 1) / 2) - 1 + toreal(p) / toreal(G))


def tap_filter(k, frac, L, G):
    h = (L - 1) / 2
    if G is None:
        return SINC(toreal(k) - toreal(h) - frac)
    q = (1 - frac) * toreal(G)
    p = z3.ToInt(q) + k * G
    w = q - toreal(z3.ToInt(q))
    return lut_at(p, L, G) + w * (lut_at(p + 1, L, G) - lut_at(p, L, G))


def tap(p, a, k, L, G):
    """value deposited by tap k of an arrival at real position p with amplitude a"""
    frac = p - toreal(z3.ToInt(p))
    return a * window(k, L) * tap_filter(k, frac, L, G)


def taps_sum(bounds, pos, amp, L, G, t):
    """sum over arrivals (indices below bounds) and taps landing on output sample t"""
    h = (L - 1) / 2
    n = len(bounds)

    def body(*xs):
        j, k = xs[:n], xs[n]
        return tap(iv(pos(*j)), iv(amp(*j)), k, L, G)
    return sum_over(list(bounds) + [wrap(L)], body, lambda *xs: z3.ToInt(iv(pos(*xs[:n]))) - h + xs[n] == t)
