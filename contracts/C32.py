"""C32: devices and dtypes resolve predictably, for every device name and every combination of available back ends."""
from dv.harness import *
from dv import core, tensor as T
from dv.strs import SStr, LOWER
import itertools, warnings

ID = "C32"
D = "torchrir.util.device:"
F = [D + "resolve_device"]
FS = [D + "DeviceSpec.resolve", D + "infer_device_dtype"]
FT = ["torchrir.util.tensor:as_tensor", "torchrir.util.tensor:ensure_floating"]
TRUSTED = ["torch.device(name) accepts exactly the names DEVICE_NAME, all lower case, and keeps the name; a name starting with cuda/mps denotes that back end",
           "torch.cuda.is_available / torch.backends.mps.is_available are constant during a call"]
BOUNDED = ["DeviceSpec.resolve / infer_device_dtype: argument tuples of up to 4 values, each a tensor or not (device names, dtypes and availability arbitrary)"]
SV = z3.StringVal


def setup(P):
    """arbitrary back-end availability; facts of device names"""
    c, m = z3.Bool("cuda_available"), z3.Bool("mps_available")
    T.CUDA_AVAILABLE, T.MPS_AVAILABLE = core.wrap(c), core.wrap(m)
    N = T.DEVICE_NAME
    for n in ("cuda", "mps", "cpu"):
        P.assume(N(SV(n)))
    P.assume(z3.Not(N(SV("auto"))))
    return c, m


def name_of(d):
    """the name of a device as a term"""
    n = getattr(d, "name", None)
    return n if n is not None else SV(str(d))


def any_name(P, nm):
    s = SStr(nm)
    N = T.DEVICE_NAME
    P.assume(z3.Implies(N(s.t), LOWER(s.t) == s.t))
    P.assume(LOWER(LOWER(s.t)) == LOWER(s.t))
    return s


def any_device(nm):
    d = T.Device.__new__(T.Device)
    d.name = z3.String(nm)
    d.type, d.index = SStr(d.name), None
    return d


def first_available(prefer, c, m):
    r = SV("cpu")
    for b in reversed(prefer):
        if b == "cuda":
            r = z3.If(c, SV("cuda"), r)
        elif b == "mps":
            r = z3.If(m, SV("mps"), r)
        elif b == "cpu":
            r = SV("cpu")
    return r


def called(P, f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        st, v = P.call(f, *a, **k)
    return st, v, any(issubclass(x.category, RuntimeWarning) for x in w)


def string_spec(P, what, s, st, v, warned, c, m, auto):
    """the resolution of a device name s; auto: the name 'auto' stands for"""
    low, N = LOWER(s.t), T.DEVICE_NAME
    is_auto = low == SV("auto")
    acc = z3.Or(z3.And(z3.PrefixOf(SV("cuda"), low), z3.Not(c)), z3.And(z3.PrefixOf(SV("mps"), low), z3.Not(m)))
    fam = z3.Or(z3.PrefixOf(SV("cuda"), low), z3.PrefixOf(SV("mps"), low))
    if st == "raise":
        P.check(f"{what}: an unknown name is a plain error", isinstance(v, (RuntimeError, ValueError, TypeError)), repr(v))
        P.prove(f"{what}: only unknown names are rejected", z3.And(z3.Not(is_auto), low != SV("cpu"), z3.Implies(fam, z3.Not(N(low))), z3.Not(N(s.t))))
        return
    if not isinstance(v, T.Device):
        return P.fail(f"{what}: a device is returned", repr(v))
    r = name_of(v)
    P.prove(f"{what}: an unknown name is rejected", z3.Or(is_auto, N(low)))
    P.prove(f"{what}: auto", r == auto, hyps=[is_auto])
    P.prove(f"{what}: an available or plain device is the one named", r == low, hyps=[z3.Not(is_auto), z3.Not(acc), N(low)])
    P.prove(f"{what}: an unavailable accelerator falls back to the CPU", r == SV("cpu"), hyps=[acc])
    P.prove(f"{what}: a warning exactly for a fallback", acc if warned else z3.Not(acc))


PREFS = [None] + [p for n in (0, 1, 2, 3) for p in itertools.permutations(("cuda", "mps", "cpu"), n)] + [("tpu", "cuda"), ("cpu", "xpu", "mps"), ("xpu", "mps", "cuda")]


def resolve_case(prefer):
    def run(P):
        f = P.fn(D + "resolve_device")
        c, m = setup(P)
        s = any_name(P, "device")
        st, v, w = called(P, f, s, **({} if prefer is None else {"prefer": prefer}))
        string_spec(P, "a device name", s, st, v, w, c, m, first_available(prefer if prefer is not None else ("cuda", "mps", "cpu"), c, m))
    return run


def plain_case(P):
    f = P.fn(D + "resolve_device")
    setup(P)
    st, v, w = called(P, f, None)
    P.check("no device means the CPU", st == "ok" and isinstance(v, T.Device) and str(v) == "cpu" and not w, repr(v))
    d = any_device("given")
    st, v, w = called(P, f, d)
    P.check("a device object is returned as it is", st == "ok" and v is d and not w, repr(v))


def values(P, pattern):
    """'t' a tensor on its own device with its own dtype, 'n' something else"""
    out, dts = [], [T.float64, T.int64, T.float16, T.float32]
    for i, k in enumerate(pattern):
        if k == "t":
            t = P.tensor(f"v{i}", [P.int(f"len{i}", 0)], dts[i])
            t.device = any_device(f"device_{i}")
            out.append(t)
        else:
            out.append([None, [1.0, 2.0], 3.5, "cuda"][i])
    return out


def spec_case(pattern, via, given, dtype):
    def run(P):
        c, m = setup(P)
        vs = values(P, pattern)
        ten = [v for v in vs if isinstance(v, STensor)]
        s = None
        if given == "name":
            dev = s = any_name(P, "device")
        else:
            dev = {"none": None, "object": any_device("given"), "auto": "auto", "AUTO": "AuTo"}[given]
        dt = {"none": None, "given": T.int32}[dtype]
        prefer = ("mps", "cuda")
        if via == "infer":
            prefer = ("cuda", "mps", "cpu")
            st, r, w = called(P, P.fn(D + "infer_device_dtype"), *vs, device=dev, dtype=dt)
        else:
            st, sp = P.call(P.fn(D + "DeviceSpec"), device=dev, dtype=dt, prefer=prefer)
            if st == "raise":
                return P.fail("a specification exists", repr(sp))
            st, r, w = called(P, sp.resolve, *vs)
        auto = name_of(ten[0].device) if ten else first_available(prefer, c, m)
        if st == "ok":
            P.check("a device and a dtype", isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], T.DType), repr(r))
            want = dt if dt is not None else ten[0].dtype if ten else T.float32
            P.check("the dtype given, else that of the first tensor, else 32-bit floats", r[1] is want, f"{r[1]} instead of {want}")
        if given == "name":
            return string_spec(P, "a device name", s, st, r[0] if st == "ok" else r, w, c, m, auto)
        if st == "raise":
            return P.fail("resolution succeeds", repr(r))
        P.check("no warning without a fallback", not w)
        if given == "object":
            P.check("an explicit device wins", r[0] is dev, repr(r[0]))
        elif given == "none":
            P.check("else the first tensor's device, else the CPU", r[0] is ten[0].device if ten else isinstance(r[0], T.Device) and str(r[0]) == "cpu", repr(r[0]))
        else:
            P.prove("auto takes the first tensor's device, else the first available back end", name_of(r[0]) == auto)
    return run


def as_tensor_case(dev, dtype):
    def run(P):
        f = P.fn("torchrir.util.tensor:as_tensor")
        c, m = setup(P)
        n = P.int("n", 0)
        t = P.tensor("value", [n])
        old = t.device = any_device("old")
        d = {"none": None, "object": any_device("given"), "name": any_name(P, "device")}[dev]
        dt = {"none": None, "given": T.float64}[dtype]
        kw = {k: v for k, v in (("device", d), ("dtype", dt)) if v is not None}
        st, r, w = called(P, f, t, **kw)
        if dev == "name":
            string_spec(P, "a device name", d, st, r.device if st == "ok" else r, w, c, m, first_available(("cuda", "mps", "cpu"), c, m))
        if st == "raise":
            return None if dev == "name" else P.fail("a tensor is accepted", repr(r))
        if dev == "object":
            P.prove("an explicit device wins", name_of(r.device) == name_of(d))
        if dev == "none":
            P.check("the tensor stays on its device", r.device is old)
        P.check("an explicit dtype wins, else the tensor's", r.dtype is (dt or T.float32))
        P.tensor_eq("the values are kept", r, [n], lambda i: toreal(t.fun(i)))
        if not kw:
            P.check("an unchanged tensor is handed back", r is t)
    return run


CASES = [Case(f"resolve_device prefer {p}", resolve_case(p), F) for p in PREFS] + [Case("resolve_device none and objects", plain_case, F)]
_pats = ["", "t", "n", "tt", "nt", "tn", "nn", "nnt", "ttt", "ntt", "tnt", "nnnt", "nntt"]
for _p in _pats:
    for _g in ("none", "object", "auto", "name"):
        for _d in ("none", "given"):
            CASES.append(Case(f"DeviceSpec values [{_p}] device {_g} dtype {_d}", spec_case(_p, "spec", _g, _d), FS))
for _p in ("", "t", "nt", "ntt"):
    for _g in ("none", "object", "AUTO", "name"):
        CASES.append(Case(f"infer_device_dtype values [{_p}] device {_g}", spec_case(_p, "infer", _g, "none"), FS))
CASES += [Case("infer_device_dtype explicit dtype", spec_case("nt", "infer", "none", "given"), FS)]
CASES += [Case(f"as_tensor device {d} dtype {t}", as_tensor_case(d, t), FT) for d in ("none", "object", "name") for t in ("none", "given")]
