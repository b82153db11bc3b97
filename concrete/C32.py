"""C32 runtime contracts: devices and dtypes, with back-end availability simulated."""
import itertools, string, warnings
from unittest import mock
import torch


def run(rt):
    from torchrir.util import resolve_device, DeviceSpec, infer_device_dtype
    as_tensor = rt.get("torchrir.util.tensor:as_tensor", False)
    names = ["cuda", "cuda:0", "cuda:1", "CUDA", "Cuda:3", "mps", "mps:0", "MPS", "cpu", "CPU", "cpu:0", "auto", "AUTO", "Auto", "meta", "meta:0"] + [s for s in rt.strs if s.isascii()]
    bad = ["", "gpu", "cudax", "mpsx", "cuda:", "cuda:x", "tpu", "auto0", " cpu", "cuda 0", "cud", "mp", "CPUS", "nvidia"]
    dts = [torch.float32, torch.float64, torch.float16, torch.int64, torch.int32, torch.bool]
    prefs = [p for n in (0, 1, 2, 3) for p in itertools.permutations(("cuda", "mps", "cpu"), n)] + [("xpu", "mps"), ("cpu", "cuda")]

    def valid(n):
        try:
            return torch.device(n)
        except Exception:
            return None

    def auto(pref, c, m):
        for b in pref:
            if (b == "cuda" and c) or (b == "mps" and m) or b == "cpu":
                return torch.device(b)
        return torch.device("cpu")

    def expected(name, pref, c, m, tensors=()):
        """(device or None when rejected, warned)"""
        low = name.lower()
        if low == "auto":
            return (tensors[0].device if tensors else auto(pref, c, m)), False
        for fam, av in (("cuda", c), ("mps", m)):
            if low.startswith(fam):
                d = valid(low)
                return (None, False) if d is None else (d, False) if av else (torch.device("cpu"), True)
        return (torch.device("cpu") if low == "cpu" else valid(name)), False

    def check(what, f, want, warns, *a, **k):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if want is None:
                return rt.rejects(f"{what}: unknown names are rejected", f, *a, exc=(RuntimeError, ValueError, TypeError), **k)
            r = rt.ok(f"{what}: resolves", f, *a, **k)
        if r is None:
            return
        dev = r[0] if isinstance(r, tuple) else r.device if isinstance(r, torch.Tensor) else r
        rt.require(isinstance(dev, torch.device) and dev == want, f"{what}: the right device", str(dev), str(want))
        rt.require(any(issubclass(x.category, RuntimeWarning) for x in w) == warns, f"{what}: a warning exactly for a fallback", [str(x.message) for x in w], warns)
        return r

    meta = torch.device("meta")
    for i in rt.rounds(1500, 15000, .9):
        c, m = rt.rng.random() < .5, rt.rng.random() < .5
        pref = rt.rng.choice(prefs)
        name = rt.rng.choice(names if rt.rng.random() < .75 else bad)
        if rt.rng.random() < .15:
            name = "".join(rt.rng.choice([ch.upper(), ch]) for ch in name)
        form = rt.rng.choice(["name", "none", "object"])
        dev = {"name": name, "none": None, "object": rt.rng.choice([torch.device("cpu"), meta, torch.device("cuda:1"), torch.device("mps")])}[form]
        vals = []
        for _ in range(rt.rng.randrange(4)):
            vals.append(rt.rng.choice([None, 1.5, [1, 2], "cuda"]) if rt.rng.random() < .45 else torch.zeros(2, dtype=rt.rng.choice(dts), device=rt.rng.choice(["cpu", "meta"])))
        ten = [v for v in vals if isinstance(v, torch.Tensor)]
        dt = rt.rng.choice([None, None] + dts)
        rt.inputs(device=str(dev) if dev is not None else None, form=form, prefer=pref, cuda=c, mps=m, dtype=str(dt), values=[(str(v.device), str(v.dtype)) if isinstance(v, torch.Tensor) else repr(v) for v in vals])
        rt.count()
        with mock.patch.object(torch.cuda, "is_available", lambda: c), mock.patch.object(torch.backends.mps, "is_available", lambda: m):
            if form == "name":
                check("resolve_device", resolve_device, *expected(name, pref, c, m), name, prefer=pref)
                check("resolve_device default preference", resolve_device, *expected(name, ("cuda", "mps", "cpu"), c, m), name)
                want, warns = expected(name, pref, c, m, ten)
            else:
                want, warns = (dev if dev is not None else torch.device("cpu")), False
                check("resolve_device", resolve_device, want, False, dev, prefer=pref)
                if dev is None and ten:
                    want = ten[0].device
            sp = DeviceSpec(device=dev, dtype=dt, prefer=pref)
            r = check("DeviceSpec", sp.resolve, want, warns, *vals)
            wdt = dt or (ten[0].dtype if ten else torch.float32)
            if r is not None and want is not None:
                rt.require(r[1] is wdt, "the dtype given, else the first tensor's, else 32-bit floats", str(r[1]), str(wdt))
            if form == "name":
                want, warns = expected(name, ("cuda", "mps", "cpu"), c, m, ten)
            r = check("infer_device_dtype", infer_device_dtype, want, warns, *vals, device=dev, dtype=dt)
            if r is not None and want is not None:
                rt.require(r[1] is wdt, "inferred: the dtype given, else the first tensor's, else 32-bit floats", str(r[1]), str(wdt))
            if as_tensor is not None and ten:
                t = ten[0]
                d = rt.rng.choice([None, "cpu", "meta"])
                if t.device.type == "meta" and d == "cpu":
                    d = None
                r = rt.ok("as_tensor", as_tensor, t, device=d, dtype=dt)
                if r is not None:
                    rt.require(r.device == torch.device(d or t.device) and r.dtype is (dt or t.dtype), "as_tensor: explicit device and dtype win, else the tensor's", (str(r.device), str(r.dtype)), (str(d or t.device), str(dt or t.dtype)))
