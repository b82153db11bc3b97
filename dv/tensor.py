"""Symbolic tensors: content is a function from index terms to a z3 term; views alias a storage.

Every in-place operation updates the storage through the view (aliasing is modelled); every operation on shapes
uses symbolic sizes.  Division records the obligation that the divisor is non-zero, indexing the obligation that the
index is in range.
"""
from __future__ import annotations
import itertools, json, os
from fractions import Fraction
import z3
from . import core, sums, seq
from .core import (I, R, B, SVal, SInt, SReal, SBool, SNum, wrap, lift, mkif, mkand, mkor, toreal, toint_floor, fresh,
                   Unsupported, realval)

ZERO, ONE = z3.IntVal(0), z3.IntVal(1)


# --------------------------------------------------------------------------- dtypes / devices
class DType:
    def __init__(self, name, kind, bits):
        self.name, self.kind, self.bits = name, kind, bits
        self.is_floating_point = kind == "f"
        self.is_complex = kind == "c"
        self.itemsize = bits // 8

    def __repr__(self):
        return "torch." + self.name

    def __reduce__(self):
        return (_dtype_by_name, (self.name,))

    def __deepcopy__(self, memo):
        return self


def _dtype_by_name(n):
    return DTYPES[n]


DTYPES = {n: DType(n, k, b) for n, k, b in [
    ("float16", "f", 16), ("bfloat16", "f", 16), ("float32", "f", 32), ("float64", "f", 64), ("int8", "i", 8), ("uint8", "i", 8),
    ("int16", "i", 16), ("int32", "i", 32), ("int64", "i", 64), ("bool", "b", 8), ("complex64", "c", 64),
    ("complex128", "c", 128)]}
float16, bfloat16, float32, float64 = (DTYPES[n] for n in ("float16", "bfloat16", "float32", "float64"))
int8, uint8, int16, int32, int64 = (DTYPES[n] for n in ("int8", "uint8", "int16", "int32", "int64"))
bool_ = DTYPES["bool"]
complex64, complex128 = DTYPES["complex64"], DTYPES["complex128"]

CUDA_AVAILABLE = False    # set per run (python bool or SBool)
MPS_AVAILABLE = False


DEVICE_NAME = z3.Function("DEVICE_NAME", z3.StringSort(), B)


class Device:
    def __init__(self, type="cpu", index=None):
        if isinstance(type, Device):
            self.type, self.index = type.type, type.index
            return
        if hasattr(type, "t"):           # an arbitrary name: accepted exactly when DEVICE_NAME holds of it
            self.name = type.t
            if not core.ctx().branch(DEVICE_NAME(type.t), "device name"):
                raise RuntimeError("Invalid device string")
            self.type, self.index = type, index
            return
        if isinstance(type, str) and ":" in type:
            t, i = type.split(":", 1)
            if not i.isdigit():
                raise RuntimeError(f"Invalid device string: '{type}'")
            type, index = t, int(i)
        if isinstance(type, str) and type not in ("cpu", "cuda", "mps", "meta", "xpu"):
            raise RuntimeError(f"Expected one of cpu, cuda, ... device type at start of device string: {type}")
        self.type, self.index = type, index

    def __str__(self):
        return self.type if self.index is None else f"{self.type}:{self.index}"

    def __repr__(self):
        return f"device(type='{self.type}'" + (f", index={self.index})" if self.index is not None else ")")

    def __eq__(self, o):
        return isinstance(o, Device) and self.type == o.type and self.index == o.index

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.type, self.index))


CPU = Device("cpu")


def as_device(d):
    if d is None:
        return CPU
    if isinstance(d, Device):
        return d
    return Device(d)


_default_dtype = float32


def promote(a: DType, b: DType) -> DType:
    order = {"b": 0, "i": 1, "f": 2, "c": 3}
    if a is b:
        return a
    if order[a.kind] != order[b.kind]:
        return a if order[a.kind] > order[b.kind] else b
    return a if a.bits >= b.bits else b


# --------------------------------------------------------------------------- dims
def dterm(d):
    """dim (python int / SInt / z3) -> z3 Int term"""
    if isinstance(d, bool):
        raise Unsupported("bool dim")
    if isinstance(d, int):
        return z3.IntVal(d)
    t = lift(d)
    if t.sort() != I:
        raise TypeError("dimension must be an int")
    return t


def szv(t):
    t = sums.canon(t)
    return wrap(t)


def is_c(t, v=None):
    return z3.is_int_value(t) and (v is None or t.as_long() == v)


def same(a, b):
    """Provably equal integer terms (cheap first)."""
    if a.get_id() == b.get_id():
        return True
    if is_c(a) and is_c(b):
        return a.as_long() == b.as_long()
    try:
        d = sums.padd(sums.poly(a), sums.poly(b), -1)
    except Unsupported:
        d = None
    if d is not None:
        if not d:
            return True
        if set(d) == {()}:
            return False
    return core.ctx().entails(a == b)


def dim_eq(a, b):
    """Decide equality of two sizes (may fork the path)."""
    if same(a, b):
        return True
    if is_c(a) and is_c(b):
        return False
    return core.ctx().branch(a == b, "equal sizes")


def prod_terms(ts):
    r = ONE
    for t in ts:
        if is_c(r, 1):
            r = t
        elif is_c(t, 1):
            pass
        else:
            r = r * t
    return sums.canon(r) if not is_c(r) else r


class Comp:
    """One component of a view dimension: size, storage dimension it strides over (None: broadcast), step."""
    __slots__ = ("size", "sd", "step")

    def __init__(self, size, sd, step=ONE):
        self.size, self.sd, self.step = size, sd, step


class Storage:
    __slots__ = ("dims", "fn", "frozen", "nf", "name", "version", "serial")

    def __init__(self, dims, fn, nf=None, frozen=False, name=""):
        self.serial = next(core._counter)
        self.dims, self.fn, self.nf, self.frozen, self.name, self.version = list(dims), fn, nf, frozen, name, 0


def memo(fn):
    cache = {}
    keep = []

    def g(idx):
        k = tuple(x.get_id() for x in idx)
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[k] = r
            keep.append((idx, r))
        return r
    return g


class Size(tuple):
    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r


class MaskDim:
    """Guard attached to a dimension produced by boolean masking: its index is the tuple of component indices."""
    __slots__ = ("guard", "key")

    def __init__(self, guard, key):
        self.guard, self.key = guard, key     # guard(idx list)->Bool


class STensor:
    __dv_tensor__ = True
    __array_priority__ = 1000

    def __init__(self, st, dims, off, dtype, device=CPU, masks=None):
        # dims: list (per view dim) of lists of Comp; off: list of terms per storage dim
        self.st, self._d, self.off, self.dtype, self.device = st, dims, off, dtype, device
        self.masks = masks or {}        # view dim -> MaskDim
        self.requires_grad = False
        self._attrs = None

    # ---- construction
    @staticmethod
    def new(dims, fn, dtype, device=CPU, nf=None, frozen=False, name="", masks=None):
        """dims: list of dims, each a term or a list of component size terms."""
        comps, flat = [], []
        for d in dims:
            cs = []
            for s in (d if isinstance(d, (list, tuple)) else [d]):
                cs.append(Comp(s, len(flat)))
                flat.append(s)
            comps.append(cs)
        if dtype.bits < 32 and dtype.kind in "if":
            full = fn
            fn = lambda idx: narrowed(full(idx), dtype)
        return STensor(Storage(flat, memo(fn), nf=memo(nf) if nf else None, frozen=frozen, name=name), comps,
                       [ZERO] * len(flat), dtype, device, masks)

    def like(self, comps, off=None, masks=None, dtype=None):
        return STensor(self.st, comps, list(self.off if off is None else off), dtype or self.dtype, self.device,
                       masks if masks is not None else {})

    # ---- shape
    def dim_size(self, i):
        if i in self.masks:
            return self.mask_enum(i).count_term
        return prod_terms([c.size for c in self._d[i]])

    @property
    def sizes(self):
        return [self.dim_size(i) for i in range(len(self._d))]

    @property
    def shape(self):
        return Size(szv(s) for s in self.sizes)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    @property
    def ndim(self):
        return len(self._d)

    def dim(self):
        return len(self._d)

    ndimension = dim

    def numel(self):
        if not self._d:
            return 1
        return szv(prod_terms(self.sizes))

    nelement = numel

    def __dv_len__(self):
        if not self._d:
            raise TypeError("len() of a 0-d tensor")
        return szv(self.dim_size(0))

    def __len__(self):
        n = self.__dv_len__()
        if isinstance(n, int):
            return n
        raise Unsupported("native len of a symbolic dimension")

    # ---- reading
    def flatcomps(self):
        return [c for d in self._d for c in d]

    def sidx(self, vidx):
        """flat component indices -> storage indices"""
        out = list(self.off)
        for c, v in zip(self.flatcomps(), vidx):
            if c.sd is None:
                continue
            if is_c(c.step, 1):
                add = v
            else:
                add = c.step * v
            out[c.sd] = add if is_c(out[c.sd], 0) else out[c.sd] + add
        return out

    def snapshot(self):
        """function flat component indices -> term, frozen at the present content"""
        fn = self.st.fn
        return lambda vidx: fn(self.sidx(list(vidx)))

    def nf_snapshot(self):
        if self.st.nf is None:
            return None
        fn = self.st.nf
        return lambda vidx: fn(self.sidx(list(vidx)))

    def at(self, *vidx):
        """Read at one index per view dimension (python ints / terms); multi-component dims take tuples or flat terms."""
        flat = []
        for d, i in zip(self._d, vidx):
            if isinstance(i, (tuple, list)):
                flat += [dterm(x) if not isinstance(x, z3.ExprRef) else x for x in i]
            elif len(d) == 1:
                flat.append(dterm(i) if not isinstance(i, z3.ExprRef) else i)
            else:
                flat += split_flat(dterm(i) if not isinstance(i, z3.ExprRef) else i, [c.size for c in d])
        return self.snapshot()(flat)

    def bind(self, name="i"):
        """Fresh in-range index (flat component list) and its range guard."""
        idx, g = [], []
        for k, d in enumerate(self._d):
            start = len(idx)
            for c in d:
                v = fresh(name)
                idx.append(v)
                g += [v >= 0, v < c.size]
            if k in self.masks:
                g.append(self.masks[k].guard(idx[start:]))
        return idx, mkand(*g)

    # ---- python protocol
    def __bool__(self):
        return bool(self.item_scalar())

    def item_scalar(self):
        for d in range(self.ndim):
            if not dim_eq(self.dim_size(d), ONE):
                raise RuntimeError("a Tensor with more than 1 element cannot be converted to Scalar")
        idx = [ZERO] * len(self.flatcomps())
        if self.masks:
            raise Unsupported("item of masked tensor")
        t = self.snapshot()(idx)
        nf = self.nf_snapshot()
        r = wrap(t)
        if nf is not None and not isinstance(r, SBool):
            if not isinstance(r, SVal):
                r = SReal(toreal(t))
            r.kind = nf(idx)
        return r

    def item(self):
        r = self.item_scalar()
        if isinstance(r, int) and self.dtype.kind == "f":
            return float(r)
        if isinstance(r, SReal) and z3.is_rational_value(r.t) and r.kind is None:
            f = r.t.as_fraction()
            if Fraction(float(f)) == f:
                return float(f)
        return r

    def __dv_scalar__(self):
        r = self.item_scalar()
        if isinstance(r, SVal):
            return r
        t = lift(r)
        return SBool(t) if t.sort() == B else (SInt(t) if t.sort() == I else SReal(t))

    def __dv_int__(self):
        from . import builtins_shim as bs
        return bs.dv_int(self.item())

    def __dv_float__(self):
        from . import builtins_shim as bs
        return bs.dv_float(self.item())

    def __float__(self):
        v = self.item()
        if isinstance(v, SVal):
            raise Unsupported("native float() of symbolic tensor")
        return float(v)

    def __int__(self):
        v = self.item()
        if isinstance(v, SVal):
            raise Unsupported("native int() of symbolic tensor")
        return int(v)

    def __index__(self):
        v = self.item()
        if isinstance(v, SVal):
            raise Unsupported("native index of symbolic tensor")
        return int(v)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        n = self.__dv_len__()
        if not isinstance(n, int):
            from . import seq
            return seq.SymSeq(n, lambda i: self[wrap(i)].tolist(), name="tolist")
        return [self[i].tolist() for i in range(n)]

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        n = self.__dv_len__()
        if not isinstance(n, int):
            raise Unsupported("native iteration over a symbolic dimension")
        return iter([self[i] for i in range(n)])

    def unbind(self, dim=0):
        n = self.shape[dim]
        if not isinstance(n, int):
            raise Unsupported("unbind of a symbolic dimension")
        return tuple(self.select(dim, i) for i in range(n))

    def __repr__(self):
        return f"<STensor {self.shape} {self.dtype}>"

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo_):
        return self.clone()

    __hash__ = object.__hash__

    def detach(self): return self.like(self._d, masks=dict(self.masks))
    def cpu(self): return self if self.device.type == "cpu" else self.to("cpu")
    def contiguous(self, **k): return self
    def is_contiguous(self): return True
    def is_floating_point(self): return self.dtype.kind == "f"
    def is_complex(self): return False
    def requires_grad_(self, *a): return self
    def numpy(self, **k): return self
    def data_ptr(self): return id(self.st)
    @property
    def data(self): return self
    @property
    def T(self): return self.permute(*reversed(range(self.ndim)))
    @property
    def mT(self): return self.transpose(-1, -2)
    @property
    def is_cuda(self): return self.device.type == "cuda"

    def clone(self, **k):
        fn, nf = self.snapshot(), self.nf_snapshot()
        return STensor.new([[c.size for c in d] for d in self._d], fn, self.dtype, self.device, nf=nf,
                           masks=dict(self.masks))

    copy = clone

    def tobytes(self):
        raise Unsupported("tobytes")

    # ---- dtype/device
    def to(self, *args, dtype=None, device=None, copy=False, non_blocking=False, **kw):
        for a in args:
            if isinstance(a, DType):
                dtype = a
            elif isinstance(a, (Device, str)):
                device = a
            elif isinstance(a, STensor):
                dtype, device = a.dtype, a.device
            elif a is None:
                pass
            elif isinstance(a, bool):
                pass
            else:
                raise Unsupported(f"to({type(a).__name__})")
        device = as_device(device) if device is not None else self.device
        dtype = dtype or self.dtype
        if dtype is self.dtype and device == self.device and not copy:
            return self
        r = cast(self, dtype)
        if r.st is self.st:
            r = self.clone()
        r.device = device
        return r

    def type(self, dt): return self.to(dt)
    def astype(self, dt, copy=True): return self.to(dt)
    def type_as(self, o): return self.to(o.dtype)
    def float(self): return self.to(float32)
    def double(self): return self.to(float64)
    def long(self): return self.to(int64)
    def int(self): return self.to(int32)
    def bool(self): return self.to(bool_)
    def cuda(self, *a): return self.to("cuda")

    # ---- views
    def _norm(self, d, extra=0):
        n = self.ndim + extra
        if not -max(n, 1) <= d < max(n, 1):
            raise IndexError(f"Dimension out of range (got {d})")
        return d % n if n else 0

    def unsqueeze(self, d):
        d = self._norm(d, 1)
        comps = self._d[:d] + [[Comp(ONE, None)]] + self._d[d:]
        return self.like(comps, masks={(k if k < d else k + 1): m for k, m in self.masks.items()})

    def squeeze(self, d=None):
        if d is None:
            drop = [i for i in range(self.ndim) if dim_eq(self.dim_size(i), ONE)]
        elif isinstance(d, (tuple, list)):
            drop = [self._norm(i) for i in d if dim_eq(self.dim_size(self._norm(i)), ONE)]
        else:
            if self.ndim == 0:
                return self
            d = self._norm(d)
            drop = [d] if dim_eq(self.dim_size(d), ONE) else []
        r = self
        for i in sorted(drop, reverse=True):
            r = r.select(i, 0)
        return r

    def permute(self, *dims):
        if len(dims) == 1 and isinstance(dims[0], (tuple, list)):
            dims = dims[0]
        dims = [self._norm(d) for d in dims]
        return self.like([self._d[d] for d in dims], masks={i: self.masks[d] for i, d in enumerate(dims) if d in self.masks})

    def transpose(self, a, b):
        p = list(range(self.ndim))
        a, b = self._norm(a), self._norm(b)
        p[a], p[b] = p[b], p[a]
        return self.permute(*p)

    swapaxes = transpose

    def t(self): return self.transpose(0, 1) if self.ndim == 2 else self

    def expand(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = sizes[0]
        extra = len(sizes) - self.ndim
        if extra < 0:
            raise RuntimeError("expand: too few dimensions")
        comps, masks = [], {}
        for k, s in enumerate(sizes):
            if k < extra:
                comps.append([Comp(dterm(s), None)])
                continue
            d = self._d[k - extra]
            if isinstance(s, int) and s == -1:
                comps.append(d)
                if k - extra in self.masks:
                    masks[k] = self.masks[k - extra]
                continue
            st = dterm(s)
            cur = self.dim_size(k - extra)
            if same(cur, st):
                comps.append(d)
                if k - extra in self.masks:
                    masks[k] = self.masks[k - extra]
            elif dim_eq(cur, ONE):
                comps.append([Comp(st, None)])
            elif dim_eq(cur, st):
                comps.append(d)
            else:
                raise RuntimeError("The expanded size of the tensor must match the existing size")
        off = list(self.off)
        return self.like(comps, off, masks=masks)

    def expand_as(self, o): return self.expand(*o.shape)

    def broadcast_to(self, *s):
        return self.expand(*s)

    def repeat(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = sizes[0]
        extra = len(sizes) - self.ndim
        r = self
        for _ in range(extra):
            r = r.unsqueeze(0)
        dims = []
        mp = []
        for k, s in enumerate(sizes):
            st = dterm(s)
            own = [c.size for c in r._d[k]]
            if is_c(st, 1):
                dims.append(own)
                mp.append("own")
            elif same(r.dim_size(k), ONE):
                dims.append([st])
                mp.append("one")
            else:
                dims.append([st] + own)
                mp.append("both")
        fn = r.snapshot()
        lens = [len(d) for d in r._d]

        def g(idx):
            out, p = [], 0
            for k, m in enumerate(mp):
                if m == "own":
                    out += idx[p:p + lens[k]]
                    p += lens[k]
                elif m == "one":
                    out += [ZERO] * lens[k]
                    p += 1
                else:
                    out += idx[p + 1:p + 1 + lens[k]]
                    p += 1 + lens[k]
            return fn(out)
        return STensor.new(dims, g, self.dtype, self.device)

    tile = repeat

    def select(self, d, i):
        d = self._norm(d)
        if d in self.masks:
            return self.materialize_mask(d).select(d, i)
        size = self.dim_size(d)
        it = norm_int_index(i, size)
        vals = [it] if len(self._d[d]) == 1 else split_flat(it, [c.size for c in self._d[d]])
        off = list(self.off)
        for c, v in zip(self._d[d], vals):
            if c.sd is None:
                continue
            add = v if is_c(c.step, 1) else c.step * v
            off[c.sd] = add if is_c(off[c.sd], 0) else sums.canon(off[c.sd] + add)
        return self.like(self._d[:d] + self._d[d + 1:], off, masks={(k if k < d else k - 1): m for k, m in self.masks.items() if k != d})

    def narrow(self, d, start, length):
        return self._slice(self._norm(d), slice(start, start + length))

    def _slice(self, d, s):
        if s.start is None and s.stop is None and s.step is None:
            return self
        if d in self.masks:
            return self.materialize_mask(d)._slice(d, s)
        size = self.dim_size(d)
        step = 1 if s.step is None else s.step
        if not isinstance(step, int) or step < 1:
            if isinstance(step, int):
                raise ValueError("step must be greater than zero")
            raise Unsupported("symbolic slice step")
        a = clamp_index(s.start, size, ZERO)
        b = clamp_index(s.stop, size, size)
        if is_c(a, 0) and same(b, size) and step == 1:
            return self
        ln = sums.canon(b - a)
        if is_c(ln):
            ln = z3.IntVal(max(0, ln.as_long()))
        elif not core.ctx().entails(ln >= 0):
            if core.ctx().branch(ln >= 0, "slice non-empty"):
                pass
            else:
                ln = ZERO
        if step != 1:
            ln = sums.canon((ln + (step - 1)) / z3.IntVal(step)) if not is_c(ln) else z3.IntVal(-(-ln.as_long() // step))
        comp = self._d[d]
        src = self
        if len(comp) != 1:
            src = self.materialize_flat(d)
            comp = src._d[d]
        c = comp[0]
        off = list(src.off)
        if c.sd is not None:
            add = a if is_c(c.step, 1) else c.step * a
            off[c.sd] = add if is_c(off[c.sd], 0) else sums.canon(off[c.sd] + add)
        nstep = c.step if step == 1 else sums.canon(c.step * step)
        return src.like(src._d[:d] + [[Comp(ln, c.sd, nstep)]] + src._d[d + 1:], off, masks=dict(src.masks))

    def materialize_flat(self, d):
        """Copy whose dim d has a single component (index by IDIV/mod splitting)."""
        sz = [c.size for c in self._d[d]]
        fn = self.snapshot()
        pre = sum(len(x) for x in self._d[:d])
        dims = [[c.size for c in x] for x in self._d]
        dims[d] = [self.dim_size(d)]
        return STensor.new(dims, lambda idx: fn(list(idx[:pre]) + split_flat(idx[pre], sz) + list(idx[pre + 1:])),
                           self.dtype, self.device)

    def mask_enum(self, d):
        m = self.masks[d]
        return enum_for(m, [c.size for c in self._d[d]])

    def materialize_mask(self, d):
        """Copy in which a masked dimension is indexed by position through its enumeration."""
        en = self.mask_enum(d)
        fn = self.snapshot()
        pre = sum(len(x) for x in self._d[:d])
        dims = [[c.size for c in x] for x in self._d]
        dims[d] = [en.count_term]
        masks = {k: m for k, m in self.masks.items() if k != d}
        return STensor.new(dims, lambda idx: fn(list(idx[:pre]) + [c(*en.params, idx[pre]) for c in en.comps] + list(idx[pre + 1:])),
                           self.dtype, self.device, masks=masks)

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def view(self, *sizes):
        if len(sizes) == 1 and isinstance(sizes[0], (tuple, list)):
            sizes = sizes[0]
        if len(sizes) == 1 and isinstance(sizes[0], DType):
            raise Unsupported("view as dtype")
        return reshape(self, list(sizes))

    reshape = view

    def view_as(self, o): return self.view(*o.shape)
    def reshape_as(self, o): return self.view(*o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        if self.ndim == 0:
            return self.unsqueeze(0)
        a, b = self._norm(start_dim), self._norm(end_dim)
        merged = [c for d in self._d[a:b + 1] for c in d]
        ones = [c for c in merged if not (is_c(c.size, 1) and c.sd is None)] or merged[:1]
        return self.like(self._d[:a] + [ones] + self._d[b + 1:])

    def ravel(self): return self.flatten()

    def unflatten(self, d, sizes):
        d = self._norm(d)
        return self.view(*(list(self.shape[:d]) + list(sizes) + list(self.shape[d + 1:])))

    def diagonal(self, *a, **k): raise Unsupported("diagonal")

    # ---- in-place
    def copy_(self, o):
        write(self, o)
        return self

    def fill_(self, v):
        write(self, v)
        return self

    def zero_(self):
        return self.fill_(0)

    def _inplace(self, r):
        write(self, r)
        return self

    def __iadd__(self, o): return self._inplace(binop("add", self, o))
    def __isub__(self, o): return self._inplace(binop("sub", self, o))
    def __imul__(self, o): return self._inplace(binop("mul", self, o))
    def __itruediv__(self, o): return self._inplace(binop("div", self, o))
    def add_(self, o, alpha=1): return self._inplace(binop("add", self, binop("mul", o, alpha) if alpha != 1 else o))
    def sub_(self, o): return self._inplace(binop("sub", self, o))
    def mul_(self, o): return self._inplace(binop("mul", self, o))
    def div_(self, o): return self._inplace(binop("div", self, o))
    def clamp_(self, min=None, max=None): return self._inplace(self.clamp(min, max))

    def __ior__(self, o): return self._inplace(binop("or", self, o))
    def __iand__(self, o): return self._inplace(binop("and", self, o))

    def scatter_add_(self, dim, index, src):
        d = self._norm(dim)
        if self.ndim != 1:
            raise Unsupported("scatter_add_ on several dims")
        if index.dtype.kind != "i":
            raise RuntimeError("scatter(): Expected dtype int64 for index")
        fi, fs = index.snapshot(), src.snapshot()
        old = self.snapshot()
        # index range obligation
        bi, g = index.bind("sc")
        core.ctx().oblige("scatter_add_ index in range", z3.Implies(g, z3.And(fi(bi) >= 0, fi(bi) < self.dim_size(0))))
        pair_dims(index, src)
        if src.dtype is not self.dtype:
            raise RuntimeError("scatter(): Expected self.dtype to be equal to src.dtype")
        comps = [c.size for c in self._d[0]]

        def fn(idx):
            flat = horner(idx, comps)
            b, g = index.bind("sc")
            return toreal(old(idx)) + sums.mk_sum(b, mkand(g, fi(b) == flat), toreal(fs(b)))
        tmp = STensor.new([comps], fn, self.dtype, self.device)
        write(self, tmp)
        return self

    def index_add_(self, dim, index, src, alpha=1):
        d = self._norm(dim)
        if len(index._d) != 1:
            raise RuntimeError("index_add_(): index must be 1-D")
        fi, fs = index.snapshot(), src.snapshot()
        old = self.snapshot()
        dims = [[c.size for c in x] for x in self._d]
        pre = sum(len(x) for x in self._d[:d])
        w = len(self._d[d])
        bi, g = index.bind("ia")
        core.ctx().oblige("index_add_ index in range", z3.Implies(g, z3.And(fi(bi) >= 0, fi(bi) < self.dim_size(d))))

        def fn(idx):
            flat = horner(idx[pre:pre + w], dims[d])
            b, g = index.bind("ia")
            return toreal(old(idx)) + sums.mk_sum(b, mkand(g, fi(b) == flat), toreal(fs(list(idx[:pre]) + b + list(idx[pre + w:]))) * toreal(lift(alpha)))
        write(self, STensor.new(dims, fn, self.dtype, self.device))
        return self

    def index_put_(self, idxs, values, accumulate=False):
        if not accumulate or len(idxs) != self.ndim:
            raise Unsupported("index_put_")
        fl = None
        flat_self = self.flatten()
        for k, ix in enumerate(idxs):
            fl = ix if fl is None else binop("add", binop("mul", fl, szv(self.dim_size(k))), ix)
        flat_self.scatter_add_(0, fl.flatten(), values.expand(*fl.shape).flatten())
        return self

    # ---- arithmetic
    def __add__(self, o): return binop("add", self, o)
    def __radd__(self, o): return binop("add", o, self)
    def __sub__(self, o): return binop("sub", self, o)
    def __rsub__(self, o): return binop("sub", o, self)
    def __mul__(self, o): return binop("mul", self, o)
    def __rmul__(self, o): return binop("mul", o, self)
    def __truediv__(self, o): return binop("div", self, o)
    def __rtruediv__(self, o): return binop("div", o, self)
    def __floordiv__(self, o): return binop("fdiv", self, o)
    def __rfloordiv__(self, o): return binop("fdiv", o, self)
    def __mod__(self, o): return binop("mod", self, o)
    def __rmod__(self, o): return binop("mod", o, self)
    def __pow__(self, o): return binop("pow", self, o)
    def __rpow__(self, o): return binop("pow", o, self)
    def __neg__(self): return unop("neg", self)
    def __pos__(self): return self
    def __abs__(self): return unop("abs", self)
    def __invert__(self): return unop("not", self)
    def __and__(self, o): return binop("and", self, o)
    __rand__ = __and__
    def __or__(self, o): return binop("or", self, o)
    __ror__ = __or__
    def __xor__(self, o): return binop("xor", self, o)
    def __lt__(self, o): return binop("lt", self, o)
    def __le__(self, o): return binop("le", self, o)
    def __gt__(self, o): return binop("gt", self, o)
    def __ge__(self, o): return binop("ge", self, o)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return binop("eq", self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return binop("ne", self, o)
    def __matmul__(self, o): return matmul(self, o)

    def add(self, o, alpha=1): return binop("add", self, binop("mul", o, alpha) if alpha != 1 else o)
    def sub(self, o, alpha=1): return binop("sub", self, binop("mul", o, alpha) if alpha != 1 else o)
    def mul(self, o): return binop("mul", self, o)
    multiply = mul
    def div(self, o, rounding_mode=None):
        if rounding_mode == "floor":
            return binop("fdiv", self, o)
        if rounding_mode is not None:
            return binop("div", self, o).trunc()
        return binop("div", self, o)
    def pow(self, o): return binop("pow", self, o)
    def remainder(self, o): return binop("mod", self, o)
    def floor_divide(self, o): return binop("fdiv", self, o)
    def lt(self, o): return binop("lt", self, o)
    def le(self, o): return binop("le", self, o)
    def gt(self, o): return binop("gt", self, o)
    def ge(self, o): return binop("ge", self, o)
    def eq(self, o): return binop("eq", self, o)
    def ne(self, o): return binop("ne", self, o)
    def logical_and(self, o): return binop("and", self, o)
    def logical_or(self, o): return binop("or", self, o)
    def logical_not(self): return unop("not", self)
    def neg(self): return unop("neg", self)
    def abs(self): return unop("abs", self)
    def sqrt(self): return unop("sqrt", self)
    def square(self): return binop("mul", self, self)
    def floor(self): return unop("floor", self)
    def ceil(self): return unop("ceil", self)
    def round(self): return unop("round", self)
    def trunc(self): return unop("trunc", self)
    def cos(self): return unop("cos", self)
    def sin(self): return unop("sin", self)
    def exp(self): return unop("exp", self)
    def sinc(self): return unop("sinc", self)
    def sign(self): return unop("sign", self)
    def reciprocal(self): return binop("div", 1.0, self)
    def isfinite(self): return unop("isfinite", self)
    def isnan(self): return unop("isnan", self)
    def isinf(self): return unop("isinf", self)

    def clamp(self, min=None, max=None):
        r = self
        if min is not None:
            r = binop("max", r, min)
        if max is not None:
            r = binop("min", r, max)
        return r

    clip = clamp
    def clamp_min(self, m): return binop("max", self, m)
    def clamp_max(self, m): return binop("min", self, m)
    def maximum(self, o): return binop("max", self, o)
    def minimum(self, o): return binop("min", self, o)

    # ---- reductions
    def sum(self, dim=None, keepdim=False, dtype=None, axis=None):
        return reduce_sum(self, dim if axis is None else axis, keepdim, dtype)

    def prod(self, dim=None, keepdim=False, dtype=None): return reduce_finite("prod", self, dim, keepdim)
    def mean(self, dim=None, keepdim=False):
        s = reduce_sum(self, dim, keepdim, None)
        dims = range(self.ndim) if dim is None else ([dim] if isinstance(dim, int) else dim)
        n = prod_terms([self.dim_size(self._norm(d)) for d in dims])
        return binop("div", s, szv(n))
    def any(self, dim=None, keepdim=False): return reduce_bool("any", self, dim, keepdim)
    def all(self, dim=None, keepdim=False): return reduce_bool("all", self, dim, keepdim)
    def max(self, dim=None, keepdim=False):
        if isinstance(dim, STensor):
            return binop("max", self, dim)
        return reduce_minmax("max", self, dim, keepdim)
    def min(self, dim=None, keepdim=False):
        if isinstance(dim, STensor):
            return binop("min", self, dim)
        return reduce_minmax("min", self, dim, keepdim)
    def amax(self, dim=None, keepdim=False):
        r = reduce_minmax("max", self, dim, keepdim)
        return r[0] if isinstance(r, tuple) else r
    def amin(self, dim=None, keepdim=False):
        r = reduce_minmax("min", self, dim, keepdim)
        return r[0] if isinstance(r, tuple) else r
    def norm(self, p=2, dim=None, keepdim=False): return vnorm(self, p, dim, keepdim)
    def take(self, index): return take(self, index)
    def index_select(self, dim, index):
        key = [slice(None)] * self.ndim
        key[self._norm(dim)] = index
        return self[tuple(key)]
    def gather(self, *a, **k): raise Unsupported("gather")
    def masked_fill(self, mask, v): return where(mask, v, self)
    def unfold(self, *a): raise Unsupported("unfold")
    def new_zeros(self, *s, dtype=None, device=None):
        from . import shim_torch
        return shim_torch.torch.zeros(*s, dtype=dtype or self.dtype, device=device or self.device)
    def new_tensor(self, v, dtype=None, device=None):
        from . import shim_torch
        return shim_torch.torch.tensor(v, dtype=dtype or self.dtype, device=device or self.device)
    def new_full(self, s, v, dtype=None, device=None):
        from . import shim_torch
        return shim_torch.torch.full(s, v, dtype=dtype or self.dtype, device=device or self.device)

    def __getattr__(self, name):
        if name.startswith("__") or name not in real_names():
            raise AttributeError(f"'Tensor' object has no attribute '{name}'")
        raise Unsupported(f"Tensor.{name}")


NAMES = []


def real_names():
    """the attribute names of the real torch.Tensor (regenerate: dir(torch.Tensor))"""
    if not NAMES:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tensor_names.json")) as f:
            NAMES.append(frozenset(json.load(f)))
    return NAMES[0]


# --------------------------------------------------------------------------- index helpers
def horner(idx, sizes):
    r = None
    for v, s in zip(idx, sizes):
        r = v if r is None else r * s + v
    return ZERO if r is None else r


def split_flat(flat, sizes):
    """flat index -> component indices (row-major)."""
    sizes = list(sizes)
    if len(sizes) == 1:
        return [flat]
    live = [k for k, s in enumerate(sizes) if not is_c(s, 1)]
    if len(live) <= 1:
        return [flat if (k in live) else ZERO for k in range(len(sizes))]
    last = sizes[-1]
    # polynomial splitting: flat = q*last + r with 0 <= r < last
    p = sums.poly(flat)
    if is_c(last):
        n = last.as_long()
        q, r = sums.canon(flat / z3.IntVal(n)), sums.canon(flat % z3.IntVal(n))
        return split_flat(q, sizes[:-1]) + [r]
    lp = sums.poly(last)
    if len(lp) == 1 and list(lp.values()) == [1] and len(list(lp)[0]) == 1:
        a = list(lp)[0][0]
        q, r = {}, {}
        for m, c in p.items():
            if a in m:
                mm = list(m)
                mm.remove(a)
                q[tuple(mm)] = c
            else:
                r[m] = c
        try:
            rt, qt = sums.build(r, I), sums.build(q, I)
            if core.ctx().entails(z3.And(rt >= 0, rt < last)):
                return split_flat(qt, sizes[:-1]) + [rt]
        except Unsupported:
            pass
    q = core.IDIV(flat, last)
    return split_flat(q, sizes[:-1]) + [flat - q * last]


def norm_int_index(i, size):
    it = dterm(i) if not isinstance(i, z3.ExprRef) else i
    c = core.ctx()
    if is_c(it):
        v = it.as_long()
        if is_c(size):
            n = size.as_long()
            if not -n <= v < n:
                raise IndexError(f"index {v} is out of bounds for dimension with size {n}")
            return z3.IntVal(v % n)
        if v >= 0:
            if not c.entails(it < size) and not c.branch(it < size, "index in range"):
                raise IndexError("index out of range")
            return it
        if not c.entails(size + it >= 0) and not c.branch(size + it >= 0, "index in range"):
            raise IndexError("index out of range")
        return sums.canon(size + it)
    if not c.entails(it >= 0):
        if not c.branch(it >= 0, "index non-negative"):
            if not c.branch(it + size >= 0, "index in range"):
                raise IndexError("index out of range")
            return sums.canon(size + it)
    if not c.entails(it < size) and not c.branch(it < size, "index in range"):
        raise IndexError("index out of range")
    return it


def clamp_index(i, size, default):
    if i is None:
        return default
    if isinstance(i, STensor):
        i = i.item()
    it = dterm(i) if not isinstance(i, z3.ExprRef) else i
    c = core.ctx()
    if is_c(it):
        v = it.as_long()
        if is_c(size):
            n = size.as_long()
            v = v + n if v < 0 else v
            return z3.IntVal(min(max(v, 0), n))
        if v == 0:
            return it
        if v < 0:
            t = sums.canon(size + it)
            return t if c.entails(t >= 0) else mkif(t >= 0, t, ZERO)
        return it if c.entails(it <= size) else mkif(it <= size, it, size)
    if same(it, size):
        return size
    if not c.entails(it >= 0):
        if not c.branch(it >= 0, "slice bound non-negative"):
            t = sums.canon(size + it)
            return t if c.entails(t >= 0) else mkif(t >= 0, t, ZERO)
    return it if c.entails(it <= size) else mkif(it <= size, it, size)


_ENUM_CACHE = {}


class EnumInst:
    def __init__(self, comps, count_term, params):
        self.comps, self.count_term, self.params = comps, count_term, params


def enum_for(m: MaskDim, sizes):
    """Enumeration (in row-major order) of the index tuples satisfying the mask."""
    ph = [z3.Int(f"ph!!{i}") for i in range(len(sizes))]
    g = sums.canonb(m.guard(ph))
    names = {p.decl().name() for p in ph}
    fc = {}
    for t in [g] + list(sizes):
        fc.update(core.free_consts(t))
    params = [fc[n] for n in sorted(fc) if n not in names]
    key = (g.get_id(), tuple(s.get_id() for s in sizes))
    e = _ENUM_CACHE.get(key)
    if e is None:
        k = len(_ENUM_CACHE)
        sorts = [p.sort() for p in params]
        comps = [z3.Function(f"enum!{k}!c{j}", *sorts, I, I) for j in range(len(sizes))]
        count = z3.Function(f"enum!{k}!n", *sorts, I) if sorts else z3.Int(f"enum!{k}!n")
        inv = z3.Function(f"enum!{k}!inv", *sorts, *([I] * len(sizes)), I)

        def sizes_of(*ps):
            return [z3.substitute(s, *zip(params, ps)) if params else s for s in sizes]

        def guard_of(*a):
            ps, xs = a[:len(params)], a[len(params):]
            return z3.substitute(g, *(list(zip(params, ps)) + list(zip(ph, xs))))
        en = sums.Enum(comps, inv, count if sorts else count, sizes_of, guard_of)
        for c in comps:
            sums.ENUMS[c.name()] = (en,)

        def ax(a, comps=comps, count=count, params=params):
            ps = a.children()[:len(params)]
            b = a.arg(a.num_args() - 1)
            cnt = count(*ps) if params else count
            xs = [c(*ps, b) for c in comps]
            szs = sizes_of(*ps)
            return [z3.Implies(z3.And(b >= 0, b < cnt), z3.And(guard_of(*ps, *xs), *[z3.And(x >= 0, x < s) for x, s in zip(xs, szs)],
                                                             inv(*ps, *xs) == b)), cnt >= 0]
        for c in comps:
            core.AXIOMS[c.name()] = ax

        def axinv(a, comps=comps, count=count, params=params):
            ps = a.children()[:len(params)]
            xs = a.children()[len(params):]
            cnt = count(*ps) if params else count
            szs = sizes_of(*ps)
            b = inv(*ps, *xs)
            return [z3.Implies(z3.And(guard_of(*ps, *xs), *[z3.And(x >= 0, x < s) for x, s in zip(xs, szs)]),
                               z3.And(b >= 0, b < cnt, *[c(*ps, b) == x for c, x in zip(comps, xs)]))]
        core.AXIOMS[inv.name()] = axinv
        if sorts:
            core.AXIOMS[count.name()] = lambda a: [a >= 0]
        e = (en, params)
        _ENUM_CACHE[key] = e
    en, params = e
    cnt = en.count(*params) if params else en.count
    c = core.ctx()
    if not params:
        c.assume(cnt >= 0)
    seen = c.__dict__.setdefault("enum_seen", set())
    if (id(en), tuple(p.get_id() for p in params)) not in seen:
        # every index tuple satisfying the mask has a position (instantiated at candidate tuples)
        seen.add((id(en), tuple(p.get_id() for p in params)))
        n = len(en.comps)

        def facts(*xs):
            b = en.inv(*params, *xs)
            return z3.Implies(z3.And(en.guard(*params, *xs), *[z3.And(x >= 0, x < q) for x, q in zip(xs, en.sizes(*params))]),
                              z3.And(b >= 0, b < cnt, *[f(*params, b) == x for f, x in zip(en.comps, xs)]))
        c.add_ufact(core.UFact(n, facts))
    return EnumInst(en.comps, cnt, params)


def const_tensor(v, dtype=None, device=CPU):
    """python / symbolic scalar -> 0-d tensor"""
    kind = v.kind if isinstance(v, SVal) else None
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        kind = z3.IntVal(3 if v != v else (1 if v > 0 else 2))
        t = z3.RealVal(0)
        dt = _default_dtype
    else:
        t = lift(v)
        dt = {B: bool_, I: int64, R: _default_dtype}[t.sort()]
    r = STensor.new([], lambda idx: t, dt, device, nf=(lambda idx: kind) if kind is not None else None)
    r._weak = True
    return cast(r, dtype) if dtype is not None and dtype is not dt else r


def is_scalar(x):
    return isinstance(x, (int, float, SVal)) and not isinstance(x, STensor)


NARROW = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767)}
_exact = {"float16": 2048, "bfloat16": 256}
_narrowed = {}


def narrowed(t, to):
    """The value a narrow machine type holds: exact inside its range, otherwise an unspecified function of the value
    (wrapping of small integers, rounding of half-precision numbers)."""
    lim = NARROW.get(to.name)
    if lim is None and to.name not in _exact:
        return t
    key = (to.name, t.get_id())
    if key in _narrowed:
        return t
    if lim is not None:
        v = t.as_long() if z3.is_int_value(t) else None
        if v is not None and lim[0] <= v <= lim[1]:
            return t
        r = z3.If(z3.And(t >= lim[0], t <= lim[1]), t, z3.Function("WRAP_" + to.name, I, I)(t))
    else:
        m = _exact[to.name]
        if z3.is_rational_value(t):
            f = t.as_fraction()
            if f.denominator == 1 and abs(f) <= m:
                return t
        r = z3.If(z3.And(z3.IsInt(t), t >= -m, t <= m), t, z3.Function("ROUND_" + to.name, R, R)(t))
    _narrowed[(to.name, r.get_id())] = r
    return r


def cast_term(t, frm, to):
    r = cast_term_(t, frm, to)
    return narrowed(r, to) if to.bits < 32 and to.kind in "if" else r


def cast_term_(t, frm, to):
    if to.kind == "f":
        return toreal(t)
    if to.kind == "i":
        if t.sort() == I:
            return t
        if t.sort() == B:
            return mkif(t, ONE, ZERO)
        for hook in core.FLOOR_HOOKS:
            r = hook(t)
            if r is not None:
                return r
        f = sums.canon(toint_floor(t))
        if z3.is_rational_value(t):
            fr = t.as_fraction()
            return z3.IntVal(int(fr))
        if is_floor_of(t) is not None:
            return is_floor_of(t)
        if core.ctx().entails(t >= 0, 300):
            return f
        return mkif(t >= 0, f, -toint_floor(-t))
    if to.kind == "b":
        if t.sort() == B:
            return t
        return t != 0
    raise Unsupported("cast to " + to.name)


def is_floor_of(t):
    """t is ToReal(int term): its truncation is that int."""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = is_floor_of(t.arg(1)), is_floor_of(t.arg(2))
        if a is not None and b is not None:
            return z3.If(t.arg(0), a, b)
    return None


def cast(t, dtype):
    if dtype is t.dtype:
        return t
    if dtype.kind == "c":
        raise Unsupported("complex tensors")
    fn, nf = t.snapshot(), t.nf_snapshot()
    frm = t.dtype
    if nf is not None and dtype.kind != "f":
        nf = None if dtype.kind == "b" else nf
        if dtype.kind == "i":
            raise Unsupported("cast of possibly non-finite values to int")
    return STensor.new([[c.size for c in d] for d in t._d], lambda idx: cast_term(fn(idx), frm, dtype), dtype, t.device,
                       nf=nf, masks=dict(t.masks))


def to_tensor(x, device=CPU):
    if isinstance(x, STensor):
        return x
    if is_scalar(x):
        return const_tensor(x, device=device)
    raise Unsupported(f"tensor operand {type(x).__name__}")


# --------------------------------------------------------------------------- broadcasting
def pair_dims(*ts):
    """Broadcast: result dims (list of component-size lists), masks and per-operand index maps."""
    n = max(t.ndim for t in ts)
    dims, masks = [], {}
    maps = [[None] * n for _ in ts]     # per operand per result dim: ("own"|"one"|"flat"|None)
    for k in range(n):
        cands = []
        for ti, t in enumerate(ts):
            j = k - (n - t.ndim)
            if j < 0:
                continue
            cands.append((ti, j))
        main = None
        for ti, j in cands:
            t = ts[ti]
            if j not in t.masks and all(is_c(c.size, 1) for c in t._d[j]):
                continue
            if main is None:
                main = (ti, j)
                continue
            mt, mj = ts[main[0]], main[1]
            # prefer masked or multi-component description
            if (j in t.masks and mj not in mt.masks) or (len(t._d[j]) > len(mt._d[mj]) and mj not in mt.masks):
                main = (ti, j)
        if main is None:
            dims.append([ONE])
            for ti, j in cands:
                maps[ti][k] = ("one", len(ts[ti]._d[j]))
            continue
        mt, mj = ts[main[0]], main[1]
        msz = [c.size for c in mt._d[mj]]
        # decide sizes
        for ti, j in cands:
            t = ts[ti]
            own = [c.size for c in t._d[j]]
            if j not in t.masks and all(is_c(s, 1) for s in own):
                maps[ti][k] = ("one", len(own))
                continue
            if mj in mt.masks or j in t.masks:
                if mj in mt.masks and j in t.masks:
                    if mt.masks[mj] is t.masks[j] or mt.masks[mj].key == t.masks[j].key or same_mask(mt, mj, t, j):
                        maps[ti][k] = ("own", len(own))
                        continue
                    raise Unsupported("operands masked by different masks")
                raise Unsupported("masked operand with unmasked operand")
            if len(own) == len(msz) and all(same(a, b) for a, b in zip(own, msz)):
                maps[ti][k] = ("own", len(own))
                continue
            sa, sb = prod_terms(own), prod_terms(msz)
            if not same(sa, sb):
                if is_c(sa) and is_c(sb):
                    raise RuntimeError(f"The size of tensor a ({sa}) must match the size of tensor b ({sb})")
                if dim_eq(sa, sb):
                    pass
                elif dim_eq(sa, ONE):
                    maps[ti][k] = ("one", len(own))
                    continue
                elif dim_eq(sb, ONE):
                    # main is really size one: switch main
                    for tj in range(len(ts)):
                        if maps[tj][k] and maps[tj][k][0] in ("own", "flat"):
                            maps[tj][k] = ("one", len(ts[tj]._d[k - (n - ts[tj].ndim)]))
                    maps[main[0]][k] = ("one", len(msz))
                    main = (ti, j)
                    mt, mj, msz = t, j, own
                    maps[ti][k] = ("own", len(own))
                    continue
                else:
                    raise RuntimeError("The size of tensor a must match the size of tensor b")
            if len(own) == 1:
                maps[ti][k] = ("flat", 1, msz)
            elif len(msz) == len(own):
                maps[ti][k] = ("own", len(own))
            else:
                maps[ti][k] = ("resplit", len(own), msz, own)
        dims.append(msz)
        if mj in mt.masks:
            masks[k] = mt.masks[mj]
    lens = [len(d) for d in dims]

    def mapper(ti):
        mp = maps[ti]

        def f(idx):
            out, p = [], 0
            for k in range(n):
                m = mp[k]
                part = idx[p:p + lens[k]]
                p += lens[k]
                if m is None:
                    continue
                if m[0] == "own":
                    out += part
                elif m[0] == "one":
                    out += [ZERO] * m[1]
                elif m[0] == "flat":
                    out.append(horner(part, m[2]))
                else:
                    out += split_flat(horner(part, m[2]), m[3])
            return out
        return f
    return dims, masks, [mapper(i) for i in range(len(ts))]


def same_mask(a, i, b, j):
    ia = [fresh("m") for _ in a._d[i]]
    g = [z3.And(v >= 0, v < c.size) for v, c in zip(ia, a._d[i])]
    return core.ctx().entails(z3.Implies(mkand(*g), a.masks[i].guard(ia) == b.masks[j].guard(ia)))


def result_device(ts):
    dev = None
    for t in ts:
        if t.ndim == 0 and t.device.type == "cpu":
            continue
        if dev is None:
            dev = t.device
        elif dev != t.device:
            raise RuntimeError("Expected all tensors to be on the same device")
    return dev or ts[0].device


def result_dtype(xs):
    """torch type promotion with dimensioned tensors, 0-d tensors and python scalars."""
    order = {"b": 0, "i": 1, "f": 2}
    dim_d = zero_d = sc = None
    for x in xs:
        if isinstance(x, STensor) and not getattr(x, "_weak", False):
            if x.ndim > 0:
                dim_d = x.dtype if dim_d is None else promote(dim_d, x.dtype)
            else:
                zero_d = x.dtype if zero_d is None else promote(zero_d, x.dtype)
        else:
            dt = x.dtype if isinstance(x, STensor) else const_tensor(x).dtype
            sc = dt if sc is None else promote(sc, dt)
    r = dim_d
    for o in (zero_d, sc):
        if o is None:
            continue
        if r is None:
            r = o
        elif order[o.kind] > order[r.kind]:
            r = o
    return r


def need_finite(ts, what):
    """operands with possibly non-finite content must be known finite here"""
    for t in ts:
        nf = t.nf_snapshot()
        if nf is None:
            continue
        b, g = t.bind("nf")
        k = nf(b)
        c = core.ctx()
        c.cands.append(tuple(b))
        if not c.entails(z3.Implies(g, k == 0)):
            raise Unsupported(f"{what} on possibly non-finite values")


CMP = {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}


def binop(op, a, b):
    xs = [a, b]
    for x in xs:
        if not (isinstance(x, STensor) or is_scalar(x)):
            if isinstance(x, (list, tuple)) or x is None:
                raise TypeError(f"unsupported operand type(s): {type(x).__name__}")
            return NotImplemented
    ta, tb = [x if isinstance(x, STensor) else const_tensor(x) for x in xs]
    dims, masks, maps = pair_dims(ta, tb)
    dev = result_device([ta, tb])
    dt = result_dtype(xs)
    fa, fb = ta.snapshot(), tb.snapshot()
    na, nb = ta.nf_snapshot(), tb.nf_snapshot()
    ma, mb = maps
    if op in ("gt", "ge"):
        sw = {"gt": "lt", "ge": "le"}[op]
        return binop(sw, b, a) if isinstance(b, STensor) else _binop_core(sw, tb, ta, dims, masks, mb, ma, dev, dt)
    return _binop_core(op, ta, tb, dims, masks, ma, mb, dev, dt)


def _binop_core(op, ta, tb, dims, masks, ma, mb, dev, dt):
    fa, fb = ta.snapshot(), tb.snapshot()
    na, nb = ta.nf_snapshot(), tb.nf_snapshot()
    if op in CMP:
        if na is not None or nb is not None:
            z = z3.IntVal(0)

            def fn(idx):
                ia, ib = ma(idx), mb(idx)
                return core.cmp_ext(CMP[op], (toreal(num(fa(ia))), na(ia) if na else z), (toreal(num(fb(ib))), nb(ib) if nb else z))
        else:
            def fn(idx):
                x, y = num(fa(ma(idx))), num(fb(mb(idx)))
                if x.sort() != y.sort():
                    x, y = toreal(x), toreal(y)
                return {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]()
        return STensor.new(dims, fn, bool_, dev, masks=masks)
    if op in ("and", "or", "xor"):
        if dt.kind != "b":
            raise Unsupported("bitwise op on integers")

        def fn(idx):
            x, y = fa(ma(idx)), fb(mb(idx))
            return {"and": lambda: mkand(x, y), "or": lambda: mkor(x, y), "xor": lambda: z3.Xor(x, y)}[op]()
        return STensor.new(dims, fn, bool_, dev, masks=masks)
    nfout = None
    if na is not None or nb is not None:
        z = z3.IntVal(0)
        kfn = core.fresh_fn("nfk", 0) if False else None

        def nfout(idx, fb_=fb):
            ka = na(ma(idx)) if na else z
            kb = nb(mb(idx)) if nb else z
            k = fresh("k")
            return mkif(sums.canonb(z3.And(ka == 0, kb == 0)), z, z3.If(z3.Or(ka == 3, kb == 3), z3.IntVal(3), NFUN(ka, kb, k)))
        try:
            need_finite([ta, tb], op)
            nfout = None
        except Unsupported:
            pass
    if op == "div":
        rdt = dt if dt.kind == "f" else _default_dtype
        _div_safety(tb, fb)

        def fn(idx):
            x, y = toreal(num(fa(ma(idx)))), toreal(num(fb(mb(idx))))
            return x / y
        return STensor.new(dims, fn, rdt, dev, nf=nfout, masks=masks)
    if op in ("fdiv", "mod"):
        _div_safety(tb, fb)

        def fn(idx):
            x, y = num(fa(ma(idx))), num(fb(mb(idx)))
            if dt.kind == "f":
                x, y = toreal(x), toreal(y)
                q = toreal(toint_floor(x / y))
                return q if op == "fdiv" else x - y * q
            if is_c(y) and y.as_long() > 0:
                return x / y if op == "fdiv" else x % y
            q = core.fdiv_int(x, y)
            return q if op == "fdiv" else x - y * q
        return STensor.new(dims, fn, dt, dev, nf=nfout, masks=masks)
    if op == "pow":
        def fn(idx):
            r = core.pow_term(num(fa(ma(idx))), num(fb(mb(idx))))
            return toreal(r) if dt.kind == "f" else r
        return STensor.new(dims, fn, dt, dev, nf=nfout, masks=masks)
    if dt.kind == "b" and op in ("add", "mul", "sub"):
        raise Unsupported("arithmetic on bool tensors")

    def fn(idx):
        x, y = num(fa(ma(idx))), num(fb(mb(idx)))
        if dt.kind == "f":
            x, y = toreal(x), toreal(y)
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if op == "mul":
            return x * y
        if op == "max":
            return mkif(x >= y, x, y)
        if op == "min":
            return mkif(x <= y, x, y)
        raise Unsupported(op)
    return STensor.new(dims, fn, dt, dev, nf=nfout, masks=masks)


NFUN = z3.Function("NFKIND", I, I, I, I)


def num(t):
    return mkif(t, ONE, ZERO) if t.sort() == B else t


def _div_safety(tb, fb):
    b, g = tb.bind("dz")
    d = num(fb(b))
    if (z3.is_rational_value(d) and d.as_fraction() != 0) or (z3.is_int_value(d) and d.as_long() != 0):
        return
    core.ctx().oblige("divisor is non-zero", z3.Implies(g, d != 0))


SINCF = core.SINC


def unop(op, t):
    fn0, nf = t.snapshot(), t.nf_snapshot()
    dims = [[c.size for c in d] for d in t._d]
    mk = lambda f, dt: STensor.new(dims, f, dt, t.device, masks=dict(t.masks))
    if op in ("isfinite", "isnan", "isinf"):
        if nf is None:
            v = z3.BoolVal(op == "isfinite")
            return mk(lambda idx: v, bool_)
        if op == "isfinite":
            return mk(lambda idx: nf(idx) == 0, bool_)
        if op == "isnan":
            return mk(lambda idx: nf(idx) == 3, bool_)
        return mk(lambda idx: z3.Or(nf(idx) == 1, nf(idx) == 2), bool_)
    if op == "not":
        if t.dtype.kind != "b":
            raise Unsupported("bitwise not")
        return mk(lambda idx: z3.Not(fn0(idx)), bool_)
    nfo = None
    if nf is not None:
        try:
            need_finite([t], op)
        except Unsupported:
            if op in ("abs", "neg", "sqrt", "floor", "ceil"):
                nfo = nf if op != "neg" else (lambda idx: z3.If(nf(idx) == 1, z3.IntVal(2), z3.If(nf(idx) == 2, z3.IntVal(1), nf(idx))))
                if op == "abs":
                    nfo = lambda idx: z3.If(nf(idx) == 2, z3.IntVal(1), nf(idx))
                if op == "sqrt":
                    raise
            else:
                raise
    mk2 = lambda f, dt: STensor.new(dims, f, dt, t.device, nf=nfo, masks=dict(t.masks))
    if op == "neg":
        return mk2(lambda idx: -num(fn0(idx)), t.dtype)
    if op == "abs":
        def f(idx):
            x = num(fn0(idx))
            return mkif(x >= 0, x, -x)
        return mk2(f, t.dtype)
    fdt = t.dtype if t.dtype.kind == "f" else _default_dtype
    if op in ("floor", "ceil", "round", "trunc"):
        if t.dtype.kind != "f":
            return t.clone()

        def f(idx):
            x = toreal(fn0(idx))
            if op == "floor":
                return toreal(sums.canon(toint_floor(x)))
            if op == "ceil":
                return toreal(sums.canon(-toint_floor(-x)))
            if op == "round":
                return lift(core.SReal(x).__round__(0))
            return mkif(x >= 0, toreal(toint_floor(x)), toreal(-toint_floor(-x)))
        return mk2(f, t.dtype)
    if op == "sign":
        def f(idx):
            x = num(fn0(idx))
            one, zero = (z3.RealVal(1), z3.RealVal(0)) if x.sort() == R else (ONE, ZERO)
            return mkif(x > 0, one, mkif(x < 0, -one, zero))
        return mk2(f, t.dtype)
    U = {"sqrt": core.SQRT, "cos": core.COS, "sin": core.SIN, "exp": core.EXP, "sinc": core.SINC}[op]
    if op == "sqrt":
        b, g = t.bind("sq")
        core.ctx().oblige("sqrt argument non-negative", z3.Implies(g, toreal(num(fn0(b))) >= 0))

    def f(idx):
        x = sums.canon(toreal(num(fn0(idx))))
        if z3.is_rational_value(x) and x.as_fraction() == 0:
            return z3.RealVal(0 if op in ("sqrt", "sin") else 1)
        return U(x)
    return mk2(f, fdt)


def where(cond, a=None, b=None):
    if a is None:
        raise Unsupported("where(cond)")
    c = cond if isinstance(cond, STensor) else const_tensor(cond)
    xs = [a, b]
    ta, tb = [x if isinstance(x, STensor) else const_tensor(x) for x in xs]
    dims, masks, maps = pair_dims(c, ta, tb)
    dt = result_dtype(xs)
    dev = result_device([c, ta, tb])
    fc, fa, fb = c.snapshot(), ta.snapshot(), tb.snapshot()
    need_finite([ta, tb], "where")

    def fn(idx):
        x, y = fa(maps[1](idx)), fb(maps[2](idx))
        if dt.kind == "f":
            x, y = toreal(x), toreal(y)
        elif dt.kind == "i":
            x, y = num(x), num(y)
        return mkif(fc(maps[0](idx)), x, y)
    return STensor.new(dims, fn, dt, dev, masks=masks)


# --------------------------------------------------------------------------- writing
def write(view, value):
    """view[...] = value (broadcast); updates the storage."""
    st = view.st
    c = core.ctx()
    if isinstance(value, STensor) and value.st is st and value is not view and _same_view(view, value):
        return
    if value is view:
        return
    if view.masks:
        raise Unsupported("write through a mask")
    v = value if isinstance(value, STensor) else const_tensor(value)
    if st.frozen:
        c.frame.append(st.name or "input")
    # broadcast value to view's shape
    if v.ndim > view.ndim:
        raise RuntimeError("cannot assign: too many dimensions")
    vd = [[cc.size for cc in d] for d in view._d]
    shape = [view.dim_size(i) for i in range(view.ndim)]
    maps = []
    for k in range(v.ndim):
        j = k + view.ndim - v.ndim
        own = [cc.size for cc in v._d[k]]
        if k in v.masks:
            raise Unsupported("write of masked values")
        if all(is_c(s, 1) for s in own):
            maps.append((j, "one", len(own), None))
            continue
        if len(own) == len(vd[j]) and all(same(x, y) for x, y in zip(own, vd[j])):
            maps.append((j, "own", len(own), None))
            continue
        a, b = prod_terms(own), shape[j]
        if not same(a, b):
            if not dim_eq(a, b):
                if dim_eq(a, ONE):
                    maps.append((j, "one", len(own), None))
                    continue
                raise RuntimeError("shape mismatch in assignment")
        maps.append((j, "re", len(own), own))
    fv, nfv = v.snapshot(), v.nf_snapshot()
    if nfv is not None:
        need_finite([v], "write")
    old = st.fn
    lens = [len(d) for d in vd]
    starts = [sum(lens[:k]) for k in range(len(lens))]
    # inverse of the view map
    per_sd = {}
    flat = view.flatcomps()
    for p, cc in enumerate(flat):
        if cc.sd is None:
            if not is_c(cc.size, 1):
                raise RuntimeError("unsupported operation: more than one element of the written-to tensor refers to a single memory location")
            continue
        if cc.sd in per_sd or not is_c(cc.step, 1):
            if is_c(cc.size, 1):
                continue
            raise Unsupported("write through a strided view")
        per_sd[cc.sd] = p
    off = list(view.off)
    sdims = list(st.dims)
    dt_from, dt_to = v.dtype, view.dtype
    if dt_from.kind == "f" and dt_to.kind == "i" and isinstance(value, STensor):
        # torch's in-place op raises; copy_/setitem truncates
        pass

    def fn(sidx):
        conds = []
        vidx = [ZERO] * len(flat)
        for d, s in enumerate(sidx):
            p = per_sd.get(d)
            if p is None:
                if is_c(sdims[d], 1):
                    continue
                conds.append(s == off[d])
                continue
            o, size = off[d], flat[p].size
            if is_c(o, 0):
                vidx[p] = s
                if not (size.get_id() == sdims[d].get_id() or sums.poly(size) == sums.poly(sdims[d])):
                    conds.append(s < size)
            else:
                vidx[p] = s - o
                conds += [s >= o, s < o + size]
        src = []
        for (j, how, n, own) in maps:
            part = vidx[starts[j]:starts[j] + lens[j]]
            if how == "own":
                src += part
            elif how == "one":
                src += [ZERO] * n
            else:
                fl = horner(part, vd[j])
                src += split_flat(fl, own)
        cond = sums.canonb(mkand(*conds))
        if z3.is_false(cond):
            return old(sidx)
        new = cast_term(fv(src), dt_from, dt_to)
        if z3.is_true(cond):
            return new
        return mkif(cond, new, old(sidx))
    from . import loops
    loops.note_write(st)
    st.fn = memo(fn)
    st.version += 1


def _same_view(a, b):
    if a.ndim != b.ndim or len(a.off) != len(b.off):
        return False
    if not all(x.get_id() == y.get_id() or sums.poly(x) == sums.poly(y) for x, y in zip(a.off, b.off)):
        return False
    fa, fb = a.flatcomps(), b.flatcomps()
    return len(fa) == len(fb) and all(x.sd == y.sd and x.size.get_id() == y.size.get_id() and x.step.get_id() == y.step.get_id()
                                     for x, y in zip(fa, fb))


def setitem(t, key, value):
    ks = key if isinstance(key, tuple) else (key,)
    if any(isinstance(k, STensor) and k.dtype.kind == "b" and k.ndim > 0 for k in ks):
        if len(ks) != 1:
            raise Unsupported("mixed mask assignment")
        m = ks[0]
        if isinstance(value, STensor) and value.ndim > 0:
            if 0 in value.masks and len(value.masks) == 1 and m.ndim == 1 and value.ndim == t.ndim:
                # t[m] = v with v masked by the same m: the masked index is the original index
                sel = mask_select(t, 0, m)
                if value.masks[0].key == sel.masks[0].key or same_mask(value, 0, sel, 0):
                    bare = STensor.new([[c.size for c in d] for d in value._d], value.snapshot(), value.dtype, value.device)
                    mm = m
                    for _ in range(t.ndim - 1):
                        mm = mm.unsqueeze(-1)
                    write(t, where(mm, bare, t).to(t.dtype))
                    return
                raise Unsupported("assignment of values selected by another mask")
            raise Unsupported("mask assignment of a tensor")
        for _ in range(t.ndim - m.ndim):
            m = m.unsqueeze(-1)
        write(t, where(m, value, t).to(t.dtype))
        return
    if any(isinstance(k, (list,)) or (isinstance(k, STensor) and k.ndim > 0) for k in ks):
        raise Unsupported("advanced-index assignment")
    write(getitem(t, key), value)


def getitem(t, key):
    ks = list(key) if isinstance(key, tuple) else [key]
    # expand Ellipsis
    def consumes(k):
        if k is None or k is Ellipsis:
            return 0
        if isinstance(k, STensor) and k.dtype.kind == "b":
            return k.ndim
        return 1
    if any(k is Ellipsis for k in ks):
        p = [i for i, k in enumerate(ks) if k is Ellipsis][0]
        used = sum(consumes(k) for k in ks)
        ks = ks[:p] + [slice(None)] * (t.ndim - used) + ks[p + 1:]
    if sum(consumes(k) for k in ks) > t.ndim:
        raise IndexError(f"too many indices for tensor of dimension {t.ndim}")
    r, d = t, 0
    adv = []
    for k in ks:
        if k is None:
            r = r.unsqueeze(d)
            d += 1
        elif isinstance(k, slice):
            r = r._slice(d, k)
            d += 1
        elif isinstance(k, STensor):
            if k.dtype.kind == "b" and k.ndim > 0:
                r = mask_select(r, d, k)
                d += 1
            elif k.ndim == 0 and k.dtype.kind == "i":
                r = r.select(d, k.item())
            elif k.dtype.kind == "i":
                adv.append((d, k))
                d += 1
            else:
                raise IndexError("tensors used as indices must be long, int, byte or bool tensors")
        elif isinstance(k, (list,)):
            from . import shim_torch
            kt = shim_torch.torch.tensor(k)
            adv.append((d, kt))
            d += 1
        elif isinstance(k, (int, SInt)) and not isinstance(k, bool):
            r = r.select(d, k)
        elif isinstance(k, SReal) or isinstance(k, float):
            raise TypeError("indices must be integers")
        else:
            raise Unsupported(f"index {type(k).__name__}")
    if adv:
        r = adv_index(r, adv)
    return r


def adv_index(t, adv):
    if len(adv) == 1:
        d, ix = adv[0]
        if d in t.masks:
            t = t.materialize_mask(d)
        sz = [c.size for c in t._d[d]]
        size = t.dim_size(d)
        fi, ft = ix.snapshot(), t.snapshot()
        b, g = ix.bind("ix")
        core.ctx().oblige("index in range", z3.Implies(g, z3.And(fi(b) >= -size, fi(b) < size)))
        pre = sum(len(x) for x in t._d[:d])
        ni = len(ix.flatcomps())
        dims = [[c.size for c in x] for x in t._d]
        ndims = dims[:d] + [[c.size for c in x] for x in ix._d] + dims[d + 1:]
        nonneg = core.ctx().entails(z3.Implies(g, fi(b) >= 0))

        def fn(idx):
            j = fi(list(idx[pre:pre + ni]))
            if not nonneg:
                j = mkif(j >= 0, j, j + size)
            return ft(list(idx[:pre]) + split_flat(j, sz) + list(idx[pre + ni:]))
        masks = {(k if k < d else k - 1 + ix.ndim): m for k, m in t.masks.items()}
        for k, m in ix.masks.items():
            masks[d + k] = m
        return STensor.new(ndims, fn, t.dtype, t.device, masks=masks)
    # several index tensors on adjacent dims, broadcast together
    ds = [d for d, _ in adv]
    if ds != list(range(ds[0], ds[0] + len(ds))):
        raise Unsupported("non-adjacent advanced indices")
    dims_b, masks_b, maps = pair_dims(*[ix for _, ix in adv])
    fis = [ix.snapshot() for _, ix in adv]
    ft = t.snapshot()
    pre = sum(len(x) for x in t._d[:ds[0]])
    dims = [[c.size for c in x] for x in t._d]
    nb = sum(len(x) for x in dims_b)
    szs = [(t.dim_size(d), [c.size for c in t._d[d]]) for d in ds]
    for (d, ix), fi, (size, _) in zip(adv, fis, szs):
        b, g = ix.bind("ix")
        core.ctx().oblige("index in range", z3.Implies(g, z3.And(fi(b) >= -size, fi(b) < size)))

    def fn(idx):
        mid = list(idx[pre:pre + nb])
        out = list(idx[:pre])
        for fi, mp, (size, comps) in zip(fis, maps, szs):
            j = fi(mp(mid))
            j = mkif(j >= 0, j, j + size)
            out += split_flat(j, comps)
        return ft(out + list(idx[pre + nb:]))
    ndims = dims[:ds[0]] + dims_b + dims[ds[-1] + 1:]
    return STensor.new(ndims, fn, t.dtype, t.device, masks={k + ds[0]: m for k, m in masks_b.items()})


def mask_select(t, d, m):
    """t[..., m, ...] with boolean m covering dims d .. d+m.ndim-1."""
    comps = []
    maps = []
    for k in range(m.ndim):
        own = [c.size for c in m._d[k]]
        td = [c.size for c in t._d[d + k]]
        if not same(prod_terms(own), prod_terms(td)) and not dim_eq(prod_terms(own), prod_terms(td)):
            raise IndexError("The shape of the mask does not match the shape of the indexed tensor")
        use = own if len(own) >= len(td) else td
        maps.append((own, td, use))
        comps += use
    fm, ft = m.snapshot(), t.snapshot()
    existing = [m.masks.get(k) for k in range(m.ndim)] + [t.masks.get(d + k) for k in range(m.ndim)]
    if any(existing):
        if m.ndim != 1:
            raise Unsupported("mask of masked tensor")
    pre = sum(len(x) for x in t._d[:d])

    def conv(idx, which):
        out, p = [], 0
        for own, td, use in maps:
            part = list(idx[p:p + len(use)])
            p += len(use)
            tgt = own if which == 0 else td
            if len(tgt) == len(use):
                out += part
            else:
                out += split_flat(horner(part, use), tgt)
        return out
    ex = [e for e in existing if e]

    def guard(idx):
        return mkand(*[e.guard(idx) for e in ex], fm(conv(idx, 0)))
    ph = [z3.Int(f"ph!!{i}") for i in range(len(comps))]
    try:
        key = sums.canonb(guard(ph)).get_id()
    except Unsupported:
        key = id(m)
    md = MaskDim(guard, ("mask", key, tuple(c.get_id() for c in comps)))
    dims = [[c.size for c in x] for x in t._d]
    n = len(comps)
    ndims = dims[:d] + [comps] + dims[d + m.ndim:]
    masks = {k: v for k, v in t.masks.items() if k < d}
    masks.update({k - m.ndim + 1: v for k, v in t.masks.items() if k >= d + m.ndim})
    masks[d] = md
    nf = t.nf_snapshot()
    return STensor.new(ndims, lambda idx: ft(list(idx[:pre]) + conv(list(idx[pre:pre + n]), 1) + list(idx[pre + n:])),
                       t.dtype, t.device, masks=masks)


def take(t, index):
    return adv_index(t.flatten(), [(0, index)])


# --------------------------------------------------------------------------- reshape
def reshape(t, sizes):
    sizes = [s.item() if isinstance(s, STensor) else s for s in sizes]
    if t.masks:
        if len(sizes) == 1 and isinstance(sizes[0], int) and sizes[0] == -1 and t.ndim == 1:
            return t
        for k in list(t.masks):
            t = t.materialize_mask(k)
    comps = [c for d in t._d for c in d]
    comps = [c for c in comps if not is_c(c.size, 1)]
    ones = [c for d in t._d for c in d if is_c(c.size, 1)]
    neg = [k for k, s in enumerate(sizes) if isinstance(s, int) and s == -1]
    if len(neg) > 1:
        raise RuntimeError("only one dimension can be inferred")
    tgt = [None if k in neg else dterm(s) for k, s in enumerate(sizes)]
    out = [None] * len(tgt)

    def take_from(seq, k_order, stop):
        """match targets in k_order consuming comps; returns rest"""
        rest = list(seq)
        for k in k_order:
            want = tgt[k]
            if is_c(want, 1):
                out[k] = [Comp(ONE, None)]
                continue
            acc = []
            cur = ONE
            while not (acc and same(cur, want)):
                if not rest:
                    return None
                c = rest.pop(0 if k_order is fwd else -1)
                if k_order is fwd:
                    acc.append(c)
                else:
                    acc.insert(0, c)
                cur = prod_terms([x.size for x in acc])
                if is_c(cur) and is_c(want) and cur.as_long() > want.as_long():
                    return None
                if len(acc) > 8:
                    return None
            out[k] = acc
        return rest
    pos = neg[0] if neg else len(tgt)
    fwd = list(range(pos))
    bwd = list(range(len(tgt) - 1, pos, -1))
    rest = take_from(comps, fwd, None)
    if rest is not None and neg:
        rest = take_from(rest, bwd, None)
    if rest is not None:
        if neg:
            out[pos] = rest if rest else [Comp(ONE, None)]
            return t.like(out)
        if not rest:
            return t.like(out)
    # general reshape: flat renumbering
    total = prod_terms([c.size for c in comps])
    if neg:
        others = prod_terms([x for x in tgt if x is not None])
        if is_c(total) and is_c(others):
            if others.as_long() == 0 or total.as_long() % others.as_long():
                raise RuntimeError("shape is invalid for input")
            tgt[pos] = z3.IntVal(total.as_long() // others.as_long())
        else:
            q = poly_div(total, others)
            if q is None:
                raise Unsupported("reshape with symbolic remainder")
            tgt[pos] = q
    if not same(prod_terms(tgt), total):
        if not dim_eq(prod_terms(tgt), total):
            raise RuntimeError("shape is invalid for input of this size")
    fn = t.snapshot()
    szs = [c.size for c in t.flatcomps()]
    nf = t.nf_snapshot()
    r = STensor.new([[x] for x in tgt], lambda idx: fn(split_flat(horner(idx, tgt), szs)), t.dtype, t.device,
                    nf=(lambda idx: nf(split_flat(horner(idx, tgt), szs))) if nf else None)
    r.st.frozen = t.st.frozen
    r.st.name = t.st.name
    return r


def poly_div(a, b):
    """exact quotient of monomial b in polynomial a"""
    p, q = sums.poly(a), sums.poly(b)
    if len(q) != 1:
        return None
    (m, c), = q.items()
    out = {}
    for mm, cc in p.items():
        l = list(mm)
        for x in m:
            if x not in l:
                return None
            l.remove(x)
        v = cc / c
        if v.denominator != 1:
            return None
        out[tuple(l)] = v
    return sums.build(out, I)


# --------------------------------------------------------------------------- reductions
def _red_dims(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (tuple, list)):
        return sorted({t._norm(d) for d in dim})
    return [t._norm(dim)]


def _reduce_setup(t, dim, keepdim):
    red = _red_dims(t, dim)
    lens = [len(d) for d in t._d]
    dims, masks = [], {}
    for k, d in enumerate(t._d):
        if k in red:
            if keepdim:
                dims.append([ONE])
        else:
            if k in t.masks:
                masks[len(dims)] = t.masks[k]
            dims.append([c.size for c in d])

    def full(idx, bound):
        out, p, q = [], 0, 0
        for k in range(len(lens)):
            if k in red:
                out += bound[q:q + lens[k]]
                q += lens[k]
                if keepdim:
                    p += 1
            else:
                out += idx[p:p + lens[k]]
                p += lens[k]
        return out
    rc = [c.size for k in red for c in t._d[k]]
    rmask = []
    q = 0
    for k in red:
        n = len(t._d[k])
        if k in t.masks:
            rmask.append((q, n, t.masks[k]))
        q += n
    return red, dims, masks, full, rc, rmask


def _concrete(rc, limit=64):
    if not all(is_c(s) for s in rc):
        return None
    tot = 1
    for s in rc:
        tot *= s.as_long()
    if tot > limit:
        return None
    return [[z3.IntVal(v) for v in tup] for tup in itertools.product(*[range(s.as_long()) for s in rc])]


def count_true(t):
    """number of true elements of a boolean tensor with symbolic sizes: zero iff none, all of them iff every one"""
    some, every = reduce_bool("any", t, None, False).at(), reduce_bool("all", t, None, False).at()
    n, tot = fresh("count"), prod_terms([t.dim_size(k) for k in range(t.ndim)])
    core.ctx().assume(z3.And(n >= 0, n <= tot, (n > 0) == some, (n == tot) == every))
    return STensor.new([], lambda idx: n, int64, t.device)


def reduce_sum(t, dim, keepdim, dtype):
    if t.dtype.kind == "b" and dim is None and dtype is None and not keepdim and not t.masks and _concrete([s for d in t._d for s in [c.size for c in d]]) is None:
        return count_true(t)
    if t.dtype.kind == "b":
        t = t.to(int64)
    if t.dtype.kind == "i" and t.dtype.bits < 64:
        t = t.to(int64)
    if dtype is not None:
        t = t.to(dtype)
    need_finite([t], "sum")
    red, dims, masks, full, rc, rmask = _reduce_setup(t, dim, keepdim)
    fn0 = t.snapshot()
    pts = None if rmask else _concrete(rc)
    if pts is not None:
        def fn(idx):
            r = None
            for b in pts:
                v = fn0(full(idx, b))
                r = v if r is None else r + v
            if r is None:
                return z3.RealVal(0) if t.dtype.kind == "f" else ZERO
            return r
        return STensor.new(dims, fn, t.dtype, t.device, masks=masks)
    if t.dtype.kind == "i":
        raise Unsupported("integer sum over a symbolic dimension")

    def fn(idx):
        bs = [fresh("r") for _ in rc]
        g = mkand(*[z3.And(b >= 0, b < s) for b, s in zip(bs, rc)], *[m.guard(bs[q:q + n]) for q, n, m in rmask])
        return sums.mk_sum(bs, g, fn0(full(idx, bs)))
    return STensor.new(dims, fn, t.dtype, t.device, masks=masks)


def reduce_finite(op, t, dim, keepdim):
    need_finite([t], op)
    red, dims, masks, full, rc, rmask = _reduce_setup(t, dim, keepdim)
    pts = None if rmask else _concrete(rc)
    if pts is None:
        raise Unsupported(f"{op} over a symbolic dimension")
    fn0 = t.snapshot()
    dt = t.dtype if t.dtype.kind == "f" else int64

    def fn(idx):
        r = None
        for b in pts:
            v = num(fn0(full(idx, b)))
            r = v if r is None else r * v
        return r if r is not None else (z3.RealVal(1) if dt.kind == "f" else ONE)
    return STensor.new(dims, fn, dt, t.device, masks=masks)


def reduce_bool(op, t, dim, keepdim):
    if t.dtype.kind != "b":
        t = t.to(bool_)
    red, dims, masks, full, rc, rmask = _reduce_setup(t, dim, keepdim)
    fn0 = t.snapshot()
    pts = None if rmask else _concrete(rc)
    if pts is not None:
        def fn(idx):
            vs = [fn0(full(idx, b)) for b in pts]
            return mkor(*vs) if op == "any" else mkand(*vs)
        return STensor.new(dims, fn, bool_, t.device, masks=masks)
    if dims and not all(is_c(s, 1) for d in dims for s in d):
        raise Unsupported(f"{op} along a symbolic dimension")
    e = fresh(op, B)
    ws = [fresh("w") for _ in rc]
    rng = lambda xs: mkand(*[z3.And(x >= 0, x < s) for x, s in zip(xs, rc)], *[m.guard(xs[q:q + n]) for q, n, m in rmask])
    val = lambda xs: fn0(full([ZERO] * len([1 for d in dims for _ in d]), xs))
    c = core.ctx()
    trig = _triggers(val, rc)
    if op == "any":
        c.assume(z3.Implies(e, mkand(rng(ws), val(ws))))
        c.add_ufact(core.UFact(len(rc), lambda *xs: z3.Implies(z3.And(z3.Not(e), rng(list(xs))), z3.Not(val(list(xs)))), triggers=trig, name="any", sizes=rc))
    else:
        c.assume(z3.Implies(z3.Not(e), mkand(rng(ws), z3.Not(val(ws)))))
        c.add_ufact(core.UFact(len(rc), lambda *xs: z3.Implies(z3.And(e, rng(list(xs))), val(list(xs))), triggers=trig, name="all", sizes=rc))
    return STensor.new(dims, lambda idx: e, bool_, t.device)


def _triggers(val, rc):
    """Applications f(..x..) in val(xs) whose arguments are exactly the bound variables."""
    xs = [fresh("tr") for _ in rc]
    ids = {x.get_id(): i for i, x in enumerate(xs)}
    out = []
    t = val(xs)
    core.undecided(xs)
    for a in core.subterms(t):
        pos = [None] * len(xs)
        for p, ch in enumerate(a.children()):
            i = ids.get(ch.get_id())
            if i is not None and pos[i] is None:
                pos[i] = p
        if all(p is not None for p in pos):
            out.append((a.decl().name(), tuple(pos)))
    return out


def reduce_minmax(op, t, dim, keepdim):
    need_finite([t], op)
    if dim is not None:
        red, dims, masks, full, rc, rmask = _reduce_setup(t, dim, keepdim)
    else:
        red, dims, masks, full, rc, rmask = _reduce_setup(t, None, False)
    fn0 = t.snapshot()
    pts = None if rmask else _concrete(rc)
    if pts is not None:
        if not pts:
            raise RuntimeError(f"{op}(): Expected reduction dim to be specified for input.numel() == 0")

        def fn(idx):
            r = None
            for b in pts:
                v = fn0(full(idx, b))
                r = v if r is None else (mkif(r >= v, r, v) if op == "max" else mkif(r <= v, r, v))
            return r
        out = STensor.new(dims, fn, t.dtype, t.device, masks=masks)
        if dim is None:
            return out

        def fi(idx):
            r = arg = None
            for k, b in enumerate(pts):
                v = fn0(full(idx, b))
                if r is None:
                    r, arg = v, z3.IntVal(k)
                else:
                    better = v > r if op == "max" else v < r
                    r, arg = mkif(better, v, r), mkif(better, z3.IntVal(k), arg)
            return arg
        return MinMax(out, STensor.new(dims, fi, int64, t.device, masks=masks))
    tot = prod_terms(rc)
    c = core.ctx()
    if not rmask and not c.entails(tot > 0):
        if not c.branch(tot > 0, "non-empty reduction"):
            raise RuntimeError(f"{op}(): Expected reduction dim to be specified for input.numel() == 0")
    keepn = [s for d in dims for s in d]
    free = [s for s in keepn if not is_c(s, 1)]
    F = core.fresh_fn(op, len(keepn), R if t.dtype.kind == "f" else I)
    W = [core.fresh_fn("arg", len(keepn), I) for _ in rc]
    sgn = (lambda a, b: a <= b) if op == "max" else (lambda a, b: a >= b)
    rng = lambda xs: mkand(*[z3.And(x >= 0, x < s) for x, s in zip(xs, rc)], *[m.guard(xs[q:q + n]) for q, n, m in rmask])
    if keepn:
        def ax(a):
            idx = a.children()
            ws = [w(*idx) for w in W]
            inr = mkand(*[z3.And(i >= 0, i < s) for i, s in zip(idx, keepn)])
            return [z3.Implies(inr, mkand(rng(ws), a == fn0(full(idx, ws))))]
        core.AXIOMS[F.name()] = ax
        n = len(keepn)
        c.add_ufact(core.UFact(n + len(rc), lambda *xs: z3.Implies(mkand(rng(list(xs[n:])), *[z3.And(i >= 0, i < s) for i, s in zip(xs[:n], keepn)]),
                                                                 sgn(fn0(full(list(xs[:n]), list(xs[n:]))), F(*xs[:n]))), triggers=_triggers(lambda xs: fn0(full(xs[:n], xs[n:])), keepn + rc)))
        out = STensor.new(dims, lambda idx: F(*idx), t.dtype, t.device)
        w = STensor.new(dims, lambda idx: horner([w(*idx) for w in W], rc), int64, t.device)
    else:
        m = fresh(op, R if t.dtype.kind == "f" else I)
        ws = [fresh("arg") for _ in rc]
        c.assume(mkand(rng(ws), m == fn0(ws)))
        c.add_ufact(core.UFact(len(rc), lambda *xs: z3.Implies(rng(list(xs)), sgn(fn0(list(xs)), m)), triggers=_triggers(fn0, rc)))
        out = STensor.new(dims, lambda idx: m, t.dtype, t.device)
        w = STensor.new(dims, lambda idx: horner(ws, rc), int64, t.device)
    return out if dim is None else MinMax(out, w)


class MinMax(tuple):
    def __new__(cls, v, i):
        s = super().__new__(cls, (v, i))
        s.values, s.indices = v, i
        return s


def vnorm(t, p=2, dim=None, keepdim=False):
    if p not in (2, 2.0, None, "fro"):
        raise Unsupported("norm order")
    if t.dtype.kind != "f":
        raise RuntimeError("linalg.vector_norm: Expected a floating point or complex tensor as input")
    s = reduce_sum(binop("mul", t, t), dim, keepdim, None)
    fn = s.snapshot()

    def f(idx):
        x = sums.canon(toreal(fn(idx)))
        if z3.is_rational_value(x) and x.as_fraction() == 0:
            return z3.RealVal(0)
        return core.SQRT(x)
    r = STensor.new([[c.size for c in d] for d in s._d], f, t.dtype, t.device, masks=dict(s.masks))
    return r


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return reduce_sum(binop("mul", a, b), None, False, None)
    if a.ndim == 2 and b.ndim == 1:
        return reduce_sum(binop("mul", a, b.unsqueeze(0)), 1, False, None)
    if b.ndim == 2:
        x = binop("mul", a.unsqueeze(-1), b if a.ndim == 1 else b.unsqueeze(0) if a.ndim == 2 else b)
        return reduce_sum(x, -2, False, None)
    raise Unsupported("matmul")


def stack(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise RuntimeError("stack expects a non-empty TensorList")
    base = ts[0]
    d = base._norm(dim, 1)
    for t in ts[1:]:
        if t.ndim != base.ndim:
            raise RuntimeError("stack expects each tensor to be equal size")
        for k in range(t.ndim):
            if not dim_eq(t.dim_size(k), base.dim_size(k)):
                raise RuntimeError("stack expects each tensor to be equal size")
    dt = base.dtype
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    need_finite(ts, "stack")
    # choose the richest component structure
    dims = []
    for k in range(base.ndim):
        dims.append(max(([c.size for c in t._d[k]] for t in ts), key=len))
    pre = sum(len(x) for x in dims[:d])
    fns = []
    for t in ts:
        fn = t.snapshot()
        own = [[c.size for c in x] for x in t._d]
        if [len(x) for x in own] == [len(x) for x in dims]:
            fns.append((fn, t.dtype))
        else:
            def f(idx, fn=fn, own=own):
                out, p = [], 0
                for o, u in zip(own, dims):
                    part = list(idx[p:p + len(u)])
                    p += len(u)
                    out += part if len(o) == len(u) else split_flat(horner(part, u), o)
                return fn(out)
            fns.append((f, t.dtype))
    ndims = dims[:d] + [[z3.IntVal(len(ts))]] + dims[d:]
    mk0 = [t.masks for t in ts]
    masks = {}
    for k, m in base.masks.items():
        masks[k if k < d else k + 1] = m

    def fn(idx):
        k = idx[pre]
        rest = list(idx[:pre]) + list(idx[pre + 1:])
        if is_c(k):
            f, sdt = fns[min(max(k.as_long(), 0), len(fns) - 1)]      # outside the range: any value
            return cast_term(f(rest), sdt, dt)
        r = cast_term(fns[-1][0](rest), fns[-1][1], dt)
        for i in range(len(fns) - 2, -1, -1):
            r = mkif(k == i, cast_term(fns[i][0](rest), fns[i][1], dt), r)
        return r
    return STensor.new(ndims, fn, dt, result_device(ts), masks=masks)


def cat(ts, dim=0):
    ts = [t for t in ts]
    ts2 = [t for t in ts if not (t.ndim == 1 and same(t.dim_size(0), ZERO) and len(ts) > 1)]
    ts = ts2 or ts[:1]
    base = ts[0]
    d = base._norm(dim)
    for t in ts[1:]:
        if t.ndim != base.ndim:
            raise RuntimeError("Tensors must have same number of dimensions")
        for k in range(t.ndim):
            if k != d and not dim_eq(t.dim_size(k), base.dim_size(k)):
                raise RuntimeError("Sizes of tensors must match except in dimension")
    dt = base.dtype
    for t in ts[1:]:
        dt = promote(dt, t.dtype)
    need_finite(ts, "cat")
    ts = [t.materialize_mask(d) if d in t.masks else t for t in ts]
    sizes = [t.dim_size(d) for t in ts]
    tot = sizes[0]
    starts = [ZERO]
    for s in sizes[1:]:
        starts.append(tot)
        tot = sums.canon(tot + s)
    dims = [[c.size for c in x] for x in base._d]
    dims[d] = [tot]
    pre = sum(len(x) for x in dims[:d])
    fns = [t.snapshot() for t in ts]
    dsz = [[c.size for c in t._d[d]] for t in ts]

    def fn(idx):
        k = idx[pre]
        r = None
        for i in range(len(ts) - 1, -1, -1):
            local = k if is_c(starts[i], 0) else sums.canon(k - starts[i])
            v = cast_term(fns[i](list(idx[:pre]) + split_flat(local, dsz[i]) + list(idx[pre + 1:])), ts[i].dtype, dt)
            r = v if r is None else mkif(sums.canonb(k < starts[i + 1]), v, r)
        return r
    return STensor.new(dims, fn, dt, result_device(ts))


RAGGED = []      # (length function j -> term, prefix-sum function): declared by the world whose objects are concatenated


def cat_ragged(s, dim):
    """Concatenation of a symbolic number of 1-D tensors of symbolic lengths: element t lies in the part SEG(t)."""
    s = seq.as_symseq(s)
    j = fresh("j")
    e = s.elem(j)
    if not isinstance(e, STensor) or e.ndim != 1 or e.masks or dim not in (0, -1) or len(e.flatcomps()) != 1:
        raise Unsupported("cat of a symbolic sequence")
    n = seq.dterm(s.n)
    c = core.ctx()
    for L, PS in RAGGED:
        if z3.simplify(L(j) == e.dim_size(0)).eq(z3.BoolVal(True)):
            break
    else:
        raise Unsupported("cat of a symbolic sequence")
    if c.branch(n <= 0, "nothing to concatenate"):
        raise RuntimeError("torch.cat(): expected a non-empty list of Tensors")
    SEG = core.fresh_fn("SEG", 1, I)

    def ax(a):
        t = a.arg(0)
        return [z3.Implies(z3.And(t >= 0, t < PS(n)), z3.And(a >= 0, a < n, PS(a) <= t, t < PS(a + 1), PS(a + 1) == PS(a) + L(a)))]
    core.AXIOMS[SEG.name()] = ax
    e0 = s.elem(ZERO)

    def fn(idx):
        g = SEG(idx[0])
        return s.elem(g).snapshot()([sums.canon(idx[0] - PS(g))])
    return STensor.new([[PS(n)]], fn, e0.dtype, e0.device)
