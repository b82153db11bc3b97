"""C28: collation pads without losing, reordering or mixing items — for every batch size and all lengths."""
from dv.harness import *
from dv import core, seq, sums, tensor as T
from dv.strs import SStr

ID = "C28"
F = ["torchrir.datasets.collate:collate_dataset_items"]
TRUSTED = ["the items of a batch form a finite sequence that can be listed once (an iterable's own iteration is not modelled)"]
ASSUMPTIONS = ["every item's audio is a one-dimensional tensor and all items of a batch share dtype and device (a DatasetItem holds mono audio)"]


class Obj:
    """an arbitrary value attached to item k"""

    def __init__(self, kind, k):
        self.kind, self.k = kind, k

    def __repr__(self):
        return f"{self.kind}[{self.k}]"

    def __bool__(self):
        raise core.Unsupported("truth of an arbitrary value")


class Item:
    def __init__(self, k, audio, sr, attrs, metadata):
        self.audio, self.sample_rate = audio, sr
        for a in attrs:
            setattr(self, a, Obj(a, k))
        if metadata:
            self.metadata = Obj("metadata", k)


def batch_of(P, dtype, metadata, n=None):
    n = n if n is not None else P.int("batch_size", 0)
    LEN, AUD, SR = core.fresh_fn("LEN", 1, I), core.fresh_fn("AUD", 2, R if dtype.kind == "f" else I), core.fresh_fn("RATE", 1, I)
    core.AXIOMS[LEN.name()] = lambda a: [a >= 0]
    dev = T.Device("cuda", 1)

    def item(k):
        t = STensor.new([[LEN(k)]], lambda ix: AUD(k, ix[0]), dtype, dev, frozen=True, name="audio")
        return Item(k, t, core.wrap(SR(k)), ("utterance_id", "text", "speaker"), metadata)
    return n, LEN, AUD, SR, dev, seq.SymSeq(n, item, "items")


def run_case(dtype, metadata, keep, pad, wrapit=None):
    def run(P):
        f = P.fn(F[0])
        n, LEN, AUD, SR, dev, items = batch_of(P, dtype, metadata)
        kw = {}
        pv = z3.RealVal(0) if dtype.kind == "f" else z3.IntVal(0)
        if pad:
            p = P.real("pad_value") if dtype.kind == "f" else P.int("pad_value")
            kw["pad_value"], pv = p, p.t
        if keep is not None:
            kw["keep_metadata"] = keep
        st, b = P.call(f, items, **kw)
        same = (1, lambda k: z3.Implies(z3.And(k >= 0, k < n.t), SR(k) == SR(z3.IntVal(0))), [(SR.name(), (0,))])
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(b, ValueError), repr(b))
            P.impossible("non-empty batches of one rate are accepted", [n.t > 0], [same])
            return
        i, j = fresh("i"), fresh("j")
        inb = z3.And(i >= 0, i < n.t)
        P.prove("an empty batch is rejected", n.t > 0)
        P.prove("mixed sampling rates are rejected", SR(i) == SR(z3.IntVal(0)), hyps=[inb], cands=[(i,), (i - 1,)])
        P.prove("the common rate is reported", lift(b.sample_rate) == SR(z3.IntVal(0)))
        au, ln = b.audio, b.lengths
        if not (isinstance(au, STensor) and au.ndim == 2 and isinstance(ln, STensor) and ln.ndim == 1):
            return P.fail("a padded matrix and a vector of lengths", f"{au} {ln}")
        P.prove("one row per item", T.dterm(au.shape[0]) == n.t)
        P.prove("one length per item", T.dterm(ln.shape[0]) == n.t)
        width = T.dterm(au.shape[1])
        P.prove("no item is cut", width >= LEN(i), hyps=[inb], cands=[(i,)])
        # the longest item: were every item shorter than the row, the maximum would be smaller
        P.impossible("rows are as long as the longest item", [], [(1, lambda k: z3.Implies(z3.And(k >= 0, k < n.t), LEN(k) < width), [(LEN.name(), (0,))])],
                     [(a.arg(0),) for a in core.subterms(width) if a.decl().name() == LEN.name()])
        P.prove("the true lengths", ln.snapshot()([i]) == LEN(i), hyps=[inb], cands=[(i,)])
        P.check("lengths are integers", ln.dtype is T.int64)
        P.check("the items' dtype and device", au.dtype is dtype and au.device == dev, f"{au.dtype} {au.device}")
        P.prove("the item's samples come first", au.snapshot()([i, j]) == AUD(i, j), hyps=[inb, j >= 0, j < LEN(i)], cands=[(i,), (i, j)])
        P.prove("then only padding", au.snapshot()([i, j]) == pv, hyps=[inb, j >= LEN(i), j < width], cands=[(i,), (i, j)])
        for field, attr in (("utterance_ids", "utterance_id"), ("texts", "text"), ("speakers", "speaker"), ("metadata", "metadata")):
            got = getattr(b, field)
            if field == "metadata" and not keep:
                P.check("metadata only on request", got is None, repr(got))
                continue
            s = seq.as_symseq(got)
            P.prove(f"one of {field} per item", s.count() == n.t)
            k = fresh("k")
            P.ctx.assume(z3.And(k >= 0, k < n.t))
            v = s.elem(k)
            if field == "metadata" and not metadata:
                P.check("absent metadata is None", v is None, repr(v))
            else:
                ok = isinstance(v, Obj) and v.kind == attr
                P.check(f"{field} hold the items' own values", ok, repr(v))
                if ok:
                    P.prove(f"{field} keep the items' order", v.k == k)
    return run


def empty_case(P):
    st, e = P.call(P.fn(F[0]), [])
    P.check("an empty list is rejected", st == "raise" and isinstance(e, ValueError), repr(e))


CASES = [Case(f"{dt.name} audio, metadata {'present' if m else 'absent'}, keep {k}, {'given' if p else 'default'} padding", run_case(dt, m, k, p), F)
         for dt, m, k, p in ((T.float32, False, None, False), (T.float32, True, True, True), (T.float64, True, False, True), (T.float32, False, True, True), (T.int64, True, True, True), (T.int64, False, None, False))]
CASES += [Case("empty list", empty_case, F)]
