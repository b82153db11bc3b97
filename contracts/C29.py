"""C29: fixed-length source signals.  The corpus is external: every load of an utterance is recorded in ghost state (how many
loads, how many samples so far, which utterance the k-th load asked for, where the current pass over the utterances began).
The concatenation loops are verified inductively against it (dv/ghost.py): any number of utterances of any lengths, any
number of loads, any order the generator's shuffles produce."""
from dv.harness import *
from dv import harness, core, sums, seq, ghost, shim_np, tensor as T
from dv.builtins_shim import dv_int
from dv.core import mkif
import random as _random

ID = "C29"
U = "torchrir.datasets.utils:"
D = "torchrir.datasets.dynamic_cmu_arctic:"
FC, FL, FS = [U + "choose_speakers"], [U + "load_dataset_sources", U + "choose_speakers"], [D + "_load_fixed_length_signal"]
TRUSTED = ["random.Random.shuffle permutes the list it is given; random.Random.sample(x, k) returns k different positions of x and needs 0 <= k <= len(x)",
           "load_audio(u) returns a 1-D signal, the same for the same utterance"]
ASSUMPTIONS = ["the requested duration covers at least one sample", "duration x rate is computed exactly (no float rounding)",
               "termination needs that not every utterance of a speaker is empty; each iteration loads exactly one utterance"]
BOUNDED = ["load_dataset_sources: the number of requested sources is 1, 2 or 3 (the number of speakers, utterances, loads and samples is arbitrary)"]
harness.SHIMS["numpy"] = shim_np.np


class Item:
    """entry j of the list with the given order"""

    def __init__(self, t, owner, what):
        self.t, self.owner, self.what = t, owner, what

    def __dv_terms__(self):
        return [self.t]

    def __dv_subst__(self, pairs):
        return type(self)(z3.substitute(self.t, *pairs), self.owner, self.what)

    def __getattr__(self, n):
        if n == "utterance_id" and self.what == "sentence":
            return Item(self.t, self.owner, "utterance")
        if n == "text" and self.what == "sentence":
            return Item(self.t, self.owner, "text")
        raise AttributeError(n)

    def __eq__(self, o):
        if not isinstance(o, Item) or o.owner is not self.owner or o.what != self.what:
            return False
        return wrap(self.t == o.t)

    def __hash__(self):
        raise Unsupported("hash of a corpus entry")


class Rows(seq.SymSeq):
    """a list of a speaker's utterances (or of the speakers); its order is ghost state"""

    def __init__(self, W, n, owner, what, order, name):
        self.W, self.owner, self.what, self.key = W, owner, what, name
        W.G.s[name] = order
        W.owners[name] = owner
        super().__init__(wrap(n), self.at)

    def at(self, k):
        o, n = self.W.G.s[self.key], self.n
        return Item(self.W.perm(self.owner)(o, k), self.owner, self.what)

    def copy(self):
        return Rows(self.W, self.n, self.owner, self.what, self.W.G.s[self.key], self.W.fresh_key())

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of the utterance list")
        return super().__getitem__(i)

    def append(self, x):
        raise Unsupported("the utterance list is changed")


class World:
    def __init__(self, P):
        self.P = P
        self.G = P.ctx.ghost = ghost.Ghost()
        self.G.candidates, self.G.triples = self.invariants, False
        self.owners = {}
        self.perms, self.sets, self.nk = {}, [], 0
        self.target = None                 # () -> term, once known
        self.rate0 = None                  # rate of the first load
        self.first = True
        T.RAGGED[:] = []

    def fresh_key(self):
        self.nk += 1
        return f"order{self.nk}"

    def orders(self, owner):
        return [k for k, o in self.owners.items() if o is owner]

    def perm(self, owner):
        return self.perms[id(owner)]

    def rows(self, owner, n, what):
        if id(owner) not in self.perms:
            f, g = core.fresh_fn("PERM", 2), core.fresh_fn("PLACE", 2)
            f, g = z3.Function(f.name(), I, I, I), z3.Function(g.name(), I, I, I)
            core.AXIOMS[f.name()] = lambda a: [z3.Implies(z3.And(a.arg(1) >= 0, a.arg(1) < n), z3.And(a >= 0, a < n, g(a.arg(0), a) == a.arg(1)))]
            self.perms[id(owner)] = f
        return Rows(self, n, owner, what, fresh("order"), self.fresh_key())

    def invariants(self, g, ints, changed):
        out = []
        for d in self.sets:
            if d.k("n") not in changed:
                continue
            n, s, ps, u0 = (g[d.k(x)] for x in ("n", "s", "ps", "u0"))
            out += [s == d.PS(n), n >= ps, ps >= 0, ps <= n, n <= ps + d.m]
            for o in (v for k, v in g.items() if k.startswith("order") and k in self.orders(d)):
                out.append(z3.Or(n <= d.i0, d.i0 < ps, u0 == self.perm(d)(o, d.i0 - ps)))
                out.append(z3.Or(n <= d.i0, d.i0 < ps, n == ps + d.m, u0 == self.perm(d)(o, d.i0 - ps)))
            out.append(z3.Or(n <= d.i0, u0 == d.LOG(d.i0)))
            out.append(z3.Or(n <= d.i0, z3.And(u0 >= 0, u0 < d.m)))
            if self.rate0 is not None:
                out.append(z3.Or(n <= d.i0, d.RATE(d.LOG(d.i0)) == self.rate0))
            for x in ints:
                out += [x == n - ps, z3.Or(x == n - ps, z3.And(x == 0, n == ps + d.m)), z3.Implies(n == ps + d.m, x == 0), x == ps, x - ps == n, x <= d.m, x == d.m - (n - ps)]
        return out


class Corpus:
    """one speaker's data set"""

    def __init__(self, W, speaker=None, tracked=True):
        self.W, self.speaker = W, speaker
        P = W.P
        self.id = len(W.sets)
        self.m = fresh("utterances")
        P.assume(self.m >= 0)
        i1 = lambda n, r=I: z3.Function(core.fresh_fn(n, 1).name(), I, r)
        self.LOG, self.LEN, self.RATE, self.PS = i1("LOG"), i1("LEN"), i1("RATE"), i1("PS")
        self.SAMP = z3.Function(core.fresh_fn("SAMP", 2).name(), I, I, R)
        core.AXIOMS[self.LEN.name()] = lambda a: [a >= 0]
        core.AXIOMS[self.RATE.name()] = lambda a: [a >= 1]
        core.AXIOMS[self.PS.name()] = lambda a: [z3.Implies(a.arg(0) >= 0, a >= 0)]
        z0 = z3.IntVal(0)
        P.assume(z3.And(self.PS(z0) == 0, self.PS(z3.IntVal(1)) == self.LEN(self.LOG(z0))))
        self.i0 = fresh("some_load")
        P.assume(self.i0 >= 0)
        W.sets.append(self)
        W.G.s.update({self.k("n"): z3.IntVal(0), self.k("s"): z3.IntVal(0), self.k("ps"): z3.IntVal(0), self.k("u0"): z3.IntVal(-1)})
        W.G.counters[self.k("n")] = [self.LOG]
        T.RAGGED.append((lambda j: self.LEN(self.LOG(j)), self.PS))

    def k(self, n):
        return f"{n}{self.id}"

    def now(self, n):
        return self.W.G.s[self.k(n)]

    def available_sentences(self):
        return self.W.rows(self, self.m, "sentence")

    def __dv_len__(self):
        return wrap(self.m)

    def load_audio(self, u):
        W, P, c = self.W, self.W.P, core.ctx()
        top = c is P.ctx
        if not isinstance(u, Item) or u.what != "utterance":
            raise Unsupported("load_audio of something else than an utterance identifier")
        if u.owner is not self:
            P.check("utterances are those of the source's own speaker", False, "an utterance of another speaker is loaded")
            raise core.PathEnd()
        n, s, ps, u0 = (self.now(x) for x in ("n", "s", "ps", "u0"))
        c.assume(self.LOG(n) == u.t)
        c.assume(self.PS(n + 1) == self.PS(n) + self.LEN(self.LOG(n)))
        begins = n == ps + self.m
        ps1 = mkif(z3.simplify(begins), n, ps) if not z3.is_false(z3.simplify(begins)) else ps
        if top:
            if W.target is not None:
                P.prove("nothing is loaded beyond what is needed", s < W.target())
            P.prove("no utterance is loaded again before the speaker's others were", u0 != u.t, hyps=[self.i0 < n, self.i0 >= ps1])
        g = W.G.s
        g[self.k("n")] = z3.simplify(n + 1)
        g[self.k("s")] = s + self.LEN(self.LOG(n))
        g[self.k("ps")] = ps1
        g[self.k("u0")] = mkif(n == self.i0, u.t, u0)
        L = self.LOG(n)
        if W.rate0 is None:
            W.rate0 = self.RATE(L)
            W.first_load(self.RATE(L))
        a = STensor.new([[self.LEN(L)]], lambda idx: self.SAMP(L, idx[0]), T.float32, T.as_device("cpu"))
        return a, wrap(self.RATE(L))

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"dataset.{n}")


class Speakers:
    """the data set without a chosen speaker"""

    def __init__(self, W):
        self.W = W
        self.n = fresh("speakers")
        W.P.assume(self.n >= 0)
        self.calls = 0

    def list_speakers(self):
        return self.W.rows(self, self.n, "speaker")

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"dataset.{n}")


class Rng:
    """the caller's generator"""

    def __init__(self, W):
        self.W = W

    def shuffle(self, x):
        if isinstance(x, Rows):
            self.W.G.s[x.key] = fresh("order")
        elif isinstance(x, list) and len(x) < 2:
            pass
        else:
            raise Unsupported("shuffle of another list")

    def sample(self, x, k):
        if not isinstance(x, Rows):
            raise Unsupported("sample of another list")
        kt = lift(k)
        if core.ctx().branch(z3.Or(kt < 0, kt > x.n), "sample larger than the population"):
            raise ValueError("Sample larger than population or is negative")
        r = Rows(self.W, x.n, x.owner, x.what, fresh("order"), self.W.fresh_key())
        if isinstance(k, int):
            return [r.at(z3.IntVal(i)) for i in range(k)]
        return seq.SymSeq(k, r.at)

    def choice(self, x):
        i = core.draw("randrange", 0, 1) if False else fresh("choice")
        core.ctx().assume(z3.And(i >= 0, i < lift(x.__dv_len__())))
        return x[wrap(i)]

    def __getattr__(self, n):
        if hasattr(_random.Random, n):
            raise Unsupported(f"random.Random.{n}")
        raise AttributeError(n)


def only_generator(P):
    P.check("only the generator passed in is used", not any(e[0] == "global_rng" for e in P.ctx.log))


def choose_case(P):
    W = World(P)
    ds = Speakers(W)
    k = P.int("num_sources", 0)
    st, y = P.call(P.fn(FC[0]), ds, k, Rng(W))
    if st == "raise":
        P.check("only too few speakers are refused", isinstance(y, (RuntimeError, ValueError)), repr(y))
        P.prove("a request that can be met is not refused", z3.Or(ds.n == 0, k.t > ds.n))
        return
    y = seq.as_symseq(y)
    P.prove("as many speakers as requested", y.count() == k.t)
    i, j = fresh("i"), fresh("j")
    a, b = y.elem(i), y.elem(j)
    ok = all(isinstance(x, Item) and x.owner is ds and x.what == "speaker" for x in (a, b))
    P.check("the speakers are speakers of the data set", ok)
    if ok:
        h = [i >= 0, i < k.t, j >= 0, j < k.t]
        P.prove("the speakers are speakers of the data set: listed", z3.And(a.t >= 0, a.t < ds.n), hyps=h)
        P.prove("the speakers are distinct", z3.Implies(a.t == b.t, i == j), hyps=h)
    only_generator(P)


def monotone(P, d, a, b):
    """PS(a) <= PS(b) for 0 <= a <= b: prefix sums of non-negative lengths (induction on b)"""
    x, y = fresh("x"), fresh("y")
    P.prove("prefix sums of lengths do not decrease (base)", d.PS(x) <= d.PS(x), hyps=[x >= 0])
    P.prove("prefix sums of lengths do not decrease (step)", d.PS(x) <= d.PS(y + 1), hyps=[x >= 0, x <= y, d.PS(x) <= d.PS(y), d.PS(y + 1) == d.PS(y) + d.LEN(d.LOG(y))])
    return z3.Implies(z3.And(a >= 0, a <= b), d.PS(a) <= d.PS(b))


def signal_is(P, d, row, length, ids, target, tag=""):
    """row(t) for t < length is the concatenation of the utterances ids, cut at target"""
    P.prove(f"{tag}exactly the requested number of samples", length == target)
    s = seq.as_symseq(ids)
    n = d.now("n")
    P.prove(f"{tag}one reported utterance per load", s.count() == n)
    P.prove(f"{tag}the loads cover the duration", d.PS(n) >= target)
    j, u = fresh("j"), fresh("u")
    h = [j >= 0, j < n, u >= 0, u < d.LEN(d.LOG(j)), d.PS(j) + u < target]
    P.ctx.hyps.extend(h)
    if P.ctx.check([], P.ctx.branch_ms) == z3.unsat:
        return P.fail(f"{tag}the signal has content")
    e = s.elem(j)
    ok = isinstance(e, Item) and e.owner is d and e.what == "utterance"
    P.check(f"{tag}the reported utterances are those of the speaker", ok, repr(e))
    if not ok:
        return
    P.prove(f"{tag}the reported utterances are those loaded, in order", e.t == d.LOG(j))
    t = fresh("t")
    v = row(t)
    P.ctx.assume(t == d.PS(j) + u)
    segs = [a for a in core.subterms(v) if a.decl().name().startswith("SEG!")]
    hy = [d.PS(j + 1) == d.PS(j) + d.LEN(d.LOG(j))]
    for g in segs:
        hy += [monotone(P, d, g + 1, j), monotone(P, d, j + 1, g)]
    for g in segs:
        P.lemma(f"{tag}the part of a sample is unique", g == j, hyps=hy + [z3.BoolVal(True)])
    P.prove(f"{tag}each utterance follows whole, cut only at the end", v == d.SAMP(e.t, u), hyps=hy)


def fixed_case(P):
    W = World(P)
    d = Corpus(W)
    n = P.int("target_samples", 1)
    W.target = lambda: n.t
    W.first_load = lambda r: None
    W.rate0 = z3.IntVal(0)
    st, y = P.call(P.fn(FS[0]), d, target_samples=n, rng_py=Rng(W))
    if st == "raise":
        P.check("only a speaker without utterances is refused", isinstance(y, RuntimeError), repr(y))
        P.prove("a speaker with utterances is not refused", d.m == 0)
        return
    sig, ids = y
    P.check("the signal is one-dimensional", isinstance(sig, STensor) and sig.ndim == 1)
    signal_is(P, d, lambda t: sig.snapshot()([t]), sig.dim_size(0), ids, n.t)
    only_generator(P)


def sources_case(k):
    def run(P):
        W = World(P)
        top = Speakers(W)
        dur = P.real("duration_s")
        W.asked = []

        def first_load(r):
            P.assume(dur.t * z3.ToReal(r) >= 1)
            t = lift(dv_int(dur * wrap(r)))
            W.target = lambda: t
        W.first_load = first_load
        P.assume(dur.t > 0)

        def factory(speaker=None):
            if speaker is None:
                return top
            if not isinstance(speaker, Item) or speaker.owner is not top or speaker.what != "speaker":
                P.check("a data set is opened for a chosen speaker", False, repr(speaker))
                raise core.PathEnd()
            d = Corpus(W, speaker)
            return d
        st, y = P.call(P.fn(FL[0]), dataset_factory=factory, num_sources=k, duration_s=dur, rng=Rng(W))
        if st == "raise":
            if isinstance(y, ValueError) and W.sets:
                d = W.sets[-1]
                n = d.now("n")
                P.prove("a rate is refused only when it differs from the first", z3.And(n >= 1, d.RATE(d.LOG(n - 1)) != W.rate0))
            elif isinstance(y, ValueError):
                P.prove("a request that can be met is not refused", top.n < k)
            elif isinstance(y, RuntimeError):
                P.prove("only a speaker without utterances is refused", z3.Or(top.n == 0, *([W.sets[-1].m == 0] if W.sets else [])))
            else:
                P.fail("a request that can be met is not refused", repr(y))
            return
        sig, fs, info = y
        tgt = W.target()
        P.check("one entry per source", isinstance(info, list) and len(info) == k, repr(info)[:200])
        P.check("one data set per source", len(W.sets) == k)
        if len(info) != k or len(W.sets) != k:
            return
        P.prove("the rate is that of the audio", lift(fs) == W.rate0)
        P.prove("the target is floor(duration x rate)", z3.And(z3.ToReal(tgt) <= dur.t * z3.ToReal(W.rate0), dur.t * z3.ToReal(W.rate0) < z3.ToReal(tgt) + 1))
        if not P.shape_is("one row per source, floor(duration x rate) samples", sig, [k, tgt]):
            return
        sp = [x[0] for x in info]
        for i in range(k):
            P.check("the reported speaker is the one whose data set was read", isinstance(sp[i], Item) and sp[i].what == "speaker" and sp[i].owner is top)
            P.prove("the reported speaker is the one whose data set was read (same)", sp[i].t == W.sets[i].speaker.t)
            for j in range(i):
                P.prove("the speakers are distinct", sp[i].t != sp[j].t)
        for i, d in enumerate(W.sets):
            P.prove("every loaded utterance has the common rate", d.RATE(d.LOG(d.i0)) == W.rate0, hyps=[d.i0 < d.now("n")])
            nh = len(P.ctx.hyps)
            fl = sig.snapshot()
            signal_is(P, d, lambda t, i=i: fl([z3.IntVal(i), t]), sig.dim_size(1), info[i][1], tgt, f"source {i}: ")
            del P.ctx.hyps[nh:]
        only_generator(P)
    return run


CASES = [Case("choose_speakers", choose_case, FC), Case("_load_fixed_length_signal", fixed_case, FS)]
CASES += [Case(f"load_dataset_sources, {k} source{'s' * (k > 1)}", sources_case(k), FL) for k in (1, 2, 3)]
