"""C14: rooms, sources and microphones exist exactly when valid, with their values kept."""
from dv.harness import *
from dv import core, sums, tensor as T

ID = "C14"
M = "torchrir.models.room:"
RF = [M + "Room.__post_init__", M + "Room.replace", M + "Room.shoebox", "torchrir.util.tensor:ensure_dim", "torchrir.util.tensor:ensure_floating", "torchrir.util.tensor:as_tensor"]
EF = [M + n for n in ("Source.__post_init__", "MicrophoneArray.__post_init__", "Source.from_positions", "MicrophoneArray.from_positions", "Source.replace", "MicrophoneArray.replace",
                      "_normalize_entity_positions", "_normalize_entity_orientation", "_validate_orientation")]
ASSUMPTIONS = ["conversion of whole numbers to the default floating dtype is exact (holds below 2^24)"]


def kind_at(t, ix):
    return t.kfun(*ix) if t.kfun is not None and ix else (t.kfun if t.kfun is not None else z3.IntVal(0))


def value_at(t, ix):
    return toreal(t.fun(*ix) if ix else t.fun)


def all_true(P, label, t, dims, body):
    """forall indices of t: body(value, kind)"""
    ix = [fresh("i") for _ in dims]
    P.prove(label, body(value_at(t, ix), kind_at(t, ix)), hyps=[z3.And(i >= 0, i < T.dterm(d)) for i, d in zip(ix, dims)], cands=[tuple(ix), (z3.IntVal(0), *ix)])


def assume_all(t, dims, body):
    """the universal fact that every entry satisfies body"""
    f = lambda *ix: z3.Implies(z3.And(*[z3.And(i >= 0, i < T.dterm(d)) for i, d in zip(ix, dims)]), body(value_at(t, list(ix)), kind_at(t, list(ix))))
    if not dims:
        return (0, lambda: body(value_at(t, []), kind_at(t, [])))
    trig = [(t.fun.name(), tuple(range(len(dims))))]
    if t.kfun is not None:
        trig.append((t.kfun.name(), tuple(range(len(dims)))))
    return (len(dims), f, trig)


FIN = lambda v, k: k == 0
POS = lambda v, k: z3.And(k == 0, v > 0)
UNIT = lambda v, k: z3.And(k == 0, v >= 0, v <= 1)
pos = lambda x: z3.And(x.kind == 0, x.t > 0) if x.kind is not None else x.t > 0


def iff(P, what, outcome, exc, scalars, tensors):
    """accepted => valid; rejected => the inputs are not all valid"""
    if outcome == "raise":
        P.check(f"{what}: rejection is a ValueError or TypeError", isinstance(exc, (ValueError, TypeError)), repr(exc))
        P.impossible(f"{what}: valid inputs are accepted", scalars + [assume_all(*t)[1]() for t in tensors if not t[1]], [assume_all(*t) for t in tensors if t[1]])
        return False
    for i, s in enumerate(scalars):
        P.prove(f"{what}: accepted only when valid (condition {i})", s)
    for i, t in enumerate(tensors):
        all_true(P, f"{what}: accepted only with valid entries (tensor {i})", *t)
    return True


def kept(P, label, got, t, dims):
    if not isinstance(got, STensor):
        return P.fail(label, repr(got))
    P.tensor_eq(label, got, dims, lambda *ix: value_at(t, list(ix)))


def room_case(srank, walls, dtype=T.float32, via="Room"):
    def run(P):
        Room = P.fn(M + "Room")
        n = P.int("sides", 0)
        dims = {0: [], 1: [n], 2: [n, P.int("cols", 0)]}[srank]
        size = P.tensor("size", dims, dtype, nonfinite=dtype.kind == "f")
        fs, c, t60 = P.ext("fs"), P.ext("c"), P.ext("t60")
        scal = [pos(fs), pos(c)]
        if srank == 1:
            scal.insert(0, z3.Or(n.t == 2, n.t == 3))
        else:
            scal.insert(0, z3.BoolVal(False))
        tens = [(size, dims, POS)]
        kw = {}
        if "b" in walls:
            bd = [P.int("k", 0)] if "2" not in walls else [P.int("k", 0), P.int("k2", 0)]
            beta = P.tensor("beta", bd, T.int64 if "i" in walls else T.float32, nonfinite="i" not in walls)
            kw["beta"] = beta
            num = bd[0].t if len(bd) == 1 else bd[0].t * bd[1].t
            scal.append(num == 2 * n.t)
            tens.append((beta, bd, UNIT))
        if "t" in walls:
            kw["t60"] = t60
            scal.append(pos(t60))
        if "b" in walls and "t" in walls:
            scal.append(z3.BoolVal(False))
        if via == "Room":
            st, r = P.call(Room, size=size, fs=fs, c=c, **kw)
        elif via == "shoebox":
            st, r = P.call(Room.shoebox, size, fs=fs, c=c, **kw)
        else:
            st, r0 = P.call(Room, size=P.tensor_const([3.0, 4.0, 5.0]), fs=1000.0)
            if st == "raise":
                return P.fail("a valid room", repr(r0))
            st, r = P.call(r0.replace, size=size, fs=fs, c=c, **kw)
        if not iff(P, "room", st, r, scal, tens):
            return
        kept(P, "the size is kept", r.size, size, dims)
        P.check("the size is a floating tensor", r.size.dtype.kind == "f")
        P.check("rate and sound speed are kept", r.fs is fs and r.c is c)
        P.check("T60 is kept", r.t60 is (t60 if "t" in walls else None))
        if "b" in walls:
            P.shape_is("one coefficient per wall", r.beta, [wrap(2 * n.t)])
            if "2" not in walls:
                kept(P, "the coefficients are kept", r.beta, beta, [wrap(bd[0].t)])
            else:
                i, j = fresh("i"), fresh("j")
                P.prove("the coefficients are kept, row by row", toreal(r.beta.snapshot()([c for c in T.split_flat(i * bd[1].t + j, [q.size for q in r.beta._d[0]])])) == value_at(beta, [i, j]),
                        hyps=[z3.And(i >= 0, i < bd[0].t, j >= 0, j < bd[1].t)])
        else:
            P.check("no coefficients", r.beta is None)
    return run


def entity_case(cls, prank, orank, dtype=T.float32, via="new"):
    def run(P):
        C = P.fn(M + cls)
        n, d = P.int("n", 0), P.int("d", 0)
        pd = {0: [], 1: [d], 2: [n, d], 3: [n, d, P.int("e", 0)]}[prank]
        p = P.tensor("positions", pd, dtype, nonfinite=dtype.kind == "f")
        cnt = n.t if prank == 2 else z3.IntVal(1)
        scal = [z3.Or(d.t == 2, d.t == 3) if prank in (1, 2) else z3.BoolVal(False)]
        tens = [(p, pd, FIN)]
        ori = None
        if orank is not None:
            a, b = P.int("a", 0), P.int("b", 0)
            od = {0: [], 1: [a], 2: [a, b], 3: [a, b, P.int("c", 0)]}[orank]
            ori = P.tensor("orientation", od, dtype, nonfinite=dtype.kind == "f")
            tens.append((ori, od, FIN))
            two = {0: z3.BoolVal(True), 1: z3.Or(a.t == 1, a.t == 2, a.t == cnt), 2: z3.And(a.t == cnt, z3.Or(b.t == 1, b.t == 2)), 3: z3.BoolVal(False)}[orank]
            three = {0: z3.BoolVal(False), 1: z3.Or(a.t == 2, a.t == 3), 2: z3.And(a.t == cnt, z3.Or(b.t == 2, b.t == 3)), 3: z3.BoolVal(False)}[orank]
            scal.append(z3.If(d.t == 2, two, three))
        if via == "new":
            st, e = P.call(C, p, ori)
        elif via == "from_positions":
            st, e = P.call(C.from_positions, p, orientation=ori)
        else:
            st, e0 = P.call(C, P.tensor_const([[1.0, 2.0, 3.0]]))
            if st == "raise":
                return P.fail("a valid object", repr(e0))
            st, e = P.call(e0.replace, positions=p, orientation=ori)
        if not iff(P, cls, st, e, scal, tens):
            return
        if prank == 1:
            P.tensor_eq("a single position becomes one row", e.positions, [1, d], lambda i, j: value_at(p, [j]))
        else:
            kept(P, "the positions are kept", e.positions, p, pd)
        P.check("positions are floating", e.positions.dtype.kind == "f")
        if ori is None:
            P.check("no orientation", e.orientation is None)
        else:
            kept(P, "the orientation is kept", e.orientation, ori, od)
            P.check("orientation is floating", e.orientation.dtype.kind == "f")
    return run


def lists_case(P):
    """plain sequences, also of whole numbers"""
    Room, S = P.fn(M + "Room"), P.fn(M + "Source")
    for name, mk in (("whole", lambda k: P.int(k, 1)), ("real", lambda k: P.real(k, pos=True))):
        v = [mk(f"{name}_{i}") for i in range(3)]
        b = [P.real(f"{name}_b{i}") for i in range(6)]
        for x in b:
            P.assume(z3.And(x.t >= 0, x.t <= 1))
        st, r = P.call(Room.shoebox, list(v), fs=16000, beta=list(b))
        if st == "raise":
            return P.fail("a list of sides is accepted", repr(r))
        for i in range(3):
            P.prove(f"{name} side {i} kept", toreal(r.size.snapshot()([z3.IntVal(i)])) == toreal(lift(v[i])))
        for i in range(6):
            P.prove(f"coefficient {i} kept beside {name} sides", toreal(r.beta.snapshot()([z3.IntVal(i)])) == b[i].t)
        st, s = P.call(S.from_positions, [list(v), [v[1], v[2], v[0]]])
        if st == "raise":
            return P.fail("a list of positions is accepted", repr(s))
        for i in range(3):
            P.prove(f"{name} position {i} kept", toreal(s.positions.snapshot()([z3.IntVal(0), z3.IntVal(i)])) == toreal(lift(v[i])))


CASES = [Case(f"room size rank {r} walls {w or 'none'}{' ' + d.name if d is not T.float32 else ''} {v}", room_case(r, w, d, v), RF)
         for r, w, d, v in ([(1, w, T.float32, "Room") for w in ("", "b", "t", "bt", "b2", "bi")] + [(1, w, T.int64, "Room") for w in ("", "b", "t")] +
                            [(1, w, T.float32, "replace") for w in ("", "b", "t")] + [(1, w, T.float32, "shoebox") for w in ("", "b", "t", "bt")] + [(1, "b", T.int64, "shoebox"), (0, "", T.float32, "Room"), (2, "", T.float32, "Room")])]
for _c in ("Source", "MicrophoneArray"):
    for _p in (0, 1, 2, 3):
        CASES.append(Case(f"{_c} positions rank {_p}", entity_case(_c, _p, None), EF))
    for _o in (0, 1, 2, 3):
        for _p in (1, 2):
            CASES.append(Case(f"{_c} positions rank {_p} orientation rank {_o}", entity_case(_c, _p, _o), EF))
    for _v in ("from_positions", "replace"):
        CASES.append(Case(f"{_c} {_v}", entity_case(_c, 2, 2, via=_v), EF))
        CASES.append(Case(f"{_c} {_v} 1-D orientation", entity_case(_c, 2, 1, via=_v), EF))
    CASES.append(Case(f"{_c} whole numbers", entity_case(_c, 2, 1, T.int64), EF))
    CASES.append(Case(f"{_c} whole numbers from_positions", entity_case(_c, 2, 2, T.int64, "from_positions"), EF))
CASES.append(Case("lists", lists_case, RF + EF))
