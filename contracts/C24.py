"""C24: scene metadata describes exactly the scene and is plain JSON data."""
from sim import *
from dv import core, seq, sums
import contextlib, io as _io, json as _json, pathlib

ID = "C24"
MD = "torchrir.io.metadata:"
F = [MD + n for n in ("build_metadata", "_normalize_traj", "_compute_doa", "_array_attributes", "_to_serializable")]
FJ = [MD + "_to_serializable"]
FS_ = [MD + "save_metadata_json", "torchrir.io.outputs:save_scene_metadata"]
TRUSTED = ["json.dump writes the JSON text of a value made of dicts with string keys, lists, strings, finite numbers, booleans and None",
           "pathlib directory creation and file opening"]
ASSUMPTIONS = ["trajectories and timestamps are finite (scenes guarantee it for trajectories)", "an array has at least one microphone",
               "extra fields and source information consist of tensors, paths, dicts with string keys, lists, tuples and JSON scalars"]


def size_of(v):
    if isinstance(v, seq.SymSeq):
        return v.count()
    if isinstance(v, list):
        return z3.IntVal(len(v))
    return None


def at(v, k):
    """entry k (a term) of a list"""
    if isinstance(v, seq.SymSeq):
        return v.elem(k)
    if z3.is_int_value(z3.simplify(k)):
        return v[z3.simplify(k).as_long()]
    return seq.as_symseq(list(v)).elem(k)


def list_is(P, label, v, dims, spec):
    """v is the nested list with these dimensions and entries"""
    pts = [()]
    for d in dims:
        pts = [p + (z3.IntVal(q),) for p in pts for q in range(d)] if isinstance(d, int) else [p + (fresh("k"),) for p in pts]
    seen = set()
    for ix in pts:
        hyps = [z3.And(k >= 0, k < T.dterm(d)) for k, d in zip(ix, dims) if not isinstance(d, int)]
        with P.given(*hyps) if hyps else contextlib.nullcontext(True) as feasible:
            if feasible:
                entry = v
                for k in ix:
                    if size_of(entry) is None:
                        return P.fail(label, f"not a list: {entry!r}")
                    entry = at(entry, k)
                if isinstance(entry, (list, seq.SymSeq)):
                    return P.fail(label, "nested too deeply")
                P.prove_eq(label, toreal(lift(entry)), toreal(spec(*ix)))
    for q in range(len(dims)):
        for ix in pts:
            key = tuple(str(k) if z3.is_int_value(k) else "?" for k in ix[:q])
            if (q, key) in seen:
                continue
            seen.add((q, key))
            hyps = [z3.And(k >= 0, k < T.dterm(d)) for k, d in zip(ix[:q], dims) if not isinstance(d, int)]
            with P.given(*hyps) if hyps else contextlib.nullcontext(True) as feasible:
                if feasible:
                    w = v
                    for k in ix[:q]:
                        w = at(w, k)
                    n = size_of(w)
                    if n is None:
                        return P.fail(label, f"not a list: {w!r}")
                    P.prove(f"{label}: length {q}", n == T.dterm(dims[q]))


def jsonable(P, label, v, depth=0):
    """only JSON data, all numbers finite"""
    if v is None or type(v) in (str, bool, int) or isinstance(v, (core.SBool, core.SInt)):
        return True
    if isinstance(v, float):
        return P.check(label, v == v and abs(v) != float("inf"), repr(v))
    if isinstance(v, core.SReal):
        if v.kind is not None:
            P.prove(label, v.kind == 0)
        return True
    if isinstance(v, dict):
        return all([P.check(label + ": string keys", all(type(k) is str for k in v), repr(list(v)))] + [jsonable(P, f"{label}.{k}", x, depth + 1) for k, x in v.items()])
    if isinstance(v, list):
        return all([jsonable(P, label, x, depth + 1) for x in v])
    if isinstance(v, seq.SymSeq):
        k = fresh("k")
        with P.given(k >= 0, k < v.count()) as feasible:
            return jsonable(P, label, v.elem(k), depth + 1) if feasible else True
    return P.fail(label, f"not JSON data: {type(v).__name__}")


def witness_pairs(P):
    """the index pairs named by minimum witnesses on this path"""
    names = {}
    for h in P.ctx.hyps:
        for n, t in core.free_consts(h).items():
            if n.startswith("arg") and t.sort() == I:
                names[n] = t
    return [(a, b) for a in names.values() for b in names.values()]


def entity(P, cls, nm, dim, orient):
    n = P.int(f"n_{nm}", 1)
    p = P.tensor(f"{nm}_pos", [n, dim])
    o = P.tensor(f"{nm}_orientation", [n, 2 if dim == 2 else 3]) if orient else None
    st, e = P.call(P.fn("torchrir.models.room:" + cls), p, o)
    if st == "raise":
        raise e
    return e, n, p, o


def trajectory(P, nm, rank, dim, dtype, given=None):
    """a trajectory argument with: valid?, steps, entities, entry function"""
    if rank is None:
        return None, None
    d = [P.int(f"{nm}_steps", 0)] + ([P.int(f"{nm}_count", 0)] if rank == 3 else []) + ([P.int(f"{nm}_dim", 0)] if rank >= 2 else [])
    if rank > 3:
        d = [P.int(f"{nm}_{i}", 0) for i in range(rank)]
    t = P.tensor(nm, d[:rank] if rank else [], dtype)
    return t, d


def array_contract(P, dim):
    """the array section (discharged on the real function by the 'array' cases)"""
    def spec(real):
        def f(mics):
            A = P.fn(MD + "ArrayAttributes")
            return A(geometry_name="custom", positions=mics.positions, orientation=mics.orientation, center=P.tensor("center", [dim]), normal=None, spacing=P.real("spacing", pos=True))
        return f
    return spec


def build_case(dim, rs, rm, wall="beta", ts="none", orient=False, extras=False, dtype=T.float32, what=""):
    def run(P):
        f = P.fn(MD + "build_metadata")
        if what != "array":
            P.stub("_array_attributes", array_contract(P, dim))
        r = make_room(P, dim, wall)
        src, ns, sp, so = entity(P, "Source", "src", dim, orient)
        mic, nm, mp, mo = entity(P, "MicrophoneArray", "mic", dim, orient)
        st_, sd = trajectory(P, "src_traj", rs, dim, dtype)
        mt, md_ = trajectory(P, "mic_traj", rm, dim, dtype)
        nsmp = P.int("nsample", 0)
        shape = [P.int("r0", 0), P.int("r1", 0), nsmp]
        kw = {}
        tsv = None
        if ts == "given":
            nts = P.int("n_ts", 0)
            tsv = kw["timestamps"] = P.tensor("timestamps", [nts])
        if ts in ("len", "given"):
            sl = kw["signal_len"] = P.int("signal_len", 0)
        if extras:
            kw["source_info"] = ["a", {"b": P.real("info"), "p": pathlib.PurePosixPath("x")}] if False else ["a", {"b": P.real("info")}, (1, None)]
            kw["extra"] = {"k": P.tensor("x", [P.int("nx", 0)]), "s": "v"}
        st, m = P.call(f, room=r["room"], sources=src, mics=mic, rirs=P.tensor("rirs", shape), src_traj=st_, mic_traj=mt, **kw)

        def view(t, d, rank, n, p):
            if rank is None:
                return z3.BoolVal(True), z3.IntVal(1), n.t, (lambda i, e, k: toreal(p.fun(e, z3.IntVal(k))))
            if rank == 2:
                return d[1].t == dim, d[0].t, z3.IntVal(1), (lambda i, e, k: toreal(t.fun(i, z3.IntVal(k))))
            if rank == 3:
                return d[2].t == dim, d[0].t, d[1].t, (lambda i, e, k: toreal(t.fun(i, e, z3.IntVal(k))))
            return z3.BoolVal(False), z3.IntVal(1), z3.IntVal(1), None
        sv, sT, sn, sf = view(st_, sd, rs, ns, sp)
        mv, mT, mn, mf = view(mt, md_, rm, nm, mp)
        valid = z3.And(sv, mv, z3.Or(sT == mT, z3.And(sT == 1, mT > 1), z3.And(mT == 1, sT > 1)))
        if st == "raise":
            P.check("rejection is a ValueError", isinstance(m, ValueError), repr(m))
            P.impossible("matching trajectories are accepted", [valid])
            return
        P.prove("only matching trajectories are accepted", valid)
        if rs not in (None, 2, 3) or rm not in (None, 2, 3):
            return
        P.ctx.assume(valid)
        steps = z3.If(sT >= mT, sT, mT)
        keys = {"room", "sources", "mics", "trajectories", "array", "time_axis", "doa", "timestamps", "rirs_shape", "dynamic"} | ({"source_info", "extra"} if extras else set())
        if not P.check("the documented sections", isinstance(m, dict) and set(m) >= keys, repr(list(m))):
            return
        at_step = lambda fn, n: (lambda i, e, k: fn(z3.If(n == steps, i, z3.IntVal(0)), e, k))
        sF, mF = at_step(sf, sT), at_step(mf, mT)
        if what in ("", "room"):
            list_is(P, "room size", m["room"]["size"], [dim], lambda k: r["L"].fun(k))
            P.prove_eq("sampling rate", m["room"]["fs"], r["fs"])
            P.prove_eq("speed of sound", m["room"]["c"], r["c"])
            if wall == "beta":
                list_is(P, "wall coefficients", m["room"]["beta"], [2 * dim], lambda k: r["beta"].fun(k))
            else:
                P.check("no wall coefficients", m["room"]["beta"] is None)
            if wall == "t60":
                P.prove_eq("T60", m["room"]["t60"], r["t60"].t)
            else:
                P.check("no T60", m["room"]["t60"] is None)
            for nme, e, cnt, p, o in (("sources", src, ns, sp, so), ("mics", mic, nm, mp, mo)):
                list_is(P, f"{nme} positions", m[nme]["positions"], [cnt, dim], lambda i, k: p.fun(i, k))
                if o is None:
                    P.check(f"{nme} without orientation", m[nme]["orientation"] is None)
                else:
                    list_is(P, f"{nme} orientation", m[nme]["orientation"], [cnt, o.shape[1]], lambda i, k: o.fun(i, k))
            P.prove_eq("time axis rate", m["time_axis"]["fs"], r["fs"])
            P.prove_eq("time axis length", m["time_axis"]["nsample"], nsmp)
            list_is(P, "time axis: sample k at k/fs", m["time_axis"]["t"], [nsmp], lambda k: z3.ToReal(k) / r["fs"])
            sh = m["rirs_shape"]
            P.check("response shape", isinstance(sh, list) and len(sh) == 3, repr(sh))
            for a, b in zip(sh, shape):
                P.prove_eq("response shape entry", a, b)
        if what in ("", "motion"):
            P.prove("dynamic exactly with more than one step", (lift(m["dynamic"]) if isinstance(m["dynamic"], core.SVal) else z3.BoolVal(bool(m["dynamic"]))) == (steps > 1))
            for nme, cnt, fn in (("sources", sn, sF), ("mics", mn, mF)):
                tr = m["trajectories"][nme]
                if tr is None:
                    P.prove(f"{nme}: no trajectory only when static", steps <= 1)
                else:
                    P.prove(f"{nme}: a trajectory only when dynamic", steps > 1)
                    list_is(P, f"{nme}: trajectory, a static entity repeated", tr, [wrap(steps), wrap(cnt), dim],
                            lambda i, e, k: fn(i, e, k.as_long()))
            diff = lambda i, s, q, k: sF(i, s, k) - mF(i, q, k)
            list_is(P, "azimuth", m["doa"]["azimuth"], [wrap(steps), wrap(sn), wrap(mn)], lambda i, s, q: core.ATAN2(diff(i, s, q, 1), diff(i, s, q, 0)))
            if dim == 2:
                list_is(P, "elevation in the plane", m["doa"]["elevation"], [wrap(steps), wrap(sn), wrap(mn)], lambda i, s, q: z3.RealVal(0))
            else:
                list_is(P, "elevation", m["doa"]["elevation"], [wrap(steps), wrap(sn), wrap(mn)],
                        lambda i, s, q: core.ATAN2(diff(i, s, q, 2), core.SQRT(diff(i, s, q, 0) ** 2 + diff(i, s, q, 1) ** 2)))
            t = m["timestamps"]
            if ts == "given":
                list_is(P, "the given timestamps", t, [nts], lambda k: tsv.fun(k))
            elif ts == "len":
                if t is None:
                    P.prove("no timestamps only when static", steps <= 1)
                else:
                    P.prove("timestamps only when dynamic", steps > 1)
                    P.ctx.assume(steps > 1)
                    dur = z3.If(sl.t >= 1, (z3.ToReal(sl.t) - 1) / r["fs"], z3.RealVal(0))
                    list_is(P, "timestamps spread over the signal", t, [wrap(steps)], lambda k: dur * z3.ToReal(k) / (z3.ToReal(steps) - 1))
            else:
                P.check("no timestamps", t is None)
        if what in ("", "array"):
            ar = m["array"]
            list_is(P, "array positions", ar["positions"], [nm, dim], lambda i, k: mp.fun(i, k))
            list_is(P, "array centre is the mean position", ar["center"], [dim], lambda k: sum_over([nm], lambda i: mp.fun(i, k)) / z3.ToReal(nm.t))
            i, j = fresh("i"), fresh("j")
            sq = lambda x: x * x
            D = lambda a, b: core.SQRT(sums.canon(sum([sq(mp.fun(a, z3.IntVal(k)) - mp.fun(b, z3.IntVal(k))) for k in range(dim)], z3.RealVal(0))))
            inr = [i >= 0, i < nm.t, j >= 0, j < nm.t]
            trig = [(mp.fun.name(), (0,))]
            if ar["spacing"] is None:
                P.prove("no spacing only when all microphones coincide", D(i, j) == 0, hyps=inr, cands=[(i, j), (i, j, z3.IntVal(0)), (i,), (j,)])
            else:
                s = toreal(lift(ar["spacing"]))
                P.prove("the spacing is not larger than any distance", z3.Implies(D(i, j) > 0, s <= D(i, j)), hyps=inr, cands=[(i, j), (i,), (j,)])
                P.prove("the spacing is positive", s > 0)
                P.impossible("the spacing is one of the distances", [], [(2, lambda a, b: z3.Implies(z3.And(a >= 0, a < nm.t, b >= 0, b < nm.t), D(a, b) != s))], cands=witness_pairs(P))
            P.check("single, binaural or custom geometry", ar["geometry"] in ("single", "binaural", "custom"))
            P.prove("the geometry name follows the microphone count", {"single": nm.t == 1, "binaural": nm.t == 2, "custom": nm.t > 2}[ar["geometry"]])
        if extras:
            P.check("source information and extra fields are kept", m["extra"]["s"] == "v" and m["source_info"][0] == "a" and m["source_info"][2] == [1, None], repr(m["source_info"]))
        if what in ("", "json", "room"):
            jsonable(P, "metadata is JSON data", m)
    return run


class Mark:
    """an arbitrary convertible value"""

    def __init__(self, n):
        self.n = n


def serial_case(P):
    """structural induction: one level of a container, its children converted by the contract"""
    mod = P.mod("torchrir.io.metadata")
    f = mod._to_serializable
    mod._to_serializable = lambda v: ("converted", v.n) if isinstance(v, Mark) else f(v)
    a, b, c = Mark("a"), Mark("b"), Mark("c")
    got = P.call(f, {"x": a, "y": b})
    P.check("a dict keeps its keys, values converted", got == ("ok", {"x": ("converted", "a"), "y": ("converted", "b")}) and list(got[1]) == ["x", "y"], repr(got))
    for mk in (list, tuple):
        got = P.call(f, mk([a, b, c]))
        P.check(f"a {mk.__name__} becomes a list, entries converted in order", got == ("ok", [("converted", x) for x in "abc"]) and type(got[1]) is list, repr(got))
        P.check(f"an empty {mk.__name__}", P.call(f, mk()) == ("ok", []))
    P.check("an empty dict", P.call(f, {}) == ("ok", {}))
    k = P.int("entries", 0)
    st, got = P.call(f, seq.SymSeq(k, lambda i: Mark(i)))
    if st == "raise":
        P.fail("lists of any length", repr(got))
    else:
        i = fresh("i")
        P.ctx.assume(z3.And(i >= 0, i < k.t))
        s = seq.as_symseq(got)
        P.prove("a list of any length keeps its length", s.count() == k.t)
        v = s.elem(i)
        P.check("and its entries in order", isinstance(v, tuple) and v[0] == "converted", repr(v))
        P.prove("entry i stays entry i", v[1] == i)
    for v in (None, "text", 3, 2.5, True):
        P.check("plain JSON values are kept", P.call(f, v) == ("ok", v))
    from pathlib import Path as RealPath
    P.check("a path becomes its text", P.call(f, RealPath("a/b")) == ("ok", "a/b"))


def tensor_serial(rank, dtype):
    def run(P):
        f = P.fn(MD + "_to_serializable")
        d = [P.int(f"d{i}", 0) for i in range(rank)]
        t = P.tensor("value", d, dtype)
        st, v = P.call(f, t)
        if st == "raise":
            return P.fail("tensors are converted", repr(v))
        if dtype.kind == "b":
            return list_is_bool(P, v, d, t)
        list_is(P, "the tensor's entries as nested lists", v, d, lambda *ix: t.fun(*ix) if rank else t.fun)
        jsonable(P, "JSON data", v)
    return run


def list_is_bool(P, v, d, t):
    k = fresh("k")
    with P.given(k >= 0, k < d[0].t) as feasible:
        if feasible:
            P.prove("flags kept", lift(at(v, k)) == t.fun(k))


class FakeFile(_io.StringIO):
    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def close(self):
        self.owner.content = self.getvalue()
        super().close()


class FakePath:
    """records what is written where"""

    def __init__(self, log, name):
        self.log, self.name, self.content, self.made = log, name, None, False

    @property
    def parent(self):
        p = FakePath(self.log, self.name.rpartition("/")[0])
        return p

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        self.log.append(("mkdir", self.name, parents, exist_ok))

    def open(self, mode="r", encoding=None, **k):
        self.log.append(("open", self.name, mode))
        f = FakeFile(self)
        self.log.append(("file", self))
        return f

    def write_text(self, s, encoding=None, **k):
        self.content = s
        self.log.append(("open", self.name, "w"))
        self.log.append(("file", self))

    def __truediv__(self, o):
        return FakePath(self.log, f"{self.name}/{o}")

    def __str__(self):
        return self.name


def save_case(P):
    """the file holds the JSON text of the metadata; it is the metadata built from the given arguments"""
    f = P.fn(MD + "save_metadata_json")
    md = {"a": [1, 2.5, None, True], "b": {"c": "é"}}
    log = []
    p = FakePath(log, "out/dir/meta.json")
    st, e = P.call(f, p, md)
    if st == "raise":
        return P.fail("metadata is written", repr(e))
    files = [x[1] for x in log if x[0] == "file"]
    P.check("one file is written, at the given place", [x.name for x in files] == ["out/dir/meta.json"], repr(log))
    P.check("its directory exists beforehand", ("mkdir", "out/dir", True, True) in log and log.index(("mkdir", "out/dir", True, True)) < [x[0] for x in log].index("open"), repr(log))
    P.check("the file holds the metadata as JSON", len(files) == 1 and _json.loads(files[0].content) == md, repr(files and files[0].content))


def scene_save_case(P):
    mod = P.mod("torchrir.io.outputs")
    got = {}
    MARK = {"made": 1}

    def build(real):
        return lambda **k: got.update(k) or MARK
    P.stub("build_metadata", build)
    saved = []
    P.stub("save_metadata_json", lambda real: (lambda path, metadata: saved.append((path, metadata))))
    names = ("room", "sources", "mics", "rirs", "src_traj", "mic_traj", "timestamps", "signal_len", "source_info", "extra")
    args = {n: Mark(n) for n in names}
    log = []
    st, r = P.call(mod.save_scene_metadata, out_dir=FakePath(log, "out"), metadata_name="m.json", **args)
    if st == "raise":
        return P.fail("scene metadata is saved", repr(r))
    for n in names:
        P.check(f"{n} is handed on unchanged", got.get(n) is args[n], repr(got.get(n)))
    P.check("nothing else is handed on", set(got) == set(names), repr(set(got)))
    P.check("the built metadata is saved at out_dir/metadata_name and returned", len(saved) == 1 and saved[0][0].name == "out/m.json" and saved[0][1] is MARK and r is MARK, repr(saved))


CASES = []
for _d in (2, 3):
    for _a, _b in ((None, None), (2, None), (None, 2), (3, None), (None, 3), (2, 2), (2, 3), (3, 2), (3, 3)):
        for _w in ("motion",):
            CASES.append(Case(f"{_d}-D trajectories {_a}/{_b} {_w}", build_case(_d, _a, _b, ts={(None, None): "len", (3, 3): "len", (3, None): "given", (2, 3): "len"}.get((_a, _b), "none"), what=_w), F))
    for _wall in ("beta", "t60", "none"):
        CASES.append(Case(f"{_d}-D room and time axis, walls {_wall}", build_case(_d, None, None, _wall, orient=_wall == "beta", extras=_wall == "t60", what="room"), F))
    CASES.append(Case(f"{_d}-D array", build_case(_d, None, None, what="array"), F))
CASES += [Case(f"trajectory ranks {a}/{b} are rejected", build_case(3, a, b, what="none"), F) for a, b in ((1, None), (None, 4), (0, 3), (4, 4))]
CASES += [Case("JSON data, moving", build_case(3, 3, 3, ts="len", what="json"), F), Case("JSON data, one moving", build_case(3, None, 2, ts="given", extras=True, what="json"), F),
          Case("whole-number trajectories", build_case(3, 3, 2, dtype=T.int64, what="motion"), F)]
CASES += [Case("serialisation of containers", serial_case, FJ)] + [Case(f"serialisation of a tensor of rank {r} {d.name}", tensor_serial(r, d), FJ) for r in (0, 1, 2, 3) for d in (T.float32, T.int64)] + [Case("serialisation of flags", tensor_serial(1, T.bool_), FJ)]
CASES += [Case("metadata file", save_case, FS_), Case("scene metadata file", scene_save_case, FS_)]
