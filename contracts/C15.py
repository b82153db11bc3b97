"""C15: a scene object exists exactly when its parts are consistent, and converts without changing its contents."""
from C14 import *
import C14

ID = "C15"
S = "torchrir.models.scene:"
FS_ = [S + n for n in ("StaticScene.__post_init__", "StaticScene.validate", "StaticScene.is_dynamic", "_validate_scene_entities")]
FD = [S + n for n in ("DynamicScene.__post_init__", "DynamicScene.validate", "DynamicScene._validate_internal", "DynamicScene.is_dynamic", "_validate_scene_entities", "_validate_traj")]
FL = [S + n for n in ("Scene.__post_init__", "Scene.validate", "Scene._validate_internal", "Scene.is_dynamic", "Scene.to_static_scene", "Scene.to_dynamic_scene", "_validate_scene_entities", "_validate_traj")]
ASSUMPTIONS = ["Room, Source and MicrophoneArray objects are built through their constructors (C14 shows those exist exactly when valid)",
               "a trajectory of a single entity may be given as (T, dim); otherwise (T, entities, dim)"]


def parts(P, dim):
    st, room = P.call(P.fn(M + "Room"), size=P.tensor_const([3.0, 4.0, 5.0][:dim]), fs=16000.0)
    if st == "raise":
        return P.fail("a valid room exists", repr(room))
    out = [room]
    for cls, nm in (("Source", "s"), ("MicrophoneArray", "m")):
        n, d = P.int(f"n_{nm}", 0), P.int(f"d_{nm}", 0)
        P.assume(z3.Or(d.t == 2, d.t == 3))
        p = P.tensor(f"positions_{nm}", [n, d])
        st, e = P.call(P.fn(M + cls), p)
        if st == "raise":
            return P.fail("valid entities exist", repr(e))
        out += [e, n, d]
    return out


def traj(P, name, rank, dtype):
    """a trajectory tensor of some rank, with its validity condition and its length"""
    dims = [P.int(f"{name}_{i}", 0) for i in range(rank)]
    t = P.tensor(name, dims, dtype, nonfinite=dtype.kind == "f")

    def valid(count, dim):
        if rank == 2:
            return z3.And(count.t == 1, dims[1].t == dim)
        if rank == 3:
            return z3.And(dims[1].t == count.t, dims[2].t == dim)
        return z3.BoolVal(False)
    return t, dims, valid


def static_case(dim, cls):
    def run(P):
        ps = parts(P, dim)
        if ps is None:
            return
        room, s, ns, ds, m, nm, dm = ps
        st, sc = P.call(P.fn(S + cls), room=room, sources=s, mics=m)
        ok = [ds.t == dim, dm.t == dim]
        if not iff(P, cls, st, sc, ok, []):
            return
        P.check("the scene keeps its parts", sc.room is room and sc.sources is s and sc.mics is m)
        P.check("a static scene is not dynamic", P.call(sc.is_dynamic) == ("ok", False))
        P.check("an accepted scene validates", P.call(sc.validate)[0] == "ok")
        if cls == "Scene":
            st, e = P.call(sc.to_dynamic_scene)
            P.check("a static scene does not convert to a dynamic one", st == "raise" and isinstance(e, ValueError))
            st, q = P.call(sc.to_static_scene)
            P.check("a static scene converts to a static one", st == "ok" and type(q) is P.fn(S + "StaticScene"), repr(q))
            if st == "ok":
                P.check("conversion keeps the parts", q.room is room and q.sources is s and q.mics is m)
    return run


def dynamic_case(dim, cls, rs, rm, dts=T.float32, dtm=T.float32):
    def run(P):
        ps = parts(P, dim)
        if ps is None:
            return
        room, s, ns, ds, m, nm, dm = ps
        a, ad, av = traj(P, "src_traj", rs, dts)
        b, bd, bv = traj(P, "mic_traj", rm, dtm)
        st, sc = P.call(P.fn(S + cls), room=room, sources=s, mics=m, src_traj=a, mic_traj=b)
        ok = [ds.t == dim, dm.t == dim, av(ns, dim), bv(nm, dim)]
        if rs and rm:
            ok.append(ad[0].t == bd[0].t)
        if not iff(P, cls, st, sc, ok, [(a, ad, FIN), (b, bd, FIN)]):
            return
        P.check("the scene keeps its parts", sc.room is room and sc.sources is s and sc.mics is m)
        kept(P, "the source trajectory is kept", sc.src_traj, a, ad)
        kept(P, "the microphone trajectory is kept", sc.mic_traj, b, bd)
        P.check("a dynamic scene is dynamic", P.call(sc.is_dynamic) == ("ok", True))
        P.check("an accepted scene validates", P.call(sc.validate)[0] == "ok")
        if cls == "Scene":
            st, e = P.call(sc.to_static_scene)
            P.check("a dynamic scene does not convert to a static one", st == "raise" and isinstance(e, ValueError))
            st, q = P.call(sc.to_dynamic_scene)
            P.check("a dynamic scene converts to a dynamic one", st == "ok" and type(q) is P.fn(S + "DynamicScene"), repr(q))
            if st == "ok":
                P.check("conversion keeps the parts", q.room is room and q.sources is s and q.mics is m)
                kept(P, "conversion keeps the source trajectory", q.src_traj, a, ad)
                kept(P, "conversion keeps the microphone trajectory", q.mic_traj, b, bd)
    return run


def half_case(dim, which):
    def run(P):
        ps = parts(P, dim)
        if ps is None:
            return
        room, s, ns, ds, m, nm, dm = ps
        t, d, v = traj(P, "traj", 3, T.float32)
        st, e = P.call(P.fn(S + "Scene"), room=room, sources=s, mics=m, **{which: t})
        P.check("a half-specified dynamic scene is rejected", st == "raise" and isinstance(e, ValueError), repr(e))
    return run


def wrong_kind(cls):
    """something other than a room, a source or a microphone array in one of the three places"""
    def run(P):
        ps = parts(P, 3)
        if ps is None:
            return
        room, s, ns, ds, m, nm, dm = ps
        kw = dict(src_traj=P.tensor("a", [P.int("t", 0), ns, 3]), mic_traj=P.tensor("b", [P.int("t2", 0), nm, 3])) if cls == "DynamicScene" else {}
        for what, args in (("room", (s, s, m)), ("sources", (room, m, m)), ("mics", (room, s, s)), ("none", (None, s, m)), ("nothing", (room, None, m)), ("no microphones", (room, s, None))):
            st, e = P.call(P.fn(S + cls), *args, **kw)
            P.check(f"a scene without a proper part is rejected ({what})", st == "raise", repr(e))
    return run


CASES = [Case(f"{c} {d}-D", static_case(d, c), FS_ if c == "StaticScene" else FL) for d in (2, 3) for c in ("StaticScene", "Scene")]
for _d in (2, 3):
    for _c in ("DynamicScene", "Scene"):
        for _a in range(5):
            for _b in range(5):
                if (_a in (2, 3) or _b in (2, 3)) and (_d == 3 or (_a in (2, 3) and _b in (2, 3))):
                    CASES.append(Case(f"{_c} {_d}-D trajectory ranks {_a} and {_b}", dynamic_case(_d, _c, _a, _b), FD if _c == "DynamicScene" else FL))
CASES += [Case("DynamicScene whole-number trajectories", dynamic_case(3, "DynamicScene", 3, 3, T.int64, T.int64), FD)]
CASES += [Case(f"Scene {d}-D only {w}", half_case(d, w), FL) for d in (2, 3) for w in ("src_traj", "mic_traj")]
CASES += [Case(f"{c} wrong parts", wrong_kind(c), FS_ + FD + FL) for c in ("StaticScene", "DynamicScene", "Scene")]
