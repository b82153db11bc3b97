"""C30: scenes of the dynamic data set.  numpy.random.Generator is external: uniform(a, b) is any number between a and b,
choice / permutation pick any (distinct) entries.  Radii, azimuths, speeds, sizes and step counts are arbitrary; the
builder allows at most as many sources as the array has microphones (6), see BOUNDED for the numbers covered."""
from sim import *
from dv import harness, shim_np, seq
import os
import numpy as _numpy

ID = "C30"
D = "torchrir.datasets.dynamic_cmu_arctic:"
BOUNDED = ["the trajectory contract is discharged for 1, 2, 3 (and, thoroughly, 6) sources with every choice of moving ones, the placement contract for 1 and 2 sources; positions, ratios, durations, speeds and step counts are arbitrary", "the number of placement trials is arbitrary for one source, one per source for two sources"]
ASSUMPTIONS = ["numpy.random.Generator.uniform(a, b) returns a value between a and b; choice(n, size, replace=False) distinct indices below n; permutation(n) a permutation",
               "numpy arithmetic is real arithmetic", "SIN and COS satisfy sin^2 + cos^2 = 1"]
harness.SHIMS["numpy"] = shim_np.np
np = shim_np.np
MAXS = 6


class Gen:
    """numpy Generator of the caller"""

    def __init__(self):
        self.log = []

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            raise core.Unsupported("uniform with a size")
        if getattr(low, "__dv_tensor__", False) or getattr(high, "__dv_tensor__", False):
            lo, hi = np.asarray(low), np.asarray(high)
            k = int(lo.shape[0])
            return np.array([self.uniform(lo[j].item(), hi[j].item()) for j in range(k)])
        return wrap(core.draw("uniform", toreal(lift(low)), toreal(lift(high))))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        if p is not None:
            raise core.Unsupported("weighted choice")
        c = core.ctx()
        if getattr(a, "__dv_tensor__", False) or isinstance(a, (list, tuple)):
            a = np.asarray(a)
            if size is not None:
                raise core.Unsupported("choice of several entries")
            vals = [a[j].item() for j in range(int(a.shape[0]))]
            i = core.draw("pick", z3.IntVal(0), z3.IntVal(len(vals) - 1), I)
            r = lift(vals[-1])
            for j in range(len(vals) - 2, -1, -1):
                r = z3.If(i == j, lift(vals[j]), r)
            return wrap(r)
        if replace or isinstance(size, SVal) or isinstance(a, SVal):
            raise core.Unsupported("choice with replacement")
        # any subset of the given size, in any order (the order is a permutation of the subset)
        left, out = list(range(a)), []
        if size > a:
            raise ValueError("Cannot take a larger sample than population when replace is False")
        for j in range(a):
            need = size - len(out)
            if need == 0:
                break
            if need == a - j or c.decide(None, f"source {j} is chosen"):
                out.append(j)
        if len(out) > 1 and c.decide(None, "chosen in reverse order"):
            out.reverse()
        return np.array(out, dtype=np.int64)

    def permutation(self, n):
        if isinstance(n, SVal) or getattr(n, "__dv_tensor__", False):
            raise core.Unsupported("permutation of an array")
        vs = [core.draw(f"perm{j}", z3.IntVal(0), z3.IntVal(n - 1), I) for j in range(n)]
        if n > 1:
            core.ctx().assume(z3.Distinct(*vs))
        return np.array([wrap(v) for v in vs])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported(f"Generator.{n}")


def scal(x):
    return toreal(lift(x.item() if getattr(x, "__dv_tensor__", False) else x))


def subset(P, n):
    return [j for j in range(n) if P.ctx.decide(None, f"source {j} moves")]


def trajectory(n, moving, one=False):
    def run(P):
        f = P.fn(D + "_build_source_trajectory")
        mc = P.tensor("mic_center", [3], T.float64)
        st_az, en_az = P.tensor("start_azimuth", [n], T.float64), P.tensor("end_azimuth", [n], T.float64)
        rad, z, starts = P.tensor("radius", [n], T.float64), P.tensor("height", [n], T.float64), P.tensor("starts", [n, 3], T.float64)
        for j in range(n):
            r, a = rad.at(j), st_az.at(j)
            P.assume(r > 0)
            P.assume(starts.at(j, 0) == mc.at(0) + r * core.COS(a))
            P.assume(starts.at(j, 1) == mc.at(1) + r * core.SIN(a))
        steps = P.int("n_steps", 1)
        if one:
            P.assume(steps.t == 1)
        else:
            P.assume(steps.t > 1)
        a, b = P.real("move_start_ratio"), P.real("move_end_ratio")
        ok = z3.And(a.t >= 0, a.t < b.t, b.t <= 1)
        st, y = P.call(f, starts=starts, mic_center=mc, start_azimuth=st_az, end_azimuth=en_az, moving_indices=moving, n_steps=steps, move_start_ratio=a, move_end_ratio=b)
        if st == "raise":
            P.check("contradictory ratios are a ValueError", isinstance(y, ValueError), repr(y))
            P.prove("only contradictory ratios are rejected", z3.Not(ok))
            return
        if one:
            return P.tensor_eq("a single step is the start", y, [1, n, 3], lambda k, s, d: starts.at(s, d))
        P.prove("contradictory ratios are rejected", ok)
        P.shape_is("one position per step and source", y, [steps, n, 3])
        if not isinstance(y, STensor):
            return
        k = fresh("k")
        hyp = [k >= 0, k < steps.t]
        t = toreal(k) / toreal(steps.t - 1)
        fn = y.snapshot()
        with P.given(*hyp) as live:
            if not live:
                return
            for s in range(n):
                p = [fn([k, z3.IntVal(s), z3.IntVal(d)]) for d in range(3)]
                if s not in moving:
                    P.prove(f"source {s} never moves", z3.And(*[p[d] == starts.at(s, d) for d in range(3)]))
                    continue
                al = z3.If(t < a.t, z3.RealVal(0), z3.If(t > b.t, z3.RealVal(1), (t - a.t) / (b.t - a.t)))
                for w, cond, alpha in (("before", t < a.t, z3.RealVal(0)), ("after", t > b.t, z3.RealVal(1)), ("in", z3.And(t >= a.t, t <= b.t), (t - a.t) / (b.t - a.t))):
                    with P.given(cond) as l2:
                        if not l2:
                            continue
                        th = st_az.at(s) + (en_az.at(s) - st_az.at(s)) * alpha
                        P.prove_eq(f"source {s} {w} the window: x on the arc", p[0], mc.at(0) + rad.at(s) * core.COS(sums.canon(th)))
                        P.prove_eq(f"source {s} {w} the window: y on the arc", p[1], mc.at(1) + rad.at(s) * core.SIN(sums.canon(th)))
                        P.prove_eq(f"source {s} {w} the window: constant height", p[2], starts.at(s, 2))
    return run


EPS = z3.Q(1, 10 ** 9)


def room(P, centre=True):
    L, mar, mc = P.tensor("room_size", [3], T.float64), P.tensor("margin", [3], T.float64), P.tensor("mic_center", [3], T.float64)
    lo = [mar.at(d) for d in range(3)]
    hi = [L.at(d) - mar.at(d) for d in range(3)]
    if centre:
        for d in range(2):
            P.assume(z3.And(lo[d] <= mc.at(d), mc.at(d) <= hi[d]))
    return L, mar, mc, lo, hi


def at_azimuth(mc, a, r):
    return [mc.at(0) + r * core.COS(a), mc.at(1) + r * core.SIN(a)]


def within(p, lo, hi, slack):
    return z3.And(*[z3.And(p[d] >= lo[d] - slack, p[d] <= hi[d] + slack) for d in range(2)])


def max_radius(P):
    f = P.fn(D + "_max_radius_for_azimuth")
    L, mar, mc, lo, hi = room(P)
    a = P.real("azimuth")
    st, y = P.call(f, azimuth_rad=a, mic_center=mc, room_size=L, margin=mar)
    if st == "raise":
        return P.fail("a radius is returned", repr(y))
    R_ = scal(y)
    r = fresh("r", R)
    P.prove("every smaller radius stays inside the margins", z3.Implies(z3.And(r >= 0, r <= R_), within(at_azimuth(mc, a.t, r), lo, hi, EPS * r)))
    P.prove("no larger radius does", z3.Implies(z3.And(r >= 0, r > R_), z3.Not(within(at_azimuth(mc, a.t, r), lo, hi, -2 * EPS * r))))


def on_azimuth(given, mdef=False):
    def run(P):
        f = P.fn(D + "_sample_position_on_azimuth")
        L, mar, mc, lo, hi = room(P)
        a = P.real("azimuth")
        m = P.real("min_radius", nonneg=True) if not mdef else None
        mt = z3.Q(3, 2) if mdef else m.t
        M = P.real("max_radius") if given else None
        kw = {} if mdef else {"min_radius_m": m}
        if given:
            kw["max_radius_m"] = M
        st, y = P.call(f, rng=Gen(), azimuth_rad=a, mic_center=mc, room_size=L, margin=mar, **kw)
        if st == "raise":
            P.check("an infeasible request is a ValueError", isinstance(y, ValueError), repr(y))
            r = fresh("r", R)
            P.prove("only infeasible requests are rejected", z3.Not(z3.And(lo[2] < hi[2], r >= mt, z3.BoolVal(True) if not given else r <= M.t, within(at_azimuth(mc, a.t, r), lo, hi, -2 * EPS * r))))
            return
        P.shape_is("a position", y, [3])
        p = [y.at(d) for d in range(3)]
        dx, dy = sums.canon(p[0] - mc.at(0)), sums.canon(p[1] - mc.at(1))
        c, s = core.COS(a.t), core.SIN(a.t)
        r = fresh("radius", R)          # the projection on the azimuth's direction
        P.assume(r == sums.canon(dx * c + dy * s))
        P.prove("the position lies on the azimuth at one radius", z3.And(dx == r * c, dy == r * s))
        P.assume(z3.And(dx == r * c, dy == r * s))
        P.prove("at least the minimum distance from the centre", r >= mt)
        if given:
            P.prove("at most the maximum distance", r <= M.t)
        P.prove("inside the horizontal margins", within(p, lo, hi, EPS * r))
        P.prove("inside the vertical margin", z3.And(p[2] >= lo[2], p[2] <= hi[2]))
    return run


def random_centre(P):
    f = P.fn(D + "_sample_random_mic_center")
    L, mar = P.tensor("room_size", [3], T.float64), P.tensor("margin", [3], T.float64)
    dmin, rad = P.real("min_distance", nonneg=True), P.real("array_radius", nonneg=True)
    st, y = P.call(f, rng=Gen(), room_size=L, source_margin=mar, min_source_distance_m=dmin, array_radius_m=rad)
    lo = [core.mkif(rad.t >= mar.at(d) + dmin.t, rad.t, mar.at(d) + dmin.t) for d in range(2)] + [rad.t]
    hi = [core.mkif(L.at(d) - rad.t <= L.at(d) - mar.at(d) - dmin.t, L.at(d) - rad.t, L.at(d) - mar.at(d) - dmin.t) for d in range(2)] + [L.at(2) - rad.t]
    ok = z3.And(*[lo[d] < hi[d] for d in range(3)])
    if st == "raise":
        P.check("an infeasible room is a ValueError", isinstance(y, ValueError), repr(y))
        return P.prove("only infeasible rooms are rejected", z3.Not(ok))
    P.shape_is("a centre", y, [3])
    P.prove("infeasible rooms are rejected", ok)
    for d in range(3):
        P.prove(f"the whole array is inside the room along axis {d}", z3.And(y.at(d) - rad.t >= 0, y.at(d) + rad.t <= L.at(d)))
    for d in range(2):
        P.prove(f"room for the minimum source distance along axis {d}", z3.And(y.at(d) - dmin.t >= mar.at(d), y.at(d) + dmin.t <= L.at(d) - mar.at(d)))


def azimuth_contract(real):
    """a position at a distance of [min, max] from the centre on the azimuth, inside the margins; or ValueError"""
    def f(*, rng, azimuth_rad, mic_center, room_size, margin, min_radius_m=1.5, max_radius_m=None):
        c = core.ctx()
        ok = core.draw("place_ok", z3.IntVal(0), z3.IntVal(1), I)
        if not wrap(ok == 1):
            raise ValueError("no feasible position")
        a = sums.canon(toreal(lift(azimuth_rad.item() if getattr(azimuth_rad, "__dv_tensor__", False) else azimuth_rad)))
        r, z = core.draw("place_r", z3.RealVal(0), toreal(lift(max_radius_m)) if max_radius_m is not None else fresh("far", R)), \
            core.draw("place_z", scal(margin[2]), scal(room_size[2]) - scal(margin[2]))
        facts = [r >= toreal(lift(min_radius_m)), scal(margin[2]) < scal(room_size[2]) - scal(margin[2])]
        if max_radius_m is not None:
            facts.append(r <= toreal(lift(max_radius_m)))
        p = [scal(mic_center[0]) + r * core.COS(a), scal(mic_center[1]) + r * core.SIN(a), z]
        facts.append(within(p, [scal(margin[d]) for d in range(2)], [scal(room_size[d]) - scal(margin[d]) for d in range(2)], EPS * r))
        for x in facts:
            c.assume(x)
        PLACED.append((a, r))
        return np.array([wrap(x) for x in p])
    return f


PLACED = []


def placement(n, k, many=False):
    def run(P):
        trials = P.int("max_trials", 1) if many else 1
        P.mod(D[:-1])
        P.stub("_sample_position_on_azimuth", azimuth_contract)
        f = P.fn(D + "_build_constrained_source_positions")
        L, mar, mc, lo, hi = room(P, False)
        dur, a, b = P.real("duration"), P.real("move_start_ratio"), P.real("move_end_ratio")
        v0, v1, m = P.real("speed_min"), P.real("speed_max"), P.real("min_radius", pos=True)
        st, y = P.call(f, rng=Gen(), room_size=L, mic_center=mc, margin=mar, n_sources=n, n_moving_sources=k, duration_sec=dur, move_start_ratio=a, move_end_ratio=b,
                       moving_speed_min=v0, moving_speed_max=v1, min_radius_m=m, max_trials=trials)
        sane = z3.And(0 <= a.t, a.t < b.t, b.t <= 1, v0.t > 0, v1.t >= v0.t, dur.t > 0)
        if st == "raise":
            return P.check("infeasible or contradictory requests are a ValueError", isinstance(y, ValueError), repr(y))
        P.prove("contradictory requests are rejected", sane)
        if not P.check("a complete plan", isinstance(y, tuple) and len(y) == 8, repr(type(y))):
            return
        starts, ends, az, end_az, vel, ang, turn, moving = y
        P.check("exactly the requested number of sources move", isinstance(moving, list) and len(moving) == k and all(isinstance(j, int) and 0 <= j < n for j in moving) and len(set(moving)) == k, repr(moving))
        for t, d in ((starts, [n, 3]), (ends, [n, 3]), (az, [n]), (end_az, [n]), (vel, [n]), (ang, [n]), (turn, [n])):
            if not P.shape_is("one entry per source", t, d):
                return
        step = 2 * core.PI / n
        for s in range(n):
            A = sums.canon(az.at(s))
            base = sums.canon(az.at(s) - az.at(0))
            c, q = core.COS(A), core.SIN(A)
            dx, dy = starts.at(s, 0) - mc.at(0), starts.at(s, 1) - mc.at(1)
            r = fresh("radius", R)
            P.assume(r == sums.canon(dx * c + dy * q))      # defines r: the projection on the azimuth's direction
            P.lemma(f"source {s} starts on its azimuth", z3.And(dx == r * c, dy == r * q))
            for u in core.free_consts(dx).values():
                if u.sort() == R and u.decl().name().startswith("place_r"):
                    P.lemma(f"the radius of source {s} is the drawn one", r == u)
            P.lemma(f"source {s} keeps the minimum distance", r >= m.t)
            P.prove(f"source {s} starts inside the margins", z3.And(within([starts.at(s, d) for d in range(2)], lo, hi, EPS * r), starts.at(s, 2) >= lo[2], starts.at(s, 2) <= hi[2]))
            if s in moving:
                P.prove(f"the whole circle of moving source {s} is inside the margins", z3.And(*[z3.And(mc.at(d) - r >= lo[d], mc.at(d) + r <= hi[d]) for d in range(2)]))
                P.prove(f"speed of source {s} in the requested range", z3.And(vel.at(s) >= v0.t, vel.at(s) <= v1.t))
                P.prove(f"source {s} turns one way or the other", z3.Or(turn.at(s) == 1, turn.at(s) == -1))
                E = sums.canon(end_az.at(s))
                ex, ey = ends.at(s, 0) - mc.at(0), ends.at(s, 1) - mc.at(1)
                roots = {u.get_id(): u for t in (ex, ey, ang.at(s), E) for u in core.subterms(sums.canon(t)) if u.decl().name() == "SQRT"}
                for u in roots.values():
                    P.lemma(f"the distance of source {s} from the centre is its radius", u == r)
                P.prove(f"source {s} has the angular velocity of its speed", sums.canon(ang.at(s)) * r == sums.canon(toreal(turn.at(s)) * vel.at(s)))
                P.prove_eq(f"source {s} ends where its angular velocity takes it", end_az.at(s), az.at(s) + ang.at(s) * dur.t * (b.t - a.t))
                for t, w, g in ((ex, "x", core.COS(E)), (ey, "y", core.SIN(E))):
                    P.prove(f"the end of source {s} is on the same circle ({w})", sums.canon(t) == r * g)
                P.prove_eq(f"the end of source {s} is at the same height", ends.at(s, 2), starts.at(s, 2))
            else:
                P.prove(f"source {s} is static", z3.And(*[ends.at(s, d) == starts.at(s, d) for d in range(3)], end_az.at(s) == az.at(s), vel.at(s) == 0, ang.at(s) == 0, turn.at(s) == 0))
            for o in range(s):
                i = fresh("slots", I)
                diff = (az.at(s) - az.at(o))
                P.prove(f"sources {o} and {s} start a whole number of equal steps apart", z3.Or(*[diff == j * step for j in range(-n + 1, n) if j != 0]))
    return run


F1, F2, F3, F4, F5 = (D + n for n in ("_build_source_trajectory", "_max_radius_for_azimuth", "_sample_position_on_azimuth", "_sample_random_mic_center", "_build_constrained_source_positions"))
SUBS = [(n, [j for j in range(n) if b >> j & 1]) for n in (1, 2, 3) for b in range(2 ** n)] + [(6, [1, 4])]
if os.environ.get("DV_TIER") != "thorough":
    SUBS = [x for x in SUBS if x not in ((3, [0, 1]), (3, [1, 2]), (3, [0, 1, 2]), (6, [1, 4]))]
CASES = [Case(f"trajectory of {n}, moving {m}", trajectory(n, m), [F1]) for n, m in SUBS] + \
        [Case(f"trajectory of {n}, one step", trajectory(n, m, True), [F1]) for n, m in ((1, [0]), (2, [1]), (3, []))] + \
        [Case("largest radius", max_radius, [F2])] + \
        [Case(f"position on an azimuth{' below a maximum' if g else ''}{' (default minimum)' if m else ''}", on_azimuth(g, m), [F3]) for g, m in ((0, 0), (1, 0), (0, 1))] + \
        [Case("random array centre", random_centre, [F4])] + \
        [Case(f"{k} of {n} sources move", placement(n, k), [F5]) for n in (1, 2) for k in range(n + 1)] + \
        [Case("1 of 1 sources move, any number of trials", placement(1, 1, True), [F5])]
