"""C34: trajectory animations.  matplotlib is external: the figure's artists record what they are told to show, the animation
records its frame function, number of frames and interval.  The frame function is then executed for an arbitrary frame."""
from sim import *
from dv import harness, shim_np, seq, core, sums
from dv.core import mkif
import types

ID = "C34"
A = "torchrir.viz.animation:"
FG = [A + "animate_scene_gif", A + "_build_scene_animation", "torchrir.viz.utils:_trajectory_to_cpu", "torchrir.viz.utils:_traj_steps", "torchrir.viz.utils:_positions_to_cpu"]
FM = [A + "animate_scene_mp4"] + FG[1:]
TRUSTED = ["matplotlib draws what its artists were last told (set_offsets, _offsets3d, set_data, set_3d_properties, set_position, set_title)",
           "FuncAnimation calls the frame function with 0 .. frames-1 and shows each frame for the interval; Animation.save plays at the fps it is given"]
ASSUMPTIONS = ["the given trajectories have the same number of steps and the room's dimension", "the stride is at least 1", "float arithmetic is real arithmetic"]
BOUNDED = ["the number of sources and of microphones is 1, 2 or 3 (steps, stride, positions, duration and rates are arbitrary)"]
harness.SHIMS["numpy"] = shim_np.np
FMT = []


def _format(self, spec):
    FMT.append((spec, self))
    return f"\x01{len(FMT) - 1}\x02"


core.SReal.__format__ = _format


def tensor_like(x, what):
    if isinstance(x, STensor):
        return x
    if isinstance(x, (list, tuple)) and len(x) == 0:
        return None
    raise Unsupported(f"{what} of {type(x).__name__}")


class Artist:
    def __init__(self, kind, kw, args=()):
        self.__dict__.update(kind=kind, kw=kw, args=args, off=None, xyz=[None, None, None], pos=[None, None, None], title=None)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("set_color", "set_alpha", "set_visible", "set_label", "set_linewidth", "set_zorder", "set_linestyle", "set_marker", "set_fontsize", "set_animated"):
            return lambda *a, **k: None
        raise Unsupported(f"{self.kind}.{n}")

    def __setattr__(self, n, v):
        if self.kind == "scatter" and n == "_offsets3d":
            self.__dict__["off"] = tuple(v)
        else:
            raise Unsupported(f"{self.kind}.{n} is assigned")


class Scatter(Artist):
    def set_offsets(self, xy):
        self.__dict__["off"] = xy


class Line(Artist):
    def set_data(self, *a):
        if len(a) == 1:
            a = (a[0][0], a[0][1])
        self.xyz[0], self.xyz[1] = a

    def set_xdata(self, x): self.xyz[0] = x
    def set_ydata(self, x): self.xyz[1] = x
    def set_3d_properties(self, z, *a, **k): self.xyz[2] = z
    def set_data_3d(self, *a): self.xyz[:] = list(a[0]) if len(a) == 1 else list(a)


class Label(Artist):
    def set_position(self, p): self.pos[0], self.pos[1] = p[0], p[1]
    def set_x(self, x): self.pos[0] = x
    def set_y(self, x): self.pos[1] = x
    def set_3d_properties(self, z=0, zdir=None): self.pos[2] = z
    def set_position_3d(self, p, zdir=None): self.pos[:] = list(p)
    def set_text(self, s): self.__dict__["text"] = s


STYLE = ("set_xlim", "set_ylim", "set_zlim", "set_xlabel", "set_ylabel", "set_zlabel", "tick_params", "set_aspect", "legend", "grid", "set_box_aspect", "view_init", "set_axis_off", "margins")


class Axes:
    def __init__(self, three):
        self.three, self.scatters, self.lines, self.texts, self.title = three, [], [], [], None
        if three:
            self.text2D = lambda *a, **k: Label("note", k)
        self.transAxes = "axes"

    def scatter(self, *a, **k):
        self.scatters.append(Scatter("scatter", k, a))
        return self.scatters[-1]

    def plot(self, *a, **k):
        self.lines.append(Line("line", k, a))
        return [self.lines[-1]]

    def text(self, x, y, *a, **k):
        if k.get("transform") is not None:
            return Label("note", k)
        at = [x, y]
        a = list(a)
        if self.three:                              # Axes3D.text(x, y, z, s, zdir)
            if "z" not in k and not a:
                raise TypeError("text() missing 1 required positional argument: 'z'")
            at.append(k["z"] if "z" in k else a.pop(0))
        if "s" not in k and not a:
            raise TypeError("text() missing 1 required positional argument: 's'")
        s = k["s"] if "s" in k else a.pop(0)
        t = Label("text", k)
        t.__dict__["text"] = s
        t.pos[:len(at)] = at
        self.texts.append(t)
        return t

    def set_title(self, s, **k):
        self.title = s

    def __getattr__(self, n):
        if n in STYLE:
            return lambda *a, **k: None
        raise AttributeError(n) if n.startswith("__") or n == "text2D" else Unsupported(f"Axes.{n}")


class Fig:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, projection=None, **k):
        self.axes.append(Axes(projection == "3d"))
        return self.axes[-1]

    def __getattr__(self, n):
        if n in ("tight_layout", "set_size_inches", "subplots_adjust", "set_dpi", "suptitle"):
            return lambda *a, **k: None
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"Figure.{n}")


class Anim:
    def __init__(self, fig, func, frames=None, init_func=None, fargs=None, save_count=None, interval=200, blit=False, **k):
        if fargs:
            raise Unsupported("fargs")
        self.fig, self.func, self.frames, self.interval, self.saved = fig, func, frames, interval, []
        MADE.append(self)

    def save(self, filename, writer=None, fps=None, dpi=None, **k):
        self.saved.append((filename, writer, fps))


class Writer:
    def __init__(self, fps=5, *a, **k):
        self.fps = fps


MADE, CLOSED = [], []


def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)

    def no(n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"{name}.{n}")
    m.__getattr__ = no
    return m


def figure(*a, **k):
    return Fig()


def subplots(*a, **k):
    f = Fig()
    return f, f.add_subplot(111, projection=(k.get("subplot_kw") or {}).get("projection"))


plt = mod("matplotlib.pyplot", figure=figure, subplots=subplots, close=lambda *a: CLOSED.append(a), style=types.SimpleNamespace(use=lambda *a: None))
anim = mod("matplotlib.animation", FuncAnimation=Anim, FFMpegWriter=Writer, PillowWriter=Writer)
harness.SHIMS.update({"matplotlib": mod("matplotlib", pyplot=plt, animation=anim), "matplotlib.pyplot": plt, "matplotlib.animation": anim, "scienceplots": mod("scienceplots")})


class OutPath:
    def __new__(cls, p="out.gif", *a):
        if isinstance(p, OutPath):
            return p
        o = object.__new__(cls)
        o.p = str(p)
        return o

    @property
    def parent(self):
        return OutPath("out")

    def mkdir(self, *a, **k):
        pass

    def __str__(self):
        return self.p
    __fspath__ = __str__

    def __getattr__(self, n):
        raise AttributeError(n) if n.startswith("__") else Unsupported(f"Path.{n}")


harness.SHIMS["pathlib"] = mod("pathlib", Path=OutPath, PurePath=OutPath)


class Obj:
    def __init__(self, positions):
        self.positions = positions


def colour(a):
    return a.kw.get("color", a.kw.get("c"))


def column(P, label, got, n, want, hyps):
    """got is a 1-D sequence of n numbers equal to want(t)"""
    if isinstance(got, STensor):
        if not P.shape_is(label + ": length", got, [n]):
            return
        t = fresh("t")
        P.prove(label, got.snapshot()([t]) == want(t), hyps=hyps + [t >= 0, t < T.dterm(n)], cands=[(t,)])
    else:
        P.fail(label, f"{type(got).__name__}")


def scene(fn, dim, two, three, which, ns, nm, rate, entity="tensor", notes=None, annotate=True, video=False):
    def run(P):
        MADE[:] = []
        FMT[:] = []
        f = P.fn(A + fn)
        Tn, k = P.int("steps", 1), P.int("step", 1)
        room_ = P.tensor("room_size", [dim])
        sp, mp = P.tensor("sources", [ns, dim]), P.tensor("mics", [nm, dim])
        st_ = P.tensor("src_traj", [Tn, ns, dim]) if "s" in which else None
        mt_ = P.tensor("mic_traj", [Tn, nm, dim]) if "m" in which else None
        kw = dict(step=k, plot_2d=two, plot_3d=three, annotate_sources=annotate)
        dur = None
        if "d" in rate:
            d = P.real("duration_s", pos=True)
            kw["duration_s"], dur = d, d.t
        if "l" in rate:
            n, fs = P.int("signal_len", 1), P.real("fs", pos=True)
            kw["signal_len"], kw["fs"] = n, fs
            if dur is None:
                dur = z3.ToReal(n.t) / fs.t
        fps = None
        if "f" in rate:
            fps = P.real("fps")
            kw["fps"] = fps
        wrapv = (lambda t: Obj(t)) if entity == "object" else (lambda t: t)
        out = OutPath("dir/animation.gif")
        st, y = P.call(f, out_path=out, room=room_, sources=wrapv(sp), mics=wrapv(mp), src_traj=st_, mic_traj=mt_, annotation_lines=notes, **kw)
        invalid = which == "" or not (two or three)
        if invalid:
            return P.check("requests without a trajectory or a view are rejected", st == "raise" and isinstance(y, ValueError), repr(y))
        if st == "raise":
            return P.fail("a valid request is animated", repr(y))
        if not P.check("one animation is made and saved once", len(MADE) == 1 and len(MADE[0].saved) == 1, repr(MADE)):
            return
        an = MADE[0]
        name, writer, sfps = an.saved[0]
        P.check("it is saved under the given path", str(name) == str(out), repr(name))
        fps_out = lift(writer.fps if isinstance(writer, Writer) else sfps)
        N = lift(an.frames)
        P.prove("ceil(steps / stride) frames", z3.And(N >= 1, (N - 1) * k.t < Tn.t, Tn.t <= N * k.t))
        # rate
        if fps_out.sort() == I:
            want = []
            x = z3.ToReal(N) / dur if dur is not None else None
            def rounded(v):
                r = z3.ToReal(fps_out)
                return z3.Or(z3.And(r - v <= z3.Q(1, 2), v - r <= z3.Q(1, 2)), z3.And(fps_out == 1, v < 1))
            if x is not None:
                # rounded(x) without division
                r = z3.ToReal(fps_out)
                rx = z3.Or(z3.And(r * dur - z3.ToReal(N) <= dur / 2, z3.ToReal(N) - r * dur <= dur / 2), z3.And(fps_out == 1, z3.ToReal(N) < dur))
            else:
                rx = z3.BoolVal(True)
            P.prove("at least one frame per second", fps_out >= 1)
            if fps is None:
                P.prove("playback lasts the duration, up to whole frames per second", rx)
            else:
                P.prove("the given rate is used, up to whole frames per second", z3.Implies(fps.t > 0, rounded(fps.t)))
                P.prove("without a positive rate playback lasts the duration", z3.Implies(fps.t <= 0, rx))
            iv = toreal(lift(an.interval))
            e = iv * z3.ToReal(fps_out) - 1000
            P.prove("the interval is that of the rate", z3.And(e <= z3.Q(1, 10 ** 6), e >= -z3.Q(1, 10 ** 6)))     # up to the rounding of 1000 / fps
        else:
            P.fail("a whole number of frames per second", str(fps_out))
        # an arbitrary frame
        i = P.int("frame", 0)
        P.assume(i.t < N)
        ax = [a for a in an.fig.axes]
        if not P.check("one set of axes", len(ax) == 1):
            return
        ax = ax[0]
        ax.title = None
        st, y = P.call(an.func, i)
        if st == "raise":
            return P.fail("every frame can be drawn", repr(y))
        vd = 3 if three and dim == 3 else 2
        P.check("the view's dimension", ax.three == (vd == 3))
        at = sums.canon(mkif(i.t * k.t <= Tn.t - 1, i.t * k.t, Tn.t - 1))
        P.prove("the shown step exists", z3.And(at >= 0, at < Tn.t))
        where = {"sources": ((lambda t, e, d: st_.fun(t, e, d)) if st_ is not None else (lambda t, e, d: sp.fun(e, d)), ns),
                 "mics": ((lambda t, e, d: mt_.fun(t, e, d)) if mt_ is not None else (lambda t, e, d: mp.fun(e, d)), nm)}
        c = lambda v: z3.IntVal(v)
        cols = {}
        for lab, (pos, cnt) in where.items():
            sc = [s for s in ax.scatters if s.kw.get("label") == lab]
            if not P.check(f"one group of {lab}", len(sc) == 1):
                continue
            cols[lab] = colour(sc[0])
            off = sc[0].off
            if vd == 2:
                if not P.check(f"{lab} are shown", isinstance(off, STensor)) or not P.shape_is(f"every one of the {lab} is shown", off, [cnt, 2]):
                    continue
                g = lambda e, d: off.snapshot()([c(e), c(d)])
            else:
                if not P.check(f"{lab} are shown", isinstance(off, tuple) and len(off) == 3 and all(isinstance(o, STensor) for o in off)) or \
                        not all([P.shape_is(f"every one of the {lab} is shown", o, [cnt]) for o in off]):
                    continue
                g = lambda e, d: off[d].snapshot()([c(e)])
            for e in range(cnt):
                P.prove(f"{lab} {e} at its position of the shown step", z3.And(*[g(e, d) == pos(at, c(e), c(d)) for d in range(vd)]))
            lines = [l for l in ax.lines if colour(l) == cols[lab]]
            if not P.check(f"one trail for each of the {lab}", len(lines) == cnt, str(len(lines))):
                continue
            for e, l in enumerate(lines):
                for d in range(vd):
                    column(P, f"trail of {lab} {e}, axis {d}: up to the shown step", l.xyz[d], wrap(sums.canon(at + 1)), lambda t: pos(t, c(e), c(d)), [])
        P.check("the groups can be told apart", len(set(map(str, cols.values()))) == len(cols))
        if annotate:
            pos = where["sources"][0]
            for e in range(ns):
                tx = [t for t in ax.texts if t.text == f"S{e}"]
                if P.check(f"one label for source {e}", len(tx) == 1):
                    got = tx[0].pos
                    P.prove(f"the label of source {e} is at the source", z3.And(*[toreal(lift(got[d])) == pos(at, c(e), c(d)) for d in range(vd)]))
        else:
            P.check("no labels unless requested", not ax.texts)
        # time label
        if dur is None:
            P.check("no time label without a duration", ax.title is None, repr(ax.title))
        elif ax.title is None:
            P.prove("a time label in every frame of a moving scene", Tn.t <= 1)
        else:
            s = str(ax.title)
            a, b = s.find("\x01"), s.find("\x02")
            ok = a >= 0 and b > a and s.count("\x01") == 1
            if P.check("the title shows a time", ok, repr(s)):
                spec, v = FMT[int(s[a + 1:b])]
                P.check("the time has at least two decimals", spec in (".2f", ".3f", ".4f") , spec)
                P.prove("the time label is the step's fraction of the duration", z3.Implies(Tn.t > 1, toreal(v.t) * (z3.ToReal(Tn.t) - 1) == z3.ToReal(at) * dur))
    return run


G, M = "animate_scene_gif", "animate_scene_mp4"
CASES = []


def add(name, fns=FG, **k):
    CASES.append(Case(name, scene(**k), fns))


add("2-D, both move, duration", fn=G, dim=2, two=True, three=False, which="sm", ns=2, nm=1, rate="d")
add("2-D, sources move, from the signal length", fn=G, dim=2, two=True, three=False, which="s", ns=1, nm=2, rate="l")
add("2-D, microphones move, given rate", fn=G, dim=2, two=True, three=False, which="m", ns=2, nm=3, rate="f")
add("2-D, both move, given rate and duration", fn=G, dim=2, two=True, three=False, which="sm", ns=3, nm=1, rate="df", entity="object")
add("2-D view of a 3-D scene", fn=G, dim=3, two=True, three=False, which="s", ns=2, nm=2, rate="d", notes=["x", " "])
add("3-D view, both move", fn=G, dim=3, two=False, three=True, which="sm", ns=2, nm=2, rate="d")
add("3-D view, sources move", fn=G, dim=3, two=True, three=True, which="s", ns=1, nm=2, rate="dl", entity="object", annotate=False)
add("3-D view, microphones move", fn=G, dim=3, two=False, three=True, which="m", ns=2, nm=1, rate="l", notes=["a"])
add("3-D view of a 2-D scene", fn=G, dim=2, two=False, three=True, which="sm", ns=1, nm=1, rate="")
add("video, 2-D", FM, fn=M, dim=2, two=True, three=False, which="sm", ns=1, nm=2, rate="d")
add("video, 3-D", FM, fn=M, dim=3, two=False, three=True, which="s", ns=2, nm=1, rate="lf")
add("no trajectory", fn=G, dim=2, two=True, three=False, which="", ns=1, nm=1, rate="d")
add("no view", fn=G, dim=3, two=False, three=False, which="sm", ns=1, nm=1, rate="d")
add("no trajectory (video)", FM, fn=M, dim=3, two=True, three=True, which="", ns=1, nm=1, rate="d")
