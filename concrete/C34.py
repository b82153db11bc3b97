"""C34 runtime contracts: real matplotlib artists (Agg), the animation object recorded, every frame drawn and read back."""
import math, os, re
os.environ.setdefault("MPLBACKEND", "Agg")
import numpy as np, torch


class Anim:
    made = []

    def __init__(self, fig, func, frames=None, interval=200, **k):
        self.fig, self.func, self.frames, self.interval, self.saved = fig, func, frames, interval, []
        Anim.made.append(self)

    def save(self, filename, writer=None, fps=None, dpi=None, **k):
        self.saved.append((filename, writer, fps))
        with open(filename, "wb") as f:
            f.write(b"x")


class Writer:
    def __init__(self, fps=5, *a, **k):
        self.fps = fps


class Entity:
    def __init__(self, p):
        self.positions = p


def as_given(rt, x):
    """a tensor, a list or an entity"""
    k = rt.rng.randrange(0, 3)
    return x if k == 0 else x.tolist() if k == 1 else Entity(x)


def arr(x):
    return np.asarray(x, dtype=float)


def check_frame(rt, ax, i, at, T, vd, where, annotate, dur, key):
    groups = {}
    for c in ax.collections:
        if c.get_label() in where:
            groups[c.get_label()] = c
    rt.require(sorted(groups) == sorted(where), "one group of sources and one of microphones", sorted(groups), sorted(where))
    cols = {}
    for lab, pos in where.items():
        c = groups[lab]
        got = np.stack([arr(v) for v in c._offsets3d], 1) if vd == 3 else arr(c.get_offsets())
        rt.close(got, pos[at, :, :vd], f"every frame: {lab} at their positions of the shown step", 1e-5, 1e-6)
        cols[lab] = tuple(np.round(c.get_facecolor()[0][:3], 3)) if len(c.get_facecolor()) else None
    import matplotlib.colors as mc
    for lab, pos in where.items():
        lines = [l for l in ax.lines if tuple(np.round(mc.to_rgb(l.get_color()), 3)) == cols[lab]]
        rt.require(len(lines) == pos.shape[1], f"one trail for each of the {lab}", len(lines), pos.shape[1])
        for e, l in enumerate(lines):
            got = np.stack([arr(v) for v in (l.get_data_3d() if vd == 3 else l.get_data())], 1)
            rt.require(got.shape == (at + 1, vd), f"every frame: the trail reaches up to the shown step", list(got.shape), [at + 1, vd])
            rt.close(got, pos[:at + 1, e, :vd], f"every frame: trails of the {lab}", 1e-5, 1e-6)
    if annotate:
        pos = where["sources"]
        for e in range(pos.shape[1]):
            tx = [t for t in ax.texts if t.get_text() == f"S{e}"]
            rt.require(len(tx) == 1, f"one label for source {e}", len(tx), 1)
            p = tx[0].get_position_3d() if vd == 3 else tx[0].get_position()
            rt.close(arr(p), pos[at, e, :vd], f"every frame: the label of every source is at the source", 1e-5, 1e-6)
    else:
        rt.require(not [t for t in ax.texts if re.fullmatch(r"S\d+", t.get_text())], "no labels unless requested", [t.get_text() for t in ax.texts], [])
    title = ax.get_title()
    if dur is not None and T > 1:
        m = re.search(r"[-+]?\d+\.\d+", title)
        rt.require(bool(m), "a time label in every frame", title, "t = …")
        want = at / (T - 1) * dur
        rt.require(abs(float(m.group(0)) - want) <= 0.00501 + 1e-6 * abs(want), f"every frame: the time label is the step's fraction of the duration", title, want)
    elif dur is None:
        rt.require(not title, "no time label without a duration", title, "")


def run(rt):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.animation as ma, matplotlib.pyplot as plt
    real, realw = ma.FuncAnimation, ma.FFMpegWriter
    gif = rt.get("torchrir.viz:animate_scene_gif")
    mp4 = rt.get("torchrir.viz:animate_scene_mp4", False)
    vids = [gif] + ([mp4] if mp4 else [])
    d = rt.tmpdir()
    ma.FuncAnimation, ma.FFMpegWriter = Anim, Writer
    try:
        for rnd in rt.rounds(60, 900, .8):
            Anim.made.clear()
            dim = int(rt.rng.randrange(2, 4))
            two, three = [(True, False), (False, True), (True, True)][rt.rng.randrange(0, 3)]
            T = rt.size(1, 14, (1, 2, 3, 7), big=700)
            k = rt.size(1, 6, (1, 2, T, T + 1, max(1, T - 1)), big=70)
            ns, nm = int(rt.rng.randrange(1, 4)), int(rt.rng.randrange(1, 4))
            which = ["s", "m", "sm"][rt.rng.randrange(0, 3)]
            g = torch.Generator().manual_seed(int(rt.rng.randrange(0, 2**31)))
            room = 3 + torch.rand(dim, generator=g)
            sp, mp = torch.rand(ns, dim, generator=g) * 3, torch.rand(nm, dim, generator=g) * 3
            st = torch.rand(T, ns, dim, generator=g) * 3 if "s" in which else None
            mt = torch.rand(T, nm, dim, generator=g) * 3 if "m" in which else None
            kw = dict(plot_2d=two, plot_3d=three)
            if k != 1 or rt.rng.random() < .5:
                kw["step"] = k
            dur = None
            mode = rt.rng.randrange(0, 5)
            if mode in (0, 3):
                dur = kw["duration_s"] = float(rt.rng.choice([.3, 1.0, 1.7, 2.5, 10.0, 400.0, .02]))
            if mode in (1, 3):
                n, fs = int(rt.rng.randrange(1, 40000)), float(rt.rng.choice([8000, 16000, 100]))
                kw.update(signal_len=n, fs=fs)
                dur = n / fs if dur is None else dur
            if mode == 4:
                kw["signal_len"] = 100         # no rate: no duration
            fps = None
            if rt.rng.random() < .4:
                fps = kw["fps"] = float(rt.rng.choice([.2, .5, 1, 1.5, 2.5, 7.3, 24, 60, 0, -3]))
            annotate = bool(rt.rng.random() < .7)
            if not annotate or rt.rng.random() < .5:
                kw["annotate_sources"] = annotate
            else:
                annotate = True
            if rt.rng.random() < .3:
                kw["annotation_lines"] = [["RT60", " 0.3 s "], ["", " "], []][rt.rng.randrange(0, 3)]
            f = vids[rnd % len(vids)]
            out = os.path.join(d, f"a{rnd}.{'gif' if f is gif else 'mp4'}")
            src, mic = as_given(rt, sp), as_given(rt, mp)
            giv = lambda t: None if t is None else (t if rt.rng.random() < .7 else t.tolist())
            rt.inputs(f=f.__name__, dim=dim, T=T, step=k, ns=ns, nm=nm, which=which, **{a: b for a, b in kw.items() if a != "step"})
            rt.count()
            import pathlib
            S, y = rt.call(f, out_path=pathlib.Path(out), room=room if rnd % 2 else room.tolist(), sources=src, mics=mic, src_traj=giv(st), mic_traj=giv(mt), **kw)
            rt.require(S != "raise", "a valid request is animated", repr(y), "an animation")
            if not rt.require(len(Anim.made) == 1 and len(Anim.made[0].saved) == 1, "one animation, saved once", len(Anim.made), 1) and not Anim.made:
                continue
            an = Anim.made[0]
            rt.require(os.path.samefile(an.saved[0][0], out), "saved under the given path", str(an.saved[0][0]), out)
            N = math.ceil(T / k)
            rt.require(an.frames == N, "ceil(steps / stride) frames", an.frames, N)
            w = an.saved[0][1]
            rate = w.fps if isinstance(w, Writer) else an.saved[0][2]
            rt.require(isinstance(rate, int) and rate >= 1, "at least one whole frame per second", rate, ">= 1")
            want = fps if fps is not None and fps > 0 else (N / dur if dur is not None else None)
            if want is not None:
                rt.require(abs(rate - want) <= .5 + 1e-9 or (rate == 1 and want < 1), "the rate is the given one, or playback lasts the duration", rate, want)
            rt.require(abs(an.interval * rate - 1000) < 1e-3, "the interval is that of the rate", an.interval, 1000 / rate)
            vd = 3 if three and dim == 3 else 2
            where = {"sources": (st if st is not None else sp[None].expand(T, ns, dim)).numpy(), "mics": (mt if mt is not None else mp[None].expand(T, nm, dim)).numpy()}
            axes = an.fig.axes
            rt.require(len(axes) == 1 and hasattr(axes[0], "get_zlim") == (vd == 3), "the view's dimension", len(axes), vd)
            order = list(range(N))
            rt.rng.shuffle(order)
            for i in order[:8] + [N - 1]:
                S, y = rt.call(an.func, i)
                rt.require(S != "raise", "every frame can be drawn", repr(y), "a frame")
                check_frame(rt, axes[0], i, min(i * k, T - 1), T, vd, where, annotate, dur, None)
            an.fig.canvas.draw() if rnd % 8 == 0 else None
            plt.close(an.fig)
            # rejections
            if rnd % 4 == 0:
                for bad in (dict(src_traj=None, mic_traj=None), dict(src_traj=torch.zeros(2, ns, dim), plot_2d=False, plot_3d=False)):
                    for f in vids:
                        a = dict(out_path=pathlib.Path(out), room=room, sources=sp, mics=mp, mic_traj=None)
                        a.update(bad)
                        rt.inputs(f=f.__name__, bad=sorted(bad))
                        rt.count()
                        rt.rejects("requests without a trajectory or a view are rejected", f, exc=ValueError, **a)
                plt.close("all")
    finally:
        ma.FuncAnimation, ma.FFMpegWriter = real, realw
    # end to end: a real file
    try:
        from PIL import Image
    except Exception:
        return
    for T, k, dur in ((5, 2, 1.0), (4, 4, None), (7, 3, .6)):
        import pathlib
        out = pathlib.Path(d) / "sub" / f"real{T}.gif"
        st = torch.linspace(.2, 1.8, T)[:, None, None].expand(T, 1, 2).clone()
        rt.inputs(T=T, step=k, duration_s=dur, file="gif")
        rt.count()
        S, y = rt.call(gif, out_path=out, room=torch.tensor([2., 2.]), sources=torch.tensor([[.5, .5]]), mics=torch.tensor([[1., 1.]]), src_traj=st, step=k, duration_s=dur)
        rt.require(S != "raise" and out.exists(), "the file is written", repr(y), str(out))
        with Image.open(out) as im:
            rt.require(im.n_frames == math.ceil(T / k), "the file has ceil(steps / stride) frames", im.n_frames, math.ceil(T / k))
            if dur is not None and im.n_frames > 1:
                rate = max(1, round(math.ceil(T / k) / dur))
                rt.require(abs(im.info["duration"] - 1000 / rate) <= 10, "the frames are shown at the rate", im.info["duration"], 1000 / rate)
    plt.close("all")
